package main

// C22: items composed one by one.

import (
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/pkg/items"
)

type c22Op struct {
	K string `json:"k"` // "add" or "pre"
	S T      `json:"s"`
	W int    `json:"w"` // which of the methods that do it
}
type c22In struct {
	K string  `json:"k"` // "items", "text" or "find"
	G []T     `json:"g"` // globs composed in a row; children
	U []T     `json:"u"` // other globs, compared with the first ones
	S []T     `json:"s"`
	T T       `json:"t"` // text at the beginning; node to find
	O []c22Op `json:"o"`
	R []bool  `json:"r"` // reversed children
	V bool    `json:"v"` // look for a reversed one
}
type c22Out struct {
	OK   bool     `json:"ok"`
	Str  []T      `json:"str"` // printed after each step
	M    [][]bool `json:"m"`
	Min  int      `json:"min"`
	Max  int      `json:"max"`
	CStr T        `json:"cstr"`
	EQ   bool     `json:"eq"`
	UOK  bool     `json:"uok"`
	At   int      `json:"at"`
}

func itemsText(l []items.Item) (s string) {
	for _, it := range l {
		s += it.String()
	}
	return
}

// compose appends all items of the globs to a list and to a chain.
func compose(gs []T, step func([]items.Item)) (l []items.Item, c *items.Chain, ok bool) {
	c = items.NewChain()
	for _, g := range gs {
		for _, to := range []int{0, 1} {
			for s := string(g); s != ""; {
				it, next, err := items.NextWildcardItem(s)
				if err != nil {
					return
				}
				if s = next; it == nil {
					continue
				}
				if to == 0 {
					l = items.AppendItem(l, it)
				} else {
					c.Append(it)
				}
			}
		}
		if step != nil {
			step(l)
		}
	}
	return l, c, true
}

func one(s string) (rune, bool) {
	c, n := utf8.DecodeRuneInString(s)
	return c, n > 0 && n == len(s)
}

func runC22(i *c22In, o *c22Out) {
	switch i.K {
	case "items":
		var c *items.Chain
		var l []items.Item
		l, c, o.OK = compose(i.G, func(l []items.Item) {
			o.Str = append(o.Str, T(itemsText(l)))
			m := []bool{}
			for _, s := range i.S {
				m = append(m, items.MatchItems(string(s), l))
			}
			o.M = append(o.M, m)
		})
		if !o.OK {
			return
		}
		o.Min, o.Max, o.CStr = c.MinLen(), c.MaxLen(), T(c.String())
		var u []items.Item
		if u, _, o.UOK = compose(i.U, nil); o.UOK {
			o.EQ = items.ItemsEqual(l, u)
		}
	case "text":
		var it items.Item = items.NewString(string(i.T))
		if c, single := one(string(i.T)); single {
			if c < utf8.RuneSelf {
				it = items.Byte(c)
			} else {
				it = items.Rune(c)
			}
		}
		for _, op := range i.O {
			s := string(op.S)
			c, single := one(s)
			single = single && op.W > 0
			ascii := single && c < utf8.RuneSelf && op.W > 1
			if _, ok := it.(*items.String); !ok && op.K == "pre" {
				it = items.NewString(it.String())
			}
			switch v := it.(type) {
			case items.Byte:
				switch {
				case ascii:
					it = v.AppendByte(byte(c))
				case single:
					it = v.AppendRune(c)
				default:
					it = v.Append(s)
				}
			case items.Rune:
				switch {
				case ascii:
					it = v.AppendByte(byte(c))
				case single:
					it = v.AppendRune(c)
				default:
					it = v.Append(s)
				}
			case *items.String:
				switch {
				case op.K == "pre" && ascii:
					v.PrependByte(byte(c))
				case op.K == "pre" && single:
					v.PrependRune(c)
				case op.K == "pre":
					v.Prepend(s)
				case ascii:
					v.AddByte(byte(c))
				case single:
					v.AddRune(c)
				default:
					v.Add(s)
				}
			}
			o.Str = append(o.Str, T(it.String()))
		}
		o.OK, o.Min, o.Max = true, it.MinLen(), it.MaxLen()
	case "find":
		var childs []*items.TreeItem
		first := func(g T) items.Item {
			it, next, err := items.NextWildcardItem(string(g))
			if err != nil || it == nil || next != "" {
				return nil
			}
			return it
		}
		node := first(i.T)
		if node == nil {
			return
		}
		for k, g := range i.G {
			it := first(g)
			if it == nil {
				return
			}
			childs = append(childs, &items.TreeItem{Item: it, Reverse: i.R[k]})
		}
		o.OK, o.At = true, 0
		if f := items.LocateChildTreeItem(childs, node, i.V); f != nil {
			for k, c := range childs {
				if c == f {
					o.At = k + 1
				}
			}
			if o.At == 0 {
				o.At = -1
			}
		}
	}
}

func genC22(g *Gen, emit func(c22In)) {
	r := g.R
	items1 := func(es []el, U []T, al []rune) {
		in := c22In{K: "items", U: U}
		for i := 0; i < len(es); {
			j := i + 1 + r.Intn(2)
			if j > len(es) {
				j = len(es)
			}
			if t := globText(es[i:j]); t != "" {
				in.G = append(in.G, T(t))
			}
			i = j
		}
		for n := 0; n < 8; n++ {
			s := subject(r, es[:r.Intn(len(es)+1)], al)
			if r.Intn(2) == 0 {
				s = subject(r, es, al)
			}
			in.S = append(in.S, T(s))
		}
		if in.U == nil {
			in.U = in.G
		}
		emit(in)
	}
	depth := 3
	if g.Thorough() {
		depth = 4
	}
	allGlobs(depth, func(es []el) {
		if g.Mine() && !g.stop {
			var u []T
			if r.Intn(2) == 0 {
				u = []T{T(globText(vary(r, es, []rune("abя"), "")))}
			}
			items1(es, u, []rune("abя"))
		}
	})
	for g.More() {
		al := alphabet(r)
		switch r.Intn(6) {
		case 0:
			in := c22In{K: "text", T: T(noRunes(word(r, al, 2), "\x00"))}
			if r.Intn(2) == 0 {
				in.T = T(string(pick(r, al)))
			}
			for n := r.Intn(6) + 1; n > 0; n-- {
				op := c22Op{K: pick(r, []string{"add", "add", "pre"}), S: T(word(r, al, 3)), W: r.Intn(3)}
				if r.Intn(2) == 0 {
					op.S = T(string(pick(r, al)))
				}
				in.O = append(in.O, op)
			}
			emit(in)
		case 1:
			in := c22In{K: "find", V: r.Intn(4) == 0}
			var es [][]el
			single := func() (e []el) {
				for globText(e) == "" {
					switch r.Intn(6) {
					case 0, 1:
						e = lit(noRunes(word(r, al, 2), "[]{}*?"))
					case 2:
						e = []el{class(r, al, "")}
					case 3:
						e = []el{{k: pick(r, []byte{'?', '*'})}}
					default:
						e = []el{list(r, al, "")}
					}
				}
				return
			}
			for n := r.Intn(6) + 1; n > 0; n-- {
				e := single()
				if len(es) > 0 && r.Intn(3) == 0 {
					e = vary(r, pick(r, es), al, "")
					if len(e) == 0 || globText(e) == "" {
						e = single()
					}
				}
				es = append(es, e)
				in.G = append(in.G, T(globText(e)))
				in.R = append(in.R, r.Intn(4) == 0)
			}
			in.T = T(globText(single()))
			if r.Intn(4) > 0 {
				in.T = T(globText(respell(g, pick(r, es))))
			}
			emit(in)
		default:
			es := glob1(r, al, 5, "")
			if len(es) == 0 {
				continue
			}
			for r.Intn(3) == 0 && len(es) < 9 { // runs of wildcards
				k := r.Intn(len(es) + 1)
				es = append(es[:k:k], append([]el{{k: pick(r, []byte("??*"))}}, es[k:]...)...)
			}
			var u []T
			switch r.Intn(4) {
			case 0:
				u = []T{T(globText(respell(g, es)))}
			case 1:
				u = []T{T(globText(vary(r, es, al, "")))}
			}
			items1(es, u, al)
		}
	}
}

func init() {
	def("C22", runC22, func(i *c22In, o *c22Out) bool {
		return o.OK && (len(i.G) > 1 || len(i.O) > 1)
	}, genC22)
}
