package main

// C20: pattern items.

import (
	"strings"

	"github.com/msaf1980/go-matcher/pkg/items"
)

type c20In struct {
	T T   `json:"t"`
	U T   `json:"u"`
	J int `json:"j"` // items taken and joined
	S []T `json:"s"`
}
type itSeen struct {
	M   int   `json:"m"`
	L   int   `json:"l"`
	F   int   `json:"f"`
	FN  int   `json:"fn"`
	VM  []int `json:"vm"`
	VF  []int `json:"vf"`
	VN  []int `json:"vn"`
	FF  int   `json:"ff"`
	FFS bool  `json:"ffs"`
	MF  bool  `json:"mf"`
	MFS bool  `json:"mfs"`
}
type c20Out struct {
	OK   bool     `json:"ok"`
	K    string   `json:"k"`
	Str  T        `json:"str"`
	Buf  T        `json:"buf"`
	Next T        `json:"next"`
	Min  int      `json:"min"`
	Max  int      `json:"max"`
	EQ   bool     `json:"eq"`
	UStr T        `json:"ustr"`
	Opt  bool     `json:"opt"`
	Vals []T      `json:"vals"`
	P    []itSeen `json:"p"`
}

// take takes up to j items off a text while they join into one.
func take(s string, j int) (it items.Item, next string, err error) {
	it, next, err = items.NextWildcardItem(s)
	for ; j > 1 && err == nil && next != ""; j-- {
		x, n, e := items.NextWildcardItem(next)
		if e != nil {
			return
		}
		if x == nil {
			next = n
			continue
		}
		if it == nil {
			it, next = x, n
			continue
		}
		// the text item that is joined may be changed: take it again
		l := items.AppendItem([]items.Item{fresh(it)}, x)
		if len(l) != 1 {
			return
		}
		it, next = l[0], n
	}
	return
}

func fresh(it items.Item) items.Item {
	if s, ok := it.(*items.String); ok {
		return items.NewString(s.S)
	}
	return it
}

func kindOf(it items.Item) string {
	switch it.(type) {
	case nil:
		return "none"
	case items.Byte, items.Rune, *items.String:
		return "lit"
	case *items.RunesRanges:
		return "set"
	case items.Any:
		return "any"
	case items.Star:
		return "star"
	case *items.StringList:
		return "list"
	case *items.Group:
		return "group"
	case *items.Chain:
		return "chain"
	default:
		return "other"
	}
}

func runC20(i *c20In, o *c20Out) {
	it, next, err := take(string(i.T), i.J)
	o.OK = err == nil
	if err != nil {
		return
	}
	o.Next, o.K = T(next), kindOf(it)
	if it == nil {
		return
	}
	o.Str = T(it.String())
	var b strings.Builder
	b.WriteByte(1)
	it.WriteString(&b)
	o.Buf = T(b.String())
	o.Min, o.Max = it.MinLen(), it.MaxLen()
	if u, _, err := take(string(i.U), i.J); err == nil && u != nil {
		o.EQ = it.Equal(u)
		o.UStr = T(u.String())
	}
	list, isList := it.(*items.StringList)
	if isList {
		var l items.ItemList = list
		o.Opt = l.IsOptional()
		for v := range l.Map() {
			o.Vals = append(o.Vals, T(v))
		}
	}
	if gr, ok := it.(*items.Group); ok {
		o.Opt = gr.IsOptional()
	}
	for _, t := range i.S {
		s := string(t)
		var w itSeen
		w.M, _ = it.Match(s)
		w.L, _ = it.MatchLast(s)
		if _, chain := it.(*items.Chain); !chain {
			w.F, w.FN, _ = it.Find(s)
		}
		if isList {
			var l items.ItemList = list
			for n := 0; n < l.Len(); n++ {
				w.VM = append(w.VM, l.MatchN(s, n))
				f, fn := l.FindN(s, n)
				w.VF, w.VN = append(w.VF, f), append(w.VN, fn)
			}
			w.FF, w.FFS = l.FindFirst(s)
			w.MF, w.MFS = l.MatchFirst(s)
		}
		o.P = append(o.P, w)
	}
}

func genC20(g *Gen, emit func(c20In)) {
	r := g.R
	subs := func(es []el, al []rune, n int) (out []T) {
		out = append(out, "")
		for k := 0; k < n; k++ {
			s := subject(r, es, al)
			switch r.Intn(4) {
			case 0:
				s = clean(word(r, al, 3)) + s
			case 1:
				s += clean(word(r, al, 3))
			}
			out = append(out, T(s))
		}
		return
	}
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	allGlobs(depth, func(es []el) {
		if g.Mine() && !g.stop {
			emit(c20In{T: T(globText(es)), U: T(globText(respell(g, es))), J: r.Intn(3) + 1, S: subs(es, []rune("abя"), 6)})
		}
	})
	for g.More() {
		al := alphabet(r)
		var es []el
		switch r.Intn(6) {
		case 0:
			es = lit(noRunes(word(r, al, 4), "[]{}*?"))
		case 1:
			es = []el{class(r, al, "")}
		case 2:
			for n := r.Intn(4) + 1; n > 0; n-- {
				es = append(es, el{k: pick(r, []byte{'?', '?', '*'})})
			}
		case 3, 4:
			es = []el{list(r, al, "")}
		default:
			es = glob1(r, al, 3, "")
		}
		in := c20In{T: T(globText(es)), J: r.Intn(4) + 1}
		switch r.Intn(3) {
		case 0:
			in.U = in.T
		case 1:
			in.U = T(globText(respell(g, es)))
		default:
			in.U = T(globText(glob1(r, al, 1, "")))
		}
		if r.Intn(25) == 0 {
			in.T = T(syntaxNoise(g, al))
		}
		if r.Intn(4) == 0 {
			in.T += T(noRunes(word(r, al, 2), "[]{}*?"))
		}
		in.S = subs(es, al, 8)
		emit(in)
	}
}

func init() {
	def("C20", runC20, func(i *c20In, o *c20Out) bool { return o.OK && o.K != "none" && len(i.S) > 0 }, genC20)
}
