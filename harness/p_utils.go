package main

// C15 character classes, C16 result stores, C19 helpers.

import (
	"strings"
	"unicode/utf8"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/pkg/items"
	"github.com/msaf1980/go-matcher/pkg/utils"
)

type c15In struct {
	K string `json:"k"` // "class" or "ascii"
	C T      `json:"c"`
	A T      `json:"a"`
	D T      `json:"d"`
	P []T    `json:"p"`
	B B      `json:"b"`
	E B      `json:"e"`
	Q []B    `json:"q"`
}

// seen is what a class says about one probe.
type seen struct {
	Has bool `json:"has"`
	IX  int  `json:"ix"`
	IC  int  `json:"ic"`
	IN  int  `json:"in"`
	BX  int  `json:"bx"`
	BC  int  `json:"bc"`
	BN  int  `json:"bn"`
	ST  int  `json:"st"`
	SC  int  `json:"sc"`
	EN  int  `json:"en"`
	EC  int  `json:"ec"`
}
type view struct {
	Str T      `json:"str"`
	Min int    `json:"min"`
	Max int    `json:"max"`
	P   []seen `json:"p"`
}
type c15Out struct {
	OK    bool   `json:"ok"`
	DOK   bool   `json:"dok"`
	V     []view `json:"v"`
	EQ    bool   `json:"eq"`
	EQA   bool   `json:"eqa"`
	Has   []int  `json:"has"`
	Add   []bool `json:"add"`
	N     int    `json:"n"`
	First int    `json:"first"`
	None  bool   `json:"none"`
	Str   B      `json:"str"`
	All   B      `json:"all"`
	F     []int  `json:"f"`
	FB    []int  `json:"fb"`
	L     []int  `json:"l"`
	LB    []int  `json:"lb"`
	Clr   bool   `json:"clr"` // empty after Clear
	EQS   bool   `json:"eqs"` // merging after each addition makes no difference
}

func look(rs *utils.RunesRanges, ps []T) view {
	v := view{Str: T(rs.String()), Min: rs.MinSize, Max: rs.MaxSize}
	for _, t := range ps {
		s := string(t)
		var w seen
		var c rune
		r, _ := utf8.DecodeRuneInString(s)
		w.Has = s != "" && rs.Contains(r)
		w.IX, c, w.IN = rs.Index(s)
		w.IC = int(c)
		w.BX, c, w.BN = rs.IndexByte([]byte(s))
		w.BC = int(c)
		c, w.ST = rs.StartsWith(s)
		w.SC = int(c)
		c, w.EN = rs.EndsWith(s)
		w.EC = int(c)
		v.P = append(v.P, w)
	}
	return v
}

func runC15(i *c15In, o *c15Out) {
	if i.K == "ascii" {
		as, ok := utils.MakeASCIISet(string(i.B))
		if o.OK = ok; !ok {
			return
		}
		for k := 0; k < len(i.E); k++ {
			o.Add = append(o.Add, as.Add(i.E[k]))
		}
		for c := 0; c < 256; c++ {
			if as.Contains(byte(c)) {
				o.Has = append(o.Has, c)
			}
		}
		n, first := as.Count()
		o.N, o.First, o.None = n, int(first), as.IsEmpty()
		o.Str, o.All = B(as.String()), B(as.StringAll())
		for _, q := range i.Q {
			o.F, o.FB = append(o.F, as.Index(string(q))), append(o.FB, as.IndexByte([]byte(q)))
			o.L, o.LB = append(o.L, as.LastIndex(string(q))), append(o.LB, as.LastIndexByte([]byte(q)))
		}
		as.Clear()
		o.Clr = as.IsEmpty() && as.Index(string(i.B)) == -1
		return
	}
	c, ok := utils.RunesRangeExpand(string(i.C))
	o.OK = ok
	d, dok := utils.RunesRangeExpand(string(i.D))
	o.DOK = dok
	var v1, v2 view
	if ok {
		o.EQ = dok && c.Equal(&d)
		v1 = look(&c, i.P)
		c.Adds(string(i.A))
		c.Merge()
		o.EQA = dok && c.Equal(&d)
		v2 = look(&c, i.P)
	}
	var e utils.RunesRanges
	for _, r := range string(i.A) {
		e.Add(r)
	}
	e.Merge()
	var f utils.RunesRanges
	for _, r := range string(i.A) {
		f.Add(r)
		f.Merge()
	}
	o.EQS = f.Equal(&e)
	o.V = []view{v1, v2, look(&e, i.P)}
}

func genC15(g *Gen, emit func(c15In)) {
	r := g.R
	probes := func(al []rune, n int) (out []T) {
		out = append(out, "")
		for k := 0; k < n; k++ {
			out = append(out, T(clean(word(r, al, 5))))
		}
		return
	}
	max := 4
	if g.Thorough() {
		max = 5
	}
	sm := []rune("ab-яю]")
	for _, w := range allWords(sm, max) {
		if g.Mine() {
			emit(c15In{K: "class", C: T("[" + w + "]"), D: T("[" + word(r, sm, 4) + "]"),
				A: T(noRunes(word(r, sm, 2), "-")), P: probes([]rune("abcяэю-]x"), 5)})
		}
	}
	for g.More() {
		if r.Intn(4) == 0 {
			in := c15In{K: "ascii"}
			al := []rune("abcxyz0189-,.]\x01\x7e\x7f ")
			if r.Intn(2) == 0 {
				al = al[:0]
				for c := rune(1 + r.Intn(100)); c < 128; c += 1 + rune(r.Intn(2)) {
					al = append(al, c)
				}
			}
			in.B = B(noRunes(word(r, al, 12), "\x00"))
			in.E = B(noRunes(word(r, al, 3), "\x00"))
			if r.Intn(6) == 0 {
				in.E += B(byteWord(r, 2))
				in.E = B(strings.ReplaceAll(string(in.E), "\x00", "a"))
			}
			if r.Intn(15) == 0 {
				in.B += "é"
			}
			for n := 0; n < 8; n++ {
				if r.Intn(2) == 0 {
					in.Q = append(in.Q, B(byteWord(r, 6)))
				} else {
					in.Q = append(in.Q, B(word(r, append([]rune("éQ界"), al...), 6)))
				}
			}
			emit(in)
			continue
		}
		al := alphabet(r)
		ca := class(r, al, "")
		in := c15In{K: "class", C: T(ca.text)}
		switch r.Intn(4) {
		case 0:
			in.D = T(class(r, al, "").text)
		case 1:
			in.D = T(globText(respell(g, []el{ca})))
		case 2:
			in.D = T("[" + clean(word(r, append([]rune("--"), al...), 6)) + "]")
		}
		if ca.k != '[' {
			in.D = "[]"
		}
		if r.Intn(12) == 0 {
			in.C = T(breakText(r, string(in.C), "[]-z"))
		}
		in.A = T(noRunes(clean(word(r, append(globRunes([]el{ca}, nil), al...), 6)), "-"))
		if r.Intn(3) == 0 { // the same set in other words
			in.D = T(strings.TrimSuffix(string(in.C), "]")) + in.A + "]"
			if strings.HasSuffix(string(in.C), "-]") || ca.k != '[' {
				in.D = in.C
			}
		}
		pr := append(globRunes([]el{ca}, nil), append(al, []rune(string(in.A)+"x\x7f\u0080")...)...)
		in.P = probes(pr, 8)
		for k := 0; k < len(pr) && len(in.P) < 16 && len(in.C) > 20; k++ {
			in.P = append(in.P, T(clean(string(pick(r, pr)+rune(r.Intn(3)-1)))))
		}
		emit(in)
	}
}

// ---------------------------------------------------------------- C16

type stOp struct {
	K string `json:"k"`
	N int    `json:"n"`
	S T      `json:"s"`
}
type stRes struct {
	M int   `json:"m"`
	N []int `json:"n"`
	S []T   `json:"s"`
}
type c16In struct {
	K string `json:"k"`
	O []stOp `json:"o"`
}
type c16Out struct {
	Z stRes   `json:"z"`
	R []stRes `json:"r"`
}

func runC16(i *c16In, o *c16Out) {
	var st items.Store
	var initSt func()
	var grow func(int)
	var get func() stRes
	cp := func(n []int) []int { return append([]int{}, n...) }
	switch i.K {
	case "min":
		s := items.NewMinStore()
		st, initSt, grow = s, s.Init, func(int) {}
		get = func() stRes { return stRes{M: s.Min} }
	case "index":
		s := items.NewIndexStore()
		st, initSt, grow = s, s.Init, s.Grow
		get = func() stRes { return stRes{N: cp(s.N)} }
	case "string":
		s := items.NewStringStore()
		st, initSt, grow = s, s.Init, s.Grow
		get = func() stRes { return stRes{S: ts(s.S)} }
	default:
		s := items.NewAllStore()
		st, initSt, grow = s, s.Init, s.Grow
		get = func() stRes { return stRes{M: s.Min.Min, N: cp(s.Index.N), S: ts(s.S.S)} }
	}
	o.Z = get()
	for _, op := range i.O {
		switch op.K {
		case "init":
			initSt()
		case "grow":
			grow(op.N)
		default:
			st.Store(string(op.S), op.N)
		}
		o.R = append(o.R, get())
	}
}

var storeKinds = []string{"min", "index", "string", "all"}

func genC16(g *Gen, emit func(c16In)) {
	r := g.R
	for g.More() {
		in := c16In{K: pick(r, storeKinds)}
		n, init := r.Intn(25)+1, 8
		if r.Intn(15) == 0 {
			n, init = 60+r.Intn(60), 40
		}
		for ; n > 0; n-- {
			switch k := r.Intn(init); {
			case k == 0:
				in.O = append(in.O, stOp{K: "init"})
			case k <= init/4:
				in.O = append(in.O, stOp{K: "grow", N: pick(r, []int{0, 1, 2, 3, 5, 8, 16, 33, 64, 65, 100, 1000})})
			default:
				in.O = append(in.O, stOp{K: "store", N: r.Intn(pick(r, []int{3, 10, 1000})), S: T(word(r, []rune("abя*"), 3))})
			}
		}
		emit(in)
	}
}

// ---------------------------------------------------------------- C19

type c19In struct {
	S T   `json:"s"`
	N int `json:"n"`
	G []T `json:"g"`
	B []T `json:"b"`
}
type wildSeen struct {
	Count int  `json:"count"`
	Has   bool `json:"has"`
	IX    int  `json:"ix"`
	LX    int  `json:"lx"`
}
type c19Out struct {
	Path   T          `json:"path"`
	Level  int        `json:"level"`
	Parts  []T        `json:"parts"`
	BOK    bool       `json:"bok"`
	BParts []T        `json:"bparts"`
	Empty  bool       `json:"empty"`
	GEmpty bool       `json:"gempty"`
	W      []wildSeen `json:"w"`
	Skip   int        `json:"skip"`
	Last   int        `json:"last"`
	Common T          `json:"common"`
	Clone  T          `json:"clone"`
	Cut    []T        `json:"cut"`  // s cut after n symbols
	Less   int        `json:"less"` // the smaller of n and the levels
	Eq     bool       `json:"eq"`   // g and b are equal
	In     []bool     `json:"in"`   // which of b are in g
}

func runC19(i *c19In, o *c19Out) {
	s := string(i.S)
	p, n := gglob.PathLevel(s)
	o.Path, o.Level = T(p), n
	ps := gglob.PathSplit(s)
	o.Parts = ts(ps)
	o.Empty = gglob.HasEmptyParts(ps)
	o.GEmpty = gglob.HasEmptyParts(strs(i.G))
	bp := strs(i.B)
	o.BOK = gglob.PathSplitB(s, &bp)
	o.BParts = ts(bp)
	o.W = []wildSeen{
		{gglob.WildcardCount(s), gglob.HasWildcard(s), gglob.IndexWildcard(s), gglob.IndexLastWildcard(s)},
		{items.WildcardCount(s), items.HasWildcard(s), items.IndexWildcard(s), items.IndexLastWildcard(s)},
	}
	o.Skip = utils.StringSkipRunes(s, i.N)
	o.Last = utils.StringSkipRunesLast(s, i.N)
	o.Common = T(items.IntersectGlobs(strs(i.G)))
	o.Clone = T(utils.CloneString(s))
	if o.Skip >= 0 {
		a, b := utils.SplitString(s, o.Skip)
		o.Cut = []T{T(a), T(b)}
	}
	o.Less = utils.Min(i.N, len(ps))
	o.Eq = utils.SliceEqual(i.G, i.B)
	for _, b := range i.B {
		o.In = append(o.In, utils.ContainsReverse(i.G, b))
	}
}

func genC19(g *Gen, emit func(c19In)) {
	r := g.R
	globs := func(al []rune) (out []T) {
		n := r.Intn(5)
		if n == 0 {
			return
		}
		base := word(r, al, 5)
		for ; n > 0; n-- {
			s := base
			rs := []rune(base)
			switch r.Intn(4) {
			case 0:
				s = string(rs[:r.Intn(len(rs)+1)])
			case 1:
				s = string(rs[:r.Intn(len(rs)+1)]) + word(r, al, 3)
			}
			if r.Intn(2) == 0 {
				s += pick(r, []string{"*", "?", "[a]", "{a}", "]", "}", "[", "{"}) + word(r, al, 2)
			}
			out = append(out, T(clean(s)))
		}
		return
	}
	max := 5
	if g.Thorough() {
		max = 6
	}
	for _, w := range allWords([]rune("a.я*["), max) {
		if g.Mine() {
			emit(c19In{S: T(w), N: r.Intn(7), G: globs([]rune("aя")), B: ts([]string{"old", "old2"}[:r.Intn(3)])})
		}
	}
	for _, w := range allWords([]rune("a]}{?"), max) {
		if g.Mine() {
			emit(c19In{S: T(w), N: r.Intn(7), G: ts(strings.Split(w, "?"))})
		}
	}
	for g.More() {
		al := alphabet(r)
		in := c19In{N: r.Intn(9), G: globs(al)}
		n := r.Intn(6)
		if r.Intn(25) == 0 {
			n = r.Intn(60)
			in.N = r.Intn(2*n + 1)
		}
		for ; n > 0; n-- {
			in.S += T(clean(word(r, append([]rune("a"), al...), 3)))
			if r.Intn(4) > 0 {
				in.S += "."
			}
			if r.Intn(5) == 0 {
				in.S += T(string(pick(r, []rune("[]{}*?."))))
			}
		}
		for n := r.Intn(6); n > 0; n-- {
			in.B = append(in.B, "old")
		}
		if r.Intn(3) == 0 {
			in.B = append([]T{}, in.G...)
			if n := len(in.B); n > 0 && r.Intn(2) == 0 {
				in.B[r.Intn(n)] += T(word(r, al, 1))
			}
			if r.Intn(4) == 0 {
				in.B = append(in.B, "a")
			}
		}
		emit(in)
	}
}

func init() {
	def("C15", runC15, func(i *c15In, o *c15Out) bool {
		if i.K == "ascii" {
			return len(o.Has) > 0
		}
		return o.OK && len(i.C) > 2
	}, genC15)
	def("C16", runC16, func(i *c16In, o *c16Out) bool { return len(i.O) > 2 }, genC16)
	def("C19", runC19, func(i *c19In, o *c19Out) bool { return i.S != "" }, genC19)
}
