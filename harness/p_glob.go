package main

// Properties of single globs: C01 matching, C02 acceptance, C03 normal form,
// C18 samples, C21 length bounds.

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
)

type c01In struct {
	G T   `json:"g"`
	S []T `json:"s"`
}
type c01Out struct {
	OK bool   `json:"ok"`
	M  []bool `json:"m"`
}

func runC01(i *c01In, o *c01Out) {
	g, err := glob.Parse(string(i.G))
	o.OK = err == nil
	if err != nil {
		return
	}
	for _, s := range i.S {
		o.M = append(o.M, g.Match(string(s)))
	}
}

func anyBoth(m []bool) bool {
	t, f := false, false
	for _, b := range m {
		t, f = t || b, f || !b
	}
	return t && f
}

// long strings and globs: beyond the sizes of any internal buffer
func bigGlob(g *Gen, al []rune) ([]el, []string) {
	r := g.R
	var es []el
	pad := word(r, al, 3)
	big := 30
	if r.Intn(6) == 0 {
		big = 120
	}
	switch r.Intn(5) {
	case 0:
		es = append(lit(noRunes(strings.Repeat(pad, r.Intn(big)), "[]{}*?")), glob1(r, al, 3, "")...)
	case 1:
		es = append(glob1(r, al, 3, ""), lit(noRunes(strings.Repeat(pad, r.Intn(big)), "[]{}*?"))...)
	case 2:
		e := el{k: '{'}
		for n := 10 + r.Intn(big); n > 0; n-- {
			e.alts = append(e.alts, lit(noRunes(word(r, al, 5), inList+"[]*?")))
		}
		es = []el{e}
		if r.Intn(2) == 0 {
			es = append(lit(noRunes(word(r, al, 2), "[]{}*?")), es...)
		}
		if r.Intn(2) == 0 {
			es = append(es, glob1(r, al, 2, "")...)
		}
	case 3: // many ?
		es = lit(noRunes(word(r, al, 2), "[]{}*?"))
		for n := r.Intn(big); n > 0; n-- {
			es = append(es, el{k: '?'})
		}
		es = append(es, glob1(r, al, 2, "")...)
	default:
		for n := 4 + r.Intn(5); n > 0; n-- {
			es = append(es, el{k: '*'})
			es = append(es, glob1(r, al, 1, "")...)
		}
	}
	var ss []string
	for n := 0; n < 8; n++ {
		s := subject(r, es, al)
		if r.Intn(3) == 0 {
			s = clean(strings.Repeat(word(r, al, 3), r.Intn(20))) + s
		}
		if len(s) < 800 {
			ss = append(ss, s)
		}
	}
	return es, ss
}

func genC01(g *Gen, emit func(c01In)) {
	short := allWords([]rune{'a', 'b', 'я'}, 2)
	depth := 3
	if g.Thorough() {
		depth = 4
		short = allWords([]rune{'a', 'b', 'я'}, 3)
	}
	allGlobs(depth, func(es []el) {
		if !g.Mine() || g.stop {
			return
		}
		ss := append([]string{}, short...)
		for n := 0; n < 8; n++ {
			ss = append(ss, subject(g.R, es, []rune("abя")))
		}
		emit(c01In{T(globText(es)), ts(ss)})
	})
	for g.More() {
		al := alphabet(g.R)
		var es []el
		var ss []string
		if g.R.Intn(12) == 0 {
			es, ss = bigGlob(g, al)
		} else if g.R.Intn(4) == 0 {
			if g.R.Intn(2) == 0 {
				al = []rune("abc")[:g.R.Intn(2)+2]
			}
			es = related(g.R, al, "")
			al2 := globRunes(es, append([]rune{}, al[:2]...))
			for n := 0; n < 12; n++ {
				ss = append(ss, subject(g.R, es, al), clean(word(g.R, al2, 8)))
			}
		} else {
			es = glob1(g.R, al, 5, "")
			for n := 0; n < 12; n++ {
				ss = append(ss, subject(g.R, es, al))
			}
		}
		emit(c01In{T(globText(es)), ts(ss)})
	}
}

// ---------------------------------------------------------------- C02

type c02In struct {
	S T `json:"s"`
}
type c02Out struct {
	P  bool `json:"p"`  // glob.Parse accepts
	M  bool `json:"m"`  // glob.ParseMust does not panic
	G  bool `json:"g"`  // gglob.Parse accepts
	GM bool `json:"gm"` // gglob.ParseMust does not panic
}

func noPanic(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(error); !is {
				panic(e)
			}
			if re, is := e.(interface{ RuntimeError() }); is {
				panic(re)
			}
			ok = false
		}
	}()
	f()
	return true
}

func runC02(i *c02In, o *c02Out) {
	_, err := glob.Parse(string(i.S))
	o.P = err == nil
	_, err = gglob.Parse(string(i.S))
	o.G = err == nil
	o.M = noPanic(func() { glob.ParseMust(string(i.S)) })
	o.GM = noPanic(func() { gglob.ParseMust(string(i.S)) })
}

func syntaxNoise(g *Gen, al []rune) string {
	r := g.R
	s := globText(glob1(r, al, 4, ""))
	for n := r.Intn(3) + 1; n > 0; n-- {
		rs := []rune(s)
		c := pick(r, []rune("[]{}*?,-.ab"))
		i := r.Intn(len(rs) + 1)
		switch r.Intn(4) {
		case 0, 1:
			s = string(rs[:i]) + string(c) + string(rs[i:])
		case 2:
			if i < len(rs) {
				s = string(rs[:i]) + string(rs[i+1:])
			}
		default:
			j := r.Intn(len(rs) + 1)
			if i < len(rs) && j < len(rs) {
				rs[i], rs[j] = rs[j], rs[i]
			}
			s = string(rs)
		}
	}
	return clean(s)
}

func genC02(g *Gen, emit func(c02In)) {
	max := 5
	if g.Thorough() {
		max = 6
	}
	for _, w := range allWords([]rune("a-,[]{}*"), max) {
		if g.Mine() {
			emit(c02In{T(w)})
		}
	}
	for _, w := range allWords([]rune("ba-[]я."), max) {
		if g.Mine() {
			emit(c02In{T(w)})
		}
	}
	for g.More() {
		al := alphabet(g.R)
		switch g.R.Intn(40) {
		case 10, 11: // long ones
			es, _ := bigGlob(g, al)
			s := []rune(globText(es))
			for n := g.R.Intn(3); n > 0 && len(s) > 0; n-- {
				s[g.R.Intn(len(s))] = pick(g.R, []rune("[]{}-,*?a"))
			}
			emit(c02In{T(clean(string(s)))})
		case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
			emit(c02In{T(clean(word(g.R, []rune("abc-,[]{}*?.я界"), 14)))})
		case 20, 21, 22, 23, 24, 25, 26, 27, 28, 29:
			emit(c02In{T(clean(word(g.R, append([]rune("[]{}"), al...), 20)))})
		default:
			emit(c02In{T(syntaxNoise(g, al))})
		}
	}
}

// ---------------------------------------------------------------- C03

type c03In struct {
	G T    `json:"g"`
	V []T  `json:"v"` // re-spellings that must normalize alike
	D bool `json:"d"` // dotted glob
}
type c03Out struct {
	OK   bool   `json:"ok"`
	Node T      `json:"node"`
	Str  T      `json:"str"`
	NOK  bool   `json:"nok"` // normalized text is accepted
	VOK  []bool `json:"vok"`
	VN   []T    `json:"vn"`
}

func runC03(i *c03In, o *c03Out) {
	parse := func(s T) (T, bool) {
		if i.D {
			g, err := gglob.Parse(string(s))
			if err != nil {
				return "", false
			}
			return T(g.Node), true
		}
		g, err := glob.Parse(string(s))
		if err != nil {
			return "", false
		}
		return T(g.Node), true
	}
	o.Node, o.OK = parse(i.G)
	if !o.OK {
		return
	}
	o.Str = o.Node
	if !i.D {
		o.Str = T(glob.ParseMust(string(i.G)).String())
	}
	_, o.NOK = parse(o.Node)
	for _, v := range i.V {
		n, ok := parse(v)
		o.VOK = append(o.VOK, ok)
		o.VN = append(o.VN, n)
	}
}

// respell permutes and repeats alternatives and class members (of classes
// outside of lists), and reorders adjacent wildcards.
func respell(g *Gen, es []el) []el {
	r := g.R
	out := append([]el{}, es...)
	for i, e := range out {
		switch e.k {
		case '[':
			ms := append([]rng{}, e.cls...)
			r.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
			if r.Intn(2) == 0 {
				ms = append(ms, pick(r, ms))
			}
			out[i] = mkClass(ms, nil)
		case '{':
			as := append([][]el{}, e.alts...)
			r.Shuffle(len(as), func(a, b int) { as[a], as[b] = as[b], as[a] })
			if r.Intn(2) == 0 {
				as = append(as, pick(r, as))
			}
			out[i] = el{k: '{', alts: as}
		}
	}
	for n := 0; n < 4; n++ {
		for i := 0; i+1 < len(out); i++ {
			a, b := out[i].k, out[i+1].k
			if (a == '*' || a == '?') && (b == '*' || b == '?') && r.Intn(2) == 0 {
				out[i], out[i+1] = out[i+1], out[i]
			}
		}
	}
	for i := range out {
		if out[i].k == '*' && r.Intn(3) == 0 {
			out = append(out[:i+1], append([]el{{k: '*'}}, out[i+1:]...)...)
			break
		}
	}
	return out
}

func genC03(g *Gen, emit func(c03In)) {
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	one := func(es []el) {
		in := c03In{G: T(globText(es))}
		for n := 0; n < 3; n++ {
			in.V = append(in.V, T(globText(respell(g, es))))
		}
		emit(in)
	}
	allGlobs(depth, func(es []el) {
		if g.Mine() && !g.stop {
			one(es)
		}
	})
	for g.More() {
		al := alphabet(g.R)
		if g.R.Intn(6) == 0 {
			var parts [][]el
			n := g.R.Intn(3) + 1
			if g.R.Intn(20) == 0 {
				n += g.R.Intn(12)
			}
			for ; n > 0; n-- {
				p := glob1(g.R, al, 3, ".")
				if globText(p) != "" {
					parts = append(parts, p)
				}
			}
			if len(parts) > 0 {
				in := c03In{D: true}
				for n := 0; n < 3; n++ {
					var ts []string
					for _, p := range parts {
						if n > 0 {
							p = respell(g, p)
						}
						ts = append(ts, globText(p))
					}
					s := T(strings.Join(ts, "."))
					if n == 0 {
						in.G = s
					}
					if g.R.Intn(3) == 0 {
						s += "."
					}
					in.V = append(in.V, s)
				}
				emit(in)
			}
			continue
		}
		if g.R.Intn(40) == 0 {
			es, _ := bigGlob(g, al)
			one(es)
			continue
		}
		one(glob1(g.R, al, 4, ""))
	}
}

// ---------------------------------------------------------------- C18

type c18In struct {
	G T   `json:"g"`
	P T   `json:"p"` // content of the buffer before
	N int `json:"n"`
}
type c18Out struct {
	OK bool   `json:"ok"`
	S  []T    `json:"s"`
	M  []bool `json:"m"`
}

func runC18(i *c18In, o *c18Out) {
	g, err := glob.Parse(string(i.G))
	o.OK = err == nil
	if err != nil {
		return
	}
	for n := 0; n < i.N; n++ {
		var b strings.Builder
		b.WriteString(string(i.P))
		g.WriteRandom(&b)
		s := b.String()
		o.S = append(o.S, T(s))
		m := false
		if strings.HasPrefix(s, string(i.P)) {
			m = g.Match(s[len(i.P):])
		}
		o.M = append(o.M, m)
	}
}

func genC18(g *Gen, emit func(c18In)) {
	depth := 3
	allGlobs(depth, func(es []el) {
		if g.Mine() && !g.stop {
			emit(c18In{G: T(globText(es)), P: T(pick(g.R, []string{"", "x", "я"})), N: 6})
		}
	})
	for g.More() {
		al := alphabet(g.R)
		es, n := glob1(g.R, al, 5, ""), 12
		if g.R.Intn(30) == 0 {
			es, _ = bigGlob(g, al)
			n = 6
		}
		p := word(g.R, []rune("aя*"), 2)
		if g.R.Intn(20) == 0 {
			p = strings.Repeat(word(g.R, []rune("aя*"), 3), g.R.Intn(40))
		}
		emit(c18In{G: T(globText(es)), P: T(p), N: n})
	}
}

// ---------------------------------------------------------------- C21

type c21In struct {
	G T    `json:"g"`
	D bool `json:"d"`
}
type c21Out struct {
	OK  bool `json:"ok"`
	Min int  `json:"min"`
	Max int  `json:"max"`
}

func runC21(i *c21In, o *c21Out) {
	if i.D {
		g, err := gglob.Parse(string(i.G))
		if o.OK = err == nil; o.OK {
			o.Min, o.Max = g.MinLen, g.MaxLen
		}
		return
	}
	g, err := glob.Parse(string(i.G))
	if o.OK = err == nil; o.OK {
		o.Min, o.Max = g.MinLen, g.MaxLen
	}
}

func genC21(g *Gen, emit func(c21In)) {
	allGlobs(3, func(es []el) {
		if g.Mine() && !g.stop {
			emit(c21In{G: T(globText(es))})
		}
	})
	for g.More() {
		al := alphabet(g.R)
		if g.R.Intn(3) == 0 {
			var parts []string
			n := g.R.Intn(4) + 1
			if g.R.Intn(10) == 0 {
				n += g.R.Intn(20)
			}
			for ; n > 0; n-- {
				if p := globText(glob1(g.R, al, 3, ".")); p != "" {
					parts = append(parts, p)
				}
			}
			if len(parts) > 0 {
				emit(c21In{G: T(strings.Join(parts, ".")), D: true})
			}
			continue
		}
		es := glob1(g.R, al, 5, "")
		if g.R.Intn(20) == 0 {
			es, _ = bigGlob(g, al)
		}
		emit(c21In{G: T(globText(es))})
	}
}

func init() {
	def("C01", runC01, func(i *c01In, o *c01Out) bool { return anyBoth(o.M) }, genC01)
	def("C02", runC02, func(i *c02In, o *c02Out) bool { return strings.ContainsAny(string(i.S), "[]{}") }, genC02)
	def("C03", runC03, func(i *c03In, o *c03Out) bool { return o.OK && o.Node != i.G }, genC03)
	def("C18", runC18, func(i *c18In, o *c18Out) bool { return o.OK && strings.ContainsAny(string(i.G), "[]{}*?") }, genC18)
	def("C21", runC21, func(i *c21In, o *c21Out) bool { return o.OK && strings.ContainsAny(string(i.G), "[]{}*?") }, genC21)
}
