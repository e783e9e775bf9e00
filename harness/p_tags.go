package main

// C08: parsing and normalizing tag queries; C09: matching tag sets; C11:
// decoding tagged paths.

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/msaf1980/go-matcher/gtags"
)

type term struct {
	K T   `json:"k"`
	O int `json:"o"`
	V T   `json:"v"`
}

type c08In struct {
	Q T    `json:"q"`
	L bool `json:"l"` // c is parsed as a list of conditions
	C []T  `json:"c"`
	V []T  `json:"v"`
}
type c08Out struct {
	OK   bool   `json:"ok"`
	Ts   []term `json:"t"`
	Norm T      `json:"norm"`
	NOK  bool   `json:"nok"`
	NT   []term `json:"nt"`
	VOK  []bool `json:"vok"`
	VN   []T    `json:"vn"`
	S    []T    `json:"s"` // text of each term
}

func terms(l gtags.TaggedTermList) (out []term) {
	for _, t := range l {
		out = append(out, term{T(t.Key), int(t.Op), T(t.Value)})
	}
	return
}

func runC08(i *c08In, o *c08Out) {
	var l gtags.TaggedTermList
	var err error
	if i.L {
		l, err = gtags.ParseTaggedConditions(strs(i.C))
	} else {
		l, err = gtags.ParseSeriesByTag(string(i.Q))
	}
	if o.OK = err == nil; !o.OK {
		return
	}
	o.Ts = terms(l)
	o.Norm = T(l.String())
	for _, t := range l {
		o.S = append(o.S, T(t.String()))
	}
	n, err := gtags.ParseSeriesByTag(string(o.Norm))
	if o.NOK = err == nil; o.NOK {
		o.NT = terms(n)
	}
	for _, v := range i.V {
		n, err := gtags.ParseSeriesByTag(string(v))
		o.VOK = append(o.VOK, err == nil)
		s := ""
		if err == nil {
			s = n.String()
		}
		o.VN = append(o.VN, T(s))
	}
}

var (
	oddKeys = []string{"a", "name", "__name__", " a", "a ", " name ", "\ta", "a b", "k'", "é", "a.b", "a*", "seriesByTag(", ")", "a,b", "\u00a0a", "A"}
	oddVals = []string{"", " v", "v ", "=v", "~v", "~", "!~", "v=w", "v'", "a,b", ")", "('", "\u2003v", "=~v", "!v", "v1 v2", " ", "'", `"`, `"v`, "界", "{b,a}", "{b,b}", "[ba]", "**", "*?", "?*", "{a}", "v{", "[", "]", "[b-a]", "{x,{y}}", "a|b", "^é$", "[", "(", "+", "v{2}", "\\", "\\.", "[^", "a**", "(?i)v", "$", "{,a}", "v[ ]", "[ ]v", "[ ]", "[ ]v[ ]", "[ ]*", "v*[ ]", "{ a,b }", "[\t]é[\u2003]", "~[ ]", "[~]v", "[=]"}
)

func oddCond(t *tagGen) string {
	r := t.r
	if r.Intn(3) > 0 {
		return t.cond()
	}
	k, v := pick(r, oddKeys), pick(r, oddVals)
	switch r.Intn(5) {
	case 0:
		v = pick(r, tagVals)
	case 1:
		k = pick(r, t.keys)
	case 2:
		v = clean(word(r, []rune("v'\" ~=!,()[]{}*?-é"), 4))
	}
	return k + pick(r, []string{"=", "!=", "=~", "!=~", "=", "=", " = ", "= ", " != ", "!", "~", "!~", "==", "=!", "=~~", ""}) + v
}

// respelled query: other order, quotes, blanks and empty arguments
func respellQuery(r *rand.Rand, cs []string) string {
	p := append([]string{}, cs...)
	r.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
	var b strings.Builder
	b.WriteString(strings.Repeat(" ", r.Intn(2)) + "seriesByTag(")
	for _, c := range p {
		q := pick(r, []string{"'", `"`})
		if strings.Contains(c, q) {
			q = map[string]string{"'": `"`, `"`: "'"}[q]
		}
		b.WriteString(strings.Repeat(" ", r.Intn(2)) + strings.Repeat("''", r.Intn(2)) + q + c + q)
		b.WriteString(pick(r, []string{",", ", ", " ", "", ",,"}))
	}
	b.WriteString(")" + strings.Repeat(" ", r.Intn(2)))
	return b.String()
}

func bothQuotes(cs []string) bool {
	for _, c := range cs {
		if strings.Contains(c, "'") && strings.Contains(c, `"`) {
			return true
		}
	}
	return false
}

func breakText(r *rand.Rand, s string, al string) string {
	rs := []rune(s)
	for n := r.Intn(2) + 1; n > 0; n-- {
		i := r.Intn(len(rs) + 1)
		switch r.Intn(3) {
		case 0:
			rs = append(rs[:i:i], append([]rune{pick(r, []rune(al))}, rs[i:]...)...)
		case 1:
			if i < len(rs) {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		default:
			if i < len(rs) {
				rs = append(append([]rune{}, rs[:i]...), append([]rune{pick(r, []rune(al))}, rs[i+1:]...)...)
			}
		}
	}
	return clean(string(rs))
}

func genC08(g *Gen, emit func(c08In)) {
	r := g.R
	for _, w := range allWords([]rune("a=~!'"), 4) {
		if g.Mine() {
			emit(c08In{Q: T("seriesByTag('" + w + "')")})
		}
		if g.Mine() {
			emit(c08In{L: true, C: []T{T(w)}})
		}
	}
	for _, w := range allWords([]rune("a',=() \""), 4) {
		if g.Mine() && (g.Thorough() || r.Intn(4) == 0) {
			emit(c08In{Q: T("seriesByTag(" + w + ")")})
		}
	}
	for _, n := range []int{1, 2, 126, 127, 128, 129, 130, 200} {
		if g.Mine() {
			var cs []string
			for i := 0; i < n; i++ {
				cs = append(cs, fmt.Sprintf("k%d=%d", i%7, i))
			}
			emit(c08In{Q: T(query(r, cs))})
			emit(c08In{Q: T("seriesByTag(''" + strings.Repeat(",''", 130) + ",'a=b')")})
		}
	}
	for g.More() {
		t := newTagGen(r)
		var cs []string
		for n := r.Intn(4); n >= 0; n-- {
			cs = append(cs, oddCond(t))
		}
		if r.Intn(4) == 0 && len(cs) > 1 { // equal keys, or equal terms
			cs[0] = pick(r, cs)
		}
		in := c08In{C: ts(cs)}
		switch r.Intn(8) {
		case 0:
			in.L = true
		case 1:
			in.Q = T(breakText(r, query(r, cs), "'\",() =~!as*"))
		default:
			in.Q = T(query(r, cs))
		}
		if in.L || in.Q == T(query(rand.New(rand.NewSource(1)), cs)) || r.Intn(2) == 0 {
			// the arguments are those of the query only when quoting is possible
			empty := false
			for _, c := range cs {
				empty = empty || c == ""
			}
			if !bothQuotes(cs) && !empty {
				if !in.L {
					in.Q = T(query(r, cs))
				}
				for n := 0; n < 2; n++ {
					in.V = append(in.V, T(respellQuery(r, cs)))
				}
			}
		}
		emit(in)
	}
}

// ---------------------------------------------------------------- C09

type c09In struct {
	C []T    `json:"c"`
	P [][]KV `json:"p"`
}
type c09Out struct {
	OK bool   `json:"ok"`
	M  []bool `json:"m"`
	MM []bool `json:"mm"`
}

func runC09(i *c09In, o *c09Out) {
	l, err := gtags.ParseTaggedConditions(strs(i.C))
	if o.OK = err == nil; !o.OK {
		return
	}
	for _, p := range i.P {
		o.M = append(o.M, l.MatchByTags(tagSlice(p)))
		o.MM = append(o.MM, l.MatchByTagsMap(tagMap(p)))
	}
}

func genC09(g *Gen, emit func(c09In)) {
	r := g.R
	// one and two terms over two keys, with all small tag sets
	var small []string
	for _, k := range []string{"a", "b", "name"} {
		for _, v := range []string{"=x", "!=x", "=~^x", "!=~^x", "=x*", "!=x*", "=", "!=", "=~", "!=~"} {
			small = append(small, k+v)
		}
	}
	var sets [][]KV
	vals := []string{"-", "", "x", "xy", "y"}
	for _, n := range vals {
		for _, a := range vals {
			for _, b := range vals {
				var p []KV
				for i, k := range []string{"__name__", "a", "b"} {
					if v := []string{n, a, b}[i]; v != "-" {
						p = append(p, KV{T(k), T(v)})
					}
				}
				sets = append(sets, p)
			}
		}
	}
	some := func() (out [][]KV) {
		for n := 0; n < 10; n++ {
			out = append(out, pick(r, sets))
		}
		return
	}
	for _, a := range small {
		for _, b := range append([]string{""}, small...) {
			if !g.Mine() || g.stop {
				continue
			}
			cs := []string{a}
			if b != "" {
				cs = append(cs, b)
			}
			emit(c09In{C: ts(cs), P: some()})
		}
	}
	for g.More() {
		t := newTagGen(r)
		cs := t.conds(6)
		if r.Intn(3) == 0 && len(cs) > 1 { // repeated keys
			k := cs[0][:strings.IndexAny(cs[0], "=!")]
			for i := range cs {
				if r.Intn(2) == 0 {
					cs[i] = k + cs[i][strings.IndexAny(cs[i], "=!"):]
				}
			}
		}
		in := c09In{C: ts(cs)}
		for n := 0; n < 8; n++ {
			in.P = append(in.P, t.tags(cs, r.Intn(6) > 0))
		}
		emit(in)
	}
}

// ---------------------------------------------------------------- C11

// KB is a key and a value in bytes.
type KB [2]B

type c11In struct {
	S   B    `json:"s"`
	G   bool `json:"g"`
	Old []KB `json:"old"`
}
type c11Out struct {
	Ts []KB `json:"t"`
	E  bool `json:"e"`
	M  []KB `json:"m"`
	ME bool `json:"me"`
	Bs []KB `json:"b"`
	BE bool `json:"be"`
	Cs []KB `json:"c"`
}

func pairsOf(m map[string]string) (out []KB) {
	for k, v := range m {
		out = append(out, KB{B(k), B(v)})
	}
	return
}

func runC11(i *c11In, o *c11Out) {
	one, mapped, reused := gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB
	if i.G {
		one, mapped, reused = gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB
	}
	t, err := one(string(i.S))
	o.E = err != nil
	for _, x := range t {
		o.Ts = append(o.Ts, KB{B(x.Key), B(x.Value)})
	}
	m, err := mapped(string(i.S))
	o.ME = err != nil
	o.M = pairsOf(m)
	b := map[string]string{}
	for _, kv := range i.Old {
		b[string(kv[0])] = string(kv[1])
	}
	o.BE = reused(string(i.S), b) != nil
	o.Bs = pairsOf(b)
	o.Cs = pairsOf(gtags.TagsMap(t))
}

func genC11(g *Gen, emit func(c11In)) {
	r := g.R
	old := func() (out []KB) {
		for _, k := range []string{"a", "old", "__name__", "b"} {
			if r.Intn(3) == 0 {
				out = append(out, KB{B(k), "x"})
			}
		}
		return
	}
	max := 4
	if g.Thorough() {
		max = 5
	}
	for _, w := range allWords([]rune("a=?&;%"), max) {
		if g.Mine() {
			emit(c11In{S: B("n?" + w), Old: old()})
			emit(c11In{S: B("n;" + w), G: true, Old: old()})
			emit(c11In{S: B(w), G: r.Intn(2) == 0, Old: old()})
		}
	}
	piece := func() string {
		switch r.Intn(6) {
		case 0:
			return string(byteWord(r, 4))
		case 1:
			return word(r, []rune("ab+%24ACé;&?="), 6)
		case 2:
			return pick(r, []string{"%3D", "%26", "%", "%4", "%zz", "+", "%3B", "a%20b", "__name__", "%5f_name__"})
		default:
			return word(r, []rune("abc"), 3)
		}
	}
	for g.More() {
		in := c11In{G: r.Intn(2) == 0, Old: old()}
		sep, psep := "?", "&"
		if in.G {
			sep, psep = ";", ";"
		}
		if r.Intn(30) == 0 {
			sep, psep = psep, sep
		}
		s := piece()
		if r.Intn(12) > 0 {
			s += sep
		}
		for n := r.Intn(6); n > 0; n-- {
			s += piece()
			if r.Intn(12) > 0 {
				s += "="
			}
			s += piece()
			if n > 1 || r.Intn(6) == 0 {
				s += psep
			}
		}
		in.S = B(s)
		emit(in)
	}
}

func init() {
	def("C08", runC08, func(i *c08In, o *c08Out) bool { return o.OK && len(o.Ts) > 0 }, genC08)
	def("C09", runC09, func(i *c09In, o *c09Out) bool { return anyBoth(o.M) }, genC09)
	def("C11", runC11, func(i *c11In, o *c11Out) bool { return len(o.Ts) > 1 }, genC11)
}
