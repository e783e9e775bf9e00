package main

// Histories of the batch matchers: C04 glob tree, C06 dotted glob tree,
// C10 tag query tree, C07 registration in all of them.

import (
	"errors"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"
)

// KV is a key and a value.
type KV [2]T

type bOp struct {
	K string `json:"k"` // add, addp, match
	T T      `json:"t"`
	N int    `json:"n"`
	S T      `json:"s"`
	P []KV   `json:"p"` // sorted by key, __name__ first
}

type bIn struct {
	Kind string `json:"kind"`
	Reg  bool   `json:"reg"`
	Ops  []bOp  `json:"ops"`
}

// Rep is a report: index and text.
type Rep struct {
	N int
	T T
}

func (r Rep) MarshalJSON() ([]byte, error) {
	b, _ := r.T.MarshalJSON()
	return []byte("[" + strconv.Itoa(r.N) + "," + string(b) + "]"), nil
}

func (r *Rep) UnmarshalJSON([]byte) error { return nil } // outputs are never read back

// Txt is a registered text with its index.
type Txt struct {
	T T
	N int
}

func (r Txt) MarshalJSON() ([]byte, error) {
	b, _ := r.T.MarshalJSON()
	return []byte("[" + string(b) + "," + strconv.Itoa(r.N) + "]"), nil
}

func (r *Txt) UnmarshalJSON([]byte) error { return nil }

type bRes struct {
	E    string `json:"e"`
	N    int    `json:"n"`
	Norm T      `json:"norm"`
	POK  bool   `json:"pok"`
	PN   T      `json:"pn"`
	R1   []Rep  `json:"r1"`
	C1   int    `json:"c1"`
	R2   []Rep  `json:"r2"`
	C2   int    `json:"c2"`
	Two  bool   `json:"two"`
	Ind1 []int  `json:"ind1"`
	Ind2 []int  `json:"ind2"`
	By   []Txt  `json:"by"`
	Ix   []Rep  `json:"ix"`
}

type bOut struct {
	R []bRes `json:"r"`
}

// single is an expression parsed alone.
type single interface {
	norm() string
	match1(op *bOp) bool
	match2(op *bOp) bool
}

// tree is a batch matcher.
type tree interface {
	parse(s string) (single, error)
	add(s string, n int) (string, int, error)
	addp(x single, n int) (string, int, error)
	match1(op *bOp, st items.Store) int
	match2(op *bOp, st items.Store) (int, bool)
	registry() (map[string]int, map[int]string)
}

type globS struct{ g *glob.Glob }

func (x globS) norm() string        { return x.g.Node }
func (x globS) match1(op *bOp) bool { return x.g.Match(string(op.S)) }
func (x globS) match2(op *bOp) bool { return x.g.Match(string(op.S)) }

type globT struct{ t *glob.GlobTree }

func (t globT) parse(s string) (single, error) {
	g, err := glob.Parse(s)
	return globS{g}, err
}
func (t globT) add(s string, n int) (string, int, error) { return t.t.Add(s, n) }
func (t globT) addp(x single, n int) (string, int, error) {
	return t.t.AddGlob(x.(globS).g, n)
}
func (t globT) match1(op *bOp, st items.Store) int         { return t.t.Match(string(op.S), st) }
func (t globT) match2(op *bOp, st items.Store) (int, bool) { return 0, false }
func (t globT) registry() (map[string]int, map[int]string) { return t.t.Globs, t.t.GlobsIndex }

// parts of a path, nil if some are empty
func pathParts(s string) ([]string, int) {
	s = strings.TrimSuffix(s, ".")
	if s == "" {
		return nil, 0
	}
	ps := strings.Split(s, ".")
	for _, p := range ps {
		if p == "" {
			return nil, 0
		}
	}
	return ps, len(s)
}

type dotS struct{ g *gglob.GGlob }

func (x dotS) norm() string        { return x.g.Node }
func (x dotS) match1(op *bOp) bool { return x.g.Match(string(op.S)) }
func (x dotS) match2(op *bOp) bool {
	ps, n := pathParts(string(op.S))
	return ps != nil && x.g.MatchByParts(ps, n)
}

type dotT struct{ t *gglob.GGlobTree }

func (t dotT) parse(s string) (single, error) {
	g, err := gglob.Parse(s)
	return dotS{g}, err
}
func (t dotT) add(s string, n int) (string, int, error) { return t.t.Add(s, n) }
func (t dotT) addp(x single, n int) (string, int, error) {
	return t.t.AddGlob(x.(dotS).g, n)
}
func (t dotT) match1(op *bOp, st items.Store) int { return t.t.Match(string(op.S), st) }
func (t dotT) match2(op *bOp, st items.Store) (int, bool) {
	ps, _ := pathParts(string(op.S))
	if ps == nil {
		return 0, false
	}
	return t.t.MatchByParts(ps, st), true
}
func (t dotT) registry() (map[string]int, map[int]string) { return t.t.Globs, t.t.GlobsIndex }

func tagSlice(p []KV) []gtags.Tag {
	out := make([]gtags.Tag, len(p))
	for i, kv := range p {
		out[i] = gtags.Tag{Key: string(kv[0]), Value: string(kv[1])}
	}
	return out
}

func tagMap(p []KV) map[string]string {
	out := make(map[string]string)
	for _, kv := range p {
		out[string(kv[0])] = string(kv[1])
	}
	return out
}

type tagS struct{ t gtags.TaggedTermList }

func (x tagS) norm() string        { return x.t.String() }
func (x tagS) match1(op *bOp) bool { return x.t.MatchByTags(tagSlice(op.P)) }
func (x tagS) match2(op *bOp) bool { return x.t.MatchByTagsMap(tagMap(op.P)) }

type tagT struct{ t *gtags.GTagsTree }

func (t tagT) parse(s string) (single, error) {
	g, err := gtags.ParseSeriesByTag(s)
	return tagS{g}, err
}
func (t tagT) add(s string, n int) (string, int, error) { return t.t.Add(s, n) }
func (t tagT) addp(x single, n int) (string, int, error) {
	return t.t.AddTerms(x.(tagS).t, n)
}
func (t tagT) match1(op *bOp, st items.Store) int {
	return t.t.MatchByTags(tagSlice(op.P), st)
}
func (t tagT) match2(op *bOp, st items.Store) (int, bool) {
	return t.t.MatchByTagsMap(tagMap(op.P), st), true
}
func (t tagT) registry() (map[string]int, map[int]string) { return t.t.Queries, t.t.QueryIndex }

func newTree(kind string) tree {
	switch kind {
	case "glob":
		return globT{glob.NewTree()}
	case "dotted":
		return dotT{gglob.NewTree()}
	default:
		return tagT{gtags.NewTree()}
	}
}

func errTag(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, glob.ErrIndexInvalid):
		return "index"
	case errors.Is(err, glob.ErrIndexDup):
		return "dup"
	case errors.Is(err, glob.ErrGlobExist):
		return "exist"
	default:
		return "invalid"
	}
}

func reports(st *items.AllStore) (out []Rep) {
	for i, n := range st.Index.N {
		r := Rep{N: n, T: "?"}
		if i < len(st.S.S) {
			r.T = T(st.S.S[i])
		}
		out = append(out, r)
	}
	return
}

func runBatch(in *bIn, o *bOut) {
	t := newTree(in.Kind)
	alone := map[int]single{}
	for i := range in.Ops {
		op := &in.Ops[i]
		var r bRes
		switch op.K {
		case "add", "addp":
			x, err := t.parse(string(op.T))
			if r.POK = err == nil; r.POK {
				r.PN = T(x.norm())
			}
			var norm string
			if op.K == "add" {
				norm, r.N, err = t.add(string(op.T), op.N)
			} else if r.POK {
				norm, r.N, err = t.addp(x, op.N)
			} else {
				err = nil
			}
			r.Norm, r.E = T(norm), errTag(err)
			idle := op.T == "" || op.K == "addp" && in.Kind == "tags" && r.POK && len(x.(tagS).t) == 0
			if r.E == "" && r.POK && !idle {
				alone[op.N] = x
			}
		default:
			s1 := newAll()
			r.C1 = t.match1(op, s1)
			r.R1 = reports(s1)
			s2 := newAll()
			r.C2, r.Two = t.match2(op, s2)
			r.R2 = reports(s2)
			for n, x := range alone {
				if x.match1(op) {
					r.Ind1 = append(r.Ind1, n)
				}
				if r.Two && x.match2(op) {
					r.Ind2 = append(r.Ind2, n)
				}
			}
			sort.Ints(r.Ind1)
			sort.Ints(r.Ind2)
		}
		if in.Reg {
			by, ix := t.registry()
			for s, n := range by {
				r.By = append(r.By, Txt{T(s), n})
			}
			for n, s := range ix {
				r.Ix = append(r.Ix, Rep{n, T(s)})
			}
			sort.Slice(r.By, func(a, b int) bool { return r.By[a].T < r.By[b].T })
			sort.Slice(r.Ix, func(a, b int) bool { return r.Ix[a].N < r.Ix[b].N })
		}
		o.R = append(o.R, r)
	}
}

func newAll() *items.AllStore {
	st := items.NewAllStore()
	st.Init()
	return st
}

// ---------------------------------------------------------------- generators

// pool makes related globs out of few pieces.
func globPool(r *rand.Rand, n int, banned string, max int) ([][]el, []rune) {
	al := alphabet(r)
	var pieces [][]el
	for i := 0; i < 5; i++ {
		pieces = append(pieces, glob1(r, al, 1, banned))
	}
	pieces = append(pieces, []el{{k: '*'}}, []el{{k: '?'}})
	var out [][]el
	for i := 0; i < n; i++ {
		var g []el
		switch {
		case i > 0 && r.Intn(4) == 0: // extend or vary an earlier one
			g = append(g, pick(r, out)...)
			if r.Intn(2) == 0 && len(g) > 1 {
				g = append([]el{}, g[:r.Intn(len(g))+1]...)
			}
			g = append(append([]el{}, g...), pick(r, pieces)...)
		case i > 0 && r.Intn(3) == 0:
			g = vary(r, pick(r, out), al, banned)
			if r.Intn(3) == 0 {
				g = vary(r, g, al, banned)
			}
			if globText(g) == "" {
				g = []el{{k: '?'}}
			}
		case r.Intn(6) == 0:
			g = glob1(r, al, max, banned)
		default:
			for k := r.Intn(max) + 1; k > 0; k-- {
				g = append(g, pick(r, pieces)...)
			}
		}
		out = append(out, g)
	}
	return out, al
}

func subjectOf(r *rand.Rand, gs [][]el, al []rune) string {
	return subject(r, pick(r, gs), al)
}

// mix interleaves additions with matches; matches come also at the end.
func mix(r *rand.Rand, adds []bOp, match func() bOp, end int) []bOp {
	var ops []bOp
	for _, a := range adds {
		ops = append(ops, a)
		if r.Intn(3) == 0 && (len(adds) < 40 || r.Intn(8) == 0) {
			ops = append(ops, match())
		}
	}
	for i := 0; i < end; i++ {
		ops = append(ops, match())
	}
	return ops
}

func addOp(r *rand.Rand, text string, n int) bOp {
	k := "add"
	if r.Intn(4) == 0 && text != "" {
		k = "addp"
	}
	return bOp{K: k, T: T(text), N: n}
}

// spread indexes, not in the order of additions
func indexes(r *rand.Rand, n int) []int {
	p := r.Perm(n + 3)
	if r.Intn(6) == 0 { // far apart
		m := pick(r, []int{7, 64, 1000, 1 << 20})
		for i := range p {
			p[i] = p[i]*m + r.Intn(3)
		}
		p[r.Intn(n)] = 1<<31 - 1
	}
	return p[:n]
}

// number of additions of a history: mostly few, sometimes many
func additions(r *rand.Rand, few int) int {
	switch r.Intn(60) {
	case 0:
		return 70 + r.Intn(80)
	case 1, 2, 3, 4, 5:
		return 20 + r.Intn(20)
	}
	return r.Intn(few) + 2
}

func genC04(g *Gen, emit func(bIn)) {
	// all pairs of the small globs
	tk := tokens()
	var small [][]el
	for _, a := range tk {
		small = append(small, a)
		for _, b := range tk {
			small = append(small, append(append([]el{}, a...), b...))
		}
	}
	words := allWords([]rune{'a', 'b', 'я'}, 2)
	for i := range small {
		for j := range small {
			if i == j || !g.Mine() || g.stop {
				continue
			}
			if !g.Thorough() && g.R.Intn(8) != 0 {
				continue
			}
			ops := []bOp{addOp(g.R, globText(small[i]), 1), addOp(g.R, globText(small[j]), 0)}
			for n := 0; n < 5; n++ {
				ops = append(ops, bOp{K: "match", S: T(pick(g.R, words))})
				ops = append(ops, bOp{K: "match", S: T(subjectOf(g.R, [][]el{small[i], small[j]}, []rune("abя")))})
			}
			emit(bIn{Kind: "glob", Ops: ops})
		}
	}
	for g.More() {
		n := additions(g.R, 7)
		gs, al := globPool(g.R, n, "", 4)
		ix := indexes(g.R, n)
		var adds []bOp
		for i, x := range gs {
			adds = append(adds, addOp(g.R, globText(x), ix[i]))
		}
		emit(bIn{Kind: "glob", Ops: mix(g.R, adds, func() bOp {
			return bOp{K: "match", S: T(subjectOf(g.R, gs, al))}
		}, 8)})
	}
}

func dottedPool(r *rand.Rand, n int) (texts []string, path func() string) {
	levels, al := globPool(r, 5, ".", 2)
	levels = append(levels, lit("ab"), []el{{k: '*'}})
	var gs [][][]el
	deep := 4
	if r.Intn(20) == 0 {
		deep = 24
	}
	for i := 0; i < n; i++ {
		var ls [][]el
		var ts []string
		k := r.Intn(deep) + 1
		if i > 0 && r.Intn(3) == 0 { // share the first levels
			p := pick(r, gs)
			ls = append(ls, p[:r.Intn(len(p))+1]...)
			k = r.Intn(3)
			if r.Intn(4) == 0 {
				k = 0
			}
		}
		for ; k > 0; k-- {
			l := pick(r, levels)
			if r.Intn(6) == 0 {
				l = vary(r, l, al, ".")
			}
			if globText(l) == "" {
				l = lit("x")
			}
			ls = append(ls, l)
		}
		if len(ls) == 0 {
			ls = append(ls, lit("x"))
		}
		for _, l := range ls {
			ts = append(ts, globText(l))
		}
		gs = append(gs, ls)
		s := strings.Join(ts, ".")
		if r.Intn(12) == 0 {
			s += "."
		}
		texts = append(texts, s)
	}
	path = func() string {
		g := pick(r, gs)
		var ps []string
		for _, l := range g {
			if r.Intn(4) == 0 {
				l = pick(r, levels)
			}
			p := noRunes(subject(r, l, al), ".")
			if p == "" && r.Intn(8) > 0 {
				p = memberOf(r, l, al)
			}
			if p == "" && r.Intn(8) > 0 {
				p = "x"
			}
			ps = append(ps, noRunes(p, "."))
		}
		if r.Intn(12) == 0 && len(ps) > 1 { // levels in another place
			i, j := r.Intn(len(ps)), r.Intn(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		}
		switch r.Intn(12) {
		case 0:
			ps = append(ps, pick(r, ps))
		case 1:
			ps = ps[:len(ps)-1]
		}
		s := clean(strings.Join(ps, "."))
		switch r.Intn(10) {
		case 0:
			s += "."
		case 1:
			if r.Intn(3) == 0 {
				s += ".."
			}
			if r.Intn(3) == 0 {
				s = "." + s
			}
		}
		return s
	}
	return
}

func genC06(g *Gen, emit func(bIn)) {
	for g.More() {
		n := additions(g.R, 8)
		texts, path := dottedPool(g.R, n)
		ix := indexes(g.R, n)
		var adds []bOp
		for i, s := range texts {
			adds = append(adds, addOp(g.R, s, ix[i]))
		}
		emit(bIn{Kind: "dotted", Ops: mix(g.R, adds, func() bOp {
			return bOp{K: "match", S: T(path())}
		}, 8)})
	}
}

// ---------------------------------------------------------------- tags

var (
	fewKeys  = []string{"a", "b", "c"}
	moreKeys = []string{"a", "b", "c", "d", "dc", "dc1", "e", "env", "f", "g", "host", "k", "m", "p", "z", "Z", "A", "é", "_a", "__n", "~k"}
	tagVals  = []string{"v1", "v2", "v", "", "v1a", "a", "av1", "v11", "é", "web", "web1"}
	globVals = []string{"v*", "*", "v?", "{v1,v2}", "v{1,2}*", "[a-v]1", "{v1}", "*1", "?*", "v[12]", "{,v}1", "web{,1}", "[v]*", "{a*,v?}", "{v1,v1}"}
	reVals   = []string{"v", "^v1$", "v[0-9]+", "^(v|a)", "1$", "v.*1", "^$", "^v?1?$", "a|v2", "(a|v)1", "[^v]", ".", "v1|web", "^web(1|2)?$", "(v1)*a", "é", "^[a-z]+[0-9]*$", ""}
	badVals  = []string{"(", "[a", "*a", "v)"}
	badGlobs = []string{"{v", "v]", "[b-a]", "{a{b}}", "v}"}
)

type tagGen struct {
	r    *rand.Rand
	keys []string
	full bool // most of the keys are in the tag sets
}

func newTagGen(r *rand.Rand) *tagGen {
	t := &tagGen{r: r}
	switch r.Intn(4) {
	case 0:
		t.keys = append(t.keys, fewKeys...)
	case 3: // many tags
		t.full = true
		for i, n := 0, r.Intn(24)+6; i < n; i++ {
			t.keys = append(t.keys, string(rune('a'+i%26))+strings.Repeat("x", i/26+r.Intn(2)))
		}
	case 1:
		for _, i := range r.Perm(len(moreKeys))[:r.Intn(6)+3] {
			t.keys = append(t.keys, moreKeys[i])
		}
	default:
		t.keys = append(t.keys, moreKeys...)
	}
	t.keys = append(t.keys, "__name__", "name")
	return t
}

func (t *tagGen) cond() string {
	r := t.r
	k := pick(r, t.keys)
	switch r.Intn(8) {
	case 0, 1:
		return k + "=" + pick(r, tagVals)
	case 2:
		return k + "!=" + pick(r, tagVals)
	case 3:
		return k + "=" + pick(r, globVals)
	case 4:
		return k + "!=" + pick(r, globVals)
	case 5:
		return k + "=~" + pick(r, reVals)
	case 6:
		return k + "!=~" + pick(r, reVals)
	default:
		return k + "=" + pick(r, tagVals[:3])
	}
}

func (t *tagGen) conds(max int) []string {
	n := t.r.Intn(max) + 1
	out := make([]string, n)
	for i := range out {
		out[i] = t.cond()
	}
	return out
}

func query(r *rand.Rand, cs []string) string {
	var b strings.Builder
	b.WriteString("seriesByTag(")
	for i, c := range cs {
		if i > 0 {
			b.WriteString(pick(r, []string{",", ",", ", ", " , ", " "}))
		}
		q := "'"
		if strings.Contains(c, "'") || (r.Intn(4) == 0 && !strings.Contains(c, `"`)) {
			q = `"`
		}
		b.WriteString(q + c + q)
	}
	b.WriteString(")")
	return b.String()
}

// tags makes a tag set that likely satisfies the conditions.
func (t *tagGen) tags(conds []string, name bool) []KV {
	r := t.r
	m := map[string]string{}
	if name {
		m["__name__"] = pick(r, tagVals)
	}
	for _, c := range conds {
		i := strings.IndexAny(c, "=!")
		k, v := c[:i], strings.TrimLeft(c[i:], "=!~")
		if k == "name" {
			k = "__name__"
		}
		neg := c[i] == '!'
		if neg && r.Intn(2) == 0 {
			continue
		}
		if r.Intn(10) == 0 {
			continue
		}
		if strings.ContainsAny(v, "*?[]{}^$|(.+") || neg || r.Intn(10) == 0 {
			v = pick(r, tagVals)
		}
		m[k] = v
	}
	n := r.Intn(4)
	if t.full {
		n = r.Intn(2 * len(t.keys))
	}
	for ; n > 0; n-- {
		k := pick(r, t.keys)
		if k == "name" {
			k = "__name__"
		}
		if _, ok := m[k]; !ok && k != "__name__" {
			m[k] = pick(r, tagVals)
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i] == "__name__" || ks[j] == "__name__" {
			return ks[i] == "__name__"
		}
		return ks[i] < ks[j]
	})
	var out []KV
	for _, k := range ks {
		out = append(out, KV{T(k), T(m[k])})
	}
	return out
}

func genC10(g *Gen, emit func(bIn)) {
	for g.More() {
		r := g.R
		t := newTagGen(r)
		n := additions(r, 8)
		ix := indexes(r, n)
		var adds []bOp
		var all [][]string
		for i := 0; i < n; i++ {
			cs := t.conds(4)
			if i > 0 && r.Intn(3) == 0 {
				p := pick(r, all)
				cs = append(append([]string{}, p[:r.Intn(len(p))+1]...), t.conds(2)...)
			}
			if r.Intn(25) == 0 {
				cs = nil
			}
			if len(cs) > 0 {
				all = append(all, cs)
			} else if len(all) == 0 {
				all = append(all, t.conds(1))
			}
			adds = append(adds, addOp(r, query(r, cs), ix[i]))
		}
		emit(bIn{Kind: "tags", Ops: mix(r, adds, func() bOp {
			return bOp{K: "match", P: t.tags(pick(r, all), true)}
		}, 6)})
	}
}

// ---------------------------------------------------------------- C07

func genC07(g *Gen, emit func(bIn)) {
	for g.More() {
		r := g.R
		in := bIn{Kind: pick(r, []string{"glob", "dotted", "tags"}), Reg: true}
		var texts []string
		var match func() bOp
		switch in.Kind {
		case "glob":
			gs, al := globPool(r, 3, "", 3)
			for _, x := range gs {
				texts = append(texts, globText(x), globText(respell(g, x)), globText(respell(g, x)))
				if n, err := glob.Parse(globText(x)); err == nil {
					texts = append(texts, n.Node)
				}
			}
			texts = append(texts, syntaxNoise(g, al), "a[", "{a", "")
			match = func() bOp { return bOp{K: "match", S: T(subjectOf(r, gs, al))} }
		case "dotted":
			ts, path := dottedPool(r, 3)
			for _, s := range ts {
				texts = append(texts, s, s+".")
				if n, err := gglob.Parse(s); err == nil {
					texts = append(texts, n.Node)
				}
				texts = append(texts, strings.Replace(s, "*", "**", 1))
			}
			texts = append(texts, "a..b", "a.[", "{a.b}", ".", "")
			match = func() bOp { return bOp{K: "match", S: T(path())} }
		default:
			t := newTagGen(r)
			var all [][]string
			for i := 0; i < 3; i++ {
				cs := t.conds(3)
				all = append(all, cs)
				texts = append(texts, query(r, cs), query(r, cs))
				p := append([]string{}, cs...)
				r.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
				texts = append(texts, query(r, p))
				if n, err := gtags.ParseSeriesByTag(query(r, cs)); err == nil {
					texts = append(texts, n.String())
				}
			}
			texts = append(texts, "seriesByTag()", "seriesByTag( )", "seriesByTag('a')", "x", "seriesByTag('a=~(')", "seriesByTag('a={')", "")
			match = func() bOp { return bOp{K: "match", P: t.tags(pick(r, all), true)} }
		}
		ixs := []int{0, 1, 2, 3, 4}
		if r.Intn(6) == 0 {
			ixs = []int{0, 63, 64, 65, 128, 1 << 16, 1<<31 - 1}
		}
		n := r.Intn(8) + 4
		if r.Intn(20) == 0 {
			n = 30
			for i := 8; i < 40; i++ {
				ixs = append(ixs, i)
			}
		}
		for ; n > 0; n-- {
			if r.Intn(4) == 0 {
				in.Ops = append(in.Ops, match())
				continue
			}
			op := addOp(r, pick(r, texts), pick(r, ixs))
			if r.Intn(10) == 0 {
				op.N = -1 - r.Intn(3)
			}
			in.Ops = append(in.Ops, op)
		}
		in.Ops = append(in.Ops, match())
		emit(in)
	}
}

// some match reports something
func someReport(i *bIn, o *bOut) bool {
	for _, r := range o.R {
		if len(r.R1) > 0 {
			return true
		}
	}
	return false
}

func init() {
	def("C04", runBatch, someReport, genC04)
	def("C06", runBatch, someReport, genC06)
	def("C10", runBatch, someReport, genC10)
	def("C07", runBatch, func(i *bIn, o *bOut) bool {
		ok, bad := 0, 0
		for k, r := range o.R {
			if i.Ops[k].K != "match" {
				if r.E == "" {
					ok++
				} else {
					bad++
				}
			}
		}
		return ok > 1 && bad > 0
	}, genC07)
}
