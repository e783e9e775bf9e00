package main

// C17: matchers shared by goroutines (run with the race detector).

import (
	"encoding/json"
	"math/rand"
	"sort"
	"sync"

	"github.com/msaf1980/go-matcher/pkg/items"
)

type shExpr struct {
	T T   `json:"t"`
	N int `json:"n"`
}
type shSub struct {
	S T    `json:"s"`
	P []KV `json:"p"`
}
type shRes struct {
	F int   `json:"f"` // form of the match
	C int   `json:"c"`
	R []Rep `json:"r"`
}
type c17In struct {
	K   string   `json:"k"`
	One bool     `json:"one"`
	A   []shExpr `json:"a"`
	S   []shSub  `json:"s"`
	Z   []shExpr `json:"z"`
	G   int      `json:"g"` // goroutines
	R   int      `json:"r"` // rounds
	Rnd int64    `json:"rnd"`
}
type c17Out struct {
	OK   []bool    `json:"ok"`
	Norm []T       `json:"norm"`
	Res  [][]shRes `json:"res"`
	End  [][]shRes `json:"end"`
}

func sortReps(r []Rep) []Rep {
	sort.Slice(r, func(a, b int) bool { return r[a].N < r[b].N || r[a].N == r[b].N && r[a].T < r[b].T })
	if r == nil {
		r = []Rep{}
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runC17(in *c17In, o *c17Out) {
	t := newTree(in.K)
	var one single
	add := func(es []shExpr) {
		for _, e := range es {
			if in.One {
				x, err := t.parse(string(e.T))
				one = x
				o.OK, o.Norm = append(o.OK, err == nil), append(o.Norm, "")
				return
			}
			norm, _, err := t.add(string(e.T), e.N)
			o.OK, o.Norm = append(o.OK, err == nil && e.T != ""), append(o.Norm, T(norm))
		}
	}
	add(in.A)
	if in.One && !o.OK[0] {
		return
	}
	ops := make([]bOp, len(in.S))
	for n, s := range in.S {
		ops[n] = bOp{S: s.S, P: s.P}
	}
	match := func(st *items.AllStore, op *bOp) []shRes {
		if in.One {
			a := shRes{F: 1, C: b2i(one.match1(op)), R: []Rep{}}
			if ps, _ := pathParts(string(op.S)); in.K == "dotted" && ps == nil {
				return []shRes{a}
			}
			return []shRes{a, {F: 2, C: b2i(one.match2(op)), R: []Rep{}}}
		}
		st.Init()
		c := t.match1(op, st)
		out := []shRes{{1, c, sortReps(reports(st))}}
		st.Init()
		if c, ok := t.match2(op, st); ok {
			out = append(out, shRes{2, c, sortReps(reports(st))})
		}
		return out
	}
	type seenAt map[string]shRes
	all := make([][]seenAt, in.G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	bad := make(chan interface{}, in.G)
	for g := 0; g < in.G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- e
				}
			}()
			r := rand.New(rand.NewSource(in.Rnd + int64(g)))
			st := newAll()
			mine := make([]seenAt, len(ops))
			for n := range mine {
				mine[n] = seenAt{}
			}
			all[g] = mine
			<-start
			for k := 0; k < in.R; k++ {
				for _, n := range r.Perm(len(ops)) {
					for _, x := range match(st, &ops[n]) {
						key, _ := json.Marshal(x)
						mine[n][string(key)] = x
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	select {
	case e := <-bad:
		panic(e)
	default:
	}
	for n := range ops {
		seen := seenAt{}
		for g := range all {
			for k, x := range all[g][n] {
				seen[k] = x
			}
		}
		var out []shRes
		for _, x := range seen {
			out = append(out, x)
		}
		sort.Slice(out, func(a, b int) bool { return out[a].F < out[b].F })
		o.Res = append(o.Res, out)
	}
	if !in.One {
		add(in.Z)
		st := newAll()
		for n := range ops {
			o.End = append(o.End, match(st, &ops[n]))
		}
	}
}

func genC17(g *Gen, emit func(c17In)) {
	r := g.R
	for g.More() {
		in := c17In{K: pick(r, []string{"glob", "dotted", "tags"}), One: r.Intn(4) == 0, G: 4 + r.Intn(5), R: 2, Rnd: r.Int63n(1 << 30)}
		n := r.Intn(8) + 2
		if r.Intn(8) == 0 {
			n = 20
		}
		var texts []string
		var sub func() shSub
		switch in.K {
		case "glob":
			gs, al := globPool(r, n, "", 4)
			for _, x := range gs {
				texts = append(texts, globText(x))
			}
			sub = func() shSub { return shSub{S: T(subjectOf(r, gs, al))} }
		case "dotted":
			ts, path := dottedPool(r, n)
			texts = ts
			sub = func() shSub { return shSub{S: T(path())} }
		default:
			t := newTagGen(r)
			var all [][]string
			for i := 0; i < n; i++ {
				cs := t.conds(4)
				all = append(all, cs)
				texts = append(texts, query(r, cs))
			}
			sub = func() shSub { return shSub{P: t.tags(pick(r, all), true)} }
		}
		ix := indexes(r, n)
		for i, s := range texts {
			if s == "" {
				continue
			}
			e := shExpr{T(s), ix[i]}
			if i > 1 && r.Intn(4) == 0 && !in.One {
				in.Z = append(in.Z, e)
			} else {
				in.A = append(in.A, e)
			}
		}
		if len(in.A) == 0 {
			continue
		}
		for k := 0; k < 10; k++ {
			in.S = append(in.S, sub())
		}
		emit(in)
	}
}

func init() {
	def("C17", runC17, func(i *c17In, o *c17Out) bool {
		for _, x := range o.Res {
			for _, y := range x {
				if y.C > 0 {
					return true
				}
			}
		}
		return false
	}, genC17)
}
