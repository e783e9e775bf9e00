package main

// C05: dotted globs against paths, as text and as split parts.

import (
	"strings"

	"github.com/msaf1980/go-matcher/gglob"
)

type c05In struct {
	G T   `json:"g"`
	S []T `json:"s"`
}
type c05Out struct {
	OK bool   `json:"ok"`
	M  []bool `json:"m"`
	U  []bool `json:"u"` // split parts were matched
	P  []bool `json:"p"`
	PL []bool `json:"pl"`
}

func runC05(i *c05In, o *c05Out) {
	g, err := gglob.Parse(string(i.G))
	if o.OK = err == nil; !o.OK {
		return
	}
	for _, s := range i.S {
		o.M = append(o.M, g.Match(string(s)))
		ps, n := pathParts(string(s))
		u, p, pl := ps != nil, false, false
		if u {
			p = g.MatchByParts(ps, 0)
			pl = g.MatchByParts(ps, n)
		}
		o.U, o.P, o.PL = append(o.U, u), append(o.P, p), append(o.PL, pl)
	}
}

func genC05(g *Gen, emit func(c05In)) {
	// all short texts over a small alphabet, as globs and as paths
	max := 4
	if g.Thorough() {
		max = 5
	}
	paths := ts(allWords([]rune("ab."), 4))
	for _, w := range allWords([]rune("a.*?[{"), max) {
		if !g.Mine() || g.stop {
			continue
		}
		w = strings.NewReplacer("[", "[ab]", "{", "{a,bb,}").Replace(w)
		in := c05In{G: T(w)}
		for n := 0; n < 12; n++ {
			in.S = append(in.S, pick(g.R, paths))
		}
		emit(in)
	}
	for g.More() {
		texts, path := dottedPool(g.R, g.R.Intn(3)+1)
		in := c05In{G: T(pick(g.R, texts))}
		switch g.R.Intn(20) {
		case 0:
			in.G += "."
		case 1:
			in.G = "." + in.G
		case 2:
			in.G = T(strings.Replace(string(in.G), ".", "..", 1))
		case 3:
			in.G = T(strings.Replace(string(in.G), ".", pick(g.R, []string{".[]", ".{}", ".[-]", ".{,}", "[.]"}), 1))
		}
		for n := 0; n < 10; n++ {
			in.S = append(in.S, T(path()))
		}
		emit(in)
	}
}

func init() {
	def("C05", runC05, func(i *c05In, o *c05Out) bool { return anyBoth(o.M) }, genC05)
}
