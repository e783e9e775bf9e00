package main

// C13: expansion; C14: limits and repeated expansion.

import (
	"math/rand"
	"strings"

	"github.com/msaf1980/go-matcher/expand"
)

type c13In struct {
	S T `json:"s"`
}
type c13Out struct {
	R []T  `json:"r"`
	E bool `json:"e"`
}

func runC13(i *c13In, o *c13Out) {
	r, err := expand.Expand(string(i.S), -1, 0)
	o.R, o.E = ts(r), err != nil
}

// estimate of the number of results (an upper bound, not a judgement)
func results(s string) int {
	n := 1
	for s != "" && n < 1<<20 {
		i := strings.IndexAny(s, "{[")
		if i < 0 {
			break
		}
		end := "}"
		if s[i] == '[' {
			end = "]"
		}
		j := strings.Index(s[i:], end)
		if j < 0 {
			break
		}
		b := s[i+1 : i+j]
		if end == "}" {
			n *= strings.Count(b, ",") + 1
		} else {
			m := len(b)
			rs := []rune(b)
			for k := 1; k+1 < len(rs); k++ {
				if rs[k] == '-' && rs[k+1] > rs[k-1] {
					m += int(rs[k+1] - rs[k-1])
				}
			}
			if m > 0 {
				n *= m
			}
		}
		s = s[i+j+1:]
	}
	return n
}

func expandText(r *rand.Rand, al []rune) string {
	var b strings.Builder
	for n := r.Intn(5) + 1; n > 0; n-- {
		switch r.Intn(12) {
		case 0, 1, 2:
			b.WriteString(globText([]el{list(r, al, "")}))
		case 3, 4, 5:
			b.WriteString(class(r, al, "").text)
		case 6:
			b.WriteString(pick(r, []string{"[a-c]", "[0-3]", "[z-a]", "[é-я]", "[aaa]", "[-]", "[a-]", "[-a]", "[яя]", "[a-c-e]", "[я]", "{}", "[]", "{,}", "{a}", "{я}", "{a,}"}))
		case 7:
			if r.Intn(3) == 0 {
				b.WriteString(pick(r, []string{"*", "?", "{", "[", "}", "]", "{{", "{a,[bc]}", "{a,*}", "[{]"}))
			}
		case 8:
			b.WriteByte('.')
		case 9:
			if r.Intn(3) == 0 {
				b.WriteString(pick(r, []string{"[1.*]", "[z-a.]", "[.-]", "[я-a.b]", "{.,a}", "{a.b,c}", "[.]", "[a.]", "{a.*,b}", "[.?]b", "{a[.],b}"}))
			} else {
				b.WriteString(edgeClass(r))
			}
		default:
			b.WriteString(noRunes(word(r, al, 3), "[]{}*?"))
		}
	}
	return clean(b.String())
}

// edgeClass makes a class around the limits of the UTF-8 lengths.
func edgeClass(r *rand.Rand) string {
	a := pick(r, edges) + rune(r.Intn(3)-1)
	b := a + rune(r.Intn(7)-1)
	if b > 0x10ffff {
		b = a
	}
	return clean(globText([]el{mkClass([]rng{{a, b}}, nil)}))
}

func genC13(g *Gen, emit func(c13In)) {
	max := 5
	if g.Thorough() {
		max = 6
	}
	for _, w := range allWords([]rune("ab,-[]{}*"), max) {
		if g.Mine() && (len(w) < 5 || g.Thorough() || g.R.Intn(6) == 0) {
			emit(c13In{T(w)})
		}
	}
	for g.More() {
		s := expandText(g.R, alphabet(g.R))
		if results(s) <= 400 {
			emit(c13In{T(s)})
		}
	}
}

type c14Call struct {
	M int  `json:"m"`
	D int  `json:"d"`
	T bool `json:"t"`
}
type c14In struct {
	S T         `json:"s"`
	C []c14Call `json:"c"`
}
type c14Out struct {
	R [][]T  `json:"r"`
	F [][]T  `json:"f"`
	E []bool `json:"e"`
}

func runC14(i *c14In, o *c14Out) {
	e := expand.ParseExpr(string(i.S))
	for _, c := range i.C {
		r, err := e.Expand(c.M, c.D, c.T)
		var f []string
		var err2 error
		if c.T {
			f, err2 = expand.ExpandTry(string(i.S), c.M, c.D)
		} else {
			f, err2 = expand.Expand(string(i.S), c.M, c.D)
		}
		o.R, o.F = append(o.R, ts(r)), append(o.F, ts(f))
		o.E = append(o.E, err != nil || err2 != nil)
	}
}

func call(r *rand.Rand, n int) c14Call {
	c := c14Call{M: pick(r, []int{-1, 0, 1, 2, 3, 4, n - 1, n, n + 1, 6, 12, -5, 1<<31 - 1, r.Intn(40)}), T: r.Intn(5) == 0}
	if r.Intn(2) == 0 {
		c.D = pick(r, []int{1, 2, 3, 1, 2, -1, 4, 1 << 30})
	}
	return c
}

func genC14(g *Gen, emit func(c14In)) {
	r := g.R
	// products that do not fit into any memory: only limited calls
	for _, s := range []string{strings.Repeat("[a-z]", 20), strings.Repeat("{a,b}", 40), "a." + strings.Repeat("{a,b,c}.", 30)} {
		if g.Mine() {
			in := c14In{S: T(s)}
			for _, c := range []c14Call{{1, 0, false}, {30, 0, false}, {1 << 30, 1, false}, {700, 0, true}, {0, 0, false}, {64, 2, false}, {-1, 0, true}} {
				if !(c.M < 0 && !c.T) && !(c.M > 1000 && s[0] != 'a') {
					in.C = append(in.C, c)
				}
			}
			emit(in)
		}
	}
	for g.More() {
		s := expandText(r, alphabet(r))
		if r.Intn(3) == 0 {
			al := alphabet(r)
			s = expandText(r, al) + "." + expandText(r, al) + "." + expandText(r, al)
		}
		n := results(s)
		if n > 300 {
			continue
		}
		in := c14In{S: T(s)}
		for k := r.Intn(5) + 3; k > 0; k-- {
			in.C = append(in.C, call(r, n))
		}
		emit(in)
	}
}

func init() {
	def("C13", runC13, func(i *c13In, o *c13Out) bool { return len(o.R) > 1 }, genC13)
	def("C14", runC14, func(i *c14In, o *c14Out) bool {
		for _, r := range o.R {
			if len(r) > 1 {
				return true
			}
		}
		return false
	}, genC14)
}
