package main

// C12: escaping and unescaping.

import (
	"bytes"
	"math/rand"
	"strings"

	"github.com/msaf1980/go-matcher/pkg/escape"
)

type c12In struct {
	S B `json:"s"`
	B B `json:"b"`
}
type c12Out struct {
	P  B `json:"p"`
	Q  B `json:"q"`
	PT B `json:"pt"`
	QT B `json:"qt"`
	U  B `json:"u"`
	UT B `json:"ut"`
	UB B `json:"ub"`
	N  B `json:"n"`
	NT B `json:"nt"`
	NB B `json:"nb"`
	UP B `json:"up"`
	UQ B `json:"uq"`
}

func runC12(i *c12In, o *c12Out) {
	s := string(i.S)
	p, q := escape.Path(s), escape.Query(s)
	o.P, o.Q = B(p), B(q)
	var b bytes.Buffer
	b.WriteString(string(i.B))
	escape.PathTo(s, &b)
	o.PT = B(b.String())
	b.Reset()
	b.WriteString(string(i.B))
	escape.QueryTo(s, &b)
	o.QT = B(b.String())
	o.U = B(escape.Unescape(s))
	var sb strings.Builder
	sb.WriteString(string(i.B))
	o.UT = B(escape.UnescapeTo(s, &sb))
	o.UB = B(sb.String())
	var nb strings.Builder
	nb.WriteString(string(i.B))
	n, nt := escape.UnescapeNameTo(s, &nb)
	o.N, o.NT, o.NB = B(n), B(nt), B(nb.String())
	o.UP, o.UQ = B(escape.Unescape(p)), B(escape.Unescape(q))
}

func byteWord(r *rand.Rand, max int) []byte {
	b := make([]byte, r.Intn(max+1))
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

func genC12(g *Gen, emit func(c12In)) {
	r := g.R
	buf := func() B {
		if r.Intn(2) == 0 {
			return ""
		}
		return B(byteWord(r, 5))
	}
	for c := 0; c < 256; c++ { // every byte alone and between others
		if g.Mine() {
			b := string([]byte{byte(c)})
			for _, s := range []string{b, "a" + b, b + "a", b + b, "%" + b, "%4" + b, "%" + b + "1", "+" + b} {
				emit(c12In{B(s), buf()})
			}
		}
	}
	max := 5
	if g.Thorough() {
		max = 6
	}
	for _, w := range allWords([]rune("a%+4g"), max) {
		if g.Mine() {
			emit(c12In{B(w), buf()})
		}
	}
	for _, w := range allWords([]rune(" /a\n"), 5) {
		if g.Mine() {
			emit(c12In{B(w), buf()})
		}
	}
	for g.More() {
		var s string
		switch r.Intn(5) {
		case 0:
			s = string(byteWord(r, 12))
		case 1:
			s = word(r, []rune("ab%+ 0123456789abcdefABCDEFgGé/"), 14)
		case 2:
			s = escape.Query(string(byteWord(r, 8))) + word(r, []rune("%aF+"), 3)
		case 3:
			s = word(r, []rune("abc"), 3) + strings.Repeat(pick(r, []string{"%41", " ", "é", "a", "/", "%", "+"}), r.Intn(30)) + word(r, []rune("abc%"), 3)
		default: // long ones
			s = strings.Repeat(word(r, []rune("abc"), 3), r.Intn(40)) + string(byteWord(r, 3)) + strings.Repeat("x", r.Intn(70))
		}
		emit(c12In{B(s), buf()})
	}
}

func init() {
	def("C12", runC12, func(i *c12In, o *c12Out) bool { return o.P != i.S || o.U != i.S }, genC12)
}
