package main

// Input generators.  A generator builds globs as small syntax trees so that it
// can also produce texts that are likely (members, near misses) to exercise a
// glob; it never judges any result.

import (
	"math/rand"
	"strings"
	"unicode/utf8"
)

type rng struct{ a, b rune }

type el struct {
	k    byte // 'c' literal, '?', '*', '[' class, '{' list, '0' empty class
	c    rune
	cls  []rng
	text string // text of a class, as written
	alts [][]el
}

func lit(s string) (r []el) {
	for _, c := range s {
		r = append(r, el{k: 'c', c: c})
	}
	return
}

func elText(b *strings.Builder, e el) {
	switch e.k {
	case 'c':
		b.WriteRune(e.c)
	case '?', '*':
		b.WriteByte(e.k)
	case '[', '0':
		b.WriteString(e.text)
	case '{':
		b.WriteByte('{')
		for i, a := range e.alts {
			if i > 0 {
				b.WriteByte(',')
			}
			for _, x := range a {
				elText(b, x)
			}
		}
		b.WriteByte('}')
	}
}

func globText(es []el) string {
	var b strings.Builder
	for _, e := range es {
		elText(&b, e)
	}
	return b.String()
}

func pick[V any](r *rand.Rand, v []V) V { return v[r.Intn(len(v))] }

var (
	letters = []rune("abcdefgh")
	digits  = []rune("0123456789")
	puncts  = []rune("-_.!~ ,:;=&%+/\"'()^|$#@<>\\`\t\x01\x7f")
	two     = []rune("éяжабвэю\u0080\u07ff")
	three   = []rune("界畍€你世\u0800\uffff\ue000")
	four    = []rune("😀😁𝛂𝛃\U00010000\U0010ffff")
	edges   = []rune("|~\x7f\u0080\u0081\u07fe\u07ff\u0800\u0801\uffff\uffff\U00010000\U00010001")
)

// alphabet returns a small set of runes, so that texts collide often.
func alphabet(r *rand.Rand) []rune {
	n := r.Intn(4) + 2
	out := make([]rune, 0, n)
	mode := r.Intn(10)
	for i := 0; i < n; i++ {
		var c rune
		switch {
		case mode < 4:
			c = letters[r.Intn(3)]
		case mode < 6:
			c = pick(r, letters)
		default:
			switch r.Intn(8) {
			case 0, 1:
				c = pick(r, letters)
			case 2:
				c = pick(r, digits)
			case 3:
				c = pick(r, puncts)
			case 4, 5:
				c = pick(r, two)
			case 6:
				c = pick(r, three)
			default:
				c = pick(r, four)
			}
		}
		out = append(out, c)
	}
	return out
}

func word(r *rand.Rand, al []rune, max int) string {
	n := r.Intn(max + 1)
	b := make([]rune, n)
	for i := range b {
		b[i] = pick(r, al)
	}
	return string(b)
}

// class makes a class; banned runes never appear in its text.
func class(r *rand.Rand, al []rune, banned string) el {
	n := r.Intn(4)
	switch r.Intn(12) {
	case 0:
		n = 4 + r.Intn(6)
	case 1:
		n = 1
	}
	banned += "]-"
	var ms []rng
	ok := func(c rune) bool { return !strings.ContainsRune(banned, c) && c != 0xfffd && c != 0 }
	if r.Intn(16) == 0 { // many ranges of one block
		base := pick(r, []rune{'a', 0x430, 0x3b1, 0x4e00, 0x3041, 0x1f600})
		step := 2 + r.Intn(3)
		for n = 3 + r.Intn(12); n > 0; n-- {
			a := base + rune(r.Intn(15)*step)
			b := a
			if r.Intn(3) == 0 {
				b += rune(r.Intn(step + 1))
			}
			if ok(a) && ok(b) {
				ms = append(ms, rng{a, b})
			}
		}
	}
	for i := 0; i < n; i++ {
		a := pick(r, al)
		if r.Intn(6) == 0 {
			a = pick(r, []rune("*?{}[,+.zA09\x7f"))
		}
		if r.Intn(8) == 0 {
			a = pick(r, pick(r, [][]rune{two, three, four}))
		}
		if r.Intn(20) == 0 {
			a = pick(r, edges)
		}
		b := a
		if r.Intn(40) == 0 { // any end: may be out of order or of another length
			b = a + rune(r.Intn(9)-3)
			if r.Intn(3) == 0 {
				b = pick(r, edges)
			}
			if b < 1 || b > 0x10ffff || b >= 0xfffd && a < 0xfffd || a > 0xfffd && b <= 0xfffd {
				b = a
			}
		} else if r.Intn(3) == 0 {
			d := rune(r.Intn(5))
			if r.Intn(4) == 0 {
				d = rune(r.Intn(60))
			}
			if utf8.RuneLen(a+d) == utf8.RuneLen(a) && utf8.ValidRune(a+d) {
				b = a + d
			}
			if a <= 0xfffd && b >= 0xfffd {
				b = a
			}
		}
		if !ok(a) || !ok(b) {
			continue
		}
		ms = append(ms, rng{a, b})
	}
	if r.Intn(8) == 0 && len(ms) > 0 { // repeated and adjacent members
		m := pick(r, ms)
		if c := m.b + 1; ok(c) && utf8.RuneLen(c) == utf8.RuneLen(m.b) && r.Intn(2) == 0 {
			m = rng{c, c}
		}
		ms = append(ms, m)
	}
	return mkClass(ms, r)
}

func mkClass(ms []rng, r *rand.Rand) el {
	var b strings.Builder
	b.WriteByte('[')
	if r != nil && r.Intn(15) == 0 {
		b.WriteByte('-')
	}
	for _, m := range ms {
		b.WriteRune(m.a)
		if m.a != m.b || (r != nil && r.Intn(10) == 0) {
			b.WriteByte('-')
			b.WriteRune(m.b)
		}
	}
	if r != nil && r.Intn(15) == 0 {
		b.WriteByte('-')
	}
	b.WriteByte(']')
	e := el{k: '[', cls: ms, text: b.String()}
	if len(ms) == 0 {
		e.k = '0'
	}
	return e
}

// flat makes a glob without lists.
func flat(r *rand.Rand, al []rune, max int, banned string) (out []el) {
	for n := r.Intn(max + 1); n > 0; n-- {
		switch r.Intn(7) {
		case 0:
			out = append(out, el{k: '?'})
		case 1, 2:
			out = append(out, el{k: '*'})
		case 3:
			out = append(out, class(r, al, banned))
		default:
			out = append(out, lit(noRunes(word(r, al, 3), banned+"[]{}*?"))...)
		}
	}
	return
}

func noRunes(s, banned string) string {
	return strings.Map(func(c rune) rune {
		if strings.ContainsRune(banned, c) {
			return -1
		}
		return c
	}, s)
}

const inList = ",{}" // cannot be written inside of a list

func list(r *rand.Rand, al []rune, banned string) el {
	n := r.Intn(4) + 1
	if r.Intn(6) == 0 {
		n = 4 + r.Intn(9)
	}
	e := el{k: '{'}
	base := noRunes(word(r, al, 2), banned+inList+"[]*?")
	wild := r.Intn(3) == 0
	short := r.Intn(8) == 0 // values of one character
	if short {
		n += r.Intn(6)
	}
	for i := 0; i < n; i++ {
		var a []el
		if short {
			if w := noRunes(string(pick(r, al)), banned+inList+"[]*?"); w != "" && r.Intn(5) > 0 {
				a = lit(w)
			} else if r.Intn(3) > 0 {
				a = lit(string('a' + rune(r.Intn(20))))
			}
		} else if wild && r.Intn(2) == 0 {
			a = flat(r, al, 3, banned+inList)
		} else {
			w := noRunes(word(r, al, 3), banned+inList+"[]*?")
			if r.Intn(3) == 0 {
				w = base + w
			}
			a = lit(w)
		}
		e.alts = append(e.alts, a)
	}
	if r.Intn(8) == 0 { // repeated value
		e.alts = append(e.alts, pick(r, e.alts))
	}
	return e
}

// glob makes a random glob.
func glob1(r *rand.Rand, al []rune, max int, banned string) (out []el) {
	if max > 2 && r.Intn(6) == 0 {
		return related(r, al, banned)
	}
	n := r.Intn(max) + 1
	for ; n > 0; n-- {
		switch r.Intn(10) {
		case 0:
			out = append(out, el{k: '?'})
		case 1, 2:
			out = append(out, el{k: '*'})
		case 3:
			out = append(out, class(r, al, banned))
		case 4, 5, 6:
			out = append(out, list(r, al, banned))
		default:
			out = append(out, lit(noRunes(word(r, al, 3), banned+"[]{}*?"))...)
		}
	}
	return
}

// near makes a word out of another one: a piece of it, longer, doubled.
func near(r *rand.Rand, w string, al []rune) string {
	rs := []rune(w)
	switch r.Intn(7) {
	case 0:
		if len(rs) > 0 {
			return string(rs[r.Intn(len(rs)):])
		}
	case 1:
		if len(rs) > 0 {
			return string(rs[:r.Intn(len(rs))+1])
		}
	case 2:
		return w + string(pick(r, al))
	case 3:
		return string(pick(r, al)) + w
	case 4:
		return mutate(r, w, al)
	case 5:
		if len(rs) < 4 {
			return w + w
		}
	}
	return w
}

// related makes a glob of pieces that overlap each other, so that the same
// symbols may be taken by several elements (and a scan has to step back).
func related(r *rand.Rand, al []rune, banned string) (out []el) {
	if len(al) > 3 {
		al = al[:3]
	}
	w := ""
	for w == "" {
		w = noRunes(word(r, al, 2), banned+inList+"[]*?")
		if w == "" && r.Intn(4) == 0 {
			w = "a"
		}
	}
	text := func() []el { return lit(noRunes(near(r, w, al), banned+inList+"[]*?")) }
	wild := r.Intn(3) == 0
	stars := r.Intn(2) == 0 // a star after every one or two elements
	since := 0
	shape := ""
	if r.Intn(3) == 0 {
		shape = pick(r, []string{"*l{*l[", "*l{*l?", "*l{*l", "*l{l*l{", "*{*{*", "l*{l*[", "{*l{*l", "*?{*l", "l{*{*l[", "*l{?*l", "{l*{l", "*[{*[", "*{l[", "*l{{*l", "?{*l{", "*l{*{l"})
	}
	n := r.Intn(6) + 3
	if shape != "" {
		n = len(shape)
	}
	for i := 0; i < n; i++ {
		since++
		k := r.Intn(10)
		if shape != "" {
			k = map[byte]int{'*': 0, '?': 3, '[': 4, '{': 5, 'l': 8}[shape[i]]
		} else if stars {
			if since > 2 || (since == 2 && r.Intn(2) == 0) {
				k = 0
			} else {
				k = 3 + r.Intn(7)
			}
		}
		switch k {
		case 0, 1, 2:
			since = 0
			out = append(out, el{k: '*'})
		case 3:
			out = append(out, el{k: '?'})
		case 4:
			out = append(out, class(r, al, banned))
		case 5, 6, 7:
			e := el{k: '{'}
			for k := r.Intn(3) + 1; k > 0; k-- {
				a := text()
				if wild && r.Intn(2) == 0 {
					a = append(a, pick(r, [][]el{{{k: '*'}}, {{k: '?'}}, {{k: '*'}, {k: '?'}}, {class(r, al, banned+inList)}})...)
					if r.Intn(2) == 0 {
						a = append(a, text()...)
					}
				}
				e.alts = append(e.alts, a)
			}
			out = append(out, e)
		default:
			out = append(out, text()...)
		}
	}
	n = r.Intn(3)
	if shape != "" {
		n = 1 + r.Intn(2)
	}
	for ; n > 0; n-- {
		ambiguous(r, out, al, banned)
	}
	return
}

// ambiguous gives a list one more alternative, made of what may stand around
// the list and of one of its alternatives.
func ambiguous(r *rand.Rand, es []el, al []rune, banned string) {
	for _, i := range r.Perm(len(es)) {
		if es[i].k != '{' {
			continue
		}
		from, to := i, i+1
		if r.Intn(2) == 0 && from > 0 {
			from -= r.Intn(from + 1)
		}
		if r.Intn(2) == 0 {
			to += r.Intn(len(es) - to + 1)
		}
		if to-from > 5 {
			continue
		}
		var b strings.Builder
		for j := from; j < to; j++ {
			if es[j].k != '*' || r.Intn(3) == 0 {
				member(r, &b, es[j:j+1], al)
			}
		}
		es[i].alts = append(append([][]el{}, es[i].alts...), lit(noRunes(clean(b.String()), banned+inList+"[]*?")))
		return
	}
}

// vary changes one place of a glob.
func vary(r *rand.Rand, es []el, al []rune, banned string) []el {
	out := append([]el{}, es...)
	if len(out) == 0 {
		return lit(string(noRunes(string(pick(r, al)), banned+inList+"[]*?")))
	}
	i := r.Intn(len(out))
	e := out[i]
	letter := func(banned string) []el { return lit(noRunes(string(pick(r, al)), banned+inList+"[]*?")) }
	switch {
	case r.Intn(6) == 0:
		return append(out[:i:i], out[i+1:]...)
	case r.Intn(6) == 0:
		return append(append(out[:i:i], letter(banned)...), out[i:]...)
	}
	switch e.k {
	case '{':
		as := append([][]el{}, e.alts...)
		j := r.Intn(len(as))
		switch r.Intn(5) {
		case 0:
			as = append(as, letter(banned))
		case 1:
			if len(as) > 1 {
				as = append(as[:j:j], as[j+1:]...)
			}
		default:
			as[j] = vary(r, as[j], al, banned+inList)
		}
		out[i] = el{k: '{', alts: as}
	case '[':
		ms := append([]rng{}, e.cls...)
		j := r.Intn(len(ms))
		m := ms[j]
		d := rune(r.Intn(3) - 1)
		switch r.Intn(4) {
		case 0:
			m.b += d
		case 1:
			m.a += d
		case 2:
			m.a += d
			m.b += d
		default:
			c := pick(r, al)
			m = rng{c, c}
		}
		if m.a > 0 && m.a <= m.b && utf8.ValidRune(m.b) && utf8.RuneLen(m.a) == utf8.RuneLen(m.b) && m.a != utf8.RuneError && m.b != utf8.RuneError &&
			!strings.ContainsRune(banned+"]-", m.a) && !strings.ContainsRune(banned+"]-", m.b) {
			ms[j] = m
		}
		out[i] = mkClass(ms, nil)
	case 'c':
		if r.Intn(8) == 0 {
			out[i] = el{k: pick(r, []byte{'*', '?'})}
		} else if l := letter(banned); len(l) == 1 {
			out[i] = l[0]
		}
	default:
		out[i] = el{k: pick(r, []byte{'*', '?', '*', '?'})}
		if r.Intn(3) == 0 {
			return append(append(out[:i:i], el{k: pick(r, []byte{'*', '?'})}), out[i:]...)
		}
	}
	return out
}

// member makes a text of the glob's language (star runs are made of al).
func member(r *rand.Rand, b *strings.Builder, es []el, al []rune) {
	for _, e := range es {
		switch e.k {
		case 'c':
			b.WriteRune(e.c)
		case '?':
			b.WriteRune(pick(r, al))
		case '*':
			b.WriteString(word(r, al, 3))
		case '[':
			m := pick(r, e.cls)
			c := m.a
			if m.b > m.a {
				c += rune(r.Intn(int(m.b-m.a) + 1))
			}
			if !utf8.ValidRune(c) || c == utf8.RuneError {
				c = m.a
			}
			b.WriteRune(c)
		case '{':
			member(r, b, pick(r, e.alts), al)
		}
	}
}

func memberOf(r *rand.Rand, es []el, al []rune) string {
	var b strings.Builder
	member(r, &b, es, al)
	return b.String()
}

func mutate(r *rand.Rand, s string, al []rune) string {
	rs := []rune(s)
	c := pick(r, al)
	if len(rs) == 0 {
		return string(c)
	}
	i := r.Intn(len(rs))
	switch r.Intn(6) {
	case 0: // delete
		return string(rs[:i]) + string(rs[i+1:])
	case 1: // insert
		return string(rs[:i]) + string(c) + string(rs[i:])
	case 2: // append
		return s + string(c)
	case 3: // repeat a piece
		j := i + r.Intn(len(rs)-i)
		return string(rs[:j+1]) + string(rs[i:])
	case 4: // cut at the end / start
		if r.Intn(2) == 0 {
			return string(rs[:i])
		}
		return string(rs[i:])
	default:
		rs[i] = c
		return string(rs)
	}
}

// runes of a glob that may matter for a subject
func globRunes(es []el, dst []rune) []rune {
	for _, e := range es {
		switch e.k {
		case 'c':
			dst = append(dst, e.c)
		case '[':
			for _, m := range e.cls {
				dst = append(dst, m.a, m.b)
				if c := m.b + 1; utf8.ValidRune(c) && c != utf8.RuneError {
					dst = append(dst, c)
				}
				if c := m.a - 1; c > 0 && utf8.ValidRune(c) && c != utf8.RuneError {
					dst = append(dst, c)
				}
			}
		case '{':
			for _, a := range e.alts {
				dst = globRunes(a, dst)
			}
		}
	}
	return dst
}

// subject makes a text for a glob: a member, a near miss or random.
func subject(r *rand.Rand, es []el, al []rune) string {
	al2 := al
	if r.Intn(2) == 0 {
		if g := globRunes(es, nil); len(g) > 0 {
			al2 = g
		}
	}
	switch r.Intn(9) {
	case 8: // the elements in a row, some of them twice, stars taking members of their neighbours
		var b strings.Builder
		for i := range es {
			switch {
			case es[i].k == '*':
				for n := r.Intn(3); n > 0; n-- {
					j := r.Intn(len(es))
					if es[j].k != '*' {
						member(r, &b, es[j:j+1], al2)
					}
				}
			case r.Intn(5) == 0:
				member(r, &b, es[i:i+1], al2)
				fallthrough
			default:
				member(r, &b, es[i:i+1], al2)
			}
		}
		return clean(b.String())
	case 0:
		return clean(word(r, al2, 6))
	case 1, 2, 3:
		return clean(memberOf(r, es, al2))
	case 4, 5:
		return clean(mutate(r, memberOf(r, es, al2), al2))
	case 6:
		s := memberOf(r, es, al2)
		for n := r.Intn(3) + 1; n > 0; n-- {
			s = mutate(r, s, al2)
		}
		return clean(s)
	default:
		// a member of the glob with some elements left out
		var part []el
		for _, e := range es {
			if r.Intn(4) > 0 {
				part = append(part, e)
			}
		}
		return clean(memberOf(r, part, al2))
	}
}

func clean(s string) string { return noRunes(s, "\x00\ufffd") }

// tokens of the exhaustive enumeration
func tokens() [][]el {
	return [][]el{
		lit("a"), lit("b"), {{k: '?'}}, {{k: '*'}},
		{mkClass([]rng{{'a', 'b'}}, nil)},
		{mkClass(nil, nil)},
		{{k: '{', alts: [][]el{lit("a"), lit("b")}}},
		{{k: '{', alts: [][]el{lit(""), lit("a")}}},
		{{k: '{', alts: [][]el{lit("ab"), lit("a"), lit("b")}}},
		{{k: '{', alts: [][]el{append(lit("a"), el{k: '*'}), lit("b")}}},
		{{k: '{', alts: [][]el{{{k: '?'}, {k: 'c', c: 'b'}}, lit("a")}}},
		{{k: '{', alts: [][]el{{{k: '*'}, {k: 'c', c: 'a'}}, lit("")}}},
		lit("я"),
		{mkClass([]rng{{'a', 'a'}, {'я', 'я'}}, nil)},
	}
}

// allGlobs enumerates the token sequences of length 1..max.
func allGlobs(max int, f func([]el)) {
	tk := tokens()
	var rec func(cur []el, n int)
	rec = func(cur []el, n int) {
		if n == 0 {
			return
		}
		for _, t := range tk {
			c := append(append([]el{}, cur...), t...)
			f(c)
			rec(c, n-1)
		}
	}
	rec(nil, max)
}

// allWords enumerates all words over al up to length max (shortest first).
func allWords(al []rune, max int) []string {
	out := []string{""}
	cur := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range cur {
			for _, c := range al {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}
