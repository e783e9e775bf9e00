package main

// Text types of the trace protocol: the specification works on sequences of
// code points (T) or bytes (B), so both are written as JSON arrays of numbers.

import (
	"encoding/json"
	"strconv"
	"unicode/utf8"
)

// T is a UTF-8 text, written as an array of code points.  A byte that is not
// part of a valid encoding is written as 0x110000+byte, so that no two
// different Go strings are written alike.
type T string

// B is a byte string, written as an array of bytes.
type B string

func appendInts(dst []byte, first bool, v int) []byte {
	if !first {
		dst = append(dst, ',')
	}
	return strconv.AppendInt(dst, int64(v), 10)
}

func (t T) MarshalJSON() ([]byte, error) {
	dst := make([]byte, 1, 2+4*len(t))
	dst[0] = '['
	s := string(t)
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		v := int(c)
		if c == utf8.RuneError && n == 1 {
			v = 0x110000 + int(s[i])
		}
		dst = appendInts(dst, i == 0, v)
		i += n
	}
	return append(dst, ']'), nil
}

func (t *T) UnmarshalJSON(b []byte) error {
	var v []int
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	var out []byte
	for _, c := range v {
		if c >= 0x110000 {
			out = append(out, byte(c-0x110000))
		} else {
			out = utf8.AppendRune(out, rune(c))
		}
	}
	*t = T(out)
	return nil
}

func (t B) MarshalJSON() ([]byte, error) {
	dst := make([]byte, 1, 2+4*len(t))
	dst[0] = '['
	for i := 0; i < len(t); i++ {
		dst = appendInts(dst, i == 0, int(t[i]))
	}
	return append(dst, ']'), nil
}

func (t *B) UnmarshalJSON(b []byte) error {
	var v []int
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	out := make([]byte, len(v))
	for i, c := range v {
		out[i] = byte(c)
	}
	*t = B(out)
	return nil
}

func ts(ss []string) []T {
	out := make([]T, len(ss))
	for i, s := range ss {
		out[i] = T(s)
	}
	return out
}

func bs(ss []string) []B {
	out := make([]B, len(ss))
	for i, s := range ss {
		out[i] = B(s)
	}
	return out
}

func strs(v []T) []string {
	out := make([]string, len(v))
	for i, s := range v {
		out[i] = string(s)
	}
	return out
}

// ints never marshals to null
func ints(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}
