package main

import "reflect"

// C is the generic case: inputs I, outputs O, outcome X.
type C[I, O any] struct {
	I I      `json:"i"`
	O O      `json:"o"`
	X string `json:"x"`

	run func(*I, *O)
	nt  func(*I, *O) bool
}

func (c *C[I, O]) Exec() { c.run(&c.I, &c.O) }

func (c *C[I, O]) Outcome(s string) { c.X = s }

func (c *C[I, O]) Nontrivial() bool {
	if c.nt == nil {
		return true
	}
	return c.X == "ok" && c.nt(&c.I, &c.O)
}

func (c *C[I, O]) Blank() Case {
	return &C[I, O]{I: c.I, run: c.run, nt: c.nt}
}

// fixNil replaces nil slices by empty ones (no null in the traces).
func fixNil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			fixNil(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fixNil(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			if v.CanSet() {
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			}
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Int, reflect.Bool, reflect.String:
			return
		}
		for i := 0; i < v.Len(); i++ {
			fixNil(v.Index(i))
		}
	}
}

// def registers a property.
func def[I, O any](id string, run func(*I, *O), nt func(*I, *O) bool, gen func(g *Gen, emit func(I))) {
	mk := func(i I) *C[I, O] { return &C[I, O]{I: i, run: run, nt: nt} }
	props[id] = &Prop{
		New: func() Case { var i I; return mk(i) },
		Gen: func(g *Gen) { gen(g, func(i I) { g.Emit(mk(i)) }) },
	}
}
