package main

import "go/types"
import "golang.org/x/tools/go/ssa"

// deepEq is reflect.DeepEqual on values of type t.
func (w *Worker) deepEq(t types.Type, x, y Value, seen map[[2]*Value]bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, b := w.ptr(x), w.ptr(y)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		k := [2]*Value{a, b}
		if seen[k] {
			return true
		}
		seen[k] = true
		return w.deepEq(u.Elem(), *a, *b, seen)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r Value = true
		for i := range a {
			if r = w.and(r, w.deepEq(u.Elem(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		var r Value = true
		for i := range a {
			if r = w.and(r, w.deepEq(u.Elem(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		var r Value = true
		for i := range a {
			if r = w.and(r, w.deepEq(u.Field(i).Type(), a[i], b[i], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Map:
		a, b := x.(*MapV), y.(*MapV)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r Value = true
		for i, k := range a.keys {
			if _, gone := k.(tombstone); gone {
				continue
			}
			j := w.mapFind(b, k)
			if j < 0 {
				return false
			}
			if r = w.and(r, w.deepEq(u.Elem(), a.vals[i], b.vals[j], seen)); r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if w.canon(a.T) != w.canon(b.T) {
			return false
		}
		return w.deepEq(a.T, a.V, b.V, seen)
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		return a == nil && b == nil
	}
	return w.eq(t, x, y)
}

func init() {
	N("reflect.DeepEqual", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if w.canon(x.T) != w.canon(y.T) {
			return false
		}
		return w.deepEq(x.T, x.V, y.V, map[[2]*Value]bool{})
	})
	N("maps.clone", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		m := x.V.(*MapV)
		if m == nil {
			return x
		}
		if w.raceOn {
			w.raceMap(g, m, false)
		}
		c := &MapV{kt: m.kt, idx: map[string]int{}}
		for i, k := range m.keys {
			if _, gone := k.(tombstone); !gone {
				w.mapSet(c, k, copyVal(m.vals[i]))
			}
		}
		return Iface{x.T, c}
	})
}
