package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value representation
//
//	bool            bool | *Term(w=0)
//	integers        uint64 (masked to width) | *Term
//	floats          float64
//	string          string | *SymStr
//	pointer         *Value | *SymPtr
//	slice           Slice   (shared Go backing)
//	array, struct   Array, Struct
//	map             *MapV
//	func            *Closure
//	interface       Iface
//	chan            *ChanV
//	unsafe.Pointer  any of the pointer kinds
type Value = any

type SymStr struct{ b []Value }
type SymPtr struct {
	elems []Value
	idx   *Term
}
type Slice []Value
type Array []Value
type Struct []Value
type Tuple []Value
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(w *Worker, g *G, args []Value) Value
	name   string
}
type Poison struct{ why string }

type MapV struct {
	keys  []Value // tombstone: deleted
	vals  []Value
	idx   map[string]int
	n     int
	symb  int // number of keys not hashable concretely
	kt    types.Type
	clock vclock
}
type tombstone struct{}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	clk    vclock
	// rendezvous for unbuffered channels
	slot    Value
	full    bool
	taken   bool
	sendN   int
	waiting int
}

var nilPtr = (*Value)(nil)

type hasherT struct {
	m typeutil.Map
}

func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonFast[t]; ok {
		return c
	}
	c := w.canonM.At(t)
	if c == nil {
		w.canonM.Set(t, t)
		c = t
	}
	w.canonFast[t] = c.(types.Type)
	return c.(types.Type)
}

func sizeOf(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	case types.UntypedRune:
		return 32, true, true
	}
	return 0, false, false
}

func intType(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	return sizeOf(b)
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return nilPtr
		case t.Kind() == types.UntypedNil:
			return Iface{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return u64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Array:
		a := make(Array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case Array, Struct:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(engErr("zero of %s", t))
}

// small-int cache to avoid boxing allocations
var smallInts [1024]Value

func init() {
	for i := range smallInts {
		smallInts[i] = uint64(i)
	}
}

func u64(v uint64) Value {
	if v < 1024 {
		return smallInts[v]
	}
	return v
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(engErr("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return smallInts[v[i]]
	case *SymStr:
		return v.b[i]
	}
	panic(engErr("strAt of %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = smallInts[v[i]]
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(engErr("strBytes of %T", v))
}

// mkStr takes ownership of b.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(append([]Value(nil), v.b[lo:hi]...))
	}
	panic(engErr("strSlice of %T", v))
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

// show renders a value for messages; symbolic parts via model m (may be nil).
func (w *Worker) show(v Value, m Model) string {
	switch v := v.(type) {
	case *Term:
		if m == nil {
			return "<sym>"
		}
		return fmt.Sprint(v.Eval(m, evalCache{}))
	case *SymStr:
		var sb strings.Builder
		for _, x := range v.b {
			switch x := x.(type) {
			case uint64:
				sb.WriteByte(byte(x))
			case *Term:
				if m == nil {
					sb.WriteByte('?')
				} else {
					sb.WriteByte(byte(x.Eval(m, evalCache{})))
				}
			}
		}
		return fmt.Sprintf("%q", sb.String())
	case string:
		return fmt.Sprintf("%q", v)
	case Slice:
		allb := len(v) > 0
		for _, x := range v {
			switch x := x.(type) {
			case uint64:
				if x > 255 {
					allb = false
				}
			case *Term:
				if x.w != 8 {
					allb = false
				}
			default:
				allb = false
			}
		}
		if allb {
			return "b" + w.show(mkStr(append([]Value(nil), v...)), m)
		}
		var p []string
		for _, x := range v {
			p = append(p, w.show(x, m))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, w.show(x, m))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return w.show(Slice(v), m)
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return w.show(v.V, m)
	case *Value:
		if v == nil {
			return "nil"
		}
		return "ptr"
	case bool, uint64, float64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

// keyString gives a canonical encoding of a fully concrete map key.
func (w *Worker) keyString(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case string:
		fmt.Fprintf(sb, "s%d:", len(v))
		sb.WriteString(v)
	case uint64:
		fmt.Fprintf(sb, "u%d;", v)
	case bool:
		if v {
			sb.WriteString("T")
		} else {
			sb.WriteString("F")
		}
	case float64:
		if v == 0 {
			v = 0
		}
		fmt.Fprintf(sb, "f%x;", math.Float64bits(v))
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
	case *MapV:
		fmt.Fprintf(sb, "m%p;", v)
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", v)
	case *Closure:
		panic(w.goPanicStr("hash of unhashable type func"))
	case Slice:
		panic(w.goPanicStr("hash of unhashable type slice"))
	case Struct:
		sb.WriteByte('{')
		for _, x := range v {
			if !w.keyString(x, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	case Array:
		sb.WriteByte('[')
		for _, x := range v {
			if !w.keyString(x, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case Iface:
		if v.T == nil {
			sb.WriteByte('N')
			return true
		}
		fmt.Fprintf(sb, "i%p:", w.canon(v.T))
		return w.keyString(v.V, sb)
	default:
		return false
	}
	return true
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// type parameter instantiated etc.
		panic(engErr("const of type %s", c.Type()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsInteger != 0:
		w, _, _ := sizeOf(t)
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return u64(uint64(i) & mask(w))
		}
		u, _ := constant.Uint64Val(cv)
		return u64(u & mask(w))
	case t.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case t.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case t.Kind() == types.UnsafePointer:
		return nilPtr
	}
	panic(engErr("const %s", c))
}

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

func engErr(f string, a ...any) engineError { return engineError{fmt.Sprintf(f, a...)} }
