package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// natives: functions whose meaning is given to the engine directly.
var natives = map[string]nativeFn{}

// redirects: functions replaced by a Go model in package vmodel.
var redirects = map[string]string{
	"os.Open":                       "Os_Open",
	"os.Create":                     "Os_Create",
	"os.OpenFile":                   "Os_OpenFile",
	"os.Stat":                       "Os_Stat",
	"os.Lstat":                      "Os_Lstat",
	"os.Mkdir":                      "Os_Mkdir",
	"os.MkdirAll":                   "Os_MkdirAll",
	"os.Remove":                     "Os_Remove",
	"os.RemoveAll":                  "Os_RemoveAll",
	"os.Rename":                     "Os_Rename",
	"os.Symlink":                    "Os_Symlink",
	"os.Readlink":                   "Os_Readlink",
	"os.Chmod":                      "Os_Chmod",
	"os.Chtimes":                    "Os_Chtimes",
	"os.Truncate":                   "Os_Truncate",
	"os.Getwd":                      "Os_Getwd",
	"os.Chdir":                      "Os_Chdir",
	"os.ReadDir":                    "Os_ReadDir",
	"os.ReadFile":                   "Os_ReadFile",
	"os.WriteFile":                  "Os_WriteFile",
	"os.MkdirTemp":                  "Os_MkdirTemp",
	"os.CreateTemp":                 "Os_CreateTemp",
	"os.SameFile":                   "Os_SameFile",
	"os.Exit":                       "Os_Exit",
	"(*os.File).Close":              "File_Close",
	"(*os.File).Name":               "File_Name",
	"(*os.File).Read":               "File_Read",
	"(*os.File).ReadAt":             "File_ReadAt",
	"(*os.File).WriteTo":            "File_WriteTo",
	"(*os.File).Write":              "File_Write",
	"(*os.File).WriteString":        "File_WriteString",
	"(*os.File).ReadFrom":           "File_ReadFrom",
	"(*os.File).Sync":               "File_Sync",
	"(*os.File).Chmod":              "File_Chmod",
	"(*os.File).Truncate":           "File_Truncate",
	"(*os.File).Seek":               "File_Seek",
	"(*os.File).Stat":               "File_Stat",
	"(*os.File).Readdir":            "File_Readdir",
	"(*os.File).Readdirnames":       "File_Readdirnames",
	"(*os.File).ReadDir":            "File_ReadDir",
	"(*os.File).Fd":                 "File_Fd",
	"(*os.File).SetDeadline":        "File_SetDeadline",
	"github.com/gobuffalo/here.run": "Here_run",
	vsymPath + ".OpenFiles":         "Vsym_OpenFiles",
	vsymPath + ".LimitFileSize":     "Vsym_LimitFileSize",
	"compress/gzip.NewWriter":       "Gzip_NewWriter",
	"compress/gzip.NewWriterLevel":  "Gzip_NewWriterLevel",
	"compress/gzip.NewReader":       "Gzip_NewReader",
	"(*compress/gzip.Writer).Write": "GzipW_Write",
	"(*compress/gzip.Writer).Flush": "GzipW_Flush",
	"(*compress/gzip.Writer).Close": "GzipW_Close",
	"(*compress/gzip.Reader).Read":  "GzipR_Read",
	"(*compress/gzip.Reader).Close": "GzipR_Close",
	"(*compress/gzip.Writer).Reset": "GzipW_Reset",
	"(*compress/gzip.Reader).Reset": "GzipR_Reset",

	"encoding/json.NewDecoder":        "Json_NewDecoder",
	"(*encoding/json.Decoder).Decode": "JsonD_Decode",
	"(*encoding/json.Decoder).More":   "JsonD_More",

	"(*sync.Cond).Wait":      "Cond_Wait",
	"(*sync.Cond).Signal":    "Cond_Signal",
	"(*sync.Cond).Broadcast": "Cond_Broadcast",
	"time.NewTimer":          "Time_NewTimer",
	"time.AfterFunc":         "Time_AfterFunc",
	"(*time.Timer).Stop":     "Timer_Stop",
	"time.Sleep":             "Time_Sleep",
}

// skipInit: packages whose variables the code under analysis never needs.
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "reflect": true, "crypto/tls": true,
	"internal/runtime/atomic": true, "runtime/debug": true, "internal/godebug": true, "testing": true,
	"net": true, "vendor/golang.org/x/net/http2/hpack": true, "compress/flate": true, "fmt": true,
	"internal/poll": true, "os/exec": true, "os/signal": true, "encoding/json": true,
	"internal/testlog": true, "math/rand": true, "math/rand/v2": true, "flag": true,
	"regexp": true, "regexp/syntax": true, "text/template": true, "text/template/parse": true,
}

func N(name string, f nativeFn) { natives[name] = f }

func str(w *Worker, v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(w.concretize(x))
			}
		}
		return string(b)
	}
	panic(engErr("str of %T", v))
}

func i64(v Value) int64 {
	u, ok := v.(uint64)
	if !ok {
		panic(engErr("symbolic integer where a concrete one is needed"))
	}
	return int64(u)
}

var none = Tuple(nil)

func (w *Worker) errNew(g *G, msg Value) Value {
	f := w.p.byPath["errors"].Func("New")
	return w.callFn(g, g.top, f, []Value{msg}, nil)
}

func (w *Worker) namedPtr(pkg, name string) types.Type {
	p := w.p.byPath[pkg]
	if p == nil || p.Type(name) == nil {
		panic(engErr("no type %s.%s", pkg, name))
	}
	return types.NewPointer(p.Type(name).Type())
}

// eqByte returns a condition value for b == c.
func (w *Worker) eqByte(b, c Value) Value {
	x, ok := b.(uint64)
	y, ok2 := c.(uint64)
	if ok && ok2 {
		return x == y
	}
	return fromTerm(w.tc.Eq(w.toTerm(b, 8), w.toTerm(c, 8)))
}

func (w *Worker) inRange(b Value, lo, hi byte) Value {
	if x, ok := b.(uint64); ok {
		return byte(x) >= lo && byte(x) <= hi
	}
	t := b.(*Term)
	return fromTerm(w.tc.And(w.tc.Cmp(OUle, w.tc.BV(8, uint64(lo)), t), w.tc.Cmp(OUle, t, w.tc.BV(8, uint64(hi)))))
}

func (w *Worker) matchAt(s, sub []Value, i int) bool {
	return w.boolOf(w.bytesEq(s[i:i+len(sub)], sub))
}

func (w *Worker) indexOf(s, sub []Value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if w.matchAt(s, sub, i) {
			return i
		}
	}
	return -1
}

func (w *Worker) lastIndexOf(s, sub []Value) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if w.matchAt(s, sub, i) {
			return i
		}
	}
	return -1
}

func allConc(vs ...Value) bool {
	for _, v := range vs {
		if _, ok := v.(string); !ok {
			return false
		}
	}
	return true
}

func init() {
	// ---- bytealg and strings kernels (assembly or unsafe in the library) ----
	idxByte := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		var s []Value
		if sl, ok := a[0].(Slice); ok {
			s = sl
		} else {
			s = strBytes(a[0])
		}
		return u64(uint64(w.indexOf(s, []Value{a[1]})))
	}
	N("internal/bytealg.IndexByteString", idxByte)
	N("internal/bytealg.IndexByte", idxByte)
	N("strings.IndexByte", idxByte)
	N("internal/stringslite.IndexByte", idxByte)
	N("bytes.IndexByte", idxByte)
	lastIdxByte := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		var s []Value
		if sl, ok := a[0].(Slice); ok {
			s = sl
		} else {
			s = strBytes(a[0])
		}
		return u64(uint64(w.lastIndexOf(s, []Value{a[1]})))
	}
	N("internal/bytealg.LastIndexByteString", lastIdxByte)
	N("internal/bytealg.LastIndexByte", lastIdxByte)
	N("strings.LastIndexByte", lastIdxByte)
	index := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if allConc(a[0], a[1]) {
			return u64(uint64(int64(strings.Index(a[0].(string), a[1].(string)))))
		}
		return u64(uint64(int64(w.indexOf(strBytes(a[0]), strBytes(a[1])))))
	}
	N("strings.Index", index)
	N("internal/stringslite.Index", index)
	N("strings.LastIndex", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return u64(uint64(int64(w.lastIndexOf(strBytes(a[0]), strBytes(a[1])))))
	})
	N("bytes.Index", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return u64(uint64(int64(w.indexOf(a[0].(Slice), a[1].(Slice)))))
	})
	N("strings.Count", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		if len(sub) == 0 {
			f := w.p.byPath["unicode/utf8"].Func("RuneCountInString")
			n := w.callFn(g, g.top, f, []Value{a[0]}, nil)
			return u64(uint64(w.concInt(n, types.Typ[types.Int]) + 1))
		}
		n := 0
		for i := 0; i+len(sub) <= len(s); {
			if w.matchAt(s, sub, i) {
				n++
				i += len(sub)
			} else {
				i++
			}
		}
		return u64(uint64(n))
	})
	N("internal/bytealg.Count", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, b := range a[0].(Slice) {
			if w.boolOf(w.eqByte(b, a[1])) {
				n++
			}
		}
		return u64(uint64(n))
	})
	natives["internal/bytealg.CountString"] = func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, b := range strBytes(a[0]) {
			if w.boolOf(w.eqByte(b, a[1])) {
				n++
			}
		}
		return u64(uint64(n))
	}
	N("bytes.Equal", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.bytesEq(a[0].(Slice), a[1].(Slice))
	})
	N("internal/bytealg.Equal", natives["bytes.Equal"])
	cmpB := func(w *Worker, x, y []Value) Value {
		if w.boolOf(w.bytesEq(x, y)) {
			return u64(0)
		}
		if w.boolOf(w.bytesLess(x, y, false)) {
			return u64(^uint64(0))
		}
		return u64(1)
	}
	N("internal/bytealg.Compare", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return cmpB(w, a[0].(Slice), a[1].(Slice))
	})
	N("bytes.Compare", natives["internal/bytealg.Compare"])
	N("strings.Compare", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return cmpB(w, strBytes(a[0]), strBytes(a[1]))
	})
	N("internal/bytealg.CompareString", natives["strings.Compare"])
	N("cmp.Compare", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		switch a[0].(type) {
		case string, *SymStr:
			return cmpB(w, strBytes(a[0]), strBytes(a[1]))
		}
		t := fn.Signature.Params().At(0).Type()
		if w.boolOf(w.eq(t, a[0], a[1])) {
			return u64(0)
		}
		if w.boolOf(w.binop(token.LSS, t, t, a[0], a[1])) {
			return u64(^uint64(0))
		}
		return u64(1)
	})
	N("internal/bytealg.MakeNoZero", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		n := w.concInt(a[0], types.Typ[types.Int])
		if n > 1<<20 {
			panic(engErr("MakeNoZero %d", n))
		}
		s := make(Slice, n)
		for i := range s {
			s[i] = u64(0)
		}
		return s
	})
	// ---- strings.Builder (unsafe string view) ----
	N("(*strings.Builder).copyCheck", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	N("(*strings.Builder).String", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		s := (*p).(Struct)
		buf := s[len(s)-1].(Slice)
		return mkStr(append([]Value(nil), buf...))
	})
	N("internal/abi.NoEscape", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	N("internal/abi.Escape", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	N("strings.Clone", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	N("internal/stringslite.Clone", natives["strings.Clone"])
	// ---- unicode/utf8 fast paths keep their Go bodies ----

	// ---- math ----
	N("math.Max", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return math.Max(a[0].(float64), a[1].(float64))
	})
	N("math.Min", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return math.Min(a[0].(float64), a[1].(float64))
	})
	N("math.Float64bits", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return u64(math.Float64bits(a[0].(float64))) })
	N("math.Float64frombits", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return math.Float64frombits(a[0].(uint64)) })
	N("math.Float32bits", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return u64(uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	N("math.Float32frombits", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	})
	for nm, f := range map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Round": math.Round} {
		f := f
		N(nm, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	bitsN := func(name string, f func(uint64) int) {
		N("math/bits."+name, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
			var u uint64
			switch x := a[0].(type) {
			case uint64:
				u = x
			case *Term:
				u = w.concretize(x)
			}
			return u64(uint64(f(u)))
		})
	}
	bitsN("Len", bits.Len64)
	bitsN("Len64", bits.Len64)
	bitsN("Len32", bits.Len64)
	bitsN("Len16", bits.Len64)
	bitsN("Len8", bits.Len64)
	bitsN("LeadingZeros64", bits.LeadingZeros64)
	bitsN("TrailingZeros64", bits.TrailingZeros64)
	bitsN("TrailingZeros", bits.TrailingZeros64)
	bitsN("TrailingZeros32", func(u uint64) int { return bits.TrailingZeros32(uint32(u)) })
	bitsN("OnesCount64", bits.OnesCount64)
	bitsN("OnesCount", bits.OnesCount64)

	// ---- sort.Slice: reflection replaced, the library's algorithm kept ----
	sortSlice := func(alg string) nativeFn {
		return func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
			ifc := a[0].(Iface)
			s := ifc.V.(Slice)
			swap := &Closure{name: "swap", native: func(w *Worker, g *G, b []Value) Value {
				i, j := w.concInt(b[0], types.Typ[types.Int]), w.concInt(b[1], types.Typ[types.Int])
				x, y := copyVal(s[i]), copyVal(s[j])
				if w.raceOn {
					w.raceCell(g, &s[i], true)
					w.raceCell(g, &s[j], true)
				}
				w.storeCell(&s[i], y)
				w.storeCell(&s[j], x)
				return none
			}}
			ls := Struct{a[1], swap}
			n := len(s)
			f := w.p.byPath["sort"].Func(alg)
			args := []Value{ls, u64(0), u64(uint64(n))}
			if alg == "pdqsort_func" {
				args = append(args, u64(uint64(bits.Len(uint(n)))))
			} else {
				args = []Value{ls, u64(uint64(n))}
			}
			w.callFn(g, g.top, f, args, nil)
			return none
		}
	}
	N("sort.Slice", sortSlice("pdqsort_func"))
	N("sort.SliceStable", sortSlice("stable_func"))

	N("sort.SliceIsSorted", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		for i := len(s) - 1; i > 0; i-- {
			switch r := w.Call(g, a[1], u64(uint64(i)), u64(uint64(i-1))).(type) {
			case bool:
				if r {
					return false
				}
			case *Term:
				if w.decide(r) {
					return false
				}
			}
		}
		return true
	})
	// ---- time ----
	N("time.Now", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if w.run == nil {
			return Struct{u64(0), u64(63072000000 + 62135596800), nilPtr}
		}
		w.run.ss.now++
		// wall: nanoseconds; ext: seconds since year 1; loc nil = UTC
		return Struct{u64(uint64(w.run.ss.now)), u64(63800000000), nilPtr}
	})
	N("time.runtimeNano", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return u64(1) })
	N("time.runtimeNow", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return Tuple{u64(0), u64(0), u64(0)} })
	N("(*time.Location).get", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p, _ := a[0].(*Value)
		if p == nil {
			i := w.p.globalIdx(w.p.byPath["time"].Var("utcLoc"))
			return w.global(i, w.p.byPath["time"].Var("utcLoc"))
		}
		return p
	})

	// ---- runtime bits ----
	N("runtime.GOROOT", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return "/goroot" })
	N("runtime.KeepAlive", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	N("runtime.SetFinalizer", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	N("runtime.Gosched", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.schedule(g, nil); return none })
	N("internal/race.Acquire", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	N("(*internal/godebug.Setting).Value", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return "" })
	N("(*internal/godebug.Setting).IncNonDefault", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	N("internal/godebug.New", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return nilPtr })
	N("os.runtime_args", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return Slice(nil) })
	N("os.NewFile", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		v := new(Value)
		*v = zero(w.p.byPath["os"].Type("File").Type())
		return v
	})
	N("syscall.Getpagesize", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return u64(4096) })
	N("syscall.runtime_envs", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return Slice(nil) })
	N("os.Getenv", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return "" })
	N("internal/reflectlite.TypeOf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		panic(engErr("reflectlite.TypeOf"))
	})
	// errors.As uses reflection; errors.Is only checks comparability
	N("errors.Is", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.errorsIs(g, a[0].(Iface), a[1].(Iface))
	})
	N("errors.As", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		if tgt.T == nil {
			panic(w.goPanicStr("errors: target cannot be nil"))
		}
		return w.errorsAs(g, a[0].(Iface), tgt.T.Underlying().(*types.Pointer).Elem(), w.ptr(tgt.V))
	})
	N("strconv.ParseFloat", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		f, err := strconv.ParseFloat(str(w, a[0]), int(i64(a[1])))
		if err != nil {
			return Tuple{f, w.errNew(g, err.Error())}
		}
		return Tuple{f, Iface{}}
	})
}

func (w *Worker) errorsIs(g *G, err, target Iface) bool {
	for depth := 0; depth < 20; depth++ {
		if err.T == nil || target.T == nil {
			return err.T == nil && target.T == nil
		}
		if w.canon(err.T) == w.canon(target.T) && types.Comparable(err.T) && w.boolOf(w.eq(err.T, err.V, target.V)) {
			return true
		}
		if m := w.methodByName(err.T, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
			if w.boolOf(w.callFn(g, g.top, m, []Value{err.V, target}, nil)) {
				return true
			}
		}
		m := w.methodByName(err.T, "Unwrap")
		if m == nil {
			return false
		}
		r := w.callFn(g, g.top, m, []Value{err.V}, nil)
		switch r := r.(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if w.errorsIs(g, e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (w *Worker) errorsAs(g *G, err Iface, t types.Type, dst *Value) bool {
	for depth := 0; depth < 20 && err.T != nil; depth++ {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if w.implements(err.T, it, t) {
				w.setCell(dst, err)
				return true
			}
		} else if w.canon(err.T) == w.canon(t) {
			w.storeCell(dst, err.V)
			return true
		}
		m := w.methodByName(err.T, "Unwrap")
		if m == nil {
			return false
		}
		r, ok := w.callFn(g, g.top, m, []Value{err.V}, nil).(Iface)
		if !ok {
			return false
		}
		err = r
	}
	return false
}

// ---- vsym: the harness interface ----

func init() {
	V := func(n string, f nativeFn) { N(vsymPath+"."+n, f) }
	name := func(w *Worker, v Value) string { return str(w, v) }
	V("Byte", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.fresh(name(w, a[0]), 8, 'a')
	})
	V("Bool", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.fresh(name(w, a[0]), 0, 0)
	})
	V("Uint64", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.fresh(name(w, a[0]), 64, 0)
	})
	V("Int", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		lo, hi := i64(a[1]), i64(a[2])
		if lo == hi {
			nm, occ := w.freshName(name(w, a[0]))
			w.run.inputs = append(w.run.inputs, Input{Name: nm, Occ: occ, conc: true, val: uint64(lo)})
			return u64(uint64(lo))
		}
		t := w.fresh(name(w, a[0]), 64, uint64(lo))
		w.assume(fromTerm(w.tc.And(w.tc.Cmp(OSle, w.tc.BV(64, uint64(lo)), t), w.tc.Cmp(OSle, t, w.tc.BV(64, uint64(hi))))))
		return t
	})
	V("Choose", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return u64(uint64(w.choose(name(w, a[0]), int(i64(a[1])))))
	})
	symBytes := func(w *Worker, a []Value) []Value {
		n := w.concInt(a[1], types.Typ[types.Int])
		nm := name(w, a[0])
		b := make([]Value, n)
		for i := range b {
			b[i] = w.fresh(nm, 8, 'a')
		}
		return b
	}
	V("String", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return mkStr(symBytes(w, a)) })
	V("Bytes", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return Slice(symBytes(w, a)) })
	// StringOf: n symbolic bytes drawn from an alphabet
	V("StringOf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		nm, alpha := name(w, a[0]), str(w, a[1])
		n := int(w.concInt(a[2], types.Typ[types.Int]))
		set := map[byte]bool{}
		for i := 0; i < len(alpha); i++ {
			set[alpha[i]] = true
		}
		var cs []int
		for c := range set {
			cs = append(cs, int(c))
		}
		sort.Ints(cs)
		b := make([]Value, n)
		for i := range b {
			t := w.fresh(nm, 8, uint64(alpha[0]))
			// contiguous ranges
			c := w.tc.False
			for j := 0; j < len(cs); {
				k := j
				for k+1 < len(cs) && cs[k+1] == cs[k]+1 {
					k++
				}
				if k == j {
					c = w.tc.Or(c, w.tc.Eq(t, w.tc.BV(8, uint64(cs[j]))))
				} else {
					c = w.tc.Or(c, w.tc.And(w.tc.Cmp(OUle, w.tc.BV(8, uint64(cs[j])), t), w.tc.Cmp(OUle, t, w.tc.BV(8, uint64(cs[k])))))
				}
				j = k + 1
			}
			w.assume(fromTerm(c))
			b[i] = t
			if t.op == OVar {
				if v, ok := w.run.pinned[t]; ok {
					b[i] = u64(v)
				}
			}
		}
		return mkStr(b)
	})
	V("Assume", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.assume(a[0]); return none })
	V("Assert", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		w.check(a[0], str(w, a[1]), func() string {
			var p []string
			if len(a) > 2 {
				for _, x := range a[2].(Slice) {
					p = append(p, w.show(x, w.run.model))
				}
			}
			return strings.Join(p, " ")
		})
		return none
	})
	V("Cover", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		w.run.covers = append(w.run.covers, str(w, a[0]))
		return none
	})
	obs := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		v := a[1]
		if s, ok := v.(Slice); ok {
			v = append(Slice(nil), s...)
		}
		w.run.obs = append(w.run.obs, Obs{str(w, a[0]), v})
		return none
	}
	V("ObserveS", obs)
	V("ObserveI", obs)
	V("ObserveB", obs)
	V("Symbolic", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return true })
	V("Register", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return true })
	V("PermuteMaps", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		w.run.permMaps = w.boolOf(a[0])
		return none
	})
	V("Param", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if v, ok := w.ex.cfg.Params[str(w, a[0])]; ok {
			return u64(uint64(v))
		}
		return a[1]
	})
	V("Root", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return "/w/d/root" })
	V("Yield", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.schedule(g, nil); return none })
	V("Fork", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return u64(0) })
	V("Enter", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	V("Concrete", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return str(w, a[0]) })
	V("ConcreteInt", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return u64(uint64(w.concInt(a[0], types.Typ[types.Int])))
	})
	V("Note", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if w.run.notes == nil {
			w.run.notes = map[string]bool{}
		}
		w.run.notes[str(w, a[0])] = true
		return none
	})
	// Catch runs f and reports whether it panicked.
	V("Catch", func(w *Worker, g *G, fn *ssa.Function, a []Value) (ret Value) {
		depth, model, top := g.depth, g.model, g.top
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok || tp.fatal {
				panic(r)
			}
			g.depth, g.model, g.top = depth, model, top
			msg := w.panicMsg(g, tp)
			if os_debug {
				fmt.Println("caught", msg, tp.trace)
			}
			ret = Tuple{true, msg}
		}()
		w.Call(g, a[0])
		return Tuple{false, ""}
	})
	// And/Or/Ite without forking
	V("And", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return w.and(a[0], a[1]) })
	V("Or", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return fromTerm(w.tc.Or(w.toTerm(a[0], 0), w.toTerm(a[1], 0)))
	})
	V("Not", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return fromTerm(w.tc.Not(w.toTerm(a[0], 0)))
	})
	V("EqS", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return w.strEq(a[0], a[1]) })
	V("EqB", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.bytesEq(a[0].(Slice), a[1].(Slice))
	})
}

var os_debug = false
