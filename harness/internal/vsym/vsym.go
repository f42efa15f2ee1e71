// Package vsym is the harness side of the symbolic executor: inputs, assumptions
// and assertions. Under the engine every function here is intrinsic; compiled
// natively the inputs come from a replay vector.
package vsym

import (
	"encoding/json"
	"fmt"
	"github.com/markbates/pkger/internal/vsync"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// State of one native replay.
type State struct {
	In     map[string]uint64
	occ    map[string]int
	Params map[string]int
	Obs    []Ob
	Covers []string
	Fail   *Failure
	Skip   string
	root   string
	mu     sync.Mutex
}

type Ob struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type Failure struct {
	Label string
	Msg   string
}

type assumeFail struct{}

var cur *State
var limited bool
var reg = map[string]func(){}

func Register(name string, f func()) bool { reg[name] = f; return true }

func next(name string, least uint64) uint64 {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	name = clean(name)
	k := cur.occ[name]
	cur.occ[name] = k + 1
	v, ok := cur.In[name+"#"+strconv.Itoa(k)]
	if !ok {
		// the engine did not come this far
		return least
	}
	return v
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func Byte(name string) byte           { return byte(next(name, 0)) }
func Bool(name string) bool           { return next(name, 0) != 0 }
func Uint64(name string) uint64       { return next(name, 0) }
func Int(name string, lo, hi int) int { return int(next(name, uint64(lo))) }
func Choose(name string, n int) int   { return int(next(name, 0)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, 0))
	}
	return b
}
func String(name string, n int) string { return string(Bytes(name, n)) }
func StringOf(name, alpha string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, uint64(alpha[0])))
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

func Assert(c bool, label string, info ...interface{}) {
	if !c {
		cur.mu.Lock()
		if cur.Fail == nil {
			cur.Fail = &Failure{label, fmt.Sprintf("%v", info)}
		}
		cur.mu.Unlock()
		panic(*cur.Fail)
	}
}

func Cover(label string)              { cur.mu.Lock(); cur.Covers = append(cur.Covers, label); cur.mu.Unlock() }
func ob(l, v string)                  { cur.mu.Lock(); cur.Obs = append(cur.Obs, Ob{l, v}); cur.mu.Unlock() }
func ObserveS(label string, s string) { ob(label, fmt.Sprintf("%q", s)) }
func ObserveI(label string, n int)    { ob(label, strconv.FormatUint(uint64(n), 10)) }
func ObserveB(label string, b bool)   { ob(label, strconv.FormatBool(b)) }
func Symbolic() bool                  { return false }
func PermuteMaps(on bool)             {}
func Yield()                          {}
func Note(s string)                   {}
func Concrete(s string) string        { return s }
func ConcreteInt(n int) int           { return n }
func And(a, b bool) bool              { return a && b }
func Or(a, b bool) bool               { return a || b }
func Not(a bool) bool                 { return !a }
func EqS(a, b string) bool            { return a == b }
func EqB(a, b []byte) bool            { return string(a) == string(b) }
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// OpenFiles is the number of open file handles of the process.
func OpenFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(es)
}

// LimitFileSize makes writes beyond n bytes of any file fail; n < 0 ends that.
func LimitFileSize(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	limited = n >= 0
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

// Root is a directory the harness may use as a module directory: deep enough
// that the bounded paths cannot climb out of the scratch area.
func Root() string {
	if cur.root == "" {
		base := os.Getenv("VSYM_SCRATCH")
		if base == "" {
			panic("VSYM_SCRATCH not set")
		}
		d, err := os.MkdirTemp(base, "r")
		if err != nil {
			panic(err)
		}
		cur.root = filepath.Join(d, "a/b/c/d/e/f/w/d/root")
		if err := os.MkdirAll(cur.root, 0755); err != nil {
			panic(err)
		}
	}
	return cur.root
}

func Catch(f func()) (panicked bool, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case assumeFail, Failure:
			panic(r)
		}
		panicked = true
		msg = fmt.Sprint(r)
	}()
	f()
	return
}

// Fork numbers the goroutine that is started next, Enter says that the caller
// is that goroutine.
func Fork() int    { return vsync.Fork() }
func Enter(id int) { vsync.Enter(id) }

// Run executes one registered harness natively on one input vector.
func Run(name string, in map[string]uint64, params map[string]int) (st *State, err error) {
	f := reg[name]
	if f == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	cur = &State{In: in, occ: map[string]int{}, Params: params}
	st = cur
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case assumeFail:
				st.Skip = "assume"
			case Failure:
			default:
				if st.Fail == nil {
					st.Fail = &Failure{"panic: " + fmt.Sprint(r), fmt.Sprint(r)}
				}
			}
		}()
		f()
	}()
	if limited {
		LimitFileSize(-1)
		limited = false
	}
	if st.root != "" {
		d := st.root
		for i := 0; i < 9; i++ {
			d = filepath.Dir(d)
		}
		if b := os.Getenv("VSYM_SCRATCH"); b != "" && strings.HasPrefix(d, b+"/") {
			os.RemoveAll(d)
		}
	}
	return st, nil
}

func Names() []string {
	var r []string
	for k := range reg {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- native replay ----

type Vec struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	In      map[string]uint64 `json:"in"`
	Repeat  int               `json:"repeat"`
	Order   []int             `json:"order"` // of the goroutines' synchronising operations
}

type Result struct {
	Skip   string   `json:"skip,omitempty"`
	Fail   string   `json:"fail,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Obs    []Ob     `json:"obs,omitempty"`
	Covers []string `json:"covers,omitempty"`
}

// Main replays the vectors on standard input, one JSON object per line.
func Main() {
	dec := json.NewDecoder(os.Stdin)
	out := os.Stdout
	enc := json.NewEncoder(out)
	os.Stdout = os.Stderr
	for {
		var v Vec
		if err := dec.Decode(&v); err != nil {
			if err == io.EOF {
				return
			}
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(3)
		}
		if v.Repeat < 1 {
			v.Repeat = 1
		}
		var r Result
		for i := 0; i < v.Repeat; i++ {
			t := time.AfterFunc(20*time.Second, func() {
				enc.Encode(Result{Fail: "hang", Msg: "does not finish"})
				os.Exit(4)
			})
			vsync.Start(v.Order)
			st, err := Run(v.Harness, v.In, v.Params)
			t.Stop()
			if err != nil {
				fmt.Fprintln(os.Stderr, "replay:", err)
				os.Exit(3)
			}
			r = Result{Skip: st.Skip, Obs: st.Obs, Covers: st.Covers}
			if st.Fail != nil {
				r.Fail, r.Msg = st.Fail.Label, st.Fail.Msg
				break
			}
		}
		enc.Encode(r)
	}
}
