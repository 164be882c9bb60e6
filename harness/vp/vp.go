// Package vp is the verification interface used by the harnesses. Under the symbolic executor every function
// here is interpreted by the engine; the bodies below are the native meaning used when a counterexample is
// replayed against the compiled code.
package vp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

type Input struct {
	Name string
	Occ  int
	Kind string
	Val  uint64
}
type Obs struct {
	Name string
	Val  string
}

var (
	mu       sync.Mutex
	inputs   map[string]uint64
	occ      = map[string]int{}
	Observed []Obs
	Native   NativeHooks
)

// NativeHooks are set by the replay controller.
type NativeHooks struct {
	Yield      func()
	Settle     func()
	Goroutines func() int
	Atomic     func(func())
	Fail       func(kind, msg string)
}

// Load prepares a replay.
func Load(in []Input) {
	inputs = map[string]uint64{}
	for _, i := range in {
		inputs[fmt.Sprintf("%s#%d", i.Name, i.Occ)] = i.Val
		inputs[fmt.Sprintf("%s#%d:%s", i.Name, i.Occ, i.Kind)] = i.Val
	}
	occ = map[string]int{}
	Observed = nil
}

// LoadFile prepares a replay from a JSON file.
func LoadFile(name string) error {
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	var in []Input
	if err := json.Unmarshal(b, &in); err != nil {
		return err
	}
	Load(in)
	return nil
}

func get(name string) uint64 { return getKind(name, "") }

func getKind(name, kind string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d%s", name, occ[name], kind)
	occ[name]++
	return inputs[k]
}

func Int(name string) int         { return int(get(name)) }
func Int64(name string) int64     { return int64(get(name)) }
func Int32(name string) int32     { return int32(get(name)) }
func Int16(name string) int16     { return int16(get(name)) }
func Int8(name string) int8       { return int8(get(name)) }
func Uint(name string) uint       { return uint(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Uint16(name string) uint16   { return uint16(get(name)) }
func Byte(name string) byte       { return byte(get(name)) }
func Bool(name string) bool       { return get(name) == 1 }
func Float64(name string) float64 { return f64(get(name)) }
func Float32(name string) float32 { return f32(uint32(get(name))) }

// IntRange is any integer in [lo, hi].
func IntRange(name string, lo, hi int) int {
	w := 64 // as in the engine
	if lo >= 0 && hi >= lo && hi > 0 {
		w = bits.Len64(uint64(hi))
	}
	v := int(getKind(name, fmt.Sprintf(":(_ BitVec %d)", w)))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes is any byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name))
	}
	return b
}

// String is any string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose is any value in [0, n); each value is explored as a separate path.
func Choose(name string, n int) int { return int(get(name) % uint64(n)) }

// AssumeFailed is thrown by Assume natively.
type AssumeFailed struct{}

func Assume(c bool) {
	if !c {
		if Native.Fail != nil {
			Native.Fail("assume", "assumption does not hold")
		}
		panic(AssumeFailed{})
	}
}

// AssertFailed is thrown by Assert natively.
type AssertFailed struct{ Msg string }

func Assert(c bool, msg string) {
	if !c {
		if Native.Fail != nil {
			Native.Fail("assert", msg)
		}
		panic(AssertFailed{msg})
	}
}

// And, Or, Implies, Ite, Eq: connectives that do not branch.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func Eq(a, b any) bool         { return reflect.DeepEqual(a, b) }

// Concrete forks on the values of x.
func Concrete(x int) int { return x }

// Reach records that a point of interest was executed.
func Reach(name string) {}

// Symbolic reports whether the program runs under the symbolic executor.
func Symbolic() bool { return false }

func ObserveInt(name string, v int) {
	mu.Lock()
	Observed = append(Observed, Obs{name, fmt.Sprint(v)})
	mu.Unlock()
}
func ObserveBool(name string, v bool) {
	mu.Lock()
	Observed = append(Observed, Obs{name, fmt.Sprint(v)})
	mu.Unlock()
}

var start = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the current time in nanoseconds since the start of the bubble.
func Now() int { return int(time.Since(start)) }

// Goroutines counts the live goroutines other than the main one and the caller.
func Goroutines() int {
	if Native.Goroutines != nil {
		return Native.Goroutines()
	}
	n := runtime.NumGoroutine() - baseGoroutines
	for i := 0; n > 0 && i < 200; i++ {
		runtime.Gosched() // one that has just ended may still be counted
		n = runtime.NumGoroutine() - baseGoroutines
	}
	return n
}

var baseGoroutines = 0

// SetBase fixes the number of goroutines that do not belong to the program.
func SetBase(n int) { baseGoroutines = n }

// Ghost runs f as specification code: no scheduling point, no race accounting.
func Ghost(f func()) {
	ghostMu.Lock()
	defer ghostMu.Unlock()
	f()
}

var ghostMu sync.Mutex

// Atomic runs f as a single scheduling step.
func Atomic(f func()) {
	if Native.Atomic != nil {
		Native.Atomic(f)
		return
	}
	ghostMu.Lock()
	defer ghostMu.Unlock()
	f()
}

// Yield is a scheduling point.
func Yield() {
	if Native.Yield != nil {
		Native.Yield()
		return
	}
	runtime.Gosched()
}

// Settle waits until every other goroutine is blocked (no time passes).
func Settle() {
	if Native.Settle != nil {
		Native.Settle()
	}
}

// More is the condition of loops over histories of any length: the executor explores such a loop until no new
// state appears.
func More() bool {
	Yield()
	return Choose("more", 2) == 1
}

// SetField and GetField access an unexported field of a library struct; Serialize is an injective encoding of the
// exported content of a value. They exist only under the symbolic executor, for the models.
func SetField(ptr any, name string, v any) { panic("symbolic executor only") }
func GetField(ptr any, name string) any    { panic("symbolic executor only") }
func Serialize(v any) []byte               { panic("symbolic executor only") }
func Deserialize(b []byte, ptr any) bool   { panic("symbolic executor only") }
func Fresh(name string, n int) []byte      { panic("symbolic executor only") }
