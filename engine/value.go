package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values. Scalars are *Term; everything else is structural.

type Value any

type ObjID int32

// Ptr: object plus a path of field/element indexes (2 bytes each). Obj 0 is nil.
type Ptr struct {
	Obj  ObjID
	Path string
}

func (p Ptr) Elem(i int) Ptr { return Ptr{p.Obj, p.Path + pathElem(i)} }

type SliceV struct {
	Arr           Ptr // pointer to the backing array; Obj 0 = nil slice
	Off, Len, Cap int
}
type StrV struct {
	S   string
	Sym []*Term // if non-nil, the bytes
}

func (s StrV) Len() int {
	if s.Sym != nil {
		return len(s.Sym)
	}
	return len(s.S)
}
func (s StrV) Byte(i int) *Term {
	if s.Sym != nil {
		return s.Sym[i]
	}
	return BVc(8, uint64(s.S[i]))
}
func mkStr(b []*Term) StrV {
	for _, t := range b {
		if !t.IsConst() {
			return StrV{Sym: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return StrV{S: string(bs)}
}

type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type IfaceV struct {
	T types.Type // nil = nil interface
	V Value
}
type Closure struct {
	Fn   *ssa.Function
	Bind []Value
	Nat  string  // native closure name (when Fn == nil)
	NatA []Value // its arguments
}
type FuncV struct{ C *Closure } // nil C = nil func
type MapV struct{ Obj ObjID }
type ChanV struct{ Obj ObjID }
type TupleV struct{ E []Value }
type IterV struct{ Obj ObjID } // map/string iterator
type UnsafeV struct{ V Value }

// opaque std types
type MutexV struct{ Locked bool }
type RWMutexV struct {
	W       bool
	Pending bool
	R       int
}
type WaitGroupV struct{ N int }
type TimeV struct{ T *Term } // ns since 2000-01-01, BV64

const zeroTimeNs = int64(-4e18)

type FakeType struct{ types.Type }

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func typeFull(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (e *Engine) zero(t types.Type) Value {
	switch typeFull(t) {
	case "sync.Mutex":
		return MutexV{}
	case "sync.RWMutex":
		return RWMutexV{}
	case "sync.WaitGroup":
		return WaitGroupV{}
	case "time.Time":
		return TimeV{zeroTimeT()}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer:
			return UnsafeV{}
		case info&types.IsBoolean != 0:
			return False
		case info&types.IsString != 0:
			return StrV{}
		case info&types.IsInteger != 0:
			w, _ := intInfo(u)
			return BVc(w, 0)
		case info&types.IsFloat != 0:
			return FC(floatW(u), 0)
		case u.Kind() == types.UntypedNil:
			return IfaceV{}
		case info&types.IsComplex != 0:
			return StructV{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return FuncV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		n := int(u.Len())
		f := make([]Value, n)
		if n > 0 {
			z := e.zero(u.Elem())
			for i := range f {
				f[i] = z
			}
		}
		return ArrayV{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return TupleV{f}
	}
	panic(unsup("zero value of %v", t))
}

func zeroTimeT() *Term { x := zeroTimeNs; return BVc(64, uint64(x)) }

func intInfo(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	panic(unsup("int type %v", b))
}
func floatW(b *types.Basic) int {
	if b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

// Unsupported constructs end the path as inconclusive.
type unsupErr struct{ msg string }

func unsup(f string, a ...any) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

// goPanic is a Go run-time panic raised by the program under analysis.
type goPanic struct {
	val  Value
	desc string
}

// forkSig asks the driver to split the state on a condition.
type forkSig struct {
	cond *Term
	mv   bool   // value of cond in the current model
	m    *Model // a model of the other side
	mine *Model // if set, the model of this side
}

// infeasible: the current path has no model (assume false).
type infeasible struct{}

func pathStr(p Ptr) string {
	if p.Obj == 0 {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "o%d", p.Obj)
	for i := 0; i < len(p.Path)/pathW; i++ {
		fmt.Fprintf(&sb, ".%d", pathIdx(p.Path, i))
	}
	return sb.String()
}

// A path is a sequence of field numbers and indices of three bytes each.
const pathW = 3

func pathElem(i int) string {
	if i>>24 != 0 {
		panic(unsup("index %d", i))
	}
	return string([]byte{byte(i >> 16), byte(i >> 8), byte(i)})
}
func pathIdx(p string, i int) int {
	return int(p[pathW*i])<<16 | int(p[pathW*i+1])<<8 | int(p[pathW*i+2])
}
