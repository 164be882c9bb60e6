package coll

import (
	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	_ "vpharness/model"
	"vpharness/vp"
)

// The kinds of map operations.
const (
	opGet = iota
	opSet
	opDelete
	opHas
	opSetNX
	opSetNXF
	opSize
	opClear
	nMapOps = opClear // the simple map has no Clear
)

// mapState is the reference map over the keys 0 and 1 (and 2).
type mapState struct {
	has [3]bool
	val [3]int
}

func (s mapState) size() int {
	n := 0
	for _, h := range s.has {
		if h {
			n++
		}
	}
	return n
}

// mapStep is the specification of every operation. Which keys are present is concrete; values may be symbolic.
func mapStep(s mapState, o *lin.Op) (mapState, bool) {
	k := o.K
	switch o.Kind {
	case opGet:
		if s.has[k] {
			return s, vp.And(o.Ok, o.R == s.val[k])
		}
		return s, vp.And(!o.Ok, o.R == 0)
	case opSet:
		s.has[k], s.val[k] = true, o.V
		return s, true
	case opDelete:
		s.has[k], s.val[k] = false, 0
		return s, true
	case opHas:
		return s, o.Ok == s.has[k]
	case opSetNX:
		if s.has[k] {
			return s, !o.Ok
		}
		s.has[k], s.val[k] = true, o.V
		return s, o.Ok
	case opSetNXF:
		if s.has[k] {
			return s, vp.And(!o.Ok, o.R == s.val[k], o.E == 0)
		}
		s.has[k], s.val[k] = true, o.V
		return s, vp.And(o.Ok, o.R == o.V, o.E == 1)
	case opSize:
		return s, o.R == s.size()
	default:
		return mapState{}, true
	}
}

type aMap interface {
	collections.Map[int, int]
}

// do runs one operation against the real map.
func do(m aMap, h *lin.Hist, o *lin.Op) {
	h.Begin(o)
	switch o.Kind {
	case opGet:
		o.R, o.Ok = m.Get(o.K)
	case opSet:
		m.Set(o.K, o.V)
	case opDelete:
		m.Delete(o.K)
	case opHas:
		o.Ok = m.Has(o.K)
	case opSetNX:
		o.Ok = m.SetIfNotExists(o.K, o.V)
	case opSetNXF:
		o.R, o.Ok = m.SetIfNotExistsWithFunc(o.K, func() int {
			o.E++
			return o.V
		})
	case opSize:
		o.R = m.Size()
	default:
		m.(interface{ Clear() }).Clear()
	}
	h.End(o)
}

func anyOp(h *lin.Hist, nops, nkeys int) *lin.Op {
	kind := vp.Choose("op", nops)
	k := 0
	if kind != opSize && kind != opClear {
		k = vp.Choose("key", nkeys)
	}
	return h.New(kind, k, vp.Int("v"))
}

// seqMap: any number of arbitrary operations in sequence. The loop is explored until no new state appears, so
// histories of every length are covered.
func seqMap(m aMap, nops, nkeys int) {
	var s mapState
	for vp.More() {
		h := &lin.Hist{}
		o := anyOp(h, nops, nkeys)
		do(m, h, o)
		var ok bool
		s, ok = mapStep(s, o)
		vp.Assert(ok, "each operation returns what an ordinary map returns")
	}
	finalMap(m, s, nkeys)
}

func finalMap(m aMap, s mapState, nkeys int) {
	for k := 0; k < nkeys; k++ {
		v, ok := m.Get(k)
		vp.Assert(vp.And(ok == s.has[k], v == s.val[k]), "the contents are those of an ordinary map")
	}
	vp.Assert(m.Size() == s.size(), "size counts the keys")
}

// concMap: goroutines with the given numbers of arbitrary operations, after pre operations that fill the map.
func concMap(m aMap, nops, nkeys int, pre bool, threads ...int) {
	h := &lin.Hist{}
	var s mapState
	if pre {
		v := vp.Int("pre")
		m.Set(0, v)
		s.has[0], s.val[0] = true, v
	}
	var fs []func()
	for _, n := range threads {
		var ops []*lin.Op
		for range n {
			ops = append(ops, anyOp(h, nops, nkeys))
		}
		fs = append(fs, func() {
			for _, o := range ops {
				do(m, h, o)
			}
		})
	}
	lin.Par(fs...)
	// the final contents are one more set of operations
	for k := 0; k < nkeys; k++ {
		do(m, h, h.New(opGet, k, 0))
	}
	vp.Assert(lin.Linearizable(h, s, mapStep), "the results are those of some sequential order of the operations")
}

// Any number of arbitrary operations in sequence on two keys, arbitrary values.
//
//vp:check M01
func MapSeq() { seqMap(collections.NewSimpleMap[int, int](), nMapOps, 2) }

// Two goroutines with one arbitrary operation each, keys {0,1}, key 0 present or absent.
//
//vp:check M01,T01
func MapPar2() {
	concMap(collections.NewSimpleMap[int, int](), nMapOps, 2, vp.Choose("pre", 2) == 1, 1, 1)
}

// Three goroutines with one arbitrary operation each on one key.
//
//vp:check M01
func MapPar3() {
	concMap(collections.NewSimpleMap[int, int](), nMapOps, 1, false, 1, 1, 1)
}

// Two goroutines with two arbitrary operations and one, keys {0,1}.
//
//vp:check M01
func MapPar21() {
	concMap(collections.NewSimpleMap[int, int](), nMapOps, 2, vp.Choose("pre", 2) == 1, 2, 1)
}
