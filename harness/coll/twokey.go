package coll

import (
	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

const (
	tkPut = iota
	tkGet
	tkGetByK2
	tkRemove
	tkRemoveByK2
	tkLen
	tkKeys
	tkKeysK2
	nTK
)

// twoState: which primary keys hold a value, and which secondary key belongs to which primary key.
type twoState struct {
	has [3]bool
	val [3]int
	own [3]int // primary key + 1 of a secondary key
}

func (s twoState) drop(k1 int) twoState {
	for i := range s.own {
		if s.own[i] == k1+1 {
			s.own[i] = 0
		}
	}
	return s
}

func twoStep(s twoState, o *lin.Op) (twoState, bool) {
	switch o.Kind {
	case tkPut:
		s = s.drop(o.K)
		s.has[o.K], s.val[o.K] = true, o.V
		s.own[o.E] = o.K + 1
	case tkGet:
		if s.has[o.K] {
			return s, vp.And(o.Ok, o.R == s.val[o.K])
		}
		return s, vp.And(!o.Ok, o.R == 0)
	case tkGetByK2:
		if k := s.own[o.E]; k > 0 {
			return s, vp.And(o.Ok, o.R == s.val[k-1])
		}
		return s, vp.And(!o.Ok, o.R == 0)
	case tkRemove:
		s = s.drop(o.K)
		s.has[o.K], s.val[o.K] = false, 0
	case tkRemoveByK2:
		if k := s.own[o.E]; k > 0 {
			s = s.drop(k - 1)
			s.has[k-1], s.val[k-1] = false, 0
		}
	case tkLen:
		n := 0
		for _, h := range s.has {
			if h {
				n++
			}
		}
		return s, o.R == n
	case tkKeys:
		w := 0
		for i, h := range s.has {
			if h {
				w |= 1 << i
			}
		}
		return s, o.R == w
	case tkKeysK2:
		w := 0
		for i, k := range s.own {
			if k > 0 {
				w |= 1 << i
			}
		}
		return s, o.R == w
	}
	return s, true
}

// mask: the keys as a bit mask; -1 if a key occurs twice.
func mask(keys []int) int {
	w := 0
	for _, k := range keys {
		if w&(1<<k) != 0 {
			return -1
		}
		w |= 1 << k
	}
	return w
}

func twoDo(m *collections.TwoKeyMap[int, int, int], h *lin.Hist, o *lin.Op) {
	h.Begin(o)
	switch o.Kind {
	case tkPut:
		m.Put(o.K, o.E, o.V)
	case tkGet:
		o.R, o.Ok = m.Get(o.K)
	case tkGetByK2:
		o.R, o.Ok = m.GetByK2(o.E)
	case tkRemove:
		m.Remove(o.K)
	case tkRemoveByK2:
		m.RemoveByK2(o.E)
	case tkLen:
		o.R = m.Len()
	case tkKeys:
		o.R = mask(m.Keys())
	case tkKeysK2:
		o.R = mask(m.KeysK2())
	}
	h.End(o)
}

func anyTwo(h *lin.Hist, n1, n2 int) *lin.Op {
	kind := vp.Choose("op", nTK)
	k1, k2 := 0, 0
	switch kind {
	case tkPut, tkGet, tkRemove:
		k1 = vp.Choose("k1", n1)
	}
	switch kind {
	case tkPut, tkGetByK2, tkRemoveByK2:
		k2 = vp.Choose("k2", n2)
	}
	o := h.New(kind, k1, 0)
	if kind == tkPut {
		o.V = vp.Int("v")
	}
	o.E = k2
	return o
}

// Any number of arbitrary operations in sequence, primary and secondary keys {0,1,2}, arbitrary values.
//
//vp:check M03
func TwoKeySeq() {
	m := collections.NewTwoKeyMap[int, int, int]()
	var s twoState
	for vp.More() {
		h := &lin.Hist{}
		o := anyTwo(h, 3, 3)
		twoDo(m, h, o)
		var ok bool
		s, ok = twoStep(s, o)
		vp.Assert(ok, "each operation agrees with the two-key specification")
	}
	twoFinal(m, s)
}

func twoFinal(m *collections.TwoKeyMap[int, int, int], s twoState) {
	h := &lin.Hist{}
	for kind := tkGet; kind < nTK; kind++ {
		if kind == tkRemove || kind == tkRemoveByK2 {
			continue
		}
		for k := 0; k < 3; k++ {
			o := h.New(kind, k, 0)
			o.E = k
			twoDo(m, h, o)
			_, ok := twoStep(s, o)
			vp.Assert(ok, "lookups and listings agree with the two-key specification")
		}
	}
}

// Two goroutines with one arbitrary operation each on a map with one, two or no entries; keys {0,1}.
//
//vp:check M03,T01
func TwoKeyPar2() {
	m := collections.NewTwoKeyMap[int, int, int]()
	h := &lin.Hist{}
	var s twoState
	for i := range vp.Choose("pre", 3) {
		o := h.New(tkPut, i, vp.Int("pre"))
		o.E = i
		m.Put(o.K, o.E, o.V)
		s, _ = twoStep(s, o)
	}
	h = &lin.Hist{}
	a, b := anyTwo(h, 2, 2), anyTwo(h, 2, 2)
	lin.Par(func() { twoDo(m, h, a) }, func() { twoDo(m, h, b) })
	for k := 0; k < 2; k++ {
		o := h.New(tkGet, k, 0)
		twoDo(m, h, o)
		o = h.New(tkGetByK2, k, 0)
		o.E = k
		twoDo(m, h, o)
	}
	twoDo(m, h, h.New(tkKeysK2, 0, 0))
	vp.Assert(lin.Linearizable(h, s, twoStep), "the results are those of some sequential order of the operations")
}
