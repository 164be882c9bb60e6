package coll

import (
	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// bits: the values 0..n-1 a set holds, -1 if its listing has duplicates or disagrees with membership or size.
func bits(s *collections.Set[int], n int) int {
	w := mask(s.Values())
	if w < 0 || mask(s.All()) != w {
		return -1
	}
	c := 0
	for v := range n {
		if s.Has(v) != (w&(1<<v) != 0) {
			return -1
		}
		if s.Has(v) {
			c++
		}
	}
	if c != s.Size() {
		return -1
	}
	return w
}

// Any number of arbitrary operations in sequence on two sets of the values {0,1,2}: add, bulk add, remove,
// clear, clone, construct; after each all observations of both sets are compared with the reference sets.
//
//vp:check S01
func SetSeq() {
	s := [2]*collections.Set[int]{collections.NewSet[int](), collections.NewSet[int]()}
	var w [2]int
	for vp.More() {
		i := vp.Choose("set", 2)
		switch vp.Choose("op", 6) {
		case 0:
			v := vp.Choose("v", 3)
			s[i].Add(v)
			w[i] |= 1 << v
		case 1:
			v, x := vp.Choose("v", 3), vp.Choose("v", 3)
			s[i].AddAll(v, x)
			w[i] |= 1<<v | 1<<x
		case 2:
			v := vp.Choose("v", 3)
			s[i].Remove(v)
			w[i] &^= 1 << v
		case 3:
			s[i].Clear()
			w[i] = 0
		case 4:
			s[i] = s[1-i].Clone()
			w[i] = w[1-i]
		case 5:
			v, x := vp.Choose("v", 3), vp.Choose("v", 3)
			s[i] = collections.NewSet(v, x)
			w[i] = 1<<v | 1<<x
		}
		for j := range 2 {
			vp.Assert(bits(s[j], 3) == w[j], "the set holds exactly the values added and not removed")
		}
		vp.Assert(s[0].Equals(s[1]) == (w[0] == w[1]), "sets are equal exactly when they hold the same values")
		vp.Assert(s[1].Equals(s[0]) == (w[0] == w[1]), "sets are equal exactly when they hold the same values")
		x, y := vp.Choose("q", 3), vp.Choose("q", 3)
		hx, hy := w[i]&(1<<x) != 0, w[i]&(1<<y) != 0
		vp.Assert(s[i].HasAll(x, y) == (hx && hy), "has-all")
		vp.Assert(s[i].HasAny(x, y) == (hx || hy), "has-any")
		vp.Assert(s[i].HasAll() && !s[i].HasAny(), "has-all and has-any of nothing")
	}
}

// Equality, clone and iteration of arbitrary sets of the values {0,1,2}, for every order in which a map may be
// iterated.
//
//vp:check S01 maporder
func SetOrder() {
	mk := func(w int) *collections.Set[int] {
		s := collections.NewSet[int]()
		for i := range 3 {
			if w>>i&1 == 1 {
				s.Add(i)
			}
		}
		return s
	}
	w, v := vp.Choose("w", 8), vp.Choose("v", 8)
	s, t := mk(w), mk(v)
	switch vp.Choose("op", 3) {
	case 0:
		vp.Assert(s.Equals(t) == (w == v), "sets are equal exactly when they hold the same values")
	case 1:
		c := s.Clone()
		c.Add(v % 3)
		vp.Assert(bits(s, 3) == w, "a clone is independent")
		vp.Assert(bits(c, 3) == w|1<<(v%3), "a clone holds the same values")
	case 2:
		vp.Assert(bits(s, 3) == w, "the iteration visits each value once")
		s.Clear()
		vp.Assert(bits(s, 3) == 0, "clear removes every value")
	}
}

// Arbitrary (symbolic) int values: constructor with two values, one removed, one bulk-added.
//
//vp:check S01
func SetAnyValue() {
	a, b, c, d, q := vp.Int("a"), vp.Int("b"), vp.Int("c"), vp.Int("d"), vp.Int("q")
	s := collections.NewSet(a, b)
	vp.Assert(s.Has(q) == (q == a || q == b), "constructed with exactly these values")
	s.Remove(c)
	vp.Assert(s.Has(q) == (q != c && (q == a || q == b)), "removed")
	t := s.Clone()
	s.AddAll(d)
	vp.Assert(s.Has(q) == (q == d || q != c && (q == a || q == b)), "added")
	vp.Assert(t.Has(q) == (q != c && (q == a || q == b)), "a clone does not change with its original")
	vp.Assert(s.HasAll(d, q) == s.Has(q) && s.HasAny(d, q), "has-all, has-any")
	n := 0
	for _, v := range s.Values() {
		vp.Assert(s.Has(v), "listed values are members")
		n++
	}
	vp.Assert(n == s.Size(), "size")
	vp.Assert(s.Equals(t) == t.Has(d), "equality")
}

const (
	hsAdd = iota
	hsHas
	hsHasOrCreate
	hsDelete
	hsCount
	hsKeys
	hsClear
	nHS
)

// order: the keys present, oldest first, as base-5 digits key+1.
type order struct {
	k [4]int
	n int
}

func (o order) find(k int) int {
	for i := 0; i < o.n; i++ {
		if o.k[i] == k {
			return i
		}
	}
	return -1
}

func (o order) del(i int) order {
	for j := i; j+1 < o.n; j++ {
		o.k[j] = o.k[j+1]
	}
	o.n--
	o.k[o.n] = 0
	return o
}

func (o order) add(k, max int) order {
	if max > 0 && o.n == max {
		o = o.del(0)
	}
	o.k[o.n] = k
	o.n++
	return o
}

func hsStep(max int) func(order, *lin.Op) (order, bool) {
	return func(s order, o *lin.Op) (order, bool) {
		i := s.find(o.K)
		switch o.Kind {
		case hsAdd:
			if i < 0 {
				s = s.add(o.K, max)
			}
		case hsHas:
			return s, o.Ok == (i >= 0)
		case hsHasOrCreate:
			if i < 0 {
				return s.add(o.K, max), !o.Ok
			}
			return s, o.Ok
		case hsDelete:
			if i >= 0 {
				s = s.del(i)
			}
		case hsCount:
			return s, o.R == s.n
		case hsKeys:
			w := 0
			for i := 0; i < s.n; i++ {
				w |= 1 << s.k[i]
			}
			return s, o.R == w
		case hsClear:
			return order{}, true
		}
		return s, true
	}
}

func hsDo(m *collections.HashSet[int], h *lin.Hist, o *lin.Op) {
	h.Begin(o)
	switch o.Kind {
	case hsAdd:
		m.Add(o.K)
	case hsHas:
		o.Ok = m.Has(o.K)
	case hsHasOrCreate:
		o.Ok = m.HasOrCreate(o.K)
	case hsDelete:
		m.Delete(o.K)
	case hsCount:
		o.R = m.Count()
	case hsKeys:
		o.R = mask(m.Keys())
	case hsClear:
		m.Clear()
	}
	h.End(o)
}

func anyHS(h *lin.Hist, nkeys int) *lin.Op {
	kind, k := vp.Choose("op", nHS), 0
	if kind <= hsDelete {
		k = vp.Choose("k", nkeys)
	}
	return h.New(kind, k, 0)
}

func hsFinal(m *collections.HashSet[int], s order, nkeys int) {
	h := &lin.Hist{}
	for k := range nkeys {
		vp.Assert(m.Has(k) == (s.find(k) >= 0), "membership")
	}
	for _, kind := range []int{hsCount, hsKeys} {
		o := h.New(kind, 0, 0)
		hsDo(m, h, o)
		_, ok := hsStep(0)(s, o)
		vp.Assert(ok, "count and listing agree with membership")
	}
}

func hsSeq(max, nkeys int) {
	m := collections.NewHashSet[int]().WithMaxCount(max).Build()
	var s order
	for vp.More() {
		h := &lin.Hist{}
		o := anyHS(h, nkeys)
		hsDo(m, h, o)
		var ok bool
		s, ok = hsStep(max)(s, o)
		vp.Assert(ok, "each operation agrees with the reference set")
		if max > 0 {
			vp.Assert(m.Count() <= max, "never more keys than the limit")
		}
	}
	hsFinal(m, s, nkeys)
}

// Any number of arbitrary operations in sequence, keys {0,1,2}, no limit.
//
//vp:check S02
func HashSetSeq() { hsSeq(0, 3) }

// Any number of arbitrary operations in sequence, keys {0..3}, limit 1..3.
//
//vp:check S03
func HashSetBoundedSeq() { hsSeq(1+vp.Choose("max", 3), 4) }

// Arbitrary (symbolic) int keys, limit 2: four adds or has-or-creates, with a delete in between.
//
//vp:check S03
func HashSetAnyKey() {
	m := collections.NewHashSet[int]().WithMaxCount(2).Build()
	var l []int
	add := func() {
		k := vp.Int("k")
		in := false
		for _, x := range l {
			if x == k {
				in = true
			}
		}
		if vp.Choose("create", 2) == 1 {
			vp.Assert(m.HasOrCreate(k) == in, "has-or-create reports presence")
		} else {
			m.Add(k)
		}
		if !in {
			if len(l) == 2 {
				l = l[1:]
			}
			l = append(l, k)
		}
	}
	add()
	add()
	d := vp.Int("d")
	m.Delete(d)
	for i, x := range l {
		if x == d {
			l = append(append([]int(nil), l[:i]...), l[i+1:]...)
			break
		}
	}
	add()
	add()
	q := vp.Int("q")
	in := false
	for _, x := range l {
		if x == q {
			in = true
		}
	}
	vp.Assert(m.Has(q) == in, "exactly the newest keys are present")
	vp.Assert(m.Count() == len(l), "count")
}

func hsConc(max, nkeys, npre int, threads ...int) {
	m := collections.NewHashSet[int]().WithMaxCount(max).Build()
	var s order
	for k := range vp.Choose("pre", npre+1) {
		m.Add(k)
		s = s.add(k, max)
	}
	h := &lin.Hist{}
	var fs []func()
	for _, n := range threads {
		var ops []*lin.Op
		for range n {
			ops = append(ops, anyHS(h, nkeys))
		}
		fs = append(fs, func() {
			for _, o := range ops {
				hsDo(m, h, o)
			}
		})
	}
	lin.Par(fs...)
	for k := range nkeys {
		hsDo(m, h, h.New(hsHas, k, 0))
	}
	hsDo(m, h, h.New(hsCount, 0, 0))
	vp.Assert(lin.Linearizable(h, s, hsStep(max)), "the results are those of some sequential order of the operations")
}

// Two goroutines with one arbitrary operation each, keys {0,1}, one, two or no key present, no limit.
//
//vp:check S02,T01
func HashSetPar2() { hsConc(0, 2, 2, 1, 1) }

// Two goroutines with one arbitrary operation each, keys {0,1}, limit 1.
//
//vp:check S03,T01
func HashSetBoundedPar2() { hsConc(1, 2, 1, 1, 1) }

// Three goroutines with one arbitrary operation each on one key.
//
//vp:check S02
func HashSetPar3() { hsConc(0, 1, 1, 1, 1, 1) }

// Two goroutines with two arbitrary operations and one, keys {0,1,2}, limit 2.
//
//vp:check S03 thorough
func HashSetBoundedPar21() { hsConc(2, 3, 2, 2, 1) }

// Three goroutines ask has-or-create for one key, present or absent.
//
//vp:check S02
func HashSetOneCreator() {
	m := collections.NewHashSet[int]().Build()
	k := vp.Int("k")
	pre := vp.Choose("pre", 2)
	if pre == 1 {
		m.Add(k)
	}
	var r [3]bool
	lin.Par(func() { r[0] = m.HasOrCreate(k) }, func() { r[1] = m.HasOrCreate(k) }, func() { r[2] = m.HasOrCreate(k) })
	n := 0
	for _, x := range r {
		if !x {
			n++
		}
	}
	vp.Assert(n == 1-pre, "exactly one caller finds the key absent")
	vp.Assert(m.Has(k) && m.Count() == 1, "the key is present once")
}
