package coll

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// item is a struct whose content decides about equality.
type item struct {
	A int
	B string
	C *int
	D []int8
}

func mkItem(a, b, c, d int) item {
	return item{A: a, B: string([]byte{'x', byte(b)}), C: &c, D: []int8{int8(d)}}
}

func newUniq(ctx context.Context, ttl, interval int) *collections.StructUniqSet[item] {
	return collections.NewStructUniqSet[item]().WithContext(ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(interval)).Build()
}

// Arbitrary field values of three items: add two, look for the third, remove it, add it. Items are equal when all
// their fields are (pointers by what they point to).
//
//vp:check S04
func UniqAnyValue() {
	ctx, cancel := context.WithCancel(context.Background())
	s := newUniq(ctx, 1000, 100)
	f := func(n string) (int, int, int, int) {
		return vp.Int(n + "a"), int(vp.Byte(n + "b")), vp.Int(n + "c"), int(vp.Int8(n + "d"))
	}
	a1, b1, c1, d1 := f("x")
	a2, b2, c2, d2 := f("y")
	a3, b3, c3, d3 := f("z")
	xy := vp.And(a1 == a2, b1 == b2, c1 == c2, d1 == d2)
	zx := vp.And(a1 == a3, b1 == b3, c1 == c3, d1 == d3)
	zy := vp.And(a3 == a2, b3 == b2, c3 == c2, d3 == d2)
	ok, err := s.Add(mkItem(a1, b1, c1, d1))
	vp.Assert(ok && err == nil, "the first add of a value reports true")
	ok, err = s.Add(mkItem(a2, b2, c2, d2))
	vp.Assert(ok == !xy && err == nil, "add reports true exactly when no equal value is present")
	vp.Assert(s.Count() == vp.Ite(xy, 1, 2), "count is the number of distinct values")
	ok, err = s.Has(mkItem(a3, b3, c3, d3))
	vp.Assert(ok == vp.Or(zx, zy) && err == nil, "has reports whether an equal value is present")
	ok, err = s.Remove(mkItem(a3, b3, c3, d3))
	vp.Assert(ok == vp.Or(zx, zy) && err == nil, "remove reports whether an equal value was present")
	ok, err = s.Has(mkItem(a1, b1, c1, d1))
	vp.Assert(ok == !zx && err == nil, "remove removes exactly the equal value")
	ok, err = s.Add(mkItem(a3, b3, c3, d3))
	vp.Assert(ok && err == nil, "a removed value can be added again")
	cancel()
}

const (
	uAdd = iota
	uHas
	uRemove
	uCount
	nU
)

func uniqStep(w int, o *lin.Op) (int, bool) {
	has := w&(1<<o.K) != 0
	switch o.Kind {
	case uAdd:
		return w | 1<<o.K, o.Ok == !has
	case uHas:
		return w, o.Ok == has
	case uRemove:
		return w &^ (1 << o.K), o.Ok == has
	}
	n := 0
	for i := range 3 {
		n += w >> i & 1
	}
	return w, o.R == n
}

// who has B ignored by the identity function.
type who struct{ A, B int }

func uniqDo(s *collections.StructUniqSet[who], h *lin.Hist, o *lin.Op) {
	h.Begin(o)
	v := who{o.K, o.V}
	var err error
	switch o.Kind {
	case uAdd:
		o.Ok, err = s.Add(v)
	case uHas:
		o.Ok, err = s.Has(v)
	case uRemove:
		o.Ok, err = s.Remove(v)
	case uCount:
		o.R = s.Count()
	}
	vp.Assert(err == nil, "no error")
	h.End(o)
}

func byA(v who, _ ...any) (r [16]byte, err error) {
	r[0] = byte(v.A)
	return r, nil
}

func newWho(ctx context.Context, byFunc bool, ttl, interval int) *collections.StructUniqSet[who] {
	b := collections.NewStructUniqSet[who]()
	if byFunc {
		b = b.WithBuildFunc(byA)
	}
	return b.WithContext(ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(interval)).Build()
}

func uniqOp(h *lin.Hist, n int, byFunc bool) *lin.Op {
	kind, k, v := vp.Choose("op", nU), 0, 0
	if kind != uCount {
		k = vp.Choose("k", n)
		if byFunc {
			v = vp.Choose("other", 2)
		}
	}
	return h.New(kind, k, v)
}

// Five operations in sequence on two values; equality of the content, or of an identity function that ignores a
// field.
//
//vp:check S04
func UniqSeq() {
	ctx, cancel := context.WithCancel(context.Background())
	byFunc := vp.Choose("func", 2) == 1
	s := newWho(ctx, byFunc, 1000, 100)
	w := 0
	for range 5 {
		h := &lin.Hist{}
		o := uniqOp(h, 2, byFunc)
		uniqDo(s, h, o)
		var ok bool
		w, ok = uniqStep(w, o)
		vp.Assert(ok, "each operation reports what is present")
	}
	cancel()
}

// An identity function that fails: its error is returned and nothing changes.
//
//vp:check S04
func UniqError() {
	bad := errors.New("no identity")
	fail := false
	s := collections.NewStructUniqSet[who]().WithBuildFunc(func(v who, _ ...any) ([16]byte, error) {
		if fail {
			return [16]byte{}, bad
		}
		return byA(v)
	}).Build()
	k, l := vp.Choose("k", 2), vp.Choose("l", 2)
	s.Add(who{A: k})
	fail = true
	ok, err := s.Add(who{A: l})
	vp.Assert(!ok && err == bad, "add returns the error")
	ok, err = s.Has(who{A: l})
	vp.Assert(!ok && err == bad, "has returns the error")
	ok, err = s.Remove(who{A: k})
	vp.Assert(!ok && err == bad, "remove returns the error")
	fail = false
	ok, _ = s.Has(who{A: k})
	vp.Assert(ok && s.Count() == 1, "nothing changed")
}

func uniqPar(n int, threads ...int) {
	ctx, cancel := context.WithCancel(context.Background())
	s := newWho(ctx, false, 1000, 100)
	h := &lin.Hist{}
	w := 0
	if vp.Choose("pre", 2) == 1 {
		s.Add(who{A: 0})
		w = 1
	}
	var fs []func()
	for _, k := range threads {
		var ops []*lin.Op
		for range k {
			ops = append(ops, uniqOp(h, n, false))
		}
		fs = append(fs, func() {
			for _, o := range ops {
				uniqDo(s, h, o)
			}
		})
	}
	lin.Par(fs...)
	for k := range n {
		uniqDo(s, h, h.New(uHas, k, 0))
	}
	uniqDo(s, h, h.New(uCount, 0, 0))
	vp.Assert(lin.Linearizable(h, w, uniqStep), "the results are those of some sequential order of the operations")
	cancel()
}

// Two goroutines with one operation each on two values.
//
//vp:check S04,T01
func UniqPar2() { uniqPar(2, 1, 1) }

// Two goroutines with two operations and one on two values.
//
//vp:check S04
func UniqPar21() { uniqPar(2, 2, 1) }

// Three goroutines with one operation each on one value.
//
//vp:check S04
func UniqPar3() { uniqPar(1, 1, 1, 1) }

// An add and an arbitrary operation at arbitrary instants strictly between two expiry checks (time-to-live
// arbitrary up to 1000, check interval 400), then has and count: a value is there for its time-to-live since its
// add and gone one check interval after; in between either may be.
//
//vp:check S05 adv=40
func UniqTimes() { uniqTimes(2, 1, 3) }

// The same with three operations on two values.
//
//vp:check S05 adv=40
func UniqTimes2() { uniqTimes(3, 2, 1) }

// Four operations on two values.
//
//vp:check S05 thorough adv=60
func UniqTimes4() { uniqTimes(4, 2, 2) }

func uniqTimes(n, nk, q int) {
	ctx, cancel := context.WithCancel(context.Background())
	ttl, iv := vp.IntRange("ttl", 1, 1000), 400
	s := newWho(ctx, false, ttl, iv)
	var has [2]bool
	var at [2]int
	last, slot := 0, 0
	wait := func() int {
		slot += vp.Choose("slot", q+1)
		t := slot*iv + vp.IntRange("offset", 1, iv-1)
		vp.Assume(t >= last)
		time.Sleep(time.Duration(t - last))
		last = t
		return t
	}
	check := func(k int, got bool, t int) {
		// got: a value equal to k is present
		if !has[k] {
			vp.Assert(!got, "a value that is not there is not found")
			return
		}
		vp.Assert(vp.Implies(t < at[k]+ttl, got), "a value is present for its full time-to-live")
		vp.Assert(vp.Implies(t > at[k]+ttl+iv, !got), "a value is gone one check interval after its time-to-live")
		has[k] = got
	}
	for i := range n {
		t := wait()
		k, op := 0, 0
		if i > 0 {
			k, op = vp.Choose("k", nk), vp.Choose("op", 3)
		}
		switch op {
		case 0:
			ok, _ := s.Add(who{A: k})
			check(k, !ok, t)
			if ok {
				has[k], at[k] = true, t
			}
		case 1:
			ok, _ := s.Remove(who{A: k})
			check(k, ok, t)
			has[k] = false
		case 2:
			ok, _ := s.Has(who{A: k})
			check(k, ok, t)
		}
	}
	t := wait()
	c := 0
	for k := range nk {
		ok, _ := s.Has(who{A: k})
		check(k, ok, t)
		if ok {
			c++
		}
	}
	vp.Assert(s.Count() == c, "count is the number of values present")
	time.Sleep(2002)
	vp.Assert(s.Count() == 0, "everything is gone in the end")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the background goroutine ends with the context")
}

// Values are added, removed and looked up while the expiry runs at the same instant: no crash, no race, and a value
// added at that instant stays.
//
//vp:check S05,T01
func UniqExpireRace() {
	ctx, cancel := context.WithCancel(context.Background())
	s := newWho(ctx, false, 100, 100)
	if vp.Choose("pre", 2) == 1 {
		s.Add(who{A: 0})
	}
	time.Sleep(100)
	switch vp.Choose("op", 4) {
	case 0:
		s.Remove(who{A: 0})
		s.Add(who{A: 0})
		vp.Settle()
		ok, _ := s.Has(who{A: 0})
		vp.Assert(ok, "a value that was added again gets a full new lifetime")
	case 1:
		s.Add(who{A: 1})
		vp.Settle()
		ok, _ := s.Has(who{A: 1})
		vp.Assert(ok, "a value added during the expiry stays")
	case 2:
		s.Has(who{A: 0})
	case 3:
		s.Count()
	}
	time.Sleep(99)
	cancel()
}
