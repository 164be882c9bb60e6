package coll

import (
	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// anyShards builds a sharded map with an arbitrary assignment of the keys 0..nkeys-1 to the shards.
func anyShards(count, nkeys int) *collections.ShardMap[int, int] {
	var to [3]int
	for k := 0; k < nkeys; k++ {
		to[k] = vp.Choose("shard", count)
	}
	return collections.NewShardMap[int, int]().WithShardsCount(count).WithShardsFunc(func(k int) int { return to[k] }).Build()
}

// Any number of arbitrary operations in sequence on three keys, 1..3 shards, every assignment of keys to shards,
// arbitrary values.
//
//vp:check M02
func ShardSeq() {
	n := 1 + vp.Choose("count", 3)
	seqMap(anyShards(n, 3), opClear+1, 3)
}

// Arbitrary (symbolic) byte keys: three operations, the shard function is the key modulo the number of shards (1..3).
//
//vp:check M02
func ShardAnyKey() {
	n := 1 + vp.Choose("count", 3)
	m := collections.NewShardMap[uint8, int]().WithShardsCount(n).WithShardsFunc(func(k uint8) int { return int(k % uint8(n)) }).Build()
	symMap[uint8](m, vp.Byte, 3)
}

// Arbitrary (symbolic) int keys: three operations.
//
//vp:check M01
func MapAnyKey() { symMap[int](collections.NewSimpleMap[int, int](), vp.Int, 3) }

type kv[K comparable] struct {
	k K
	v int
}

// symMap: operations with symbolic keys against an association list.
func symMap[K comparable](m collections.Map[K, int], key func(string) K, n int) {
	var l []kv[K] // latest first, no equal keys
	find := func(k K) int {
		for i := range l {
			if l[i].k == k {
				return i
			}
		}
		return -1
	}
	for range n {
		k, v := key("k"), vp.Int("v")
		i := find(k)
		switch vp.Choose("op", 6) {
		case 0:
			m.Set(k, v)
			if i >= 0 {
				l[i].v = v
			} else {
				l = append(l, kv[K]{k, v})
			}
		case 1:
			m.Delete(k)
			if i >= 0 {
				l = append(append([]kv[K](nil), l[:i]...), l[i+1:]...)
			}
		case 2:
			r, ok := m.Get(k)
			vp.Assert(ok == (i >= 0), "get finds exactly the present keys")
			if i >= 0 {
				vp.Assert(r == l[i].v, "get returns the value last stored")
			}
		case 3:
			vp.Assert(m.Has(k) == (i >= 0), "has reports exactly the present keys")
		case 4:
			vp.Assert(m.SetIfNotExists(k, v) == (i < 0), "set-if-absent reports whether the key was absent")
			if i < 0 {
				l = append(l, kv[K]{k, v})
			}
		case 5:
			ran := 0
			r, ok := m.SetIfNotExistsWithFunc(k, func() int { ran++; return v })
			vp.Assert(ok == (i < 0), "set-if-absent reports whether the key was absent")
			if i < 0 {
				vp.Assert(r == v && ran == 1, "the function's value is stored and returned")
				l = append(l, kv[K]{k, v})
			} else {
				vp.Assert(r == l[i].v && ran == 0, "the present value is returned and the function does not run")
			}
		}
	}
	for _, e := range l {
		r, ok := m.Get(e.k)
		vp.Assert(ok && r == e.v, "the contents are those of an ordinary map")
	}
	vp.Assert(m.Size() == len(l), "size counts the keys")
}

// keyStep is the specification of one key of the sharded map: clear is a delete of every key.
func keyStep(k int) func(mapState, *lin.Op) (mapState, bool) {
	return func(s mapState, o *lin.Op) (mapState, bool) {
		if o.Kind == opClear {
			s.has[k], s.val[k] = false, 0
			return s, true
		}
		if o.K != k || o.Kind == opSize {
			return s, true
		}
		return mapStep(s, o)
	}
}

// concShard: like concMap, but clear works key by key and size is compared with the keys present at its time.
func concShard(m aMap, nkeys int, pre bool, threads ...int) {
	h := &lin.Hist{}
	var s mapState
	if pre {
		v := vp.Int("pre")
		m.Set(0, v)
		s.has[0], s.val[0] = true, v
	}
	var fs []func()
	for _, n := range threads {
		var ops []*lin.Op
		for range n {
			ops = append(ops, anyOp(h, opClear+1, nkeys))
		}
		fs = append(fs, func() {
			for _, o := range ops {
				do(m, h, o)
			}
		})
	}
	all := append([]*lin.Op(nil), h.Ops...)
	lin.Par(fs...)
	for k := 0; k < nkeys; k++ {
		do(m, h, h.New(opGet, k, 0))
	}
	for k := 0; k < nkeys; k++ {
		hk := &lin.Hist{}
		for _, o := range h.Ops {
			if o.K == k || o.Kind == opClear {
				if o.Kind != opSize {
					hk.Ops = append(hk.Ops, o)
				}
			}
		}
		vp.Assert(lin.Sub(h, hk, s, keyStep(k)), "the results for each key are those of some sequential order")
	}
	for _, o := range all {
		if o.Kind != opSize {
			continue
		}
		lo, hi := 0, 0
		for k := 0; k < nkeys; k++ {
			removed, set := false, false
			for _, p := range all {
				if p.Kind == opClear || p.Kind == opDelete && p.K == k {
					removed = true
				}
				if (p.Kind == opSet || p.Kind == opSetNX || p.Kind == opSetNXF) && p.K == k {
					set = true
				}
			}
			if s.has[k] && !removed {
				lo++
			}
			if s.has[k] || set {
				hi++
			}
		}
		vp.Assert(lo <= o.R && o.R <= hi, "size counts no key twice and misses no key that stays")
	}
	n := 0
	for k := 0; k < nkeys; k++ {
		if m.Has(k) {
			n++
		}
	}
	vp.Assert(m.Size() == n, "size counts the keys")
}

// Two goroutines with one arbitrary operation each (including size and clear), keys {0,1} on the same or
// different shards, key 0 present or absent.
//
//vp:check M02,T01
func ShardPar2() {
	concShard(anyShards(2, 2), 2, vp.Choose("pre", 2) == 1, 1, 1)
}

// Three goroutines with one arbitrary operation each on one key.
//
//vp:check M02
func ShardPar3() {
	concShard(anyShards(1, 1), 1, false, 1, 1, 1)
}

// Two goroutines with two arbitrary operations and one, keys {0,1}.
//
//vp:check M02 thorough
func ShardPar21() {
	concShard(anyShards(2, 2), 2, vp.Choose("pre", 2) == 1, 2, 1)
}
