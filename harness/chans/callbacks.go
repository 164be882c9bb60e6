package chans

import (
	"context"

	"github.com/axgrid/axutils/workers"
	"vpharness/lin"
	"vpharness/vp"
)

// Chunk and worker functions that put items into the channel they were called by (with room in the incoming buffer).

// A chunk function that adds a further item for each of the first two chunks.
//
//vp:check E02
func ReenterChunk() {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 2)
	var got []int
	var add func(int)
	n := 0
	v := vp.Int("v")
	c := newChunk(ctx, size, 100, 2, vp.Choose("out", 2)).WithChunkFunc(func(b []int) {
		vp.Ghost(func() { got = append(got, b...) })
		if n < 2 {
			n++
			add(v + n)
		}
	}).Build()
	add = c.Add
	c.Add(v)
	sleep(1000)
	vp.Settle()
	vp.Assert(len(got) == 3, "every item added by the chunk function comes out")
	for i, x := range got {
		vp.Assert(x == v+i, "in order")
	}
	cancel()
}

// A worker function of a sharding channel that adds an item for another shard, and one of a shard-and-chunk channel.
//
//vp:check E02
func ReenterShard() {
	ctx, cancel := context.WithCancel(context.Background())
	var got []int
	var add func(msg) error
	f := func(m msg) {
		vp.Ghost(func() { got = append(got, m.key) })
		if m.key < 3 {
			vp.Assert(add(msg{m.key + 1, m.id}) == nil, "no error")
		}
	}
	id := vp.Int("id")
	if vp.Choose("chunked", 2) == 0 {
		s, err := newShard(ctx, 2, 2, vp.Choose("out", 2)).WithWorkerFunc(func(_ int, m msg) { f(m) }).Build()
		vp.Assert(err == nil, "no error")
		add = s.Add
	} else {
		in := make(chan msg, 2)
		_, err := newShardChunk(ctx, 2, 1, 100, 2, 1).WithIncomingChan(in).WithShardWorker(func(_ int, b []msg) {
			for _, m := range b {
				f(m)
			}
		}).Build()
		vp.Assert(err == nil, "no error")
		add = func(m msg) error { in <- m; return nil }
	}
	vp.Assert(add(msg{0, id}) == nil, "no error")
	sleep(1000)
	vp.Settle()
	vp.Assert(len(got) == 4, "every item added by a worker comes out")
	for i, k := range got {
		vp.Assert(k == i, "once")
	}
	cancel()
}

// Functions that submit functions to the runner that executes them, one or two workers.
//
//vp:check E02
func ReenterRunner() {
	ctx, cancel := context.WithCancel(context.Background())
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(1 + vp.Choose("workers", 2)).Build()
	var ran [4]int
	done := func(i int) { vp.Ghost(func() { ran[i]++ }) }
	kind := vp.Choose("kind", 4)
	submit := func(i int, f func()) {
		if kind>>i&1 == 0 {
			r.Run(f)
		} else {
			r.RunWithContext(func(context.Context) { f() })
		}
	}
	lin.Par(func() {
		submit(0, func() {
			done(0)
			submit(1, func() {
				done(1)
				submit(0, func() { done(2) })
			})
		})
	}, func() { submit(1, func() { done(3) }) })
	vp.Settle()
	vp.Assert(ran == [4]int{1, 1, 1, 1}, "every function submitted by a function is executed once")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}
