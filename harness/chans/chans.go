// Package chans has the harnesses of the chunking and sharding channels and of the runner.
package chans

import (
	"context"
	"time"

	"github.com/axgrid/axutils/chans"
	"vpharness/lin"
	_ "vpharness/model"
	"vpharness/vp"
)

func sleep(d int) { time.Sleep(time.Duration(d)) }

// rec records the chunks a consumer gets, and a copy of each at that moment.
type rec struct {
	got, was [][]int
	at       []int
}

func (r *rec) add(c []int) {
	vp.Ghost(func() {
		r.got = append(r.got, c)
		r.was = append(r.was, append([]int(nil), c...))
		r.at = append(r.at, vp.Now())
	})
}

// check: the chunks are non-empty, not larger than size, unchanged; it gives all their items.
func (r *rec) check(size int) (all []int) {
	for i, c := range r.got {
		vp.Assert(len(c) > 0, "no empty chunk is delivered")
		vp.Assert(len(c) <= size, "no chunk is larger than the chunk size")
		vp.Assert(len(c) == len(r.was[i]), "a delivered chunk is not modified")
		for j := range c {
			vp.Assert(c[j] == r.was[i][j], "a delivered chunk is not modified")
		}
		all = append(all, c...)
	}
	return all
}

func same(got, want []int, n int) {
	vp.Assert(len(got) == n, "every item is delivered exactly once")
	for i := range got {
		vp.Assert(got[i] == want[i], "items are delivered in arrival order")
	}
}

// consume reads chunks until the context ends.
func consume(ctx context.Context, c chan []int, f func([]int)) {
	for {
		select {
		case <-ctx.Done():
			return
		case b := <-c:
			f(b)
		}
	}
}

func newChunk(ctx context.Context, size, timeout, in, out int) *chans.ChunkChanBuilder[int] {
	return chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(time.Duration(timeout)).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
}

// Three items of arbitrary value with arbitrary gaps 0..31, arbitrary chunk timeout 1..15, chunk size 1..3, a
// consumer that is always ready or the chunk function: every item arrives in order within the chunk timeout, and a
// full chunk at the instant of its last item.
//
//vp:check C01,C02 adv=40
func ChunkTimes() { chunkTimes(3) }

// The same with four items.
//
//vp:check C01,C02 thorough adv=60
func ChunkTimes4() { chunkTimes(4) }

func chunkTimes(n int) {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 3)
	timeout := vp.IntRange("timeout", 1, 15)
	r := &rec{}
	var c *chans.ChunkChan[int]
	if vp.Choose("func", 2) == 1 {
		c = newChunk(ctx, size, timeout, 2, 1).WithChunkFunc(r.add).Build()
	} else {
		c = newChunk(ctx, size, timeout, 2, 1).Build()
		go consume(ctx, c.C(), r.add)
	}
	var items, at []int
	for range n {
		gap := vp.IntRange("gap", 0, 31)
		vp.Assume(gap <= 2*timeout)
		sleep(gap)
		v := vp.Int("item")
		items = append(items, v)
		at = append(at, vp.Now())
		c.Add(v)
	}
	sleep(timeout)
	vp.Settle()
	same(r.check(size), items, n)
	i := 0
	for k, b := range r.got {
		for range b {
			vp.Assert(r.at[k] <= at[i]+timeout, "no item waits longer than the chunk timeout")
			i++
		}
		vp.Assert(vp.Implies(len(b) == size, r.at[k] == at[i-1]), "a full chunk leaves at once")
	}
	cancel()
}

// Items from two concurrent producers (two and one), buffer sizes 0..1, chunk size 1..2; the consumer starts before
// or after them and the chunk timeout passes at the same instant: each item is delivered once, those of each
// producer in order.
//
//vp:check C01,C02,T01
func ChunkPar() { chunkPar(2, 1) }

// Three items and two.
//
//vp:check C01,C02
func ChunkPar32() { chunkPar(3, 2) }

func chunkPar(n1, n2 int) {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 2)
	r := &rec{}
	c := newChunk(ctx, size, 100, vp.Choose("in", 2), vp.Choose("out", 2)).Build()
	late := vp.Choose("late", 2) == 1
	if !late {
		go consume(ctx, c.C(), r.add)
	}
	sleep(100) // the ticker is due now
	put := func(base, n int) func() {
		return func() {
			for i := range n {
				c.Add(base + i)
			}
		}
	}
	if late {
		go put(0, n1)()
		go put(10, n2)()
		vp.Settle()
		go consume(ctx, c.C(), r.add)
		vp.Settle()
	} else {
		lin.Par(put(0, n1), put(10, n2))
	}
	sleep(100)
	vp.Settle()
	all := r.check(size)
	vp.Assert(len(all) == n1+n2, "every item is delivered exactly once")
	a, b := 0, 10
	for _, v := range all {
		if v == a {
			a++
		} else {
			vp.Assert(v == b, "items of one producer are delivered once and in order")
			b++
		}
	}
	cancel()
}

// Five items in sequence, chunk size 1..4, into a full pipeline (buffers 0..2), with the chunk timeout passing
// after any of them; the consumer starts at the end, keeps the chunks it gets and changes nothing.
//
//vp:check C01,C02
func ChunkSlow() {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 4)
	r := &rec{}
	c := newChunk(ctx, size, 100, vp.Choose("in", 3), vp.Choose("out", 3)).Build()
	var items []int
	for range 5 {
		items = append(items, vp.Int("item"))
	}
	go func() {
		for _, v := range items {
			c.Add(v)
			if vp.Choose("tick", 2) == 1 {
				sleep(100)
			}
		}
	}()
	sleep(1000)
	vp.Settle()
	go consume(ctx, c.C(), r.add)
	sleep(1000)
	vp.Settle()
	same(r.check(size), items, 5)
	cancel()
}

// msg is an item with its key.
type msg struct{ key, id int }

func shardOf(key, n int) int {
	m := key % n
	if m < 0 {
		m += n
	}
	return m
}

func byKey(m msg) int { return m.key }

func newShard(ctx context.Context, n, in, out int) *chans.ShardChanBuilder[msg] {
	return chans.NewShardChan[msg]().WithContext(ctx).WithShardFunc(byKey).WithShardCount(n).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
}

// Two items with any int as key, 1..4 shards: each comes out on the shard its key selects and nowhere else, in order.
//
//vp:check C03
func ShardAnyKey() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("shards", 4)
	s, err := newShard(ctx, n, 2, 2).Build()
	vp.Assert(err == nil && s.ShardCount() == n, "built as configured")
	k := [2]int{vp.Int("key"), vp.Int("key")}
	for i := range k {
		vp.Assert(s.Add(msg{k[i], i}) == nil, "add succeeds")
	}
	vp.Settle()
	total := 0
	for i := range n {
		last := -1
		for len(s.C(i)) > 0 {
			m := <-s.C(i)
			vp.Assert(m.key == k[m.id], "the item is unchanged")
			vp.Assert(shardOf(m.key, n) == i, "the item is on the shard its key selects")
			vp.Assert(m.id > last, "items of a shard keep their order")
			last = m.id
			total++
		}
	}
	vp.Assert(total == 2, "every item comes out exactly once")
	vp.Assert(s.C(-1) == nil && s.C(n) == nil, "there are no other shards")
	cancel()
}

// Three items with keys -2..2 from two producers, two or three shards, buffer sizes 0..1, one consumer per shard or
// the worker function.
//
//vp:check C03,T01
func ShardPar() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 2 + vp.Choose("shards", 2)
	var got [3][]msg
	rec := func(i int, m msg) { vp.Ghost(func() { got[i] = append(got[i], m) }) }
	b := newShard(ctx, n, vp.Choose("in", 2), vp.Choose("out", 2))
	worker := vp.Choose("worker", 2) == 1
	if worker {
		b = b.WithWorkerFunc(rec)
	}
	s, _ := b.Build()
	if !worker {
		for i := range n {
			go func() {
				for {
					select {
					case <-ctx.Done():
						return
					case m := <-s.C(i):
						rec(i, m)
					}
				}
			}()
		}
	}
	k := [3]int{vp.Choose("key", 5) - 2, vp.Choose("key", 5) - 2, vp.Choose("key", 5) - 2}
	lin.Par(func() {
		s.Add(msg{k[0], 0})
		s.Add(msg{k[1], 1})
	}, func() { s.Add(msg{k[2], 2}) })
	vp.Settle()
	var pos [3]int
	seen := 0
	for i := range n {
		for j, m := range got[i] {
			vp.Assert(shardOf(m.key, n) == i, "the item is on the shard its key selects")
			vp.Assert(seen>>m.id&1 == 0, "no item comes out twice")
			seen |= 1 << m.id
			pos[m.id] = j
		}
	}
	vp.Assert(seen == 7, "every item comes out")
	vp.Assert(shardOf(k[0], n) != shardOf(k[1], n) || pos[0] < pos[1], "items of a shard keep their order")
	cancel()
}

// Building without a shard function is refused.
//
//vp:check C03
func ShardNoFunc() {
	s, err := chans.NewShardChan[msg]().Build()
	vp.Assert(s == nil && err == chans.ErrShardFuncIsNil, "no shard function: error")
	c, err := chans.NewShardChunk[msg]().Build()
	vp.Assert(c == nil && err == chans.ErrShardFuncIsNil, "no shard function: error")
	vp.Assert(vp.Goroutines() == 0, "nothing was started")
}

func newShardChunk(ctx context.Context, shards, size, timeout, in, out int) *chans.ShardChunkBuilder[msg] {
	return chans.NewShardChunk[msg]().WithContext(ctx).WithShardFunc(byKey).WithShardCount(shards).WithChunkSize(size).WithChunkTimeout(time.Duration(timeout)).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
}

type batch struct {
	shard int
	items []msg
}

func checkBatches(got []batch, shards, size, n int, k []int) {
	var last [4]int
	total := 0
	for _, b := range got {
		vp.Assert(len(b.items) > 0, "no empty chunk")
		vp.Assert(len(b.items) <= size, "no chunk is larger than the chunk size")
		for _, m := range b.items {
			vp.Assert(m.key == k[m.id], "the item is unchanged")
			vp.Assert(shardOf(m.key, shards) == b.shard, "the item is in a chunk of the shard its key selects")
			vp.Assert(m.id+1 > last[b.shard], "items of a shard keep their order")
			last[b.shard] = m.id + 1
			total++
		}
	}
	vp.Assert(total == n, "every item comes out exactly once")
}

// Three items with keys -1..2 (and any int for the last) in sequence, 1..3 shards, chunk size 1..2: the shard worker
// or the shard's channel gets each of them in order in a chunk of the right shard.
//
//vp:check C04
func ShardChunkSeq() { shardChunk(3, false) }

// The same concurrently with the chunk timeout, buffers of size 0..1, two shards.
//
//vp:check C04
func ShardChunkPar() { shardChunk(2, true) }

func shardChunk(n int, par bool) {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 2)
	shards, in, out := 2, 1, 1
	if par {
		in, out = vp.Choose("in", 2), vp.Choose("out", 2)
	} else {
		shards = 1 + vp.Choose("shards", 3)
	}
	var got []batch
	rec := func(i int, ms []msg) { vp.Ghost(func() { got = append(got, batch{i, ms}) }) }
	b := newShardChunk(ctx, shards, size, 100, in, out)
	worker := vp.Choose("worker", 2) == 1
	if worker {
		b = b.WithShardWorker(rec)
	}
	incoming := make(chan msg, in)
	s, err := b.WithIncomingChan(incoming).Build()
	vp.Assert(err == nil && s.ShardCount() == shards, "built as configured")
	if !worker {
		for i := range shards {
			go func() {
				for {
					select {
					case <-ctx.Done():
						return
					case ms := <-s.C(i):
						rec(i, ms)
					}
				}
			}()
		}
	}
	if par {
		sleep(100)
	}
	var k []int
	for i := range n {
		x := 0
		if i == n-1 && !par {
			x = vp.Int("any")
		} else {
			x = vp.Choose("key", 4) - 1
		}
		k = append(k, x)
		incoming <- msg{x, i}
		if !par {
			vp.Settle()
		}
	}
	sleep(300)
	vp.Settle()
	checkBatches(got, shards, size, n, k)
	vp.Assert(s.C(-1) == nil && s.C(shards) == nil, "there are no other shards")
	cancel()
}

// closing: cancel at every point of the run, then nothing may be left running.
func closing(cancel func(), fs ...func()) {
	done := 0
	for _, f := range fs {
		go func() {
			f()
			vp.Ghost(func() { done++ })
		}()
	}
	vp.Yield()
	cancel()
	sleep(1000)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything terminates after the cancellation")
	vp.Assert(done == len(fs), "adding does not block for ever")
}

// One producer of up to three items, chunk size 1..2, buffers 0..1, at most one chunk is ever read (or the chunk
// function runs): the context is cancelled at an arbitrary point, including the instant of the chunk timeout.
//
//vp:check C05,T01
func ChunkCancel() {
	ctx, cancel := context.WithCancel(context.Background())
	b := newChunk(ctx, 1+vp.Choose("size", 2), 100, 2, vp.Choose("out", 2))
	if vp.Choose("func", 2) == 1 {
		b = b.WithChunkFunc(func([]int) { sleep(50) })
	}
	c := b.Build()
	n := vp.Choose("n", 4)
	at := vp.Choose("at", 3)
	closing(func() {
		sleep(at * 50)
		cancel()
	}, func() {
		for i := range n {
			select {
			case c.Incoming() <- i:
			case <-ctx.Done():
			}
		}
	}, func() {
		select {
		case <-c.C():
		case <-ctx.Done():
		}
	})
}

// Three items into a sharding channel with buffers 0..1 whose shards nobody reads (or whose workers are slow), and
// a cancellation at an arbitrary point: add returns nil or the context's error, nothing is left running, and an
// add that cannot proceed returns the error.
//
//vp:check C05,T01
func ShardCancel() {
	ctx, cancel := context.WithCancel(context.Background())
	b := newShard(ctx, 2, vp.Choose("in", 2), vp.Choose("out", 2))
	if vp.Choose("worker", 2) == 1 {
		b = b.WithWorkerFunc(func(int, msg) { sleep(50) })
	}
	s, _ := b.Build()
	k := vp.Choose("key", 2)
	add := func(key, id int) {
		err := s.Add(msg{key, id})
		vp.Assert(err == nil || err == context.Canceled, "add returns nil or the context's error")
		if err != nil {
			vp.Assert(ctx.Err() != nil, "no error while the context lives")
		}
	}
	at := vp.Choose("at", 2)
	closing(func() {
		sleep(at * 50)
		cancel()
	}, func() {
		add(0, 0)
		add(k, 1)
	}, func() {
		add(0, 2)
	})
	// everything has stopped: the buffer takes what fits, then only the error is possible
	e := 0
	for range 3 {
		err := s.Add(msg{})
		vp.Assert(err == nil || err == context.Canceled, "add returns nil or the context's error")
		if err != nil {
			e++
		}
	}
	vp.Assert(e >= 2, "with the buffer full, add returns the context's error")
}

// Items into a shard-and-chunk channel (buffers 0..1, chunk size 1, nobody reads or slow workers), cancelled at an
// arbitrary point.
//
//vp:check C05
func ShardChunkCancel() {
	ctx, cancel := context.WithCancel(context.Background())
	in := make(chan msg)
	b := newShardChunk(ctx, 1, 1, 100, 0, vp.Choose("out", 2)).WithIncomingChan(in)
	if vp.Choose("worker", 2) == 1 {
		b = b.WithShardWorker(func(int, []msg) { sleep(50) })
	}
	b.Build()
	n := vp.Choose("n", 4)
	closing(cancel, func() {
		for i := range n {
			select {
			case in <- msg{i, i}:
			case <-ctx.Done():
			}
		}
	})
}

// As before with a chunker whose own buffer is full when the cancellation comes: 1001 items fit into it.
//
//vp:check C05 instr=4000000 level=8000
func ShardChunkCancelFull() {
	ctx, cancel := context.WithCancel(context.Background())
	in := make(chan msg)
	newShardChunk(ctx, 1, 1, 100, 0, 0).WithIncomingChan(in).Build()
	go func() {
		for i := range 1010 {
			select {
			case in <- msg{i, i}:
			case <-ctx.Done():
			}
		}
	}()
	vp.Settle()
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything terminates after the cancellation")
}
