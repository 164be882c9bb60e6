package chans

import (
	"context"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"
	"vpharness/vp"
)

// Histories of any length: the reference keeps what is on its way, everything else is forgotten.

// item on its way, with the time it has spent.
type transit struct{ v, age, shard int }

// Any number of items of arbitrary value and units of time, chunk size 1..3, chunk timeout 2..4 units, a consumer that
// is always ready or the chunk function: every chunk is the next items in order, never empty or too large, a full one
// leaves at once and no item waits longer than the timeout.
//
//vp:check C01,C02 adv=9000 level=4000
func ChunkLife() { chunkLife(1+vp.Choose("size", 3), 2+vp.Choose("timeout", 3)) }

// Chunk size 5, timeout 7.
//
//vp:check C01,C02 adv=9000 level=4000 t.level=100000
func ChunkLifeLong() { chunkLife(5, 7) }

func chunkLife(size, timeout int) {
	ctx, cancel := context.WithCancel(context.Background())
	var open []transit
	get := func(b []int) {
		vp.Ghost(func() {
			vp.Assert(len(b) > 0, "no empty chunk is delivered")
			vp.Assert(len(b) <= size, "no chunk is larger than the chunk size")
			for i, v := range b {
				vp.Assert(i < len(open), "no item is delivered twice")
				vp.Assert(open[i].v == v, "items are delivered in arrival order")
			}
			open = append([]transit(nil), open[len(b):]...)
		})
	}
	var c *chans.ChunkChan[int]
	if vp.Choose("func", 2) == 1 {
		c = newChunk(ctx, size, timeout, 1, 1).WithChunkFunc(get).Build()
	} else {
		c = newChunk(ctx, size, timeout, 1, 1).Build()
		go consume(ctx, c.C(), get)
	}
	for vp.More() {
		if vp.Choose("op", 2) == 0 {
			v := vp.Int("item")
			open = append(open, transit{v: v})
			c.Add(v)
		} else {
			for i := range open {
				open[i].age++
			}
			sleep(1)
		}
		vp.Settle()
		vp.Assert(len(open) < size, "a full chunk leaves at once")
		for _, x := range open {
			vp.Assert(x.age < timeout, "no item waits longer than the chunk timeout")
		}
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "every goroutine ends with the context")
}

// Any number of items (at most four on their way), up to six units of time, and a consumer that takes a chunk only now and
// then: chunk size 1..2, timeout 2, no outgoing buffer or one of 1. The chunks taken are kept and not modified.
//
//vp:check C01,C02 adv=9000 level=4000 merge=0
func ChunkLifeSlow() {
	ctx, cancel := context.WithCancel(context.Background())
	size := 1 + vp.Choose("size", 2)
	c := newChunk(ctx, size, 2, 4, vp.Choose("out", 2)).Build()
	var open []int
	var last, was []int
	passed := 0
	for vp.More() {
		switch vp.Choose("op", 3) {
		case 0:
			if len(open) == 4 {
				continue
			}
			v := vp.Int("item")
			open = append(open, v)
			c.Add(v)
		case 1:
			if passed == 6 {
				continue
			}
			passed++
			sleep(1)
		case 2:
			var b []int
			ok := false
			select {
			case b = <-c.C():
				ok = true
			default:
			}
			if !ok {
				vp.Assert(len(open) < size, "a full chunk leaves at once")
				continue
			}
			vp.Assert(len(b) > 0, "no empty chunk is delivered")
			vp.Assert(len(b) <= size && len(b) <= len(open), "no chunk is larger than the chunk size")
			for i, v := range b {
				vp.Assert(open[i] == v, "items are delivered in arrival order")
			}
			open = append([]int(nil), open[len(b):]...)
			last, was = b, append([]int(nil), b...)
		}
		vp.Settle()
		for i := range last {
			vp.Assert(last[i] == was[i], "a delivered chunk is not modified")
		}
	}
	sleep(2)
	vp.Settle()
	for len(open) > 0 {
		b := <-c.C()
		for i, v := range b {
			vp.Assert(open[i] == v, "items are delivered in arrival order")
		}
		open = open[len(b):]
		sleep(2)
		vp.Settle()
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "every goroutine ends with the context")
}

// Any number of items (at most three on their way) with keys -2..2, and reads of any shard, 2 or 3 shards, outgoing
// buffers of size 0, 1 or 3.
//
//vp:check C03 adv=9000 level=4000
func ShardLife() {
	ctx, cancel := context.WithCancel(context.Background())
	n, out := 2+vp.Choose("shards", 2), []int{0, 1, 3}[vp.Choose("out", 3)]
	s, err := newShard(ctx, n, 3, out).Build()
	vp.Assert(err == nil, "no error")
	var open []transit
	for vp.More() {
		if vp.Choose("op", 2) == 0 {
			if len(open) == 3 {
				continue
			}
			k, id := vp.Choose("key", 5)-2, vp.Int("id")
			open = append(open, transit{id, k, shardOf(k, n)})
			vp.Assert(s.Add(msg{k, id}) == nil, "no error")
		} else {
			i := vp.Choose("shard", n)
			select {
			case m := <-s.C(i):
				first := -1
				for j, x := range open {
					if x.shard == i {
						first = j
						break
					}
				}
				vp.Assert(first >= 0, "an item comes out once, on its shard")
				vp.Assert(m.id == open[first].v && m.key == open[first].age, "items of a shard keep their order")
				open = append(append([]transit(nil), open[:first]...), open[first+1:]...)
			default:
				vp.Assert(len(open) == 0 || open[0].shard != i, "the next item is there to be read")
				room := 0
				for _, x := range open {
					if x.shard == i {
						room++
					}
				}
				vp.Assert(room == 0 || out < 3, "with room in the buffers every item is there to be read")
			}
		}
		vp.Settle()
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "every goroutine ends with the context")
}

// Any number of items with keys -1..1 and units of time, two shards, chunk size 1..2, timeout 2 or 3, worker function
// or consumers that are always ready.
//
//vp:check C04 adv=9000 level=4000
func ShardChunkLife() {
	ctx, cancel := context.WithCancel(context.Background())
	size, timeout := 1+vp.Choose("size", 2), 2+vp.Choose("timeout", 2)
	var open [2][]transit
	get := func(i int, b []msg) {
		vp.Ghost(func() {
			vp.Assert(len(b) > 0 && len(b) <= size, "a chunk is not empty and not larger than the chunk size")
			for j, m := range b {
				vp.Assert(j < len(open[i]), "no item comes out twice or on another shard")
				vp.Assert(m.id == open[i][j].v && m.key == open[i][j].shard, "items of a shard keep their order")
			}
			open[i] = append([]transit(nil), open[i][len(b):]...)
		})
	}
	in := make(chan msg, 1)
	b := newShardChunk(ctx, 2, size, timeout, 2, 1).WithIncomingChan(in)
	worker := vp.Choose("worker", 2) == 1
	if worker {
		b = b.WithShardWorker(get)
	}
	s, err := b.Build()
	vp.Assert(err == nil, "no error")
	if !worker {
		for i := range 2 {
			go func() {
				for {
					select {
					case <-ctx.Done():
						return
					case ms := <-s.C(i):
						get(i, ms)
					}
				}
			}()
		}
	}
	for vp.More() {
		if vp.Choose("op", 2) == 0 {
			k, id := vp.Choose("key", 3)-1, vp.Int("id")
			i := shardOf(k, 2)
			open[i] = append(open[i], transit{v: id, shard: k})
			in <- msg{k, id}
		} else {
			for i := range open {
				for j := range open[i] {
					open[i][j].age++
				}
			}
			sleep(1)
		}
		vp.Settle()
		for i := range open {
			vp.Assert(len(open[i]) < size, "a full chunk leaves at once")
			for _, x := range open[i] {
				vp.Assert(x.age < timeout, "no item waits longer than the chunk timeout")
			}
		}
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "every goroutine ends with the context")
}

// Any number of functions of either variant (at most four submitted and not finished), one to three workers; each
// function runs until it is released.
//
//vp:check W01,W02 adv=9000 level=4000 merge=0
func RunnerLife() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("workers", 3)
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	const (
		free = iota
		submitted
		running
	)
	var state [4]int
	var gate [4]chan int
	for i := range gate {
		gate[i] = make(chan int)
	}
	for vp.More() {
		i := vp.Choose("slot", 4)
		switch state[i] {
		case free:
			if i > 0 && state[i-1] == free && i > 1 && state[i-2] == free {
				continue // any free slot will do
			}
			f := func() {
				vp.Ghost(func() {
					vp.Assert(state[i] == submitted, "a function is executed once")
					state[i] = running
				})
				<-gate[i]
			}
			state[i] = submitted
			if vp.Choose("ctx", 2) == 1 {
				r.RunWithContext(func(c context.Context) {
					vp.Assert(c == ctx, "the context variant receives the runner's context")
					f()
				})
			} else {
				r.Run(f)
			}
		case running:
			vp.Ghost(func() { state[i] = free })
			gate[i] <- 0
		}
		vp.Settle()
		all, now := 0, 0
		for _, s := range state {
			if s != free {
				all++
			}
			if s == running {
				now++
			}
		}
		vp.Assert(now == min(n, all), "as many functions run at the same time as there are workers")
	}
	cancel()
	vp.Settle()
	for i := 0; i < len(state); i++ {
		if state[i] == running {
			vp.Ghost(func() { state[i] = free })
			gate[i] <- 0
			vp.Settle()
			i = -1
		}
	}
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}
