package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ObjKind uint8

const (
	OCell ObjKind = iota
	OMap
	OChan
	OIter
	OTimer
)

type MapEnt struct {
	ID   int
	K, V Value
}

type Obj struct {
	epoch int64
	kind  ObjKind
	typ   types.Type // cell: value type; map/chan: the map/chan type
	label string
	val   Value   // cell
	arr   []Value // cell of array type (mutable in place)
	// map
	ents   []MapEnt
	nextID int
	// chan
	buf    []Value
	cap    int
	closed bool
	timer  ObjID // timer feeding this channel (0 none)
	// iter
	keys []MapEnt // snapshot for map iteration
	mapo ObjID
	str  StrV
	pos  int
	// timer
	deadline *Term
	period   *Term // nil for one-shot
	active   bool
	ch       ObjID
	fn       FuncV
	thread   string // sleeping thread to wake
	creator  string
	seq      int
	ptr      ObjID // cell of the *time.Timer
}

func (o *Obj) clone(epoch int64) *Obj {
	n := *o
	n.epoch = epoch
	if o.arr != nil {
		n.arr = append([]Value(nil), o.arr...)
	}
	if o.ents != nil {
		n.ents = append([]MapEnt(nil), o.ents...)
	}
	if o.buf != nil {
		n.buf = append([]Value(nil), o.buf...)
	}
	if o.keys != nil {
		n.keys = append([]MapEnt(nil), o.keys...)
	}
	return &n
}

type DeferRec struct {
	fn   Value // FuncV, or nil for a builtin
	bi   string
	args []Value
	pos  token.Pos
	st   types.Type // argument type of a builtin
}

type Frame struct {
	info   *FnInfo
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	regs   []Value
	defers []DeferRec
	ret    int // register in the caller receiving the result, -1 none
	// panicking state
	panicking bool
	panicVal  Value
	panicDesc string
	recovered bool
	isDefer   bool // this frame runs a deferred call of the frame below
	unwinding bool // that deferred call runs because of a panic
	ghost     bool // entered ghost mode (vp.Ghost)
	unrec     bool // recovered, running the remaining deferred calls
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]DeferRec(nil), f.defers...)
	return &n
}

// FP: one memory access since the thread's last synchronisation.
// Kind: R, W plain; a atomic load, A atomic write.
type FP struct {
	Obj   ObjID
	Path  string
	Kind  byte
	Spawn int
	Pos   string
	Tail  bool // nothing has been released since
}

// Pend: an evaluated call of an intrinsic operation that the thread is about to perform.
type Pend struct {
	name string
	in   *Intrinsic
	args []Value
	ret  ssa.Value // instruction receiving the result, nil for deferred / go calls
	adv  bool      // advance the frame when done
	pos  token.Pos
	sig  *types.Signature
}

type TStatus uint8

const (
	TReady    TStatus = iota // parked at a visible operation (or about to run)
	TStart                   // created, has not run yet (always enabled)
	TSleeping                // waiting for a timer
	TResume                  // woken by a timer, continues (always enabled)
	TDone
)

type Thread struct {
	epoch      int64
	key        string // identity: spawn path, "0", "0.1", ...
	frames     []*Frame
	status     TStatus
	spawned    int
	fp         []FP
	ghost      int
	firm       bool // blocked since the last quiescence
	pend       *Pend
	announced  bool // announced writer on an RWMutex
	virgin     bool // has performed no visible operation yet
	eager      bool // running its first segment early
	eagerRan   bool // ran it early; fp holds its reads
	spawnedNow bool // spawned a goroutine since its last visible operation
	sleep      ObjID
	tail       bool // has released something since the start of its last step
}

func (t *Thread) clone(epoch int64) *Thread {
	n := *t
	n.epoch = epoch
	n.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		n.frames[i] = f.clone()
	}
	n.fp = append([]FP(nil), t.fp...)
	return &n
}
func (t *Thread) top() *Frame { return t.frames[len(t.frames)-1] }

type Input struct {
	Name string
	Occ  int
	Kind string
	T    *Term
}

type Step struct {
	Thread string
	Kind   string
	Pos    string
	Case   int
	Adv    *Term // time advance
	NoWait bool
}

type State struct {
	epoch   int64
	e       *Engine
	objs    []*Obj         // objects with id >= e.nbase
	over    map[ObjID]*Obj // mutated base objects
	threads []*Thread      // in creation order; done ones stay while their footprint matters
	timers  []ObjID        // active timers
	now     *Term
	pc      []*Term
	pcset   map[int]bool
	model   *Model
	level   int
	nchoice int
	occ     []occCount
	advs    int
	delays  int     // deviations from the default schedule (option delay)
	obs     []Value // vp.Observe log
	obsN    []string
	steps   []Step // only in concrete mode
	hashTab []hashRec
	// run control within a step
	log      []LogEnt
	rels     []Rel
	acq      []Acq
	granted  string   // thread that may perform one visible operation
	runq     []string // threads still to run in this step
	ninstr   int
	mainDone bool
	dead     bool // path ended (assume false, violation, truncation)
	opKind   string
	hist     *Hist
	eagerOK  []string // goroutines that ran their first segment early after this step
}

type occCount struct {
	name string
	n    int
}

type hashRec struct {
	fn  string
	in  []*Term
	out []*Term
}

var epochCounter int64

func newEpoch() int64 { epochCounter++; return epochCounter }

func (s *State) clone() *State {
	n := *s
	s.epoch = newEpoch()
	n.epoch = newEpoch()
	n.objs = append([]*Obj(nil), s.objs...)
	if len(s.over) > 0 {
		n.over = make(map[ObjID]*Obj, len(s.over))
		for k, v := range s.over {
			n.over[k] = v
		}
	}
	n.threads = append([]*Thread(nil), s.threads...)
	n.timers = append([]ObjID(nil), s.timers...)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[int]bool, len(s.pcset)+4)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.occ = append([]occCount(nil), s.occ...)
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	n.obsN = s.obsN[:len(s.obsN):len(s.obsN)]
	n.steps = s.steps[:len(s.steps):len(s.steps)]
	n.runq = append([]string(nil), s.runq...)
	n.hashTab = s.hashTab[:len(s.hashTab):len(s.hashTab)]
	n.log = s.log[:len(s.log):len(s.log)]
	n.rels = s.rels[:len(s.rels):len(s.rels)]
	n.acq = s.acq[:len(s.acq):len(s.acq)]
	return &n
}

func (s *State) addPC(c *Term) {
	if c.IsTrue() || s.pcset[c.id] {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			s.addPC(a)
		}
		return
	}
	s.pc = append(s.pc, c)
	s.pcset[c.id] = true
}

func (s *State) obj(id ObjID) *Obj {
	nb := ObjID(len(s.e.base))
	if id < nb {
		if o, ok := s.over[id]; ok {
			return o
		}
		return s.e.base[id]
	}
	return s.objs[id-nb]
}
func (s *State) mut(id ObjID) *Obj {
	o := s.obj(id)
	nb := ObjID(len(s.e.base))
	if o.epoch != s.epoch {
		o = o.clone(s.epoch)
		if id < nb {
			if s.over == nil {
				s.over = map[ObjID]*Obj{}
			}
			s.over[id] = o
		} else {
			s.objs[id-nb] = o
		}
	}
	return o
}
func (s *State) newObj(o *Obj) ObjID {
	o.epoch = s.epoch
	s.objs = append(s.objs, o)
	return ObjID(len(s.e.base) + len(s.objs) - 1)
}
func (s *State) newCell(t types.Type, v Value, label string) Ptr {
	o := &Obj{kind: OCell, typ: t, label: label}
	if a, ok := v.(ArrayV); ok {
		o.arr = append([]Value(nil), a.E...)
		if o.arr == nil {
			o.arr = []Value{}
		}
	} else {
		o.val = v
	}
	return Ptr{Obj: s.newObj(o)}
}

func (s *State) thread(key string) *Thread {
	for _, t := range s.threads {
		if t.key == key {
			return t
		}
	}
	return nil
}
func (s *State) mutThread(key string) *Thread {
	for i, t := range s.threads {
		if t.key == key {
			if t.epoch != s.epoch {
				t = t.clone(s.epoch)
				s.threads[i] = t
			}
			return t
		}
	}
	return nil
}

// getPath reads a sub-value.
func getPath(v Value, p string) Value {
	for i := 0; i < len(p)/pathW; i++ {
		k := pathIdx(p, i)
		switch x := v.(type) {
		case StructV:
			v = x.F[k]
		case ArrayV:
			v = x.E[k]
		default:
			panic(unsup("path into %T", v))
		}
	}
	return v
}
func setPath(v Value, p string, nv Value) Value {
	if len(p) == 0 {
		return nv
	}
	k := pathIdx(p, 0)
	switch x := v.(type) {
	case StructV:
		f := append([]Value(nil), x.F...)
		f[k] = setPath(f[k], p[pathW:], nv)
		return StructV{f}
	case ArrayV:
		f := append([]Value(nil), x.E...)
		f[k] = setPath(f[k], p[pathW:], nv)
		return ArrayV{f}
	}
	panic(unsup("store path into %T", v))
}

func (s *State) load(p Ptr) Value {
	o := s.obj(p.Obj)
	if o.kind != OCell {
		panic(unsup("load of object kind %d", o.kind))
	}
	if o.arr != nil {
		if len(p.Path) == 0 {
			return ArrayV{append([]Value(nil), o.arr...)}
		}
		return getPath(o.arr[pathIdx(p.Path, 0)], p.Path[pathW:])
	}
	return getPath(o.val, p.Path)
}
func (s *State) store(p Ptr, v Value) {
	o := s.mut(p.Obj)
	if o.kind != OCell {
		panic(unsup("store to object kind %d", o.kind))
	}
	if o.arr != nil {
		if len(p.Path) == 0 {
			o.arr = append([]Value(nil), v.(ArrayV).E...)
			if o.arr == nil {
				o.arr = []Value{}
			}
			return
		}
		k := pathIdx(p.Path, 0)
		o.arr[k] = setPath(o.arr[k], p.Path[pathW:], v)
		return
	}
	o.val = setPath(o.val, p.Path, v)
}
