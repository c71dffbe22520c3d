// Package rt is the deterministic simulation kernel: it owns every scheduling
// decision, the simulated clock and every environment choice (pool outcomes,
// iteration orders, collections, stack moves) of a run. Simulated tasks are
// goroutines of which exactly one runs at any time; the baton is handed over
// at yield points only.
//
// The package is compiled without race instrumentation and hides its baton
// passing from the race detector (RaceDisable), so that under -race only the
// synchronisation performed by the code under test orders its accesses.
// For the same reason it uses no maps, no append and no copy on state shared
// between tasks.
package rt

import (
	"runtime"
	"runtime/debug"
	"unsafe"
)

const (
	MaxTasks = 1024
	maxRecs  = 1 << 15
)

// Used silences unused import errors in instrumented files.
const Used = true

// Kinds of recorded decisions. The default of every decision is 0 (or, for a
// switch, not switching); only deviations are recorded.
const (
	KSwitch    = iota // at step Idx of Task, switch to task Val
	KBlocked          // when Task blocks or ends for the Idx-th time, run task Val
	KGC               // at step Idx of Task, collect garbage
	KGrow             // at step Idx of Task, grow and move the stack
	KFlush            // at step Idx of Task, evict everything from all pools
	KPoolGet          // Idx-th pool Get of Task: 1 miss, k+2 k-th oldest item
	KPoolPut          // Idx-th pool Put of Task: 1 drop
	KMapOrder         // Idx-th map iteration of Task: permutation seed
	KSMapOrder        // Idx-th sync.Map Range of Task: permutation seed
	KSMapView         // Idx-th choice in sync.Map Range: 1 later additions are visited too
	KSelect           // Idx-th select of Task: case tried first
	NKinds
)

var KindNames = [NKinds]string{"switch", "dispatch", "gc", "stack-move", "pool-flush", "pool-get", "pool-put", "map-order", "syncmap-order", "syncmap-view", "select"}

// Rec is one recorded deviation from the default decision.
type Rec struct {
	Task int32  `json:"t"`
	Kind int32  `json:"k"`
	Idx  int64  `json:"i"`
	Val  int64  `json:"v"`
	Site uint32 `json:"-"`
}

const (
	stUnused = iota
	stReady
	stBlocked
	stSleeping
	stHung
	stDone
)

type Task struct {
	ID       int32
	state    uint8
	exiting  bool
	Panicked bool // the task function itself panicked (harness error)
	PanicVal any
	Finished bool // the task function returned (as opposed to Goexit)
	steps    int64
	nextAct  int64
	nextSw   int64
	nextGC   int64
	nextGrow int64
	nextFl   int64
	recPos   int
	nblk     int64
	prio     int64
	rnd      uint64
	counts   [NKinds]int64
	wake     chan struct{}
	waitKey  unsafe.Pointer
	waitWhy  string
	wakeAt   int64
	fn       func()
	Local    any // workload's per-task state
	Name     string
	daemon   bool // started by the code under test: need not end
}

// Config controls the generation of decisions in a run (ignored in replay).
type Config struct {
	SwitchMean int64 // mean number of own steps between preemptions, 0: never
	HotFrac    int   // per mille of sites that are preemption hot spots
	HotProb    int   // per mille: preempt at a hot site
	SyncProb   int   // per mille: preempt at synchronisation operations
	UserProb   int   // per mille: preempt at user callback events
	PCT        bool  // pick by random priorities instead of uniformly
	GCMean     int64
	GCMax      int64 // at most so many collections (0: no limit)
	GrowMean   int64
	FlushMean  int64
	PoolMiss   int // per mille
	PoolSteal  int // per mille
	PoolDrop   int // per mille
	MapPerm    int // per mille
	SMapPerm   int
	SMapView   int
	StepLimit  int64
	Procs      int `json:",omitempty"` // processors of the simulated machine
}

// Stats counts what actually happened in a run.
type Stats struct {
	Steps     int64
	Switches  int64
	SimTime   int64 // simulated microseconds
	Fired     [NKinds]int64
	Sleeps    int64
	PoolGets  int64
	PoolHits  int64
	MapIters  int64
	SyncOps   int64
	Goroutine int64
}

type sim struct {
	on        bool
	seed      uint64
	replay    bool
	abort     bool
	Deadlock  bool
	HangBlock bool  // tasks were blocked while only hung tasks remained
	base      int64 // steps at the last completion of a call
	LimitHit  bool
	Overflow  bool
	Void      bool // more tasks than the kernel can handle
	cfg       Config
	rng       uint64
	now       int64
	ntask     int32
	tasks     [MaxTasks]Task
	recs      [maxRecs]Rec
	nrec      int
	rep       []Rec // replay records, sorted by task, then index; switch-like kinds
	repEnv    []Rec
	hot       []bool
	anyHot    bool
	trace     uint64 // hash of the interleaving
	events    uint64 // hash of all events (determinism check)
	nevents   int64
	mainWake  chan struct{}
	joinTok   int
	st        Stats
	seq       int64
	stuck     string
	idle      int // wakeups of the background in a row
	idleAt    int64
	chanTry   int // attempts to resolve a deadlock by waking channel operations
	chanOK    int64
	epoch     uint64
	ready     [MaxTasks]int32
}

var (
	s   sim
	cur *Task
)

// Epoch identifies the current run; simulated sync objects use it to register.
//
//go:norace
func Epoch() uint64 { return s.epoch }

//go:norace
func rnd() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rn(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(rnd() % uint64(n))
}

//go:norace
func pm(p int) bool { return p > 0 && int(rnd()%1000) < p }

//go:norace
func gap(mean int64) int64 {
	if mean <= 0 {
		return 1 << 60
	}
	// heavy tailed: mean * {1/8 .. 2}
	m := mean
	switch rnd() % 4 {
	case 0:
		m = mean/8 + 1
	case 1:
		m = mean/2 + 1
	case 2:
		m = mean
	default:
		m = 2 * mean
	}
	return 1 + int64(rnd()%uint64(2*m))
}

//go:norace
func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

// Begin prepares a run. With rep != nil the run is a replay of exactly those
// deviations; otherwise decisions are drawn from seed under cfg.
//
//go:norace
func Begin(seed uint64, cfg Config, replay bool, rep []Rec) {
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 20_000_000
	}
	s.epoch++
	s.on = true
	s.replay = replay
	s.abort, s.Deadlock, s.HangBlock, s.LimitHit, s.Overflow, s.Void = false, false, false, false, false, false
	s.cfg = cfg
	s.rng = seed
	s.seed = seed
	randSeed = mix(seed, 1<<40) | 1
	s.now = 0
	for i := 0; i < int(s.ntask) || i == 0; i++ {
		w := s.tasks[i].wake
		if w == nil {
			w = make(chan struct{}, 1)
		}
		s.tasks[i] = Task{ID: int32(i), wake: w}
	}
	s.ntask = 0
	waiting, recvers = nil, nil
	beginTimers()
	s.idle = 0
	s.base = 0
	s.chanTry, s.chanOK = 0, 0
	s.nrec = 0
	s.trace = 0x1234567
	s.events = 0x7654321
	s.nevents = 0
	s.st = Stats{}
	s.seq = 0
	s.stuck = ""
	if s.mainWake == nil {
		s.mainWake = make(chan struct{}, 1)
	}
	if len(s.hot) != len(SiteNames) {
		s.hot = make([]bool, len(SiteNames))
	}
	s.anyHot = false
	for i := range s.hot {
		s.hot[i] = false
	}
	s.rep, s.repEnv = nil, nil
	if replay {
		var a, b []Rec
		for _, r := range rep {
			switch r.Kind {
			case KSwitch, KGC, KGrow, KFlush:
				a = append(a, r)
			default:
				b = append(b, r)
			}
		}
		// insertion sort by (task, idx); stable, few records
		for i := 1; i < len(a); i++ {
			for j := i; j > 0 && (a[j].Task < a[j-1].Task || a[j].Task == a[j-1].Task && a[j].Idx < a[j-1].Idx); j-- {
				a[j], a[j-1] = a[j-1], a[j]
			}
		}
		s.rep, s.repEnv = a, b
	} else if cfg.HotFrac > 0 {
		s.anyHot = true
		for i := range s.hot {
			s.hot[i] = int(rnd()%1000) < cfg.HotFrac
		}
	}
}

//go:norace
func record(t *Task, kind int32, idx, val int64) {
	s.st.Fired[kind]++
	s.events = mix(s.events, uint64(kind)<<56^uint64(t.ID)<<48^uint64(idx)<<16^uint64(val))
	if s.nrec >= maxRecs {
		s.Overflow = true
		return
	}
	s.recs[s.nrec] = Rec{Task: t.ID, Kind: kind, Idx: idx, Val: val}
	s.nrec++
}

// Spawn adds a task before the run starts (main goroutine) or, through Go,
// while it runs.
//
//go:norace
func Spawn(name string, fn func()) *Task {
	if s.ntask >= MaxTasks {
		return nil
	}
	t := &s.tasks[s.ntask]
	if t.wake == nil {
		t.wake = make(chan struct{}, 1)
	}
	t.ID = s.ntask
	s.ntask++
	t.fn = fn
	t.Name = name
	t.state = stReady
	t.prio = int64(rnd() >> 1)
	t.rnd = mix(s.seed, uint64(t.ID)) | 1
	if s.replay {
		for t.recPos = 0; t.recPos < len(s.rep) && s.rep[t.recPos].Task != t.ID; t.recPos++ {
		}
	} else {
		t.nextSw = gap(s.cfg.SwitchMean)
		t.nextGC = gap(s.cfg.GCMean)
		t.nextGrow = gap(s.cfg.GrowMean)
		t.nextFl = gap(s.cfg.FlushMean)
	}
	t.setNext()
	go taskMain(t)
	return t
}

// pending are the goroutines started by package initialisation.
var pending []func()
var resetting bool
var everReset bool

// Go replaces a go statement in the code under test.
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		switch {
		case resetting:
			pending = append(pending, fn)
		case everReset:
			go fn()
		}
		// The initialisation of the process itself is repeated before the
		// first run.
		return
	}
	if s.abort {
		leave(cur)
		return
	}
	s.st.Goroutine++
	t := Spawn("go", fn)
	if t == nil {
		s.Void = true
		s.abort = true
		leave(cur)
		return
	}
	t.Local = cur.Local
	t.daemon = true
	Sync(0, 60)
}

//go:norace
func (t *Task) setNext() {
	n := t.steps + 20000
	if s.replay {
		if t.recPos < len(s.rep) && s.rep[t.recPos].Task == t.ID && s.rep[t.recPos].Idx < n {
			n = s.rep[t.recPos].Idx
		}
	} else {
		if t.nextSw < n {
			n = t.nextSw
		}
		if t.nextGC < n {
			n = t.nextGC
		}
		if t.nextGrow < n {
			n = t.nextGrow
		}
		if t.nextFl < n {
			n = t.nextFl
		}
	}
	t.nextAct = n
}

//go:norace
func taskMain(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer taskExit(t)
	if s.abort {
		t.exiting = true
		return
	}
	debug.SetPanicOnFault(true)
	t.fn()
	t.Finished = true
}

//go:norace
func taskExit(t *Task) {
	if r := recover(); r != nil {
		t.Panicked = true
		t.PanicVal = r
	}
	t.state = stDone
	t.fn = nil
	s.events = mix(s.events, 0xd0e<<32|uint64(t.ID))
	raceReleaseMerge(unsafe.Pointer(&s.joinTok))
	n := pick(t)
	if n == nil {
		cur = nil
		raceDisable()
		s.mainWake <- struct{}{}
		raceEnable()
		return
	}
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// Run runs the spawned tasks to completion (or abortion) from the main
// goroutine.
//
//go:norace
func Run() {
	for _, fn := range pending {
		if t := Spawn("go", fn); t != nil {
			t.daemon = true
		}
	}
	n := pickAny(nil)
	if n == nil {
		s.on = false
		return
	}
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-s.mainWake
	raceEnable()
	raceAcquire(unsafe.Pointer(&s.joinTok))
	cur = nil
	s.on = false
	s.st.SimTime = s.now
}

// pick chooses the task that runs after t blocked or ended (t is not ready).
//
//go:norace
func pick(t *Task) *Task {
	if s.abort {
		for i := int32(0); i < s.ntask; i++ {
			if s.tasks[i].state != stDone {
				return &s.tasks[i]
			}
		}
		return nil
	}
	return pickAny(t)
}

//go:norace
func pickAny(t *Task) *Task {
	for {
		n := 0
		alive, sleeping, hung, blocked, chans := 0, 0, 0, 0, 0
		idle := true // only the background sleeps
		var wakeAt int64 = 1 << 62
		for i := int32(0); i < s.ntask; i++ {
			x := &s.tasks[i]
			if x.state == stDone || x.state == stUnused {
				continue
			}
			if !x.daemon {
				alive++
			}
			switch x.state {
			case stReady:
				s.ready[n] = i
				n++
			case stSleeping:
				if x.wakeAt <= s.now {
					x.state = stReady
					s.ready[n] = i
					n++
				} else {
					sleeping++
					idle = idle && x.daemon
					if x.wakeAt < wakeAt {
						wakeAt = x.wakeAt
					}
				}
			case stHung:
				hung++
			case stBlocked:
				if x.waitKey == chanKey {
					chans++
				}
				if !x.daemon {
					blocked++
				}
			}
		}
		if alive == 0 {
			// What the code under test started in the background dies with
			// the process.
			s.abort = true
			return pick(t)
		}
		if n > 0 {
			return choose(t, n)
		}
		if at := nextTimer(chans > 0); at < wakeAt && hung == 0 {
			wakeAt = at
			sleeping++
		}
		if sleeping > 0 && idle {
			// Something that goes on in the background for ever is no
			// progress.
			own := int64(0)
			for i := int32(0); i < s.ntask; i++ {
				if !s.tasks[i].daemon {
					own += s.tasks[i].steps
				}
			}
			if own != s.idleAt {
				s.idle, s.idleAt = 0, own
			}
			if s.idle++; s.idle > 500 {
				sleeping = 0
				s.chanTry = 3
			}
		}
		if sleeping > 0 {
			s.now = wakeAt
			if fireTimers() {
				Wake(chanKey)
			}
			continue
		}
		if chans > 0 && s.chanTry < 3 {
			// Channels may be closed or filled by code that is not simulated.
			s.chanTry++
			Wake(chanKey)
			continue
		}
		if hung > 0 {
			// Everything else has either ended or is blocked for good.
			if blocked > 0 {
				if at := nextTimer(true); at < 1<<62 && s.idle <= 500 {
					s.idle++
					s.now = at
					fireTimers()
					Wake(chanKey)
					s.chanTry = 0
					continue
				}
				s.HangBlock = true
				s.describe()
			}
			for i := int32(0); i < s.ntask; i++ {
				if s.tasks[i].state == stHung {
					s.tasks[i].state = stReady
				}
			}
			s.chanTry = 0
			continue
		}
		s.Deadlock = true
		s.describe()
		s.abort = true
		return pick(t)
	}
}

//go:norace
func (x *Task) describe() string {
	return "task " + itoa(int64(x.ID)) + "(" + x.Name + ") blocked on " + x.waitWhy
}

//go:norace
func (m *sim) describe() {
	if m.stuck != "" {
		return
	}
	for i := int32(0); i < m.ntask; i++ {
		x := &m.tasks[i]
		if len(m.stuck) > 600 {
			m.stuck += "..."
			return
		}
		switch x.state {
		case stBlocked:
			m.stuck += x.describe() + "; "
		case stHung:
			m.stuck += "task " + itoa(int64(x.ID)) + " hung in a callback; "
		}
	}
}

//go:norace
func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	var b [24]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	o := make([]byte, len(b)-i)
	for j := range o {
		o[j] = b[i+j]
	}
	return string(o)
}

// choose picks among the ready tasks after t stopped; default: next by ID.
//
//go:norace
func choose(t *Task, n int) *Task {
	ready := &s.ready
	def := ready[0]
	var from int32 = -1
	var idx int64
	rt := &s.tasks[0]
	if t != nil {
		rt = t
		from = t.ID
		idx = t.nblk
		t.nblk++
		for i := 0; i < n; i++ {
			if ready[i] > from {
				def = ready[i]
				break
			}
		}
	} else {
		idx = -1
	}
	c := def
	if s.replay {
		for i := range s.repEnv {
			r := &s.repEnv[i]
			if r.Kind == KBlocked && r.Task == rt.ID && r.Idx == idx {
				for j := 0; j < n; j++ {
					if int64(ready[j]) == r.Val {
						c = ready[j]
					}
				}
			}
		}
	} else {
		c = draw(ready, n)
	}
	if c != def {
		record(rt, KBlocked, idx, int64(c))
	}
	s.trace = mix(s.trace, uint64(from+1)<<32|uint64(c+1))
	return &s.tasks[c]
}

//go:norace
func draw(ready *[MaxTasks]int32, n int) int32 {
	if s.cfg.PCT {
		best := ready[0]
		for i := 1; i < n; i++ {
			if s.tasks[ready[i]].prio > s.tasks[best].prio {
				best = ready[i]
			}
		}
		return best
	}
	return ready[rn(int64(n))]
}

// switchTo hands the baton from the running task to n.
//
//go:norace
func switchTo(t, n *Task) {
	if t == n {
		return
	}
	s.st.Switches++
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
	randSeed = t.rnd + uint64(t.steps)<<20
	if s.abort {
		leave(t)
	}
}

//go:norace
func leave(t *Task) {
	if !t.exiting {
		t.exiting = true
		runtime.Goexit()
	}
}

// Y is the yield point inserted before every statement of the code under test.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	randSeed = t.rnd + uint64(t.steps)<<20
	if t.steps < t.nextAct && !(s.anyHot && s.hot[site]) {
		return
	}
	slowY(t, site)
	randSeed = t.rnd + uint64(t.steps)<<20
}

// SeedRand sets the state of the random numbers of the Go runtime.
//
//go:norace
func SeedRand(x uint64) { randSeed = mix(x, 0x5eed) | 1 }

// randSeed is the state of the random numbers of the Go runtime (map seeds and
// iteration starts, math/rand, hash/maphash) in binaries built with the runtime
// overlay; zero would select the real ones. Every step of a task starts with a
// state that depends on the plan, the task and the step only.
//
//go:linkname randSeed runtime.zzseed
var randSeed uint64

//go:norace
func slowY(t *Task, site uint32) {
	if s.abort {
		leave(t)
		return
	}
	tick(t)
	if s.abort {
		leave(t)
		return
	}
	if s.replay {
		for t.recPos < len(s.rep) && s.rep[t.recPos].Task == t.ID && s.rep[t.recPos].Idx <= t.steps {
			r := s.rep[t.recPos]
			t.recPos++
			if r.Idx < t.steps {
				continue
			}
			act(t, r.Kind, r.Val, site)
		}
		t.setNext()
		return
	}
	if t.steps >= t.nextGC {
		t.nextGC = t.steps + gap(s.cfg.GCMean)
		if s.cfg.GCMax == 0 || s.st.Fired[KGC] < s.cfg.GCMax {
			act(t, KGC, 1, site)
		}
	}
	if t.steps >= t.nextGrow {
		t.nextGrow = t.steps + gap(s.cfg.GrowMean)
		act(t, KGrow, 1+rn(3), site)
	}
	if t.steps >= t.nextFl {
		t.nextFl = t.steps + gap(s.cfg.FlushMean)
		act(t, KFlush, 1, site)
	}
	sw := false
	if t.steps >= t.nextSw {
		sw = true
		t.nextSw = t.steps + gap(s.cfg.SwitchMean)
	} else if s.anyHot && site < uint32(len(s.hot)) && s.hot[site] {
		sw = pm(s.cfg.HotProb)
	}
	t.setNext()
	if sw {
		preempt(t, site)
	}
}

// tick advances the simulated clock and enforces the step limit. It is called
// often enough (at least every 20000 steps of a task).
//
//go:norace
func tick(t *Task) {
	tot := int64(0)
	for i := int32(0); i < s.ntask; i++ {
		tot += s.tasks[i].steps
	}
	d := tot - s.st.Steps
	s.st.Steps = tot
	s.now += d
	if tot-s.base > s.cfg.StepLimit && !s.abort {
		s.LimitHit = true
		s.stuck = "step limit exceeded, running task " + itoa(int64(t.ID)) + "(" + t.Name + ")"
		s.abort = true
	}
}

// Progress tells that a call completed: the step limit starts again.
//
//go:norace
func Progress() {
	s.base = 0
	for i := int32(0); i < s.ntask; i++ {
		s.base += s.tasks[i].steps
	}
}

//go:norace
func preempt(t *Task, site uint32) {
	n := 0
	ready := &s.ready
	for i := int32(0); i < s.ntask; i++ {
		x := &s.tasks[i]
		if x.state == stSleeping && x.wakeAt <= s.now {
			x.state = stReady
		}
		if x != t && x.state == stReady {
			ready[n] = i
			n++
		}
	}
	if n == 0 {
		return
	}
	if s.cfg.PCT {
		t.prio = int64(rnd()>>1) >> 20 // lowered below all initial priorities
	}
	c := ready[rn(int64(n))]
	if s.cfg.PCT {
		c = draw(ready, n)
	}
	act(t, KSwitch, int64(c), site)
}

//go:norace
func act(t *Task, kind int32, val int64, site uint32) {
	switch kind {
	case KSwitch:
		if val < 0 || val >= int64(s.ntask) {
			return
		}
		n := &s.tasks[val]
		if n.state == stSleeping && n.wakeAt <= s.now {
			n.state = stReady
		}
		if n == t || n.state != stReady {
			return
		}
		record(t, KSwitch, t.steps, val)
		s.trace = mix(s.trace, uint64(site)<<16|uint64(t.ID+1)<<8|uint64(val+1))
		switchTo(t, n)
	case KGC:
		record(t, KGC, t.steps, val)
		runtime.GC()
	case KGrow:
		record(t, KGrow, t.steps, val)
		growStack(int(val) * 24)
	case KFlush:
		record(t, KFlush, t.steps, val)
		if FlushPools != nil {
			FlushPools()
		}
	}
}

// FlushPools is set by simsync.
var FlushPools func()

//go:norace
//go:noinline
func growStack(n int) byte {
	var b [1024]byte
	b[n&1023] = byte(n)
	if n == 0 {
		return b[0]
	}
	return growStack(n-1) + b[(n*7)&1023]
}

// Sync is the yield point before every operation on a synchronisation object.
//
//go:norace
func Sync(kind int32, op int32) {
	t := cur
	if t == nil {
		return
	}
	s.st.SyncOps++
	special(t, s.cfg.SyncProb, 0xffff0000|uint32(op))
}

// User is the yield point at events in user callbacks.
//
//go:norace
func User(op uint32) {
	t := cur
	if t == nil {
		return
	}
	special(t, s.cfg.UserProb, 0xfffe0000|op)
}

//go:norace
func special(t *Task, prob int, site uint32) {
	t.steps++
	randSeed = t.rnd + uint64(t.steps)<<20
	if t.steps >= t.nextAct || s.abort {
		slowY(t, site)
		return
	}
	if !s.replay && pm(prob) {
		tick(t)
		preempt(t, site)
	}
}

var procs = 8

// SetProcs sets the number of processors of the simulated machine.
func SetProcs(n int) {
	if n <= 0 {
		n = 1
	}
	procs = n
}

// NumCPU replaces runtime.NumCPU.
//
//go:norace
func NumCPU() int { return procs }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
//
//go:norace
func GOMAXPROCS(n int) int {
	o := procs
	if n > 0 {
		procs = n
	}
	return o
}

// NumGoroutine replaces runtime.NumGoroutine.
//
//go:norace
func NumGoroutine() int {
	n := 2
	for i := int32(0); i < s.ntask; i++ {
		if x := &s.tasks[i]; x.state != stDone && x.state != stUnused {
			n++
		}
	}
	return n
}

// SetFinalizer replaces runtime.SetFinalizer. Nothing promises that finalizers
// run.
func SetFinalizer(obj, f any) {}

// Gosched replaces runtime.Gosched.
//
//go:norace
func Gosched() { User(1) }

// Block suspends the running task until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer, why string) {
	t := cur
	if t == nil {
		panic("zzsim: blocking operation outside a simulated task: " + why)
	}
	if s.abort {
		leave(t)
		// Already unwinding: blocking operations of deferred functions
		// cannot be honoured any more.
		runtime.Goexit()
	}
	tick(t)
	t.state = stBlocked
	t.waitKey = key
	t.waitWhy = why
	away(t)
}

//go:norace
func away(t *Task) {
	n := pick(t)
	if n == nil || n == t {
		if n == nil {
			panic("zzsim: nothing to run")
		}
		if s.abort {
			leave(t)
		}
		return
	}
	switchTo(t, n)
}

// Wake makes every task blocked on key ready.
//
//go:norace
func Wake(key unsafe.Pointer) {
	for i := int32(0); i < s.ntask; i++ {
		x := &s.tasks[i]
		if x.state == stBlocked && x.waitKey == key {
			x.state = stReady
			x.waitKey = nil
		}
	}
}

// Sleep suspends the task for d simulated microseconds.
//
//go:norace
func Sleep(us int64) {
	t := cur
	if t == nil {
		return
	}
	if s.abort {
		leave(t)
		return
	}
	tick(t)
	s.st.Sleeps++
	t.state = stSleeping
	t.wakeAt = s.now + us
	away(t)
}

// Hang suspends the task until every other task has ended or hangs too.
//
//go:norace
func Hang() {
	t := cur
	if t == nil {
		return
	}
	if s.abort {
		leave(t)
		return
	}
	tick(t)
	t.state = stHung
	away(t)
}

// Env draws an environment choice: 0 is the default, otherwise 1..n-1 (n>0)
// or any positive 31 bit value (n==0).
//
//go:norace
func Env(kind int32, prob int, n int64) int64 {
	t := cur
	if t == nil {
		return 0
	}
	idx := t.counts[kind]
	t.counts[kind]++
	var v int64
	if s.replay {
		for i := range s.repEnv {
			r := &s.repEnv[i]
			if r.Kind == kind && r.Task == t.ID && r.Idx == idx {
				v = r.Val
			}
		}
		if n > 0 && v >= n {
			v = 0
		}
	} else if pm(prob) {
		if n > 0 {
			v = 1 + rn(n-1)
		} else {
			v = 1 + int64(rnd()>>34)
		}
	}
	if v != 0 {
		record(t, kind, idx, v)
	}
	return v
}

// PoolChoice decides what a Get from a pool of n items yields: 0 the item put
// last, 1 nothing, k+2 the k-th oldest item.
//
//go:norace
func PoolChoice(n int64) int64 {
	t := cur
	if t == nil {
		return 0
	}
	idx := t.counts[KPoolGet]
	t.counts[KPoolGet]++
	var v int64
	if s.replay {
		for i := range s.repEnv {
			r := &s.repEnv[i]
			if r.Kind == KPoolGet && r.Task == t.ID && r.Idx == idx {
				v = r.Val
			}
		}
	} else if pm(s.cfg.PoolMiss) {
		v = 1
	} else if n > 1 && pm(s.cfg.PoolSteal) {
		v = 2 + rn(n)
	}
	if v != 0 {
		record(t, KPoolGet, idx, v)
	}
	return v
}

//go:norace
func Cfg() *Config { return &s.cfg }

// Seq returns the next number of the global event sequence.
//
//go:norace
func Seq() int64 {
	s.seq++
	return s.seq
}

//go:norace
func Now() int64 {
	if cur != nil {
		tick(cur)
	}
	return s.now
}

//go:norace
func Current() *Task { return cur }

// Event folds v into the event hash.
//
//go:norace
func Event(v uint64) {
	s.nevents++
	s.events = mix(s.events, v)
}

//go:norace
func Aborting() bool { return s.abort }

// ForceGC collects garbage from a callback (an injected fault that is part of
// the plan, not a recorded decision).
//
//go:norace
func ForceGC() { runtime.GC(); s.st.Fired[KGC]++ }

//go:norace
func ForceGrow() { growStack(48); s.st.Fired[KGrow]++ }

//go:norace
func PoolEvent(hit bool) {
	s.st.PoolGets++
	if hit {
		s.st.PoolHits++
	}
}

// Outcome of the run, for the main goroutine.
type Outcome struct {
	Deadlock, HangBlock, LimitHit, Overflow, Void bool
	Stuck                                         string
	Trace, Events                                 uint64
	NEvents                                       int64
	Stats                                         Stats
	Recs                                          []Rec
	Panics                                        []string
}

//go:norace
func Result(fmtPanic func(any) string) Outcome {
	o := Outcome{Deadlock: s.Deadlock, HangBlock: s.HangBlock, LimitHit: s.LimitHit, Overflow: s.Overflow, Void: s.Void, Stuck: s.stuck,
		Trace: s.trace, Events: s.events, NEvents: s.nevents, Stats: s.st}
	tot := int64(0)
	for i := int32(0); i < s.ntask; i++ {
		t := &s.tasks[i]
		tot += t.steps
		if t.Panicked {
			o.Panics = append(o.Panics, fmtPanic(t.PanicVal))
		}
	}
	o.Stats.Steps = tot
	o.Recs = append([]Rec(nil), s.recs[:s.nrec]...)
	return o
}

var resets []func()

// RegisterReset is called from the init function of every instrumented package.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll simulates a restart of the process: every package level variable
// of the code under test gets its initial value.
func ResetAll() {
	resetting, everReset = true, true
	pending, initTimers = nil, nil
	defer func() { resetting = false }()
	SeedRand(0)
	for _, f := range resets {
		f()
	}
}

// Suspend takes the running task out of the simulation until Resume: code run
// in between does not yield and draws no decisions.
//
//go:norace
func Suspend() *Task {
	t := cur
	cur = nil
	return t
}

//go:norace
func Resume(t *Task) { cur = t }
