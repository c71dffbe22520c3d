// Package simsync replaces package sync for the code under test: the same
// documented behaviour, but every operation is a yield point of the simulator
// and every freedom the documentation leaves (what a Pool returns, the order
// of Map.Range, which concurrent changes Range sees, who gets a lock) is a
// decision of the simulator.
//
// Happens-before edges are reported to the race detector exactly as the
// documentation promises them, and no more.
package simsync

import (
	"sync"
	"unsafe"

	"github.com/wI2L/jettison/zzsim/rt"
)

type Locker = sync.Locker

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

// ---- Mutex

type Mutex struct {
	locked bool
	tok    byte
}

//go:norace
func (m *Mutex) Lock() {
	rt.Sync(0, 1)
	for m.locked {
		rt.Block(unsafe.Pointer(m), "Mutex.Lock")
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.Sync(0, 2)
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.tok))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	rt.Sync(0, 3)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Release(unsafe.Pointer(&m.tok))
	m.locked = false
	rt.Wake(unsafe.Pointer(m))
}

// ---- RWMutex

type RWMutex struct {
	w       bool
	readers int
	writers int // waiting writers
	tokW    byte
	tokR    byte
}

//go:norace
func (m *RWMutex) Lock() {
	rt.Sync(0, 4)
	m.writers++
	for m.w || m.readers > 0 {
		rt.Block(unsafe.Pointer(m), "RWMutex.Lock")
	}
	m.writers--
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.tokW))
	rt.Acquire(unsafe.Pointer(&m.tokR))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.Sync(0, 4)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.tokW))
	rt.Acquire(unsafe.Pointer(&m.tokR))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	rt.Sync(0, 5)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(&m.tokW))
	m.w = false
	rt.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	rt.Sync(0, 6)
	for m.w || m.writers > 0 {
		rt.Block(unsafe.Pointer(m), "RWMutex.RLock")
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.tokW))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.Sync(0, 6)
	if m.w || m.writers > 0 {
		return false
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.tokW))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	rt.Sync(0, 7)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.tokR))
	m.readers--
	rt.Wake(unsafe.Pointer(m))
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// ---- WaitGroup

type WaitGroup struct {
	n   int
	tok byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	rt.Sync(0, 8)
	if d < 0 {
		rt.ReleaseMerge(unsafe.Pointer(&w.tok))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.Sync(0, 9)
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
	rt.Acquire(unsafe.Pointer(&w.tok))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Once

type Once struct {
	done bool
	m    Mutex
	tok  byte
}

//go:norace
func (o *Once) Do(f func()) {
	rt.Sync(0, 10)
	if o.done {
		rt.Acquire(unsafe.Pointer(&o.tok))
		return
	}
	o.slow(f)
}

//go:norace
func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	rt.Release(unsafe.Pointer(&o.tok))
	o.done = true
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---- Cond

type Cond struct {
	noCopy noCopy
	L      Locker
	gen    int
	wait   int
	wakeTo int
	tok    byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	rt.Sync(0, 11)
	c.wait++
	my := c.wait
	c.L.Unlock()
	for c.wakeTo < my {
		rt.Block(unsafe.Pointer(c), "Cond.Wait")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	rt.Sync(0, 12)
	if c.wakeTo < c.wait {
		c.wakeTo++
	}
	rt.Wake(unsafe.Pointer(c))
}

//go:norace
func (c *Cond) Broadcast() {
	rt.Sync(0, 13)
	c.wakeTo = c.wait
	rt.Wake(unsafe.Pointer(c))
}

// ---- Pool

type poolNode struct {
	v    any
	next *poolNode
	tok  byte
}

type Pool struct {
	noCopy noCopy
	head   *poolNode
	n      int64
	reg    uint64
	link   *Pool
	New    func() any
}

var pools *Pool

//go:norace
func init() {
	rt.FlushPools = func() {
		e := rt.Epoch()
		for p := pools; p != nil && p.reg == e; p = p.link {
			p.head = nil
			p.n = 0
		}
	}
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	rt.Sync(0, 14)
	if e := rt.Epoch(); p.reg != e {
		if pools != nil && pools.reg != e {
			pools = nil
		}
		p.reg = e
		p.link = pools
		pools = p
		p.head, p.n = nil, 0
	}
	if rt.Env(rt.KPoolPut, rt.Cfg().PoolDrop, 2) != 0 {
		return
	}
	n := &poolNode{v: x, next: p.head}
	rt.Release(unsafe.Pointer(&n.tok))
	p.head = n
	p.n++
}

//go:norace
func (p *Pool) Get() any {
	rt.Sync(0, 15)
	var n *poolNode
	if p.reg != rt.Epoch() {
		p.head, p.n = nil, 0
	}
	if p.head != nil {
		c := rt.PoolChoice(p.n)
		switch {
		case c == 1:
			// missed
		case c == 0:
			n = p.head
			p.head = n.next
			p.n--
		default:
			// take the (c-2)th oldest
			skip := p.n - 1 - (c-2)%p.n
			pp := &p.head
			for ; skip > 0; skip-- {
				pp = &(*pp).next
			}
			n = *pp
			*pp = n.next
			p.n--
		}
	}
	rt.PoolEvent(n != nil)
	if n == nil {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	return n.v
}

// ---- Map

type mapNode struct {
	k, v any
	live bool
	next *mapNode
	tok  byte
}

type Map struct {
	noCopy noCopy
	head   *mapNode
	tail   *mapNode
	n      int
}

//go:norace
func (m *Map) find(k any) *mapNode {
	checkHash(k)
	for n := m.head; n != nil; n = n.next {
		if n.k == k {
			return n
		}
	}
	return nil
}

// checkHash panics like the real implementation for keys that cannot be hashed.
//
//go:norace
func checkHash(k any) { _ = k == k }

//go:norace
func (m *Map) add(k, v any) {
	n := &mapNode{k: k, v: v, live: true}
	rt.Release(unsafe.Pointer(&n.tok))
	if m.tail == nil {
		m.head = n
	} else {
		m.tail.next = n
	}
	m.tail = n
	m.n++
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	rt.Sync(0, 16)
	n := m.find(k)
	if n == nil {
		return nil, false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	if !n.live {
		return nil, false
	}
	return n.v, true
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	rt.Sync(0, 17)
	n := m.find(k)
	if n == nil {
		m.add(k, v)
		return nil, false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	old, ok := n.v, n.live
	n.v, n.live = v, true
	rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	if !ok {
		old = nil
	}
	return old, ok
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Sync(0, 18)
	n := m.find(k)
	if n == nil {
		m.add(k, v)
		return v, false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	if n.live {
		return n.v, true
	}
	n.v, n.live = v, true
	rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Sync(0, 19)
	n := m.find(k)
	if n == nil {
		return nil, false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	if !n.live {
		return nil, false
	}
	old := n.v
	n.v, n.live = nil, false
	rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	return old, true
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.Sync(0, 20)
	n := m.find(k)
	if n == nil {
		return false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	if !n.live || n.v != old {
		return false
	}
	n.v = new
	rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	return true
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.Sync(0, 21)
	n := m.find(k)
	if n == nil {
		return false
	}
	rt.Acquire(unsafe.Pointer(&n.tok))
	if !n.live || n.v != old {
		return false
	}
	n.v, n.live = nil, false
	rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	return true
}

//go:norace
func (m *Map) Clear() {
	rt.Sync(0, 22)
	for n := m.head; n != nil; n = n.next {
		rt.Acquire(unsafe.Pointer(&n.tok))
		n.v, n.live = nil, false
		rt.ReleaseMerge(unsafe.Pointer(&n.tok))
	}
}

type rangeEnt struct {
	n    *mapNode
	v    any
	live bool
	done bool
}

// Range visits, like the real one, no key twice and every key present during
// the whole call; for keys changed during the call it may reflect any mapping
// from any point during the call. Which, the simulator decides:
// view 0 the mapping at the time of the visit, keys added later are not seen;
// view 1 the same, but keys added later are seen;
// view 2 the mapping at the start of the call.
//
//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	rt.Sync(0, 23)
	view := rt.Env(rt.KSMapView, rt.Cfg().SMapView, 3)
	n := 0
	for x := m.head; x != nil; x = x.next {
		n++
	}
	es := make([]rangeEnt, n)
	i := 0
	for x := m.head; x != nil; x = x.next {
		es[i].n, es[i].v, es[i].live = x, x.v, x.live
		if x.live && view == 2 {
			rt.Acquire(unsafe.Pointer(&x.tok))
		}
		i++
	}
	if n > 1 {
		if seed := rt.Env(rt.KSMapOrder, rt.Cfg().SMapPerm, 0); seed != 0 {
			x := uint64(seed)*0x9e3779b97f4a7c15 + 1
			for i := n - 1; i > 0; i-- {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				j := int(x % uint64(i+1))
				es[i], es[j] = es[j], es[i]
			}
		}
	}
	last := m.tail
	for i := range es {
		rt.Sync(0, 24)
		x := es[i].n
		v, live := x.v, x.live
		if view == 2 {
			v, live = es[i].v, es[i].live
		}
		if !live {
			continue
		}
		rt.Acquire(unsafe.Pointer(&x.tok))
		if !f(x.k, v) {
			return
		}
	}
	if view != 1 {
		return
	}
	for {
		var x *mapNode
		if last == nil {
			x = m.head
		} else {
			x = last.next
		}
		if x == nil {
			return
		}
		last = x
		rt.Sync(0, 24)
		if !x.live {
			continue
		}
		rt.Acquire(unsafe.Pointer(&x.tok))
		if !f(x.k, x.v) {
			return
		}
	}
}
