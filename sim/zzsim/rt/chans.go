package rt

import (
	"time"
	"unsafe"
)

// Channel operations of the code under test. Buffered channels are real ones,
// and so is closing; operations that cannot proceed block in the kernel until
// some channel operation succeeds. Unbuffered channels are emulated: a sender
// and a receiver of which at least one is suspended meet in two tables.

// offer is a suspended send on an unbuffered channel, or one case of a
// suspended select.
type offer struct {
	ch    unsafe.Pointer
	val   any
	group *group
	idx   int
	next  *offer
}

// group is a suspended select statement.
type group struct {
	fired int // case that was completed by the other side, or -1
}

var (
	// Linked lists: growing a slice counts as an access to its elements
	// for the race detector.
	waiting *offer // suspended sends, oldest first
	recvers *want  // suspended receives, oldest first
	chanTok int
	chanKey = unsafe.Pointer(&chanTok)
)

type want struct {
	ch    unsafe.Pointer
	group *group
	idx   int
	put   putter
	next  *want
}

type putter interface{ put(v any) }

// Done is the channel of a simulated context.
type Done struct {
	C      chan struct{}
	closed bool
}

//go:norace
func NewDone() *Done { return &Done{C: make(chan struct{})} }

//go:norace
func (d *Done) close() {
	if !d.closed {
		d.closed = true
		close(d.C)
	}
}

// Close closes the channel.
//
//go:norace
func (d *Done) Close() {
	if !d.closed {
		d.close()
		if cur != nil {
			progress()
		}
	}
}

// CloseAt closes the channel when the simulated clock reaches at.
//
//go:norace
func (d *Done) CloseAt(at int64) { addTimer(&timer{at: at, done: d}) }

//go:norace
func progress() {
	s.chanTry = 0
	s.chanOK++
	Wake(chanKey)
}

//go:norace
func chanPtr[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is one case of a select statement.
type Case interface {
	// try performs the operation if it can proceed without waiting.
	try() bool
	// suspend announces the operation to other tasks.
	suspend(g *group, idx int)
	ptr() unsafe.Pointer
}

// RC is a receive case.
type RC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SC is a send case.
type SC[T any] struct {
	ch chan<- T
	v  T
}

// RecvCase returns the receive operation on ch.
//
//go:norace
func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }

// SendCase returns a constructor of send operations on ch.
//
//go:norace
func SendCase[T any](ch chan<- T) func(v T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{ch: ch, v: v} }
}

// Get returns what was received.
//
//go:norace
func (c *RC[T]) Get() (T, bool) { return c.V, c.OK }

//go:norace
func (c *RC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		p := chanPtr(c.ch)
		for o := waiting; o != nil; o = o.next {
			if o.ch != p || o.group.fired >= 0 {
				continue
			}
			o.group.fired = o.idx
			v, _ := o.val.(T)
			c.V, c.OK = v, true
			Acquire(p)
			ReleaseMerge(p)
			return true
		}
	}
	select {
	case v, ok := <-c.ch:
		c.V, c.OK = v, ok
		return true
	default:
	}
	return false
}

//go:norace
func (c *RC[T]) suspend(g *group, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		w := &want{ch: chanPtr(c.ch), group: g, idx: idx, put: c}
		l := &recvers
		for *l != nil {
			l = &(*l).next
		}
		*l = w
	}
}

//go:norace
func (c *RC[T]) put(v any) {
	c.V, _ = v.(T)
	c.OK = true
}

//go:norace
func (c *SC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		p := chanPtr(c.ch)
		for w := recvers; w != nil; w = w.next {
			if w.ch == p && w.group.fired < 0 {
				w.group.fired = w.idx
				w.put.put(c.v)
				ReleaseMerge(p)
				return true
			}
		}
		// A closed channel panics, and nobody receives for real.
	}
	select {
	case c.ch <- c.v:
		return true
	default:
	}
	return false
}

//go:norace
func (c *SC[T]) suspend(g *group, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		p := chanPtr(c.ch)
		l := &waiting
		for *l != nil {
			l = &(*l).next
		}
		*l = &offer{ch: p, val: c.v, group: g, idx: idx}
		ReleaseMerge(p)
	}
}

// Select performs one of the cases and returns its index, or -1 for the
// default case.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	if cur == nil {
		for {
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	Sync(0, 52)
	for {
		tick(cur)
		// Which of several possible cases is taken is a decision of the
		// simulator; the order starts at a recorded choice.
		n := len(cases)
		at := 0
		if n > 1 {
			at = int(Env(KSelect, 300, int64(n)))
		}
		if fireTimers() {
			progress()
		}
		for k := 0; k < n; k++ {
			i := (at + k) % n
			if cases[i].try() {
				progress()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		g := &group{fired: -1}
		for i, c := range cases {
			c.suspend(g, i)
		}
		Block(chanKey, "channel operation")
		withdraw(g)
		if g.fired >= 0 {
			Acquire(cases[g.fired].ptr())
			return g.fired
		}
	}
}

//go:norace
func (c *RC[T]) ptr() unsafe.Pointer { return chanPtr(c.ch) }

//go:norace
func (c *SC[T]) ptr() unsafe.Pointer { return chanPtr(c.ch) }

//go:norace
func withdraw(g *group) {
	for l := &waiting; *l != nil; {
		if (*l).group == g {
			*l = (*l).next
		} else {
			l = &(*l).next
		}
	}
	for l := &recvers; *l != nil; {
		if (*l).group == g {
			*l = (*l).next
		} else {
			l = &(*l).next
		}
	}
}

// SendTo replaces a send statement: SendTo(ch)(v).
//
//go:norace
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if cur == nil {
			ch <- v
			return
		}
		Select(false, &SC[T]{ch: ch, v: v})
	}
}

// Recv and Recv2 replace receive expressions.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &RC[T]{ch: ch}
	Select(false, c)
	return c.V, c.OK
}

// ChanLoop is the state of a range over a channel.
type ChanLoop[T any] struct{ ch <-chan T }

// RangeChan and Next replace a range over a channel.
//
//go:norace
func RangeChan[T any](ch <-chan T) (T, *ChanLoop[T]) {
	var v T
	return v, &ChanLoop[T]{ch}
}

//go:norace
func (l *ChanLoop[T]) Next(p *T) bool {
	v, ok := Recv2(l.ch)
	if ok {
		*p = v
	}
	return ok
}

// Close replaces the builtin.
//
//go:norace
func Close[T any](ch chan<- T) {
	close(ch)
	if cur != nil {
		progress()
	}
}

// Forever replaces an empty select statement.
//
//go:norace
func Forever() {
	if cur == nil {
		select {}
	}
	var tok int
	for {
		Block(unsafe.Pointer(&tok), "empty select statement")
	}
}
