package rt

import (
	"context"
	"time"
)

// Timers, tickers and derived contexts of the code under test, on the
// simulated clock.

const epochSec = 1700000000

//go:norace
func simTime(us int64) time.Time {
	return time.Unix(epochSec, 0).Add(time.Duration(us) * time.Microsecond)
}

//go:norace
func micros(d time.Duration) int64 {
	if d <= 0 {
		return 0
	}
	return int64((d + time.Microsecond - 1) / time.Microsecond)
}

type timer struct {
	at     int64
	period int64 // of a ticker
	ch     chan time.Time
	done   *Done
	fn     func() // runs in a task of its own
	dead   bool
	local  any // of the task that created it
	next   *timer
}

var (
	timers     *timer
	initTimers *timer // created while the process is initialised
)

//go:norace
func addTimer(t *timer) {
	if cur != nil {
		t.local = cur.Local
	}
	l := &timers
	if !s.on || resetting {
		l = &initTimers
	}
	for *l != nil {
		l = &(*l).next
	}
	*l = t
}

// beginTimers installs what initialisation left behind.
//
//go:norace
func beginTimers() {
	timers = nil
	l := &timers
	for t := initTimers; t != nil; t = t.next {
		t.dead = false
		*l = t
		l = &t.next
	}
}

// nextTimer returns when the next timer fires that matters: those with a
// channel do only if some task waits for a channel.
//
//go:norace
func nextTimer(chans bool) int64 {
	at := int64(1 << 62)
	for t := timers; t != nil; t = t.next {
		if !t.dead && t.at < at && (chans || t.fn != nil) {
			at = t.at
		}
	}
	return at
}

//go:norace
func fireTimers() bool {
	any := false
	for l := &timers; *l != nil; {
		t := *l
		if t.dead {
			*l = t.next
			t.next = nil
			continue
		}
		l = &t.next
		if t.at > s.now {
			continue
		}
		if t.period > 0 {
			t.at = s.now + t.period
		} else {
			t.dead = true
		}
		any = true
		switch {
		case t.done != nil:
			t.done.close()
		case t.fn != nil:
			if x := Spawn("timer", t.fn); x != nil {
				x.daemon = true
				x.Local = t.local
			}
		default:
			select {
			case t.ch <- simTime(s.now):
			default:
			}
		}
	}
	return any
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	t *timer
}

//go:norace
func TimeNewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &timer{at: s.now + micros(d), ch: ch}
	addTimer(t)
	return &Timer{C: ch, t: t}
}

//go:norace
func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &timer{at: s.now + micros(d), fn: f}
	addTimer(t)
	return &Timer{t: t}
}

//go:norace
func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	was := !t.t.dead
	t.t.dead = true
	return was
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	was := !t.t.dead
	t.t.dead = true
	n := &timer{at: s.now + micros(d), ch: t.t.ch, fn: t.t.fn}
	t.t = n
	addTimer(n)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *timer
}

//go:norace
func TimeNewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &timer{at: s.now + micros(d), period: micros(d), ch: ch}
	addTimer(t)
	return &Ticker{C: ch, t: t}
}

//go:norace
func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.dead = true
	}
}

//go:norace
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.t.dead = true
	n := &timer{at: s.now + micros(d), period: micros(d), ch: t.t.ch}
	t.t = n
	addTimer(n)
}

//go:norace
func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return TimeNewTicker(d).C
}

//go:norace
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

//go:norace
func TimeNow() time.Time {
	if cur == nil {
		return simTime(0)
	}
	return simTime(Now())
}

//go:norace
func TimeSleep(d time.Duration) {
	if cur == nil {
		return
	}
	Sleep(int64(d / time.Microsecond))
}

//go:norace
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

//go:norace
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// derived is a context derived by the code under test.
type derived struct {
	context.Context // the parent
	done            *Done
	err             error
	at              int64 // deadline, or zero
	watched         bool
}

//go:norace
func (c *derived) Deadline() (time.Time, bool) {
	p, ok := c.Context.Deadline()
	if c.at != 0 {
		if t := simTime(c.at); !ok || t.Before(p) {
			return t, true
		}
	}
	return p, ok
}

//go:norace
func (c *derived) Err() error {
	if c.err == nil {
		if e := c.Context.Err(); e != nil {
			c.end(e)
		} else if c.at != 0 && Now() >= c.at {
			c.end(context.DeadlineExceeded)
		}
	}
	return c.err
}

//go:norace
func (c *derived) end(e error) {
	if c.err == nil {
		c.err = e
		c.done.Close()
	}
}

//go:norace
func (c *derived) Done() <-chan struct{} {
	if !c.watched && c.Err() == nil {
		c.watched = true
		if d := c.Context.Done(); d != nil {
			Go(func() {
				Select(false, RecvCase(d), RecvCase[struct{}](c.done.C))
				c.Err()
			})
		}
	}
	return c.done.C
}

//go:norace
func derive(parent context.Context, at int64) (context.Context, context.CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &derived{Context: parent, done: NewDone(), at: at}
	if at != 0 {
		c.done.CloseAt(at)
	}
	c.Err()
	return c, func() { c.end(context.Canceled) }
}

//go:norace
func ContextWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	return derive(parent, 0)
}

//go:norace
func ContextWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	at := int64(t.Sub(simTime(0)) / time.Microsecond)
	if at <= 0 {
		at = 1
	}
	return derive(parent, at)
}

//go:norace
func ContextWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return ContextWithDeadline(parent, TimeNow().Add(d))
}

//go:norace
func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	stop := NewDone()
	state := 0 // 1: f runs, 2: stopped
	Go(func() {
		d := RecvCase(ctx.Done())
		Select(false, d, RecvCase[struct{}](stop.C))
		if state == 0 && ctx.Err() != nil {
			state = 1
			f()
		}
	})
	return func() bool {
		if state != 0 {
			return false
		}
		state = 2
		stop.Close()
		return true
	}
}
