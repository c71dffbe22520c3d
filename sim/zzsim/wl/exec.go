package wl

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/rt"
	"github.com/wI2L/jettison/zzsim/simsync"
)

// Result is the outcome of a call as its caller sees it.
type Result struct {
	Started  bool
	Done     bool // returned, panicked or exited
	Out      []byte
	Copy     []byte // Out at the time of the return
	Err      error
	Panicked bool
	Panic    any
	Exit     bool
}

type builtVal struct {
	v     any
	smaps []*simsync.Map
	sum   uint64
	orig  *hashed
}

func buildVal(vs *ValSpec) *builtVal {
	rt.SeedRand(vs.Seed)
	b := &builtVal{}
	b.v, b.smaps = vs.Value()
	return b
}

const maxHist = 4096

type smEvent struct {
	seq  int64
	m    *simsync.Map
	op   int // index of the modification
	live bool
}

type run struct {
	plan    *Plan
	vals    []*builtVal
	twins   []*builtVal // equal values, to warm caches with
	opts    [][]jettison.Option
	lists   []string   // the lists of names of the options
	states  []*OpState // by operation ID
	nested  []*OpState
	reps    []*OpState // repetitions of calls
	fired   [32]int64
	hist    [maxHist]smEvent
	nhist   int
	histOvf bool
	mut     map[*simsync.Map]bool
	smAt    map[*simsync.Map][2]int // value and position of modified maps
	Out     rt.Outcome
	race    bool
	checks  map[string]int64
	free    []freed // slices of methods to use again
}

type freed struct {
	st *OpState
	i  int
}

// reuse returns memory a method handed out in an earlier call.
func (r *run) reuse(n int) []byte {
	for k := len(r.free) - 1; k >= 0; k-- {
		f := r.free[k]
		o := &f.st.owned[f.i]
		if len(o.full) != n {
			continue
		}
		f.st.checkScribbled(f.i)
		b := o.full
		o.full, o.copy = nil, nil
		r.free = append(r.free[:k], r.free[k+1:]...)
		r.checks["recycled-outputs"]++
		return b
	}
	return nil
}

// lists returns the content of the lists of names.
func (o *OptSpec) lists() string {
	return fmt.Sprintf("%q", [][]string{o.Allow, o.Deny, o.Allow0, o.Deny0})
}

// copied returns o with lists of names in memory of their own.
func (o *OptSpec) copied() *OptSpec {
	c := *o
	for _, l := range []*[]string{&c.Allow, &c.Deny, &c.Allow0, &c.Deny0} {
		if *l != nil {
			*l = append([]string{}, *l...)
		}
	}
	return &c
}

func newRun(p *Plan, race bool) *run {
	outSalt = p.Salt
	r := &run{plan: p, race: race, checks: map[string]int64{}}
	for i := range p.Values {
		r.vals = append(r.vals, buildVal(&p.Values[i]))
	}
	shared := map[string]jettison.Option{}
	for i := range p.Opts {
		r.lists = append(r.lists, p.Opts[i].lists())
		// The lists that calls make their own options of stay as they are.
		r.opts = append(r.opts, p.Opts[i].copied().build(shared))
	}
	r.mut = map[*simsync.Map]bool{}
	r.smAt = map[*simsync.Map][2]int{}
	if p.usesSM() {
		for _, s := range p.SM {
			if s.Val < len(r.vals) && s.Map < len(r.vals[s.Val].smaps) {
				m := r.vals[s.Val].smaps[s.Map]
				r.mut[m] = true
				r.smAt[m] = [2]int{s.Val, s.Map}
			}
		}
	}
	max := int32(0)
	for _, t := range p.Tasks {
		for _, op := range t {
			if op.ID > max {
				max = op.ID
			}
		}
	}
	for _, op := range p.Nested {
		if op.ID > max {
			max = op.ID
		}
	}
	r.states = make([]*OpState, max+1)
	for i := range p.Tasks {
		for j := range p.Tasks[i] {
			op := &p.Tasks[i][j]
			if op.isCall() {
				r.states[op.ID] = r.newState(op)
			}
		}
	}
	for i := range p.Nested {
		st := r.newState(&p.Nested[i])
		st.isNested = true
		r.nested = append(r.nested, st)
		r.states[p.Nested[i].ID] = st
	}
	for i, v := range r.vals {
		_ = i
		v.orig = hashValue(v.v, r.mut)
	}
	return r
}

func (p *Plan) usesSM() bool {
	for _, t := range p.Tasks {
		for i := range t {
			if t[i].Kind == "sm" || t[i].hasFault(func(k string) bool { return k == FSMap }) {
				return true
			}
		}
	}
	for i := range p.Nested {
		if p.Nested[i].hasFault(func(k string) bool { return k == FSMap }) {
			return true
		}
	}
	return false
}

func (r *run) newState(op *OpPlan) *OpState {
	st := &OpState{ID: op.ID, plan: op, run: r, errs: map[int32]error{}, pans: map[int32]any{}, dyn: map[int32]string{}}
	if (op.Kind == "mo" || op.Kind == "ao") && op.Opts >= 0 {
		st.opt = &r.plan.Opts[op.Opts]
	}
	if op.Ctx != nil {
		st.ctx = &simCtx{Tok: op.Ctx.Tok, deadline: op.Ctx.Deadline, done: rt.NewDone()}
		if op.Ctx.Canceled {
			st.ctx.cancel()
		}
	}
	if op.Private && r.race {
		st.priv = buildVal(&r.plan.Values[op.Val]).v
	}
	return st
}

// simulate executes the plan.
func (r *run) simulate() {
	Phase('S')
	defer Phase('C')
	rt.SetProcs(r.plan.Cfg.Procs)
	rt.ResetAll()
	if r.plan.Warm {
		// With values that are equal to those of the run, which could be
		// modified.
		r.twins = make([]*builtVal, len(r.vals))
		rt.Begin(0, rt.Config{StepLimit: r.plan.Cfg.StepLimit}, true, nil)
		rt.Spawn("warm", func() {
			for _, st := range r.states {
				if st != nil {
					r.warm(st)
				}
			}
		})
		rt.Run()
		probe = nil
		rt.SetProcs(r.plan.Cfg.Procs)
		rt.ResetAll()
	}
	rt.Begin(r.plan.Seed, r.plan.Cfg, r.plan.Replay, r.plan.Recs)
	for i := range r.plan.Tasks {
		ops := r.plan.Tasks[i]
		ts := &TaskState{}
		t := rt.Spawn(fmt.Sprintf("t%d", i), func() { r.runTask(ts, ops, 0) })
		t.Local = ts
	}
	rt.Run()
	r.Out = rt.Result(func(p any) string { return fmt.Sprint(p) })
}

// warm runs the call outside the simulation, for its effect on the caches of
// the standard library.
func (r *run) warm(st *OpState) {
	defer func() {
		recover()
		rt.Progress()
		probe = nil
	}()
	probe = &probeState{}
	var o []jettison.Option
	if st.opt != nil {
		o = st.opt.copied().build(nil)
	}
	if r.twins[st.plan.Val] == nil {
		r.twins[st.plan.Val] = buildVal(&r.plan.Values[st.plan.Val])
	}
	jettison.MarshalOpts(r.twins[st.plan.Val].v, o...)
}

func (r *run) runTask(ts *TaskState, ops []OpPlan, i int) {
	for ; i < len(ops); i++ {
		op := &ops[i]
		switch op.Kind {
		case "sleep":
			rt.Sleep(op.Arg)
		case "sm":
			r.smapOp(int(op.Arg))
		case "flush":
			if rt.FlushPools != nil {
				rt.FlushPools()
			}
		case "gc":
			rt.ForceGC()
		default:
			if !op.isCall() {
				continue
			}
			next := i + 1
			if op.Rep > 0 {
				if r.repeat(ts, op, 0, func() { r.runTask(ts, ops, next) }) {
					return
				}
				continue
			}
			if r.execOrExit(ts, r.states[op.ID], func() { r.runTask(ts, ops, next) }) {
				return
			}
		}
	}
}

// repeat executes a call op.Rep+1 times; all but the last one get states of
// their own.
func (r *run) repeat(ts *TaskState, op *OpPlan, i int, rest func()) bool {
	for ; i <= op.Rep; i++ {
		st := r.states[op.ID]
		if i < op.Rep {
			t := rt.Suspend()
			st = r.newState(op)
			r.reps = append(r.reps, st)
			rt.Resume(t)
		}
		next := i + 1
		if r.execOrExit(ts, st, func() {
			if !r.repeat(ts, op, next, rest) {
				rest()
			}
		}) {
			return true
		}
	}
	return false
}

// execOrExit executes a call; if it ends the goroutine, the remaining
// operations of the task are executed while the goroutine exits.
func (r *run) execOrExit(ts *TaskState, st *OpState, rest func()) bool {
	returned := false
	defer func() {
		if !returned && !rt.Aborting() {
			st.res.Exit, st.res.Done = true, true
			r.after(ts, st, nil)
			rest()
		}
	}()
	r.exec(ts, st)
	returned = true
	return false
}

func (r *run) exec(ts *TaskState, st *OpState) {
	op := st.plan
	st.prev, ts.cur = ts.cur, st
	opts := []jettison.Option(nil)
	if st.opt != nil {
		opts = r.opts[op.Opts]
		if op.OwnOpts {
			opts = st.opt.build(nil)
		}
	}
	if st.ctx != nil && (op.Kind == "mo" || op.Kind == "ao") {
		if st.ctx.deadline != 0 {
			st.ctx.done.CloseAt(st.ctx.deadline)
		}
		if st.opt != nil && st.opt.Twice {
			// A context that is replaced by the one of the call.
			x := &simCtx{Tok: -7, canceled: true, done: rt.NewDone()}
			x.done.Close()
			opts = append([]jettison.Option{jettison.WithContext(x)}, opts...)
		}
		opts = append(opts[:len(opts):len(opts)], jettison.WithContext(st.ctx))
	}
	if n := r.plan.OptBuf; n > 0 && len(opts) > 0 && st.prev == nil {
		if cap(ts.opts) < len(opts) {
			ts.opts = make([]jettison.Option, 0, 20)
		}
		opts = append(ts.opts[:0], opts...)
		if n > 1 {
			defer func() {
				for i := range opts {
					opts[i] = nil
				}
			}()
		}
	}
	var dst []byte
	if op.Dst != nil && !op.Dst.Nil {
		d := op.Dst
		st.arena = make([]byte, d.Pre+d.Cap+d.Post)
		for i := range st.arena {
			st.arena[i] = arenaByte(i, op.ID)
		}
		dst = st.arena[d.Pre : d.Pre+d.Len : d.Pre+d.Cap]
	}
	var v any
	switch {
	case !op.Private:
		v = r.vals[op.Val].v
	case r.race:
		v = st.priv
	case op.Home > 0:
		t := rt.Suspend()
		if ts.homes == nil {
			ts.homes = map[int]*home{}
		}
		h := ts.homes[op.Home]
		if h == nil {
			h = &home{}
			ts.homes[op.Home] = h
		}
		var rec bool
		v, rec = h.load(&r.plan.Values[op.Val])
		if rec {
			r.checks["recycled-values"]++
		}
		st.home, st.homeSum, st.homeVal = h, h.sum, v
		rt.Resume(t)
	default:
		t := rt.Suspend()
		v, _ = r.plan.Values[op.Val].Value()
		rt.Resume(t)
	}
	st.edge = r.plan.Values[op.Val].Edge
	st.res.Started = true
	st.start = rt.Seq()
	var out []byte
	var err error
	fin := false
	func() {
		defer func() {
			if fin {
				return
			}
			if p := recover(); p != nil {
				st.res.Panicked, st.res.Panic, st.res.Done = true, p, true
			}
		}()
		out, err = call(op.Kind, dst, v, opts)
		fin = true
	}()
	if !fin && !st.res.Panicked {
		// panic(nil): nothing else stops here without a value.
		st.res.Panicked = true
	}
	st.res.Done = true
	st.res.Err = err
	r.after(ts, st, out)
}

// call is a function of its own so that its caller keeps no other reference
// to a private value.
//
//go:noinline
func call(kind string, dst []byte, v any, opts []jettison.Option) ([]byte, error) {
	switch kind {
	case "m":
		return jettison.Marshal(v)
	case "mo":
		return jettison.MarshalOpts(v, opts...)
	case "a":
		return jettison.Append(dst, v)
	}
	return jettison.AppendOpts(dst, v, opts...)
}

func arenaByte(i int, id int32) byte { return byte(i*31+int(id)*7) | 0x80 }

// after looks at the outcome right after a call.
func (r *run) after(ts *TaskState, st *OpState, out []byte) {
	ts.cur = st.prev
	st.end = rt.Seq()
	st.res.Out = out
	if st.res.Err == nil && !st.res.Panicked && !st.res.Exit {
		st.res.Copy = append([]byte(nil), out...)
	}
	h := uint64(st.ID)
	for _, c := range out {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	rt.Event(h)
	rt.Progress()
	if st.arena != nil {
		d := st.plan.Dst
		for i := range st.arena {
			if i < d.Pre+d.Len || i >= d.Pre+d.Cap {
				if st.arena[i] != arenaByte(i, st.ID) && st.dstBad == "" {
					st.dstBad = fmt.Sprintf("byte %d of the array around dst[%d:%d:%d] changed from %#x to %#x", i, d.Pre, d.Pre+d.Len, d.Pre+d.Cap, arenaByte(i, st.ID), st.arena[i])
				}
			}
		}
	}
	if st.home != nil {
		t := rt.Suspend()
		if st.home.sum == st.homeSum && *hashValue(st.homeVal, nil) != *st.homeSum {
			st.ownBad = append(st.ownBad, "the value that was encoded was modified")
		}
		rt.Resume(t)
		st.home, st.homeVal = nil, nil
	}
	st.checkOwned()
	// From now on everything the methods handed out belongs to somebody else.
	for i := range st.owned {
		b := st.owned[i].full
		for j := range b {
			b[j] = 0xee
		}
	}
	st.scribbled = true
	if r.plan.Reuse && !r.race {
		for i := range st.owned {
			if o := &st.owned[i]; len(o.full) > 0 && len(r.free) < 64 {
				r.free = append(r.free, freed{st, i})
			}
		}
	}
	if st.plan.Scribble && out != nil {
		full := out[:cap(out)]
		lim := len(full)
		if st.arena != nil {
			lim = 0 // the arena belongs to the checks
			if len(st.arena) == 0 || len(full) == 0 || !within(full, st.arena) {
				lim = len(full)
			}
		}
		for i := 0; i < lim; i++ {
			full[i] = 0xdb
		}
		_ = append(full, "overwritten"...)
		st.res.Out = nil
	}
	rt.User(11)
}

func within(a, b []byte) bool {
	p, q := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return p >= q && p < q+uintptr(len(b))
}

func (st *OpState) checkOwned() {
	for i := range st.owned {
		o := &st.owned[i]
		for j := range o.full {
			if o.full[j] != o.copy[j] {
				st.ownBad = append(st.ownBad, fmt.Sprintf("byte %d of the slice returned by the method of value #%d changed from %#x to %#x", j, o.id, o.copy[j], o.full[j]))
				break
			}
		}
	}
}

func (st *OpState) recheckScribbled() {
	if !st.scribbled {
		return
	}
	for i := range st.owned {
		st.checkScribbled(i)
	}
}

func (st *OpState) checkScribbled(i int) {
	for j, c := range st.owned[i].full {
		if c != 0xee {
			st.ownBad = append(st.ownBad, fmt.Sprintf("byte %d of the slice returned by the method of value #%d was written after the call", j, st.owned[i].id))
			return
		}
	}
}

// exit ends the goroutine in the middle of the call.
func (st *OpState) exit() {
	if st.isNested {
		return
	}
	runtime.Goexit()
}

func (r *run) nestedOp(parent *OpState, i int) {
	if i >= len(r.nested) {
		return
	}
	st := r.nested[i]
	if st == nil || st.res.Started {
		return
	}
	t := rt.Current()
	ts := t.Local.(*TaskState)
	r.exec(ts, st)
}

func (r *run) smapOp(i int) {
	if i >= len(r.plan.SM) {
		return
	}
	op := &r.plan.SM[i]
	if op.Val >= len(r.vals) || op.Map >= len(r.vals[op.Val].smaps) {
		return
	}
	m := r.vals[op.Val].smaps[op.Map]
	t := rt.Suspend()
	v := r.smVal(i)
	rt.Resume(t)
	k := r.smKey(i)
	switch op.Kind {
	case "store":
		m.Store(k, v)
		r.event(m, i, true)
	case "delete":
		m.Delete(k)
		r.event(m, i, false)
	case "swap":
		m.Swap(k, v)
		r.event(m, i, true)
	case "los":
		if _, loaded := m.LoadOrStore(k, v); !loaded {
			r.event(m, i, true)
		}
	case "lad":
		m.LoadAndDelete(k)
		r.event(m, i, false)
	case "cas":
		old, ok := m.Load(k)
		if ok && old != nil && reflect.TypeOf(old).Comparable() && comparable2(old) && m.CompareAndSwap(k, old, v) {
			r.event(m, i, true)
		}
	case "clear":
		m.Clear()
		r.event(m, i, false)
	}
}

func comparable2(v any) bool { return reflect.ValueOf(v).Comparable() }

// smVal makes the value of a modification. Nothing but the map itself keeps it
// alive during the run.
func (r *run) smVal(i int) any {
	op := &r.plan.SM[i]
	g := &gen{r: newRng(op.Seed, 8), budget: 4, theme: r.plan.Values[op.Val].Theme, plain: true, maxDep: 3, id: int32(500000 + 50*i), smKeys: 1}
	var v any
	g.fillIface(reflect.ValueOf(&v).Elem(), tAny, 1)
	return v
}

func (r *run) smKey(i int) any {
	op := &r.plan.SM[i]
	return smKey(r.plan.Values[op.Val].SMKeys, op.Key)
}

// event records a modification; nothing can happen between the modification
// and its record.
func (r *run) event(m *simsync.Map, op int, live bool) {
	if r.race {
		return
	}
	if r.nhist == maxHist {
		r.histOvf = true
		return
	}
	r.hist[r.nhist] = smEvent{rt.Seq(), m, op, live}
	r.nhist++
}

// ---- comparing results

func errText(e error) string {
	if e == nil {
		return ""
	}
	return reflect.TypeOf(e).String() + ": " + e.Error()
}

func panText(p any) string {
	if ip, ok := p.(*InjPanic); ok {
		return fmt.Sprintf("injected panic op=%d id=%d", ip.Op, ip.ID)
	}
	switch p := p.(type) {
	case nil, *runtime.PanicNilError:
		return "injected panic nil"
	case *panErr:
		return fmt.Sprintf("injected panic error op=%d id=%d", p.Op, p.ID)
	case panList:
		return fmt.Sprintf("injected panic list id=%d", p.ID)
	}
	if e, ok := p.(error); ok {
		s := e.Error()
		if strings.Contains(s, "nil pointer dereference") {
			s = "nil dereference"
		}
		return s
	}
	return fmt.Sprint(p)
}

func (a *Result) describe() string {
	switch {
	case !a.Started:
		return "not started"
	case !a.Done:
		return "did not return"
	case a.Exit:
		return "goroutine exited"
	case a.Panicked:
		return "panic: " + clip(panText(a.Panic))
	case a.Err != nil:
		return "error: " + clip(errText(a.Err))
	}
	return "returned " + clip(string(a.Copy))
}

func clip(s string) string {
	s = fmt.Sprintf("%q", s)
	if len(s) > 300 {
		return s[:200] + "..." + s[len(s)-90:]
	}
	return s
}

func sameResult(a, b *Result) bool { return sameOutcome(a, 0, b, 0) }

// sameOutcome compares the outcomes of operations i and j.
func sameOutcome(a *Result, i int32, b *Result, j int32) bool {
	if a.Done != b.Done || a.Exit != b.Exit || a.Panicked != b.Panicked || (a.Err == nil) != (b.Err == nil) {
		return false
	}
	if a.Exit {
		return true
	}
	if a.Panicked {
		return anonOp(panText(a.Panic), i) == anonOp(panText(b.Panic), j)
	}
	if a.Err != nil {
		return anonOp(errText(a.Err), i) == anonOp(errText(b.Err), j)
	}
	return string(a.Copy) == string(b.Copy)
}

// anonOp removes the number of the operation from the text of injected errors.
func anonOp(s string, id int32) string {
	return strings.ReplaceAll(s, fmt.Sprintf(" op=%d id=", id), " op=* id=")
}

func (a *Result) ok() bool { return a.Done && !a.Exit && !a.Panicked && a.Err == nil }

// fits tells whether the result is how a call with this failure ends.
func (f *failure) fits(st *OpState) string {
	a := &st.res
	switch f.kind {
	case fkExit:
		if !a.Exit {
			return "the method ended the goroutine"
		}
		return ""
	case fkPanic:
		p, ok := st.pans[f.id]
		if !a.Panicked || !ok || !samePanic(a.Panic, p) {
			return fmt.Sprintf("the method of value #%d panicked", f.id)
		}
		return ""
	case fkNil:
		if !a.Panicked {
			return "a method was promoted from a nil pointer"
		}
		return ""
	}
	if a.Exit || a.Panicked || a.Err == nil {
		return f.String()
	}
	e := a.Err
	if f.kind != fkOther {
		for _, fr := range f.frames {
			me, ok := e.(*jettison.MarshalerError)
			if !ok {
				return f.String() + "; expected a *MarshalerError, got " + errText(e)
			}
			if me.Type == nil || !sameBase(me.Type, fr.t) && (fr.dt == nil || !sameBase(me.Type, fr.dt)) {
				return f.String() + fmt.Sprintf("; the error names type %v instead of %v", me.Type, fr.t)
			}
			if s := e.Error(); !strings.Contains(s, methodNames[fr.m]) || !strings.Contains(s, me.Type.String()) {
				return f.String() + "; the error does not name method and type: " + s
			}
			e = errors.Unwrap(e)
		}
	}
	switch f.kind {
	case fkInj:
		ie := st.errs[f.id]
		if ie == nil || !sameErr(e, ie) || comparableErr(ie) && !errors.Is(a.Err, ie) {
			return f.String() + "; the error does not unwrap to the method's own error: " + errText(e)
		}
	case fkType:
		if _, ok := e.(*jettison.UnsupportedTypeError); !ok {
			return f.String() + "; got " + errText(e)
		}
	case fkValue:
		if _, ok := e.(*jettison.UnsupportedValueError); !ok {
			return f.String() + "; got " + errText(e)
		}
	case fkBadOut:
		if e == nil {
			return f.String() + "; the error has no cause"
		}
	}
	return ""
}

func (f *failure) String() string {
	w := ""
	for _, fr := range f.frames {
		w += fmt.Sprintf(" %v.%s", fr.t, methodNames[fr.m])
	}
	switch f.kind {
	case fkInj:
		return fmt.Sprintf("injected error of value #%d through%s", f.id, w)
	case fkBadOut:
		return "output that is not valid JSON of" + w
	case fkType:
		return fmt.Sprintf("unsupported type %v%s", f.t, w)
	case fkValue:
		return "unsupported value" + w
	}
	return fmt.Sprintf("failure %d%s", f.kind, w)
}

func sameBase(a, b reflect.Type) bool {
	if a == nil || b == nil {
		return false
	}
	for a.Kind() == reflect.Pointer && a.Name() == "" {
		a = a.Elem()
	}
	for b.Kind() == reflect.Pointer && b.Name() == "" {
		b = b.Elem()
	}
	return a == b
}

// ---- deep hash of values

// hashed is a snapshot of everything reachable from a value.
type hashed struct {
	sum uint64
	n   int
}

func hashValue(v any, skip map[*simsync.Map]bool) *hashed {
	h := &hasher{skip: skip, seen: map[hkey]bool{}, sum: 14695981039346656037}
	if v != nil {
		h.walk(reflect.ValueOf(v), 0)
	}
	return &hashed{h.sum, h.n}
}

type hkey struct {
	p unsafe.Pointer
	t reflect.Type
}

type hasher struct {
	skip map[*simsync.Map]bool
	seen map[hkey]bool
	sum  uint64
	n    int
}

func (h *hasher) add(x uint64) {
	h.n++
	h.sum = (h.sum ^ x) * 0x100000001b3
	h.sum ^= h.sum >> 31
}

func (h *hasher) bytes(s string) {
	h.add(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		h.add(uint64(s[i]))
	}
}

func (h *hasher) walk(v reflect.Value, d int) {
	h.add(uint64(v.Kind()))
	t := v.Type()
	if t == tSyncMap {
		if v.CanAddr() {
			m := (*simsync.Map)(v.Addr().UnsafePointer())
			if h.skip[m] {
				return
			}
			m.Range(func(k, x any) bool {
				h.iface(k, d)
				h.iface(x, d)
				return true
			})
		}
		return
	}
	if d > 200 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.add(1)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.bytes(fmt.Sprint(v.Float()))
	case reflect.String:
		h.bytes(v.String())
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := hkey{v.UnsafePointer(), t}
		if h.seen[k] {
			return
		}
		h.seen[k] = true
		h.walk(v.Elem(), d+1)
	case reflect.Interface:
		if !v.IsNil() {
			h.bytes(v.Elem().Type().String())
			h.walk(v.Elem(), d+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		h.add(uint64(v.Len())<<20 | uint64(v.Cap()))
		f := v.Slice(0, v.Cap())
		for i := 0; i < f.Len(); i++ {
			h.walk(f.Index(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i), d+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		h.add(uint64(v.Len()))
		var acc uint64
		for it := v.MapRange(); it.Next(); {
			s := &hasher{skip: h.skip, seen: map[hkey]bool{}, sum: 99}
			s.walk(it.Key(), d+1)
			s.walk(it.Value(), d+1)
			acc += s.sum
		}
		h.add(acc)
	case reflect.Chan:
		h.add(uint64(v.Cap())<<20 | uint64(v.Len()))
	}
}

func (h *hasher) iface(x any, d int) {
	if x == nil {
		h.add(7)
		return
	}
	h.bytes(reflect.TypeOf(x).String())
	h.walk(reflect.ValueOf(x), d+1)
}

var _ = json.Valid
