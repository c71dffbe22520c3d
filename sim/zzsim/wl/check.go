package wl

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/rt"
	"github.com/wI2L/jettison/zzsim/simsync"
)

// Violation is a broken property.
type Violation struct {
	Class string
	Op    int32
	Msg   string
}

func (v Violation) String() string { return fmt.Sprintf("[%s] op %d: %s", v.Class, v.Op, v.Msg) }

// Classes of violations.
const (
	VSolo  = "differs-from-solo"   // not what the call returns on its own in a fresh process
	VModel = "wrong-result"        // not what the reference model accepts
	VFail  = "wrong-failure"       // a failing call does not keep the contract
	VLog   = "wrong-invocations"   // marshaling methods invoked wrongly
	VOwn   = "foreign-memory"      // memory of the caller changed
	VDst   = "destination"         // Append contract
	VStuck = "stuck"               // a call does not make progress
	VPanic = "unexpected-panic"    // a panic nobody injected
	VCtx   = "context"             // wrong context
	VSM    = "incoherent-sync-map" // C08
	VRace  = "data-race"
	VIsol  = "isolation" // an option or failure of another call shows
)

// wanted tells which classes violate which property.
var wanted = map[string][]string{
	"C01": {VSolo, VStuck, VPanic},
	"C02": {VSolo, VStuck, VPanic},
	"C03": {VOwn, VSolo},
	"C04": {VFail, VSolo, VStuck},
	"C05": {VFail, VSolo, VStuck, VPanic},
	"C06": {VStuck},
	"C07": {VModel, VSolo, VPanic},
	"C08": {VSM, VPanic, VStuck},
	"C09": {VCtx, VModel, VSolo},
	"C10": {VRace},
	"C11": {VSolo, VLog, VPanic, VSM},
	"C12": {VDst, VSolo},
	"C13": {VModel, VFail, VSolo},
	"C14": {VLog},
}

type checker struct {
	r     *run
	viol  []Violation
	solos map[string]*soloRes

	before map[int]*builtVal
	alias  map[*simsync.Map]*simsync.Map
}

// soloRes is the outcome of a call on its own, with a canonical identity.
type soloRes struct {
	res Result
	dyn map[int32]string
}

func (c *checker) add(class string, op int32, f string, a ...any) {
	c.viol = append(c.viol, Violation{class, op, fmt.Sprintf(f, a...)})
}

// RunPlan executes a plan and checks it.
func RunPlan(p *Plan, race bool) (Observed, []Violation) {
	edgeReset()
	r := newRun(p, race)
	e0 := rt.RaceErrors()
	r.simulate()
	if r.Out.LimitHit {
		// Was it too much for what there was to do?
		if w := r.work(); w > p.Cfg.StepLimit {
			p.Cfg.StepLimit = w
			edgeReset()
			r = newRun(p, race)
			e0 = rt.RaceErrors()
			r.simulate()
			r.checks["longer-step-limit"]++
		}
	}
	c := &checker{r: r, solos: map[string]*soloRes{}, before: map[int]*builtVal{}, alias: map[*simsync.Map]*simsync.Map{}}
	if r.Out.Void {
		// More goroutines than the kernel can handle: nothing was decided.
		r.checks["void"]++
		return Observed{r}, nil
	}
	want := map[string]bool{}
	for _, w := range wanted[p.Prop] {
		want[w] = true
	}
	if n := rt.RaceErrors() - e0; n > 0 {
		c.add(VRace, -1, "%d data race(s) reported by the race detector", n)
	}
	c.stuck()
	if race {
		return Observed{r}, c.filter(want)
	}
	for _, st := range r.states {
		if st != nil && st.res.Started {
			c.op(st, want)
		}
	}
	for _, st := range r.reps {
		// Each repetition ends like the last one, which is checked in full.
		last := r.states[st.ID]
		if !st.res.Done || !last.res.Done || !want[VSolo] && !want[VDst] && !want[VFail] {
			continue
		}
		r.checks["repetition"]++
		if sameResult(&st.res, &last.res) || len(st.dyn) > 0 || len(last.dyn) > 0 {
			continue
		}
		n := last.model(c.value(last), r.mut)
		if n.hasDyn() || !n.determ() && nondet(n, last) {
			continue
		}
		for _, cl := range []string{VSolo, VDst, VFail} {
			c.add(cl, st.ID, "two executions of the same call: %s; %s", st.res.describe(), last.res.describe())
		}
	}
	c.inputs()
	if edgeShort {
		// Equal values were made differently: nothing was decided.
		r.checks["void"]++
		return Observed{r}, nil
	}
	if edgeNext > 0 {
		r.checks["memory-at-the-edge"] += int64(edgeNext)
	}
	return Observed{r}, c.filter(want)
}

// work returns a number of steps that is ample for all calls of the plan,
// according to the size of their results.
func (r *run) work() int64 {
	w := int64(0)
	for _, st := range r.states {
		if st != nil {
			w += int64(modelOf(r.vals[st.plan.Val].v, st.opt, nil, nil, nil, nil).weight()) * 2000
		}
	}
	return w
}

func (c *checker) filter(want map[string]bool) []Violation {
	var o []Violation
	for _, v := range c.viol {
		if want[v.Class] {
			o = append(o, v)
		}
	}
	return o
}

func (c *checker) stuck() {
	o := &c.r.Out
	switch {
	case o.Deadlock:
		c.add(VStuck, -1, "deadlock: %s", o.Stuck)
	case o.LimitHit:
		c.add(VStuck, -1, "no progress: %s", o.Stuck)
	case o.HangBlock:
		c.add(VStuck, -1, "blocked by a call that is stalled in a method: %s", o.Stuck)
	default:
		for _, t := range c.r.plan.Tasks {
			for i := range t {
				if t[i].isCall() {
					if st := c.r.states[t[i].ID]; !st.res.Done {
						c.add(VStuck, st.ID, "the call did not return")
					}
				}
			}
		}
	}
	for _, p := range o.Panics {
		c.add(VPanic, -1, "a task panicked outside a call: %s", p)
	}
}

// inputs checks that encoding left the values alone.
func (c *checker) inputs() {
	for i, l := range c.r.lists {
		if now := c.r.plan.Opts[i].lists(); now != l {
			c.add(VOwn, -1, "the names given to an option were modified: %s instead of %s", clip(now), clip(l))
		}
	}
	for i, v := range c.r.vals {
		if h := hashValue(v.v, c.r.mut); *h != *v.orig {
			c.add(VOwn, -1, "the input value %d (%T) was modified", i, v.v)
		}
	}
	for _, st := range c.r.states {
		if st == nil {
			continue
		}
		st.recheckScribbled()
		for _, s := range st.ownBad {
			c.add(VOwn, st.ID, "%s", s)
		}
		if st.res.ok() && st.res.Out != nil && !bytes.Equal(st.res.Out, st.res.Copy) {
			c.add(VOwn, st.ID, "the bytes the call returned changed later from %s to %s", clip(string(st.res.Copy)), clip(string(st.res.Out)))
		}
	}
}

func faultMap(p *OpPlan) map[int32]*Fault {
	m := map[int32]*Fault{}
	for i := range p.Faults {
		m[p.Faults[i].ID] = &p.Faults[i]
	}
	return m
}

func (c *checker) value(st *OpState) any {
	if st.plan.Private {
		v, _ := c.r.plan.Values[st.plan.Val].Value()
		return v
	}
	return c.r.vals[st.plan.Val].v
}

func (st *OpState) model(v any, mut map[*simsync.Map]bool) *mnode {
	return modelOf(v, st.opt, st.ctx, faultMap(st.plan), st.dyn, mut)
}

func (c *checker) op(st *OpState, want map[string]bool) {
	r := c.r
	res := &st.res
	for _, b := range st.bad {
		c.add(VCtx, st.ID, "%s", b)
	}
	if st.dstBad != "" {
		c.add(VDst, st.ID, "%s", st.dstBad)
	}
	if !res.Done {
		return
	}
	if res.Panicked {
		if !injected(res.Panic) && !userNilPanic(res.Panic) {
			c.add(VPanic, st.ID, "the call panicked: %s", clip(panText(res.Panic)))
		}
	}
	// The result without the destination.
	rel := *res
	if res.ok() && st.plan.Dst != nil {
		pre := st.prefix()
		if !bytes.HasPrefix(res.Copy, pre) {
			c.add(VDst, st.ID, "the result does not start with the %d bytes of the destination: %s", len(pre), clip(string(res.Copy)))
			return
		}
		rel.Copy = res.Copy[len(pre):]
	}
	v := c.value(st)
	if st.opt != nil && st.opt.invalid(st.ctx != nil) && v != nil {
		if _, ok := res.Err.(*jettison.InvalidOptionError); !ok || res.Out != nil {
			c.add(VModel, st.ID, "invalid option: %s", res.describe())
		}
		if len(st.log) > 0 {
			c.add(VLog, st.ID, "methods invoked in spite of an invalid option")
		}
		return
	}
	n := st.model(v, r.mut)
	dyn := n.hasDyn()
	var dynFn dynMatcher
	if dyn {
		r.checks["concurrently-modified-sync-map"]++
		dynFn = func(bm *bmatch, n *mnode, b []byte, pos int) []int { return c.dynEnds(st, bm, n, b, pos) }
	}
	// Reference model.
	r.checks["model"]++
	modelOK, why := c.accept(st, n, &rel, dynFn)
	if !modelOK {
		cl := VModel
		if n.fails() && hasInjected(n) {
			cl = VFail
		}
		if dyn {
			cl = VSM
		}
		c.add(cl, st.ID, "%s %s: %s; %s", st.plan.Kind, typeOf(v), res.describe(), why)
	}
	if !res.ok() && res.Out != nil && (st.plan.Kind == "m" || st.plan.Kind == "mo") && !res.Panicked && !res.Exit {
		c.add(VFail, st.ID, "Marshal returned bytes together with an error: %s", clip(string(res.Out)))
	}
	// Invocations.
	if !dyn && (want[VLog] || want[VFail]) {
		r.checks["invocations"]++
		c.log(st, n, want)
	}
	// Alone in a fresh process.
	if !dyn && len(st.dyn) == 0 && (want[VSolo] || want[VDst]) {
		r.checks["solo"]++
		c.solo(st, &rel, modelOK)
	}
}

func typeOf(v any) string {
	s := fmt.Sprint(reflect.TypeOf(v))
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func userNilPanic(p any) bool {
	return panText(p) == "nil dereference" || containsStr(panText(p), "value method")
}

func containsStr(s, sub string) bool { return bytes.Contains([]byte(s), []byte(sub)) }

func hasInjected(n *mnode) bool {
	for _, f := range n.failures(nil) {
		switch f.kind {
		case fkInj, fkPanic, fkExit:
			return true
		}
	}
	return false
}

func (st *OpState) prefix() []byte {
	d := st.plan.Dst
	if d == nil || d.Nil {
		return nil
	}
	b := make([]byte, d.Len)
	for i := range b {
		b[i] = arenaByte(d.Pre+i, st.ID)
	}
	return b
}

// accept tells whether the model allows the result.
func (c *checker) accept(st *OpState, n *mnode, rel *Result, dyn dynMatcher) (bool, string) {
	if rel.ok() {
		if n.fails() {
			return false, "the call has to fail: " + firstFail(n)
		}
		ok, undecided := accepts(n, rel.Copy, dyn)
		if undecided {
			c.r.checks["model-undecided"]++
		}
		if !ok {
			if n.determ() {
				return false, "expected " + clipDiff(rel.Copy, n.flatten())
			}
			return false, "not one of the possible results"
		}
		return true, ""
	}
	fs := n.failures(nil)
	if dyn != nil {
		fs = c.dynFailures(st, n, fs)
	}
	if len(fs) == 0 {
		return false, "the call has to succeed"
	}
	why := ""
	for _, f := range fs {
		w := f.fits(st)
		if w == "" {
			return true, ""
		}
		if why == "" {
			why = "expected failure: " + w
		}
	}
	return false, why
}

func clipDiff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(b []byte) string {
		hi := i + 60
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			return ""
		}
		return fmt.Sprintf("%q", b[lo:hi])
	}
	return fmt.Sprintf("(from byte %d) ...%s, got ...%s", lo, cut(want), cut(got))
}

func firstFail(n *mnode) string {
	for _, f := range n.failures(nil) {
		return f.String()
	}
	return ""
}

func (c *checker) log(st *OpState, n *mnode, want map[string]bool) {
	ends, undecided := matchLog(n, st.log)
	if undecided {
		c.r.checks["invocations-undecided"]++
		return
	}
	cl := VLog
	if hasInjected(n) && want[VFail] {
		cl = VFail
	}
	if len(ends) == 0 {
		for _, x := range st.log {
			if x.ID == badID {
				c.add(VLog, st.ID, "a method was invoked on something that is not part of the value: %s", x)
				return
			}
		}
		exp := n.calls(nil)
		c.add(cl, st.ID, "%s: invoked %s; expected %s (entries of maps in any order)", typeOf(c.value(st)), logText(st.log), logText(exp))
		return
	}
	if st.res.ok() {
		for _, e := range ends {
			if e.fail == nil {
				return
			}
		}
		if !n.fails() {
			c.add(cl, st.ID, "the call succeeded without invoking everything: invoked %s; expected %s", logText(st.log), logText(n.calls(nil)))
		}
		return
	}
	for _, e := range ends {
		if e.fail != nil && e.fail.fits(st) == "" {
			return
		}
	}
	if want[VFail] {
		for _, e := range ends {
			if e.fail != nil {
				c.add(cl, st.ID, "the call ended like this: %s; but the method that failed was another one: %s", st.res.describe(), e.fail.fits(st))
				return
			}
		}
	}
}

func logText(l []Call) string {
	if len(l) > 30 {
		return fmt.Sprint(l[:30]) + fmt.Sprintf("... (%d)", len(l))
	}
	return fmt.Sprint(l)
}

// soloPlan is the call on its own.
func (p *Plan) soloPlan(st *OpState) *Plan {
	op := *st.plan
	op.Faults = nil
	for _, f := range st.plan.Faults {
		if isFail(f.Kind) || isCorrupt(f.Kind) {
			op.Faults = append(op.Faults, f)
		}
	}
	op.Dst = nil
	op.Scribble = false
	if op.Ctx != nil {
		// The deadline did not show; alone, time passes differently.
		x := *op.Ctx
		x.Deadline = 0
		op.Ctx = &x
	}
	switch op.Kind {
	case "a":
		op.Kind = "m"
	case "ao":
		op.Kind = "mo"
	}
	q := &Plan{Prop: p.Prop, Opts: p.Opts, Replay: true, Salt: p.Salt}
	q.Values = []ValSpec{p.Values[op.Val]}
	op.Val = 0
	op.ID = 0
	op.Rep = 0
	op.Private, op.Home = false, 0
	q.Tasks = [][]OpPlan{{op}}
	// Alone, no call of others starts the limit again.
	q.Cfg.StepLimit = 10 * p.Cfg.StepLimit
	return q
}

// soloKey identifies calls that are the same on their own.
func (p *Plan) soloKey(q *Plan, val int) string {
	op := q.Tasks[0][0]
	ctx := ""
	if op.Ctx != nil {
		ctx = fmt.Sprint(*op.Ctx)
	}
	return fmt.Sprint(val, op.Kind, op.Opts, op.OwnOpts, ctx, op.Faults)
}

func (c *checker) solo(st *OpState, rel *Result, modelOK bool) {
	q := c.r.plan.soloPlan(st)
	k := c.r.plan.soloKey(q, st.plan.Val)
	s := c.solos[k]
	if s == nil {
		mark := edgeNext
		r := newRun(q, false)
		r.simulate()
		edgeNext = mark
		s = &soloRes{r.states[0].res, r.states[0].dyn}
		c.solos[k] = s
		c.r.checks["solo-executions"]++
	}
	a := *rel
	if sameOutcome(&a, st.ID, &s.res, 0) {
		return
	}
	if a.Panicked && s.res.Panicked && isInj(a.Panic) == isInj(s.res.Panic) && !isInj(a.Panic) {
		return
	}
	if modelOK {
		// A method that saw the end of its context may have come first in
		// another order.
		n := modelOf(c.value(st), st.opt, st.ctx, faultMap(st.plan), s.dyn, nil)
		if !n.determ() && nondet(n, st) {
			// Another order of the entries of a map.
			return
		}
	}
	cl := VSolo
	if st.plan.Dst != nil && c.r.plan.Prop == "C12" {
		cl = VDst
	}
	c.add(cl, st.ID, "%s %s: %s; on its own in a fresh process: %s", st.plan.Kind, typeOf(c.value(st)), a.describe(), s.res.describe())
}

func isInj(p any) bool { return injected(p) }

// nondet tells whether the order of the entries of a map may show in the
// outcome: entries that fail, or maps that are not sorted.
func nondet(n *mnode, st *OpState) bool {
	if n.fails() {
		return len(n.failures(nil)) > 1
	}
	return hasUnsorted(n)
}

func hasUnsorted(n *mnode) bool {
	if n.kind == kMap && !n.sorted && len(n.items) > 1 {
		return true
	}
	for _, k := range n.kids {
		if hasUnsorted(k) {
			return true
		}
	}
	for _, e := range n.items {
		if hasUnsorted(e.key) || hasUnsorted(e.val) {
			return true
		}
	}
	return false
}

// ---- sync.Maps that are modified during the call

type smKeyHist struct {
	key      any
	text     string
	kn       *mnode
	vals     []*mnode
	required bool
}

// rebuilt returns a value as it was before the run. Its sync.Maps stand for
// those of the value that was used.
func (c *checker) rebuilt(i int) *builtVal {
	if b := c.before[i]; b != nil {
		return b
	}
	b := buildVal(&c.r.plan.Values[i])
	for j, m := range b.smaps {
		if o := c.r.vals[i].smaps[j]; c.r.mut[o] {
			c.r.mut[m] = true
			c.alias[m] = o
		}
	}
	c.before[i] = b
	return b
}

func (c *checker) dynKeys(st *OpState, n *mnode) []*smKeyHist {
	r := c.r
	if st.smCache == nil {
		st.smCache = map[*mnode][]*smKeyHist{}
	}
	if h, ok := st.smCache[n]; ok {
		return h
	}
	type kst struct {
		v       any
		live    bool
		changed bool
		during  []any
	}
	ks := map[any]*kst{}
	var order []any
	// The contents before the run.
	sm := n.sm
	if a := c.alias[sm]; a != nil {
		sm = a
	}
	at := r.smAt[sm]
	c.rebuilt(at[0]).smaps[at[1]].Range(func(k, v any) bool {
		ks[k] = &kst{v: v, live: true}
		order = append(order, k)
		return true
	})
	started := false
	begin := func() {
		if started {
			return
		}
		started = true
		for _, s := range ks {
			if s.live {
				s.during = append(s.during, s.v)
			}
		}
	}
	apply := func(s *kst, v any, live bool) {
		s.v, s.live = v, live
		if started {
			s.changed = true
			if live {
				s.during = append(s.during, v)
			}
		}
	}
	for i := 0; i < r.nhist; i++ {
		e := &r.hist[i]
		if e.m != sm {
			continue
		}
		if e.seq > st.end {
			break
		}
		if e.seq > st.start {
			begin()
		}
		if r.plan.SM[e.op].Kind == "clear" {
			for _, s := range ks {
				if s.live {
					apply(s, nil, false)
				}
			}
			continue
		}
		k := r.smKey(e.op)
		s := ks[k]
		if s == nil {
			s = &kst{}
			ks[k] = s
			order = append(order, k)
		}
		var v any
		if e.live {
			v = r.smVal(e.op)
		}
		apply(s, v, e.live)
	}
	begin()
	m := n.mod
	var out []*smKeyHist
	for _, k := range order {
		s := ks[k]
		if len(s.during) == 0 {
			continue
		}
		h := &smKeyHist{key: k, required: s.live && !s.changed}
		kn, txt, ok := m.mapKey(reflect.ValueOf(k))
		if !ok {
			continue
		}
		h.kn, h.text = kn, txt
		kn.escape(n.esc)
		for _, v := range s.during {
			x := m.top(v)
			x.escape(n.esc)
			h.vals = append(h.vals, x)
		}
		out = append(out, h)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].text < out[j].text })
	st.smCache[n] = out
	return out
}

// dynFailures adds the failures the values of modified maps may cause.
func (c *checker) dynFailures(st *OpState, n *mnode, l []*failure) []*failure {
	if n.kind == kDyn {
		for _, h := range c.dynKeys(st, n) {
			l = h.kn.failures(l)
			for _, v := range h.vals {
				l = c.dynFailures(st, v, v.failures(l))
			}
		}
		return l
	}
	for _, k := range n.kids {
		l = c.dynFailures(st, k, l)
	}
	for _, e := range n.items {
		l = c.dynFailures(st, e.val, l)
	}
	return l
}

// dynEnds matches the encoding of a sync.Map that is being modified.
func (c *checker) dynEnds(st *OpState, bm *bmatch, n *mnode, b []byte, pos int) []int {
	if c.r.histOvf {
		bm.work = maxMatch + 1
		return nil
	}
	keys := c.dynKeys(st, n)
	if pos >= len(b) || b[pos] != '{' {
		return nil
	}
	used := make([]bool, len(keys))
	var rec func(pos, cnt int, last string) []int
	rec = func(pos, cnt int, last string) []int {
		if pos >= len(b) {
			return nil
		}
		if bm.work++; bm.work > maxMatch {
			return nil
		}
		var out []int
		if b[pos] == '}' {
			for i, h := range keys {
				if h.required && !used[i] {
					return nil
				}
			}
			return []int{pos + 1}
		}
		if cnt > 0 {
			if b[pos] != ',' {
				return nil
			}
			pos++
		}
		for i, h := range keys {
			if used[i] || n.sorted && cnt > 0 && h.text < last {
				continue
			}
			for _, p := range bm.ends(h.kn, b, pos) {
				if p >= len(b) || b[p] != ':' {
					continue
				}
				var qs []int
				for _, v := range h.vals {
					qs = append(qs, bm.ends(v, b, p+1)...)
				}
				used[i] = true
				for _, q := range uniq(qs) {
					out = append(out, rec(q, cnt+1, h.text)...)
					if len(out) > 0 {
						break
					}
				}
				used[i] = false
				if len(out) > 0 {
					return out
				}
			}
		}
		return out
	}
	return rec(pos+1, 0, "")
}

var _ = json.Valid
