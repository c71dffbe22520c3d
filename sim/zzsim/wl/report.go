package wl

import (
	"fmt"

	"github.com/wI2L/jettison/zzsim/rt"
)

// Phase is told what a run is doing: S simulating, C checking.
var Phase = func(byte) {}

// Observed is a run as the driver sees it.
type Observed struct{ r *run }

func (o Observed) Outcome() rt.Outcome { return o.r.Out }

// Flow summarises what happened in a run.
type Flow struct{ Calls, Nested, SMOps, Fired int64 }

// Count adds the faults that fired and the outcomes of the calls.
func (o Observed) Count(faults, outcomes, checks map[string]int64) Flow {
	var f Flow
	r := o.r
	for i, k := range faultKinds {
		if n := r.fired[i]; n > 0 {
			faults[k] += n
			f.Fired += n
		}
	}
	for _, st := range r.reps {
		if st.res.Started {
			f.Calls++
			outcomes["repetitions"]++
		}
	}
	for _, st := range r.states {
		if st == nil || !st.res.Started {
			continue
		}
		f.Calls++
		if st.isNested {
			f.Nested++
		}
		outcomes[st.res.class()]++
		if len(st.log) > 0 {
			outcomes["calls-that-invoked-methods"]++
		}
	}
	f.SMOps = int64(r.nhist)
	for k, n := range r.checks {
		checks[k] += n
	}
	switch {
	case r.Out.Deadlock:
		outcomes["deadlock"]++
	case r.Out.LimitHit:
		outcomes["step-limit"]++
	}
	return f
}

func (a *Result) class() string {
	switch {
	case !a.Done:
		return "unfinished"
	case a.Exit:
		return "goexit"
	case a.Panicked:
		return "panic"
	case a.Err != nil:
		return "error"
	}
	return "ok"
}

// Describe lists the outcomes of the calls.
func (o Observed) Describe() []string {
	var l []string
	for _, st := range o.r.states {
		if st != nil && st.res.Started {
			l = append(l, fmt.Sprintf("op %d %s %s: %s", st.ID, st.plan.Kind, typeOf(o.r.vals[st.plan.Val].v), st.res.describe()))
		}
	}
	return l
}

// Drop resets one part of the options; it reports whether that was a change.
func (o *OptSpec) Drop(k int) bool {
	b := func(p *bool) bool { ok := *p; *p = false; return ok }
	switch k {
	case 0:
		return b(&o.Unix)
	case 1:
		return b(&o.Unsorted)
	case 2:
		return b(&o.RawBytes)
	case 3:
		return b(&o.ByteArr)
	case 4:
		return b(&o.NilMap)
	case 5:
		return b(&o.NilSlice)
	case 6:
		return b(&o.NoEsc)
	case 7:
		return b(&o.NoHTML)
	case 8:
		return b(&o.NoUTF8)
	case 9:
		return b(&o.NoCompact)
	case 10:
		return b(&o.NoNumVal)
	case 11:
		ok := o.Layout != ""
		o.Layout, o.Layout0 = "", ""
		return ok
	case 12:
		ok := o.Dur != 0
		o.Dur, o.Dur0 = 0, 0
		return ok
	case 13:
		ok := o.Allow != nil
		o.Allow, o.Allow0 = nil, nil
		return ok
	case 14:
		ok := o.Deny != nil
		o.Deny, o.Deny0 = nil, nil
		return ok
	case 15:
		ok := o.Invalid != 0
		o.Invalid = 0
		return ok
	case 16:
		return b(&o.NilOpt)
	case 17:
		ok := o.Layout0 != "" || o.Dur0 != 0 || o.Allow0 != nil || o.Deny0 != nil
		o.Layout0, o.Dur0, o.Allow0, o.Deny0 = "", 0, nil, nil
		return ok
	case 18:
		return b(&o.Twice)
	case 19:
		return b(&o.Clobber)
	}
	return false
}
