// Command simrun executes simulated runs: batches of seeds, replays of one
// file, and the minimisation of a failing one.
//
// Exit status: 0 nothing found, 1 violation, 3 error of the harness itself.
// Anything else means the process crashed; the progress file tells where.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"github.com/wI2L/jettison/zzsim/rt"
	"github.com/wI2L/jettison/zzsim/wl"
)

// Replay is the contents of a replay file.
type Replay struct {
	Property string
	Class    string
	Message  string
	Op       int32
	Index    int64 // index of the run in its batch
	Base     uint64
	Events   uint64 `json:",omitempty"` // hash of the recorded events
	Race     bool   `json:",omitempty"`
	Report   string `json:",omitempty"`
	Plan     *wl.Plan
	// If From is set, the failure needs what earlier runs left behind in the
	// process: the replay executes the runs From-1..Index of the batch.
	From int64 `json:",omitempty"`
}

type Stats struct {
	Runs, Calls, Nested, SMOps                int64
	Steps, SimTime, Switches, SyncOps, Sleeps int64
	PoolGets, PoolHits, MapIters              int64
	MultiTask, NonTrivial, Deviations         int64
	Env                                       map[string]int64
	Faults                                    map[string]int64
	Outcomes                                  map[string]int64
	Checks                                    map[string]int64
	Hashes                                    map[string]string // events hash by index, for a few runs
	Samples                                   []json.RawMessage
	Violation                                 *Replay
	WallMS                                    int64
	NextIndex                                 int64
	MaxSteps                                  int64
}

var (
	fProp     = flag.String("prop", "", "")
	fBase     = flag.Uint64("base", 1, "")
	fStart    = flag.Int64("start", 0, "")
	fStride   = flag.Int64("stride", 1, "")
	fCount    = flag.Int64("count", 1<<40, "")
	fMaxTime  = flag.Float64("maxtime", 10, "")
	fProgress = flag.String("progress", "", "")
	fOut      = flag.String("out", "", "")
	fHashes   = flag.String("hashes", "", "")
	fNHash    = flag.Int64("nhash", 0, "")
	fReverse  = flag.Bool("reverse", false, "")
	fReplay   = flag.String("replay", "", "")
	fMin      = flag.String("minimize", "", "")
	fSub      = flag.Bool("sub", false, "")
	fQuiet    = flag.Bool("quiet", false, "")
	fKeepOn   = flag.Bool("keepon", false, "")
	fDump     = flag.Bool("dump", false, "")
	fGen      = flag.Bool("gen", false, "write the plan of run -start to -out")
	fSites    = flag.Bool("sites", false, "")
)

var progress *os.File
var progBuf [40]byte

func phase(p byte) {
	if progress == nil {
		return
	}
	progBuf[20] = p
	progress.WriteAt(progBuf[20:21], 20)
}

func setIndex(i int64) {
	if progress == nil {
		return
	}
	copy(progBuf[:], fmt.Sprintf("%019d\nG\n", i))
	progress.WriteAt(progBuf[:22], 0)
}

func harnessErr(v any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n%s\n", v, debug.Stack())
	os.Exit(3)
}

// planSeed is the seed of run i of a batch.
func planSeed(base uint64, i int64) uint64 {
	z := base*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95 + 0x632be59bd9b4e019
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return (z ^ z>>31) >> 12
}

func main() {
	flag.Parse()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)
	wl.Phase = phase
	if *fProgress != "" {
		f, err := os.OpenFile(*fProgress, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o666)
		if err != nil {
			harnessErr(err)
		}
		progress = f
	}
	switch {
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	case *fGen:
		r := &Replay{Property: *fProp, Class: "crash", Op: -1, Index: *fStart, Base: *fBase, Race: rt.RaceEnabled}
		guard(func() { r.Plan = wl.GenPlan(*fProp, planSeed(*fBase, *fStart)) })
		writeJSON(*fOut, r)
	case *fMin != "":
		minimize(*fMin, *fOut, *fSub, time.Duration(*fMaxTime*float64(time.Second)))
	default:
		if f := os.Getenv("ZZPROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		batch()
	}
}

func guard(f func()) {
	defer func() {
		if p := recover(); p != nil {
			harnessErr(p)
		}
	}()
	f()
}

func batch() {
	st := &Stats{Env: map[string]int64{}, Faults: map[string]int64{}, Outcomes: map[string]int64{}, Hashes: map[string]string{}, Checks: map[string]int64{}}
	t0 := time.Now()
	var hashes []byte
	lim := time.Duration(*fMaxTime * float64(time.Second))
	next := *fStart
	for n := int64(0); n < *fCount; n++ {
		if time.Since(t0) > lim {
			break
		}
		i := *fStart + n*(*fStride)
		if *fReverse {
			i = *fStart + (*fCount-1-n)*(*fStride)
		}
		next = i + *fStride
		setIndex(i)
		var p *wl.Plan
		guard(func() { p = wl.GenPlan(*fProp, planSeed(*fBase, i)) })
		if rt.RaceEnabled {
			p.Warm = true
		}
		if *fDump {
			b, _ := json.MarshalIndent(p, "", " ")
			os.Stdout.Write(append(b, '\n'))
		}
		var o wl.Observed
		var v []wl.Violation
		guard(func() { o, v = wl.RunPlan(p, rt.RaceEnabled) })
		out := o.Outcome()
		st.Runs++
		st.Steps += out.Stats.Steps
		st.SimTime += out.Stats.SimTime
		st.Switches += out.Stats.Switches
		st.SyncOps += out.Stats.SyncOps
		st.Sleeps += out.Stats.Sleeps
		st.PoolGets += out.Stats.PoolGets
		st.PoolHits += out.Stats.PoolHits
		st.MapIters += out.Stats.MapIters
		if out.Stats.Steps > st.MaxSteps {
			st.MaxSteps = out.Stats.Steps
		}
		dev := int64(0)
		for k, c := range out.Stats.Fired {
			if c > 0 {
				st.Env[rt.KindNames[k]] += c
				dev += c
			}
		}
		fl := o.Count(st.Faults, st.Outcomes, st.Checks)
		st.Calls += fl.Calls
		st.Nested += fl.Nested
		st.SMOps += fl.SMOps
		st.Deviations += dev
		if len(p.Tasks) > 1 {
			st.MultiTask++
		}
		if fl.Fired > 0 || dev > 0 {
			st.NonTrivial++
			hashes = binary.LittleEndian.AppendUint64(hashes, out.Events)
		}
		if i < *fNHash {
			st.Hashes[fmt.Sprint(i)] = fmt.Sprintf("%016x/%d/%d", out.Events^out.Trace, out.NEvents, out.Stats.Steps)
		}
		if len(st.Samples) < 2 && n < 400 && fl.Calls > 1 && dev > 0 {
			b, _ := json.Marshal(map[string]any{"index": i, "seed": p.Seed, "plan": clipPlan(p), "deviations": dev, "faults_fired": fl.Fired, "steps": out.Stats.Steps, "switches": out.Stats.Switches, "outcomes": o.Describe()})
			st.Samples = append(st.Samples, b)
		}
		if len(v) > 0 {
			r := &Replay{Property: *fProp, Class: v[0].Class, Message: v[0].Msg, Op: v[0].Op, Index: i, Base: *fBase, Events: out.Events, Race: rt.RaceEnabled, Plan: p}
			if *fKeepOn {
				fmt.Printf("%d: %s\n", i, v[0])
				if !*fQuiet {
					for _, x := range v[1:] {
						fmt.Printf("   + %s\n", x)
					}
				}
				continue
			}
			recorded(r, &out)
			st.Violation = r
			break
		}
		collect()
	}
	st.WallMS = time.Since(t0).Milliseconds()
	st.NextIndex = next
	if *fOut != "" {
		writeJSON(*fOut, st)
	} else if !*fQuiet {
		st.Samples = nil
		b, _ := json.MarshalIndent(st, "", " ")
		fmt.Println(string(b))
	}
	if *fHashes != "" {
		if err := os.WriteFile(*fHashes, hashes, 0o666); err != nil {
			harnessErr(err)
		}
	}
	if st.Violation != nil {
		os.Exit(1)
	}
}

// collect keeps the heap small; garbage is collected nowhere else outside the
// simulation.
func collect() {
	var ms runtime.MemStats
	if runtime.ReadMemStats(&ms); ms.HeapAlloc > 128<<20 {
		runtime.GC()
	}
}

// recorded turns the plan of a run into a replay of its recorded decisions.
func recorded(r *Replay, out *rt.Outcome) {
	if out.Overflow {
		return
	}
	q := *r.Plan
	q.Replay = true
	q.Recs = append([]rt.Rec{}, out.Recs...)
	r.Plan = &q
}

func clipPlan(p *wl.Plan) any {
	b, _ := json.Marshal(p)
	if len(b) > 3000 {
		return string(b[:3000]) + "..."
	}
	return json.RawMessage(b)
}

func writeJSON(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		harnessErr(err)
	}
	if err := os.WriteFile(name+".tmp", b, 0o666); err != nil {
		harnessErr(err)
	}
	if err := os.Rename(name+".tmp", name); err != nil {
		harnessErr(err)
	}
}

func load(name string) *Replay {
	b, err := os.ReadFile(name)
	if err != nil {
		harnessErr(err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		harnessErr(err)
	}
	return r
}

func replay(name string) int {
	r := load(name)
	if r.From > 0 {
		for i := r.From - 1; i < r.Index; i++ {
			setIndex(i)
			guard(func() {
				p := wl.GenPlan(r.Property, planSeed(r.Base, i))
				p.Warm = rt.RaceEnabled
				wl.RunPlan(p, rt.RaceEnabled)
			})
			collect()
		}
		r.Plan = wl.GenPlan(r.Property, planSeed(r.Base, r.Index))
	}
	setIndex(r.Index)
	var o wl.Observed
	var v []wl.Violation
	if rt.RaceEnabled {
		r.Plan.Warm = true
	}
	guard(func() { o, v = wl.RunPlan(r.Plan, rt.RaceEnabled) })
	out := o.Outcome()
	if !*fQuiet {
		fmt.Printf("events %016x steps %d switches %d\n", out.Events, out.Stats.Steps, out.Stats.Switches)
		if *fSites {
			fmt.Println(o.Describe())
		}
	}
	for _, x := range v {
		if x.Class == r.Class || r.Class == "" {
			if !*fQuiet {
				fmt.Printf("reproduced: %s\n", x)
			}
			return 1
		}
	}
	for _, x := range v {
		if !*fQuiet {
			fmt.Printf("other violation: %s\n", x)
		}
	}
	if len(v) > 0 {
		return 1
	}
	return 0
}

// ---- minimisation

type minimizer struct {
	best  *Replay
	out   string
	sub   bool
	end   time.Time
	tries int
}

func (m *minimizer) over() bool { return time.Now().After(m.end) }

// try tells whether the plan fails in the same way, and adopts it if so.
func (m *minimizer) try(p *wl.Plan) bool {
	if m.over() {
		return false
	}
	m.tries++
	if m.sub {
		return m.trySub(p)
	}
	var o wl.Observed
	var v []wl.Violation
	func() {
		defer func() {
			if p := recover(); p != nil {
				v = nil
			}
		}()
		o, v = wl.RunPlan(p, false)
	}()
	for _, x := range v {
		if x.Class == m.best.Class {
			out := o.Outcome()
			q := *p
			r := *m.best
			r.Plan = &q
			r.Message, r.Op, r.Events = x.Msg, x.Op, out.Events
			m.best = &r
			writeJSON(m.out, m.best)
			if m.tries&7 == 0 {
				runtime.GC()
			}
			return true
		}
	}
	if m.tries&15 == 0 {
		runtime.GC()
	}
	return false
}

func (m *minimizer) trySub(p *wl.Plan) bool {
	r := *m.best
	q := *p
	r.Plan = &q
	tmp := m.out + ".cand"
	writeJSON(tmp, &r)
	pf := m.out + ".prog"
	cmd := exec.Command(os.Args[0], "-replay", tmp, "-progress", pf)
	var buf strings.Builder
	cmd.Stdout, cmd.Stderr = &buf, &buf
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return false
	}
	code := cmd.ProcessState.ExitCode()
	ok := false
	txt := buf.String()
	switch m.best.Class {
	case "crash":
		b, _ := os.ReadFile(pf)
		ok = code == 2 && len(b) > 20 && b[20] == 'S'
	default:
		ok = code == 1 && strings.Contains(txt, "reproduced: ["+m.best.Class+"]")
	}
	if !ok {
		return false
	}
	if i := strings.Index(txt, "reproduced: "); i >= 0 {
		r.Message = strings.TrimSpace(txt[i+len("reproduced: "):])
	}
	if i := strings.Index(txt, "events "); i >= 0 && len(txt) > i+23 {
		fmt.Sscanf(txt[i+7:i+23], "%x", &r.Events)
	}
	if len(txt) > 6000 {
		txt = txt[:6000]
	}
	r.Report = txt
	m.best = &r
	writeJSON(m.out, m.best)
	return true
}

func clone(p *wl.Plan) *wl.Plan {
	b, err := json.Marshal(p)
	if err != nil {
		harnessErr(err)
	}
	q := &wl.Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		harnessErr(err)
	}
	if p.Replay && q.Recs == nil {
		q.Recs = []rt.Rec{}
	}
	return q
}

func minimize(in, out string, sub bool, budget time.Duration) {
	m := &minimizer{best: load(in), out: out, sub: sub, end: time.Now().Add(budget)}
	writeJSON(out, m.best)
	if !m.try(clone(m.best.Plan)) {
		fmt.Println("NOT-REPRODUCED")
		os.Exit(4)
	}
	for round := 0; round < 6 && !m.over(); round++ {
		before := m.tries
		changed := m.pass()
		_ = before
		if !changed {
			break
		}
	}
	fmt.Printf("minimised in %d tries\n", m.tries)
}

func (m *minimizer) edit(f func(p *wl.Plan) bool) bool {
	q := clone(m.best.Plan)
	if !f(q) {
		return false
	}
	return m.try(q)
}

func (m *minimizer) pass() bool {
	ch := false
	do := func(f func(p *wl.Plan) bool) {
		if m.edit(f) {
			ch = true
		}
	}
	// All deviations, then in halves.
	ch = m.recs() || ch
	// Groups of tasks, whole tasks, then single operations.
	for chunk := len(m.best.Plan.Tasks) / 2; chunk > 1; chunk /= 2 {
		for i := 0; i < len(m.best.Plan.Tasks); i += chunk {
			i := i
			do(func(p *wl.Plan) bool {
				any := false
				for j := i; j < i+chunk && j < len(p.Tasks); j++ {
					any = any || len(p.Tasks[j]) > 0
					p.Tasks[j] = nil
				}
				return any
			})
		}
	}
	for i := range m.best.Plan.Tasks {
		n := len(m.best.Plan.Tasks[i])
		for chunk := n / 2; chunk > 1; chunk /= 2 {
			for j := len(m.best.Plan.Tasks[i]) - chunk; j >= 0; j -= chunk {
				i, j := i, j
				do(func(p *wl.Plan) bool {
					if j+chunk > len(p.Tasks[i]) {
						return false
					}
					p.Tasks[i] = append(p.Tasks[i][:j:j], p.Tasks[i][j+chunk:]...)
					return true
				})
			}
		}
	}
	for i := range m.best.Plan.Tasks {
		i := i
		do(func(p *wl.Plan) bool {
			if len(p.Tasks[i]) == 0 {
				return false
			}
			p.Tasks[i] = nil
			return true
		})
	}
	for i := range m.best.Plan.Tasks {
		for j := len(m.best.Plan.Tasks[i]) - 1; j >= 0; j-- {
			i, j := i, j
			do(func(p *wl.Plan) bool {
				p.Tasks[i] = append(p.Tasks[i][:j:j], p.Tasks[i][j+1:]...)
				return true
			})
		}
	}
	do(func(p *wl.Plan) bool {
		// A single task left does not need to keep its place.
		k := -1
		for i := range p.Tasks {
			if len(p.Tasks[i]) > 0 {
				if k >= 0 {
					return false
				}
				k = i
			}
		}
		if k <= 0 || len(p.Recs) > 0 {
			return false
		}
		p.Tasks = p.Tasks[k : k+1]
		return true
	})
	do(func(p *wl.Plan) bool {
		n := len(p.Tasks)
		for n > 0 && len(p.Tasks[n-1]) == 0 {
			n--
		}
		if n == len(p.Tasks) || n == 0 {
			return false
		}
		p.Tasks = p.Tasks[:n]
		return true
	})
	// Unused values and sync.Map operations.
	do(func(p *wl.Plan) bool {
		if len(p.SM) == 0 {
			return false
		}
		p.SM = nil
		return true
	})
	for k := len(m.best.Plan.SM) - 1; k >= 0; k-- {
		k := k
		do(func(p *wl.Plan) bool {
			if k != len(p.SM)-1 {
				return false
			}
			p.SM = p.SM[:k]
			return true
		})
	}
	// Parts of operations.
	visit := func(f func(op *wl.OpPlan) bool) {
		for i := range m.best.Plan.Tasks {
			for j := range m.best.Plan.Tasks[i] {
				do(func(p *wl.Plan) bool { return f(&p.Tasks[i][j]) })
			}
		}
		for i := range m.best.Plan.Nested {
			do(func(p *wl.Plan) bool { return f(&p.Nested[i]) })
		}
	}
	visit(func(op *wl.OpPlan) bool { ok := len(op.Faults) > 0; op.Faults = nil; return ok })
	for k := 0; k < 8; k++ {
		visit(func(op *wl.OpPlan) bool {
			if len(op.Faults) <= k || len(op.Faults) < 2 {
				return false
			}
			op.Faults = append(op.Faults[:k:k], op.Faults[k+1:]...)
			return true
		})
	}
	for i := range m.best.Plan.Nested {
		do(func(p *wl.Plan) bool {
			if p.Nested[i].Kind == "" {
				return false
			}
			p.Nested[i] = wl.OpPlan{ID: p.Nested[i].ID}
			return true
		})
	}
	visit(func(op *wl.OpPlan) bool {
		ok := op.Dst != nil && !op.Dst.Nil
		op.Dst = &wl.DstSpec{Nil: true}
		return ok
	})
	for _, n := range []int{0, 2, 8, 20, 40, 80, 150, 300, 600} {
		visit(func(op *wl.OpPlan) bool { ok := op.Rep > n; op.Rep = n; return ok })
	}
	visit(func(op *wl.OpPlan) bool { ok := op.Ctx != nil; op.Ctx = nil; return ok })
	visit(func(op *wl.OpPlan) bool { ok := op.Scribble; op.Scribble = false; return ok })
	visit(func(op *wl.OpPlan) bool { ok := op.Private; op.Private = false; return ok })
	visit(func(op *wl.OpPlan) bool { ok := op.OwnOpts; op.OwnOpts = false; return ok })
	visit(func(op *wl.OpPlan) bool {
		switch op.Kind {
		case "a":
			op.Kind, op.Dst = "m", nil
		case "ao":
			op.Kind, op.Dst = "mo", nil
		default:
			return false
		}
		return true
	})
	visit(func(op *wl.OpPlan) bool {
		if op.Kind != "mo" || op.Ctx != nil {
			return false
		}
		op.Kind, op.Opts = "m", -1
		return true
	})
	visit(func(op *wl.OpPlan) bool { ok := op.Home != 0; op.Home = 0; return ok })
	do(func(p *wl.Plan) bool { ok := p.Reuse; p.Reuse = false; return ok })
	for i := range m.best.Plan.Opts {
		for k := 0; k < 20; k++ {
			do(func(p *wl.Plan) bool { return p.Opts[i].Drop(k) })
		}
	}
	for i := range m.best.Plan.Values {
		do(func(p *wl.Plan) bool { ok := p.Values[i].Type.Wrap != 0; p.Values[i].Type.Wrap = 0; return ok })
		do(func(p *wl.Plan) bool { ok := p.Values[i].Bad; p.Values[i].Bad = false; return ok })
		do(func(p *wl.Plan) bool { ok := p.Values[i].Edge; p.Values[i].Edge = false; return ok })
		do(func(p *wl.Plan) bool { ok := p.Values[i].Ptr; p.Values[i].Ptr = false; return ok })
		do(func(p *wl.Plan) bool { ok := p.Values[i].Deep != 0; p.Values[i].Deep = 0; return ok })
		do(func(p *wl.Plan) bool { ok := p.Values[i].Wide != 0; p.Values[i].Wide = 0; return ok })
		for _, d := range []int{15, 40, 100, 400} {
			do(func(p *wl.Plan) bool { ok := p.Values[i].Deep > d; p.Values[i].Deep = d; return ok })
			do(func(p *wl.Plan) bool { ok := p.Values[i].Wide > d; p.Values[i].Wide = d; return ok })
		}
		if p := m.best.Plan; len(p.Values[i].Tweaks) > 0 {
			home := false
			for _, t := range p.Tasks {
				for j := range t {
					home = home || t[j].Val == i && t[j].Home != 0
				}
			}
			if !home {
				do(func(p *wl.Plan) bool { p.Values[i].Tweaks = nil; return true })
			}
		}
		for _, s := range []int{1, 2, 3, 5, 8, 14, 25, 50} {
			do(func(p *wl.Plan) bool { ok := p.Values[i].Size > s; p.Values[i].Size = s; return ok })
		}
	}
	// Values that are not used.
	do(func(p *wl.Plan) bool {
		used := make([]int, len(p.Values))
		mark := func(ops []wl.OpPlan) {
			for j := range ops {
				if ops[j].Kind != "" && ops[j].Val < len(used) {
					used[ops[j].Val] = 1
				}
			}
		}
		for i := range p.Tasks {
			mark(p.Tasks[i])
		}
		mark(p.Nested)
		for _, s := range p.SM {
			used[s.Val] = 1
		}
		n := 0
		var vals []wl.ValSpec
		for i := range used {
			if used[i] == 1 {
				vals = append(vals, p.Values[i])
				used[i] = n
				n++
			}
		}
		if n == len(p.Values) || n == 0 {
			return false
		}
		ren := func(ops []wl.OpPlan) {
			for j := range ops {
				if ops[j].Val < len(used) {
					ops[j].Val = used[ops[j].Val]
				}
			}
		}
		for i := range p.Tasks {
			ren(p.Tasks[i])
		}
		ren(p.Nested)
		for i := range p.SM {
			p.SM[i].Val = used[p.SM[i].Val]
		}
		p.Values = vals
		return true
	})
	if !m.best.Plan.Replay {
		for _, f := range []func(c *rt.Config) *int64{
			func(c *rt.Config) *int64 { return &c.SwitchMean }, func(c *rt.Config) *int64 { return &c.GCMean },
			func(c *rt.Config) *int64 { return &c.GrowMean }, func(c *rt.Config) *int64 { return &c.FlushMean }} {
			do(func(p *wl.Plan) bool { x := f(&p.Cfg); ok := *x != 0; *x = 0; return ok })
		}
		for _, f := range []func(c *rt.Config) *int{
			func(c *rt.Config) *int { return &c.HotFrac }, func(c *rt.Config) *int { return &c.SyncProb }, func(c *rt.Config) *int { return &c.UserProb },
			func(c *rt.Config) *int { return &c.PoolMiss }, func(c *rt.Config) *int { return &c.PoolSteal }, func(c *rt.Config) *int { return &c.PoolDrop },
			func(c *rt.Config) *int { return &c.MapPerm }, func(c *rt.Config) *int { return &c.SMapPerm }, func(c *rt.Config) *int { return &c.SMapView }} {
			do(func(p *wl.Plan) bool { x := f(&p.Cfg); ok := *x != 0; *x = 0; return ok })
		}
		do(func(p *wl.Plan) bool { ok := p.Cfg.PCT; p.Cfg.PCT = false; return ok })
	}
	ch = m.recs() || ch
	return ch
}

// recs removes recorded deviations (ddmin).
func (m *minimizer) recs() bool {
	if !m.best.Plan.Replay || len(m.best.Plan.Recs) == 0 {
		return false
	}
	ch := m.edit(func(p *wl.Plan) bool { p.Recs = []rt.Rec{}; return true })
	for chunk := (len(m.best.Plan.Recs) + 1) / 2; chunk >= 1 && !m.over(); {
		any := false
		for i := 0; i < len(m.best.Plan.Recs) && !m.over(); {
			j := i + chunk
			if j > len(m.best.Plan.Recs) {
				j = len(m.best.Plan.Recs)
			}
			if m.edit(func(p *wl.Plan) bool {
				p.Recs = append(p.Recs[:i:i], p.Recs[j:]...)
				return true
			}) {
				ch, any = true, true
			} else {
				i = j
			}
		}
		if chunk == 1 {
			if !any {
				break
			}
			continue
		}
		chunk = (chunk + 1) / 2
		if chunk == 1 && !any && len(m.best.Plan.Recs) <= 1 {
			break
		}
	}
	return ch
}
