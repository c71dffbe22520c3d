package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/rt"
	"github.com/wI2L/jettison/zzsim/simsync"
)

// OptSpec is a set of options.
type OptSpec struct {
	Unix, Unsorted, RawBytes, ByteArr, NilMap, NilSlice, NoEsc, NoHTML, NoUTF8, NoCompact, NoNumVal bool   `json:",omitempty"`
	Layout                                                                                          string `json:",omitempty"`
	Dur                                                                                             int    `json:",omitempty"` // format + 1
	Allow, Deny                                                                                     []string
	Invalid                                                                                         int  `json:",omitempty"` // 1 layout, 2 duration format, 3 context
	NilOpt                                                                                          bool `json:",omitempty"`
	// Settings given earlier in the same call and replaced by those above.
	Layout0       string `json:",omitempty"`
	Dur0          int    `json:",omitempty"`
	Allow0, Deny0 []string
	Twice         bool `json:",omitempty"` // every option is given twice
	Clobber       bool `json:",omitempty"` // the caller reuses the slices it gave to AllowList and DenyList
}

func (o *OptSpec) layout() string {
	if o.Layout == "" {
		return time.RFC3339Nano
	}
	return o.Layout
}

func (o *OptSpec) durFmt() jettison.DurationFmt {
	if o.Dur == 0 {
		return jettison.DurationNanoseconds
	}
	return jettison.DurationFmt(o.Dur - 1)
}

// build makes the options; option values in shared are used again.
func (o *OptSpec) build(shared map[string]jettison.Option) []jettison.Option {
	var l []jettison.Option
	get := func(k string, f func() jettison.Option) {
		if shared == nil {
			l = append(l, f())
			return
		}
		x, ok := shared[k]
		if !ok {
			x = f()
			shared[k] = x
		}
		l = append(l, x)
	}
	add := func(b bool, k string, f func() jettison.Option) {
		if b {
			get(k, f)
		}
	}
	add(o.Unix, "unix", jettison.UnixTime)
	add(o.Unsorted, "unsorted", jettison.UnsortedMap)
	add(o.RawBytes, "rawbytes", jettison.RawByteSlice)
	add(o.ByteArr, "bytearr", jettison.ByteArrayAsString)
	if o.NilOpt {
		l = append(l, nil)
	}
	add(o.NilMap, "nilmap", jettison.NilMapEmpty)
	add(o.NilSlice, "nilslice", jettison.NilSliceEmpty)
	add(o.NoEsc, "noesc", jettison.NoStringEscaping)
	add(o.NoHTML, "nohtml", jettison.NoHTMLEscaping)
	add(o.NoUTF8, "noutf8", jettison.NoUTF8Coercion)
	add(o.NoCompact, "nocompact", jettison.NoCompact)
	add(o.NoNumVal, "nonumval", jettison.NoNumberValidation)
	list := func(names []string, f func([]string) jettison.Option) func() jettison.Option {
		return func() jettison.Option {
			if names != nil && o.Clobber {
				names = append(make([]string, 0, len(names)+2), names...)
				defer func() {
					for i := range names {
						names[i] = "reused"
					}
				}()
			}
			return f(names)
		}
	}
	if o.Layout0 != "" {
		get("layout "+o.Layout0, func() jettison.Option { return jettison.TimeLayout(o.Layout0) })
	}
	if o.Dur0 != 0 {
		get(fmt.Sprint("dur ", o.Dur0), func() jettison.Option { return jettison.DurationFormat(jettison.DurationFmt(o.Dur0 - 1)) })
	}
	if o.Allow0 != nil {
		get(fmt.Sprintf("allow %q", o.Allow0), list(o.Allow0, jettison.AllowList))
	}
	if o.Deny0 != nil {
		get(fmt.Sprintf("deny %q", o.Deny0), list(o.Deny0, jettison.DenyList))
	}
	if o.Layout != "" {
		get("layout "+o.Layout, func() jettison.Option { return jettison.TimeLayout(o.Layout) })
	}
	if o.Dur != 0 {
		get(fmt.Sprint("dur ", o.Dur), func() jettison.Option { return jettison.DurationFormat(jettison.DurationFmt(o.Dur - 1)) })
	}
	if o.Allow != nil {
		get(fmt.Sprintf("allow %q", o.Allow), list(o.Allow, jettison.AllowList))
	}
	if o.Deny != nil {
		get(fmt.Sprintf("deny %q", o.Deny), list(o.Deny, jettison.DenyList))
	}
	if o.Twice {
		l = append(l, l...)
	}
	switch o.Invalid {
	case 1:
		l = append(l, jettison.TimeLayout(""))
	case 2:
		l = append(l, jettison.DurationFormat(99))
	case 3:
		l = append(l, jettison.WithContext(context.Context(nil)))
	}
	return l
}

// invalid tells whether a call with these options has to be refused. A context
// given after an invalid one replaces it.
func (o *OptSpec) invalid(ctx bool) bool {
	return o.Invalid == 1 || o.Invalid == 2 || o.Invalid == 3 && !ctx
}

// CtxSpec describes the context of one call.
type CtxSpec struct {
	Tok      int32
	Deadline int64 `json:",omitempty"`
	Canceled bool  `json:",omitempty"`
}

// DstSpec describes the destination of an Append call: a window of an array.
type DstSpec struct {
	Pre, Len, Cap, Post int
	Nil                 bool `json:",omitempty"`
}

// OpPlan is one operation of a task.
type OpPlan struct {
	ID       int32
	Kind     string   // m, mo, a, ao: the four calls; sm: modify a sync.Map; sleep; flush; gc
	Val      int      `json:",omitempty"`
	Private  bool     `json:",omitempty"` // encode a private copy nobody else refers to
	Opts     int      `json:",omitempty"`
	OwnOpts  bool     `json:",omitempty"` // build the option values for this call only
	Ctx      *CtxSpec `json:",omitempty"`
	Dst      *DstSpec `json:",omitempty"`
	Faults   []Fault  `json:",omitempty"`
	Scribble bool     `json:",omitempty"` // overwrite the result after the call
	Arg      int64    `json:",omitempty"`
	Rep      int      `json:",omitempty"` // execute the call so many times more
	Home     int      `json:",omitempty"` // >0: the private copy is made in memory recycled from earlier calls
}

func (op *OpPlan) isCall() bool {
	switch op.Kind {
	case "m", "mo", "a", "ao":
		return true
	}
	return false
}

func (op *OpPlan) fault(id int32) *Fault {
	for i := range op.Faults {
		if op.Faults[i].ID == id {
			return &op.Faults[i]
		}
	}
	return nil
}

func (op *OpPlan) hasFault(pred func(string) bool) bool {
	for i := range op.Faults {
		if pred(op.Faults[i].Kind) {
			return true
		}
	}
	return false
}

// SMOp is a modification of a sync.Map.
type SMOp struct {
	Val  int // value that contains the map
	Map  int // which one
	Kind string
	Key  int // index of the key: existing ones first, then new ones
	Seed uint64
}

// Plan is a complete scenario.
type Plan struct {
	Prop   string
	Seed   uint64
	Values []ValSpec
	Opts   []OptSpec
	Tasks  [][]OpPlan
	Nested []OpPlan `json:",omitempty"`
	SM     []SMOp   `json:",omitempty"`
	Cfg    rt.Config
	Replay bool     `json:",omitempty"`
	Recs   []rt.Rec `json:",omitempty"`
	Warm   bool     `json:",omitempty"` // encode everything once before (race mode)
	Reuse  bool     `json:",omitempty"` // methods recycle the slices they returned in earlier calls
	Salt   uint64   // varies the outputs of methods
	OptBuf int      `json:",omitempty"` // >0: callers keep one slice for their options; >1: and clear it after the call
}

// ---- generation

type pgen struct {
	r     *rng
	p     *Plan
	prop  string
	theme []int
	big   bool
	built []*builtVal
	ops   int32
	tok   int32
	pal   uint64

	layout string // of times, in most options
}

func (g *pgen) pick(l ...int) int { return l[g.r.n(len(l))] }

func idxRange(lo, n int, r *rng) int { return lo + r.n(n) }

func (g *pgen) base() int {
	r := g.r
	np, nr, nm := len(plainBases), len(recBases), len(miscBases)
	w := r.n(100)
	type wt struct{ plain, rec, misc, fam int }
	x := wt{15, 20, 20, 10}
	switch g.prop {
	case "C01", "C06", "C10":
		x = wt{10, 45, 15, 12}
	case "C07":
		x = wt{15, 20, 15, 5}
	case "C04", "C05", "C13", "C14":
		x = wt{3, 15, 25, 15}
	case "C11":
		x = wt{12, 18, 25, 12}
	}
	switch {
	case w < x.plain:
		return idxRange(0, np, r)
	case w < x.plain+x.rec:
		return idxRange(np, nr, r)
	case w < x.plain+x.rec+x.misc:
		return idxRange(np+nr, nm, r)
	case w < x.plain+x.rec+x.misc+x.fam:
		return idxRange(famBase, cbBase0-famBase, r)
	}
	return idxRange(cbBase0, len(infos), r)
}

var layouts = []string{time.RFC3339, time.Kitchen, "2006-01-02", time.RFC1123Z, time.StampMicro, time.RFC822, time.RFC1123, time.UnixDate}

var scalars = []reflect.Type{rt0[time.Time](), rt0[Times](), rt0[time.Time](), rt0[time.Duration](), rt0[float32](), rt0[float64](), rt0[MyF32](), rt0[json.Number](), rt0[json.RawMessage](), rt0[int](), rt0[int8](), rt0[uint64](), rt0[string](), rt0[MyStr](), rt0[[]byte](), rt0[any]()}

var knots = []reflect.Type{rt0[Knot[int]](), rt0[Knot[string]](), rt0[Knot[Plain]](), rt0[Knot[CbStruct_Jp]](), rt0[Knot[CbStruct_Av]](), rt0[Knot[CbStr_Tp]](), rt0[Knot[CbZero_Ap]](), rt0[Knot[[]byte]]()}

func (g *pgen) opt() OptSpec {
	r := g.r
	var o OptSpec
	if r.p(15) {
		return o
	}
	dense := r.p(20)
	b := func() bool {
		if dense {
			return r.p(50)
		}
		return r.p(14)
	}
	o.Unix, o.Unsorted, o.RawBytes, o.ByteArr, o.NilMap, o.NilSlice = b(), b(), b(), b(), b(), b()
	o.NoEsc, o.NoHTML, o.NoUTF8, o.NoCompact, o.NoNumVal = b() && r.p(50), b(), b(), b() && r.p(50), b()
	if b() {
		o.Layout = layouts[r.n(len(layouts))]
	}
	if g.layout != "" && r.p(60) {
		o.Layout = g.layout
	}
	if b() || b() {
		o.Dur = 1 + r.n(6)
	}
	lists := 8
	if g.prop == "C09" {
		lists = 15
	}
	if r.p(lists + 2) {
		o.Deny = g.names()
	}
	if r.p(lists) {
		o.Allow = g.names()
	}
	o.NilOpt = r.p(8)
	o.Twice = r.p(5)
	o.Clobber = r.p(30)
	if g.prop == "C13" {
		o = OptSpec{Unsorted: o.Unsorted}
	}
	return o
}

// names picks field names that occur in the values.
func (g *pgen) names() []string {
	var all []string
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type, d int)
	walk = func(t reflect.Type, d int) {
		if seen[t] || d > 5 {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			walk(t.Elem(), d+1)
		case reflect.Struct:
			for _, f := range fieldsOf(t) {
				if len(all) < 200 {
					all = append(all, f.name)
				}
				walk(f.t, d+1)
			}
		}
	}
	for i := range g.p.Values {
		walk(g.p.Values[i].Type.Type(), 0)
	}
	out := []string{}
	for _, n := range all {
		if g.r.p(40) {
			out = append(out, n)
		}
	}
	if g.r.p(10) {
		out = append(out, "nobody", "")
	}
	if g.r.p(15) && len(out) > 0 {
		out = append(out, out[g.r.n(len(out))])
	}
	if g.r.p(75) {
		for i := range out {
			j := g.r.n(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (g *pgen) value() ValSpec {
	r := g.r
	v := ValSpec{Seed: r.next() >> 12, Theme: g.theme, Ptr: r.p(50), Pal: g.pal}
	v.Type.Base = g.theme[r.n(len(g.theme))]
	if r.p(10) {
		v.Type.Base = g.base()
	}
	if r.p(70) {
		v.Type.Wrap = r.n(nWraps)
	}
	v.Size = g.pick(3, 10, 20, 40, 40, 80)
	if g.big && r.p(25) {
		v.Size = g.pick(150, 300, 600)
	}
	if r.n(1000) < 12 {
		switch r.n(3) {
		case 0:
			v.Deep = g.pick(60, 150, 400, 1100, 2500)
			v.Size = v.Deep + v.Deep/2
		case 1:
			v.Deep = g.pick(40, 100)
			v.Size = 3 * v.Deep
		default:
			v.Wide = g.pick(300, 700, 1030, 2100, 4200)
			v.Size = 2*v.Wide + 20
		}
	}
	giant := r.n(1000) < 3
	if giant {
		// Output of more than a hundred kilobytes, or a megabyte.
		v.Type.Base = bi([]reflect.Type{rt0[[]byte](), rt0[Bytes](), rt0[string](), rt0[[]string](), rt0[[]byte](), rt0[map[string]string]()}[r.n(6)])
		v.Big = g.pick(98300, 131073, 200000, 270000, 530000, 786440, 1<<20-3, 1<<20+1)
		if t := v.Type.Base; t != bi(rt0[[]byte]()) && t != bi(rt0[Bytes]()) {
			v.Big = g.pick(98300, 131073, 200000, 262140)
		}
		v.Deep, v.Wide, v.Size = 0, 0, 10
		if r.n(8) == 0 {
			// Or more elements than two bytes can count.
			v.Type.Wrap = 0
			v.Type.Base = bi([]reflect.Type{rt0[[]int8](), rt0[[]bool](), rt0[[]MyBool]()}[r.n(3)])
			v.Wide, v.Size, v.Big = g.pick(32767, 65535, 65536, 66000), 20, 0
		}
	}
	switch g.prop {
	case "C02", "C04", "C09", "C14", "C12":
		v.Bad = r.p(12)
	case "C13":
		v.Bad = r.p(35)
	case "C01", "C03", "C05":
		v.Bad = r.p(4)
	}
	v.Edge = r.p(map[bool]int{true: 25, false: 8}[g.prop == "C11"])
	v.Share = g.prop != "C08" && r.p(25) && !giant
	for _, k := range knots {
		if g.prop != "C08" && bases[v.Type.Base] == k {
			v.Share = r.p(85)
		}
	}
	if v.Type.Type() == tSyncMap {
		v.Ptr = true
	}
	if v.Type.Type().Kind() == reflect.Interface {
		v.Ptr = true
	}
	return v
}

func (g *pgen) dst() *DstSpec {
	r := g.r
	if r.p(15) {
		return &DstSpec{Nil: true}
	}
	d := &DstSpec{Pre: r.n(20), Post: 8 + r.n(40)}
	d.Len = g.pick(0, 0, 1, 5, 16, 100, 1000, 4096)
	if r.p(3) {
		d.Len = g.pick(4095, 4097, 8192, 33000, 65535, 65536, 70000)
	}
	d.Cap = d.Len
	switch r.n(4) {
	case 0:
	case 1:
		d.Cap += r.n(16)
	case 2:
		d.Cap += r.n(300)
	default:
		d.Cap += r.n(6000)
		if r.p(4) {
			d.Cap += g.pick(8192, 33000, 70000)
		}
	}
	return d
}

func (g *pgen) call(nested bool) OpPlan {
	r := g.r
	op := OpPlan{ID: g.ops, Val: r.n(len(g.p.Values)), Opts: -1}
	g.ops++
	op.Kind = []string{"m", "m", "mo", "mo", "a", "ao"}[r.n(6)]
	switch g.prop {
	case "C12":
		op.Kind = []string{"a", "ao", "a", "ao", "m"}[r.n(5)]
	case "C09":
		op.Kind = []string{"mo", "mo", "ao", "m"}[r.n(4)]
	case "C13":
		op.Kind = []string{"m", "m", "a", "mo"}[r.n(4)]
	}
	if op.Kind == "mo" || op.Kind == "ao" {
		op.Opts = r.n(len(g.p.Opts))
		op.OwnOpts = r.p(30)
		if r.p(35) || g.prop == "C09" && r.p(70) {
			g.tok++
			op.Ctx = &CtxSpec{Tok: g.tok}
			if g.prop == "C09" && r.p(30) {
				op.Ctx.Deadline = int64(1 + r.n(20000))
			}
			if g.prop != "C06" && g.prop != "C10" && r.p(8) {
				op.Ctx.Canceled = true
			}
		}
	}
	if op.Kind[0] == 'a' {
		op.Dst = g.dst()
	}
	if r.p(30) || g.prop == "C11" && r.p(60) {
		op.Private = true
	}
	op.Scribble = r.p(30) || g.prop == "C03" && r.p(30)
	g.faults(&op, nested)
	return op
}

// targets lists the receivers a call invokes methods on.
func (g *pgen) targets(op *OpPlan) []Call {
	b := g.built[op.Val]
	var o *OptSpec
	if op.Opts >= 0 {
		o = &g.p.Opts[op.Opts]
		if o.invalid(op.Ctx != nil) {
			return nil
		}
	}
	return modelOf(b.v, o, nil, nil, nil, nil).calls(nil)
}

func (g *pgen) faults(op *OpPlan, nested bool) {
	r := g.r
	n := 0
	var kinds []string
	benign := []string{FSleep, FGrow, FReenter, FReenter, FFlush}
	switch g.prop {
	case "C01":
		kinds = append(benign, FErr, FReenter)
		n = g.pick(0, 0, 1, 2, 3)
	case "C02":
		kinds = []string{FErr, FPanic, FExit, FDirtyErr, FDirtyPan, FReenter, FTear, FGarbage, FMutate, FErr}
		n = g.pick(0, 0, 1, 1, 2)
	case "C03":
		kinds = append(benign, FErr, FDirtyErr, FPanic, FSleep, FSleep)
		n = g.pick(0, 1, 2)
	case "C04":
		kinds = []string{FErr, FErr, FErr, FDirtyErr, FSleep, FReenter}
		n = g.pick(0, 1, 1, 2)
	case "C05":
		kinds = []string{FPanic, FPanic, FDirtyPan, FExit, FSleep, FReenter}
		n = g.pick(0, 1, 1, 2)
	case "C06":
		kinds = []string{FHang, FHang, FSleep, FReenter, FErr, FPanic, FReenter, FExit}
		n = g.pick(0, 1, 1, 2)
	case "C07":
		kinds = []string{FReenter, FReenter, FReenter, FErr, FSleep, FFlush, FPanic}
		n = g.pick(0, 1, 2, 3)
	case "C08":
		kinds = []string{FSMap, FSMap, FSMap, FSleep, FReenter}
		n = g.pick(0, 1, 2, 4)
	case "C09":
		kinds = []string{FCancel, FCancel, FSleep, FReenter, FSleep}
		n = g.pick(0, 1, 1, 2, 3)
	case "C10":
		kinds = []string{FReenter, FSleep, FErr, FPanic, FReenter}
		n = g.pick(0, 0, 1)
	case "C11":
		kinds = []string{FGC, FGC, FGrow, FFlush, FReenter, FGrow}
		n = g.pick(1, 2, 3, 5)
		if len(g.p.SM) > 0 {
			kinds = append(kinds, FSMap, FSMap, FSMap)
		}
	case "C12":
		kinds = []string{FErr, FDirtyErr, FPanic, FDirtyPan, FExit, FReenter, FTear}
		n = g.pick(0, 0, 0, 1)
	case "C13":
		kinds = []string{FTear, FTear, FFlip, FFlip, FEmpty, FNull, FPad, FPad, FMutate, FMutate, FMutate, FGarbage, FGarbage, FGarbage, FGarbage}
		n = g.pick(0, 1, 1, 2, 3)
	case "C14":
		kinds = []string{FErr, FPanic, FExit, FDirtyErr, FReenter, FNull, FEmpty, FGarbage, FTear, FMutate}
		n = g.pick(0, 0, 0, 1, 1, 2)
	}
	if n == 0 {
		return
	}
	t := g.targets(op)
	if len(t) == 0 {
		return
	}
	for i := 0; i < n; i++ {
		k := kinds[r.n(len(kinds))]
		c := t[r.n(len(t))]
		if r.p(25) {
			c = t[len(t)-1]
		}
		if op.fault(c.ID) != nil {
			continue
		}
		f := Fault{ID: c.ID, Kind: k, Arg: int64(r.n(1 << 20))}
		switch k {
		case FSleep:
			f.Arg = int64(g.pick(1, 50, 500, 5000, 50000))
		case FExit:
			if nested {
				continue
			}
		case FHang:
			if nested || len(g.p.Tasks) == 0 && false {
				continue
			}
		case FReenter:
			if nested || len(g.p.Nested) >= 12 {
				continue
			}
			ni := len(g.p.Nested)
			g.p.Nested = append(g.p.Nested, OpPlan{})
			g.p.Nested[ni] = g.call(true)
			f.Arg = int64(ni)
		case FSMap:
			if len(g.p.SM) == 0 {
				continue
			}
			f.Arg = int64(r.n(len(g.p.SM)))
		}
		op.Faults = append(op.Faults, f)
	}
}

// GenPlan generates the scenario of a seed.
func GenPlan(prop string, seed uint64) *Plan {
	edgeReset()
	r := newRng(seed, uint64(prop[1])<<8|uint64(prop[2]), 3)
	p := &Plan{Prop: prop, Seed: seed, Salt: newRng(seed, 5).next() >> 20}
	outSalt = p.Salt
	g := &pgen{r: r, p: p, prop: prop}
	g.big = r.p(25)
	if r.p(80) {
		g.pal = r.next()>>12 | 1
	}
	for n := 1 + r.n(3); n > 0; n-- {
		g.theme = append(g.theme, g.base())
	}
	if r.p(map[string]int{"C01": 6, "C02": 12, "C06": 6}[prop] + 2) {
		// Types that share their names.
		g.theme = g.theme[:1+r.n(len(g.theme))]
		k := r.n(len(namesakes[0]))
		for n := 2 + r.n(4); n > 0; n-- {
			g.theme = append(g.theme, nsBase+r.n(len(namesakes))*len(namesakes[0])+k)
		}
	}
	if pct, ok := map[string]int{"C01": 6, "C02": 10, "C09": 5}[prop]; r.p(2) || ok && r.p(pct) {
		// Little else than scalars.
		g.theme = nil
		for n := 1 + r.n(2); n > 0; n-- {
			g.theme = append(g.theme, bi(scalars[r.n(len(scalars))]))
		}
		g.layout = layouts[r.n(len(layouts))]
	}
	if r.p(map[string]int{"C11": 8, "C14": 4, "C03": 4, "C02": 4}[prop] + 2) {
		g.theme = []int{bi(knots[r.n(len(knots))])}
	}
	if r.p(map[string]int{"C06": 5, "C01": 3, "C02": 3}[prop] + 1) {
		g.theme = append(g.theme[:1], bi(dagBases[r.n(len(dagBases))]))
	}
	if r.p(map[string]int{"C01": 2, "C09": 5, "C14": 3, "C12": 2}[prop] + 1) {
		g.theme = append(g.theme[:r.n(2)], bi(largeBases[r.n(len(largeBases))]))
	}
	nv := 1 + r.n(5)
	switch prop {
	case "C02":
		nv = 2 + r.n(6)
	case "C08":
		nv = 1 + r.n(2)
	}
	smPlan := prop == "C11" && r.p(12)
	for i := 0; i < nv; i++ {
		v := g.value()
		if smPlan && (i == 0 || r.p(50)) {
			g.smValue(&v)
		}
		switch prop {
		case "C07":
			if r.p(75) {
				g.mapValue(&v)
			}
		case "C08":
			if i == 0 || r.p(70) {
				g.smValue(&v)
			}
		case "C09":
			if r.p(35) {
				v.Type.Base = g.pick(bi(rt0[Times]()), bi(rt0[DelegC]()), bi(rt0[DelegA]()), bi(rt0[Bytes]()), bi(rt0[Node]()), bi(rt0[RecA]()), bi(rt0[CbStruct_Cp]()), bi(rt0[CbInt_Cv]()), bi(rt0[Names]()))
			}
		}
		p.Values = append(p.Values, v)
	}
	for i := range p.Values {
		v := &p.Values[i]
		b := buildVal(v)
		if (v.Deep > 0 || v.Wide > 0 && v.Wide < 30000) && modelOf(b.v, nil, nil, nil, nil, nil).weight() > 12000 {
			// Too much work for a simulated run.
			v.Deep, v.Wide, v.Size = 0, 0, 40
			b = buildVal(v)
		}
		g.built = append(g.built, b)
	}
	no := 1 + r.n(4)
	for i := 0; i < no; i++ {
		o := g.opt()
		if prop == "C07" || prop == "C08" {
			o.Unsorted = r.p(25)
		}
		if prop == "C09" && r.p(6) {
			o.Invalid = 1 + r.n(3)
		}
		if i > 0 && prop != "C13" {
			// Lists that are used in several combinations.
			x := &p.Opts[r.n(i)]
			if x.Allow != nil && r.p(40) {
				o.Allow = x.Allow
			}
			if x.Deny != nil && r.p(40) {
				o.Deny = x.Deny
			}
			// Settings that are replaced by later ones of the same call,
			// and that other calls are governed by.
			if o.Allow != nil && x.Allow != nil && r.p(60) {
				o.Allow0 = x.Allow
			}
			if o.Deny != nil && x.Deny != nil && r.p(60) {
				o.Deny0 = x.Deny
			}
			if o.Layout != "" && x.Layout != "" && r.p(30) {
				o.Layout0 = x.Layout
			}
			if o.Dur != 0 && x.Dur != 0 && r.p(30) {
				o.Dur0 = x.Dur
			}
		}
		p.Opts = append(p.Opts, o)
	}
	if prop == "C08" || smPlan {
		g.smOps()
	}
	nt := g.pick(1, 2, 2, 3, 3, 4, 5, 6)
	ops := func() int { return 1 + r.n(4) }
	switch prop {
	case "C02":
		nt = g.pick(1, 1, 1, 1, 2)
		ops = func() int { return 5 + r.n(16) }
	case "C07", "C12", "C13", "C14":
		nt = g.pick(1, 1, 2, 2, 3)
	case "C11":
		nt = g.pick(1, 1, 2, 3)
	case "C08", "C06", "C10":
		nt = g.pick(2, 2, 3, 4, 5, 6)
	case "C01":
		nt = g.pick(2, 2, 3, 3, 4, 6, 8)
	}
	if prop == "C08" && r.p(25) {
		nt = 1
	}
	if smPlan {
		if nt < 2 {
			nt = 2
		}
	}
	for i := 0; i < nt; i++ {
		var t []OpPlan
		for n := ops(); n > 0; n-- {
			switch {
			case len(p.SM) > 0 && i > 0 && r.p(75):
				t = append(t, OpPlan{ID: g.ops, Kind: "sm", Arg: int64(r.n(len(p.SM)))})
				g.ops++
				if smPlan && r.p(50) {
					t = append(t, OpPlan{ID: g.ops, Kind: "gc"})
					g.ops++
				}
			case r.p(5):
				t = append(t, OpPlan{ID: g.ops, Kind: "sleep", Arg: int64(g.pick(1, 100, 3000))})
				g.ops++
			case r.p(3):
				t = append(t, OpPlan{ID: g.ops, Kind: []string{"flush", "gc"}[r.n(2)]})
				g.ops++
			default:
				t = append(t, g.call(false))
			}
		}
		p.Tasks = append(p.Tasks, t)
	}
	if prop == "C01" || prop == "C06" || prop == "C10" {
		// The first operations meet: same value, all cold.
		if r.p(50) {
			first := OpPlan{}
			for i := range p.Tasks {
				for j := range p.Tasks[i] {
					op := &p.Tasks[i][j]
					if op.isCall() {
						if first.Kind == "" {
							first = *op
						} else if r.p(70) && op.Opts < 0 == (first.Opts < 0) {
							op.Val = first.Val
							op.Faults = nil
						}
						break
					}
				}
			}
		}
	}
	switch prop {
	case "C01", "C02", "C04", "C05", "C06", "C12":
		switch {
		case r.p(3):
			g.storm()
		case r.p(2):
			g.cycle()
		case (prop == "C06" || prop == "C01") && r.p(3):
			g.crowd()
		case prop == "C02" && r.p(3) || (prop == "C06" || prop == "C01") && r.p(2):
			g.manyTypes()
		}
	}
	if pct := map[string]int{"C01": 10, "C02": 15, "C03": 25, "C11": 12, "C13": 30, "C10": 0}; len(p.SM) == 0 {
		n, ok := pct[prop]
		if !ok {
			n = 6
		}
		if r.p(n) {
			g.recycle()
		}
		p.Reuse = r.p(5 + 2*n)
	}
	if r.p(map[bool]int{true: 40, false: 12}[prop == "C09"]) {
		p.OptBuf = 1 + r.n(2)
	}
	g.cfg()
	return p
}

// recycle has a caller encode a value, change it in place, encode it again
// and so on.
func (g *pgen) recycle() {
	r := g.r
	for h := 1 + r.n(2); h > 0; h-- {
		first := g.call(false)
		vs := g.p.Values[first.Val]
		vs.Share = false // changes could make cycles of it
		if g.prop == "C13" {
			vs.Bad = r.p(70)
		}
		first.Private, first.Home = true, h
		task := r.n(len(g.p.Tasks))
		var ops []OpPlan
		for n := 2 + r.n(4); n > 0; n-- {
			op := first
			if len(ops) > 0 {
				if r.p(30) {
					op = g.call(false)
				}
				vs.Tweaks = append(vs.Tweaks[:len(vs.Tweaks):len(vs.Tweaks)], r.next()>>12)
				op.ID = g.ops
				g.ops++
			}
			x := vs
			op.Private, op.Home, op.Val, op.Faults = true, h, len(g.p.Values), nil
			g.p.Values = append(g.p.Values, x)
			g.built = append(g.built, buildVal(&x))
			g.faults(&op, false)
			ops = append(ops, op)
		}
		// Between the other operations of the task.
		l := g.p.Tasks[task]
		var out []OpPlan
		for len(l) > 0 || len(ops) > 0 {
			if len(ops) == 0 || len(l) > 0 && r.p(40) {
				out, l = append(out, l[0]), l[1:]
			} else {
				out, ops = append(out, ops[0]), ops[1:]
			}
		}
		g.p.Tasks[task] = out
	}
}

// weight is a measure of how much work the encoding of the value is.
func (n *mnode) weight() int {
	w := 1 + len(n.b)/16
	for _, k := range n.kids {
		w += k.weight()
	}
	for _, e := range n.items {
		w += 4 + e.key.weight() + e.val.weight()
	}
	return w
}

// tiny picks a call that is cheap and invokes at least one method.
func (g *pgen) tiny() (OpPlan, []Call, bool) {
	for i := 0; i < 12; i++ {
		op := g.call(false)
		op.Faults, op.Ctx, op.Scribble = nil, nil, false
		if i < 6 {
			op.Kind = []string{"m", "mo", "a", "ao"}[g.r.n(4)]
			op.Opts = -1
			if len(op.Kind) > 1 {
				op.Opts = g.r.n(len(g.p.Opts))
			}
			op.Dst = nil
			if op.Kind[0] == 'a' {
				op.Dst = &DstSpec{Nil: true}
			}
		}
		if t := g.targets(&op); len(t) > 0 && len(t) <= 12 {
			if g.weightOf(&op) > 150 {
				continue
			}
			return op, t, true
		}
	}
	return OpPlan{}, nil, false
}

func (g *pgen) weightOf(op *OpPlan) int {
	var o *OptSpec
	if op.Opts >= 0 {
		o = &g.p.Opts[op.Opts]
	}
	return modelOf(g.built[op.Val].v, o, nil, nil, nil, nil).weight()
}

// storm repeats a call that fails, panics or succeeds many times: what leaks
// a little per call is used up, what counts calls overflows.
func (g *pgen) storm() {
	r := g.r
	for n := 1 + r.n(2); n > 0; n-- {
		op, t, ok := g.tiny()
		if !ok {
			return
		}
		op.Rep = g.pick(18, 40, 70, 140, 270, 530, 1100)
		kinds := []string{"", FErr, FPanic, FDirtyErr, FDirtyPan, FExit, FGarbage}
		switch g.prop {
		case "C04":
			kinds = []string{FErr, FErr, FDirtyErr, FGarbage}
		case "C05":
			kinds = []string{FPanic, FPanic, FDirtyPan, FExit}
		}
		k := kinds[r.n(len(kinds))]
		if k == FExit {
			op.Rep = g.pick(18, 40, 70, 140)
		}
		if k != "" {
			op.Faults = []Fault{{ID: t[r.n(len(t))].ID, Kind: k, Arg: int64(r.n(1 << 20))}}
		}
		if r.p(4) && k != FExit && g.weightOf(&op) <= 20 && len(t) <= 2 {
			op.Rep = g.pick(4200, 10100, 17000, 33000)
			n = 1
		}
		i := r.n(len(g.p.Tasks))
		l := g.p.Tasks[i]
		j := r.n(len(l) + 1)
		g.p.Tasks[i] = append(append(append([]OpPlan{}, l[:j]...), op), l[j:]...)
		// The same call without any fault comes last.
		last := op
		last.ID, last.Rep, last.Faults = g.ops, 0, nil
		g.ops++
		g.p.Tasks[i] = append(g.p.Tasks[i], last)
	}
}

// cycle repeats a short sequence of calls, a large one and some that fail,
// many times.
func (g *pgen) cycle() {
	r := g.r
	var seq []OpPlan
	if r.p(70) {
		v := ValSpec{Seed: r.next() >> 12, Theme: g.theme, Size: 5, Big: g.pick(1100, 5000, 17000, 33000, 70000)}
		v.Type.Base = bi([]reflect.Type{rt0[string](), rt0[[]string](), rt0[MyStr]()}[r.n(3)])
		v.Ptr = r.p(50)
		g.p.Values = append(g.p.Values, v)
		g.built = append(g.built, buildVal(&v))
		op := g.call(false)
		op.Kind, op.Val, op.Opts, op.Dst, op.Ctx, op.Faults = "m", len(g.p.Values)-1, -1, nil, nil, nil
		seq = append(seq, op)
	}
	for n := 1 + r.n(3); n > 0; n-- {
		op, t, ok := g.tiny()
		if !ok {
			return
		}
		k := []string{FErr, FPanic, FPanic, FDirtyErr, FDirtyPan, FGarbage, ""}[r.n(7)]
		if len(seq) <= 1 && (g.prop == "C04" || g.prop == "C05") {
			k = map[string]string{"C04": FErr, "C05": FPanic}[g.prop]
		}
		if k != "" {
			op.Faults = []Fault{{ID: t[r.n(len(t))].ID, Kind: k, Arg: int64(r.n(1 << 20))}}
		}
		seq = append(seq, op)
	}
	i := r.n(len(g.p.Tasks))
	for n := g.pick(5, 10, 20, 40, 70); n > 0; n-- {
		for _, op := range seq {
			op.ID = g.ops
			g.ops++
			g.p.Tasks[i] = append(g.p.Tasks[i], op)
		}
	}
}

// crowd has many callers stall in their methods at the same time.
func (g *pgen) crowd() {
	r := g.r
	op, t, ok := g.tiny()
	if !ok {
		return
	}
	for n := g.pick(10, 20, 40, 70, 140, 270); n > 0; n-- {
		x := op
		x.ID = g.ops
		g.ops++
		x.Faults = []Fault{{ID: t[r.n(len(t))].ID, Kind: FHang}}
		if r.p(10) {
			x.Faults[0].Kind = FSleep
			x.Faults[0].Arg = 100000
		}
		g.p.Tasks = append(g.p.Tasks, []OpPlan{x})
	}
}

// manyTypes encodes a large number of different types, then some again. In
// the plans for concurrent callers several of them do, and others are stalled
// in their methods meanwhile.
func (g *pgen) manyTypes() {
	r := g.r
	n := g.pick(30, 60, 120, 250, 600)
	var stalled []OpPlan
	if g.prop != "C02" {
		n = g.pick(30, 60, 90, 140, 300)
		for k := r.n(3); k > 0; k-- {
			if op, t, ok := g.tiny(); ok {
				op.Faults = []Fault{{ID: t[r.n(len(t))].ID, Kind: FHang}}
				stalled = append(stalled, op)
			}
		}
	}
	if len(stalled) == 0 {
		g.p.Values, g.built = nil, nil
	}
	first := len(g.p.Values)
	for i := 0; i < n; i++ {
		g.theme = []int{r.n(len(bases)), r.n(len(bases))}
		v := g.value()
		v.Size, v.Deep, v.Wide = g.pick(2, 3, 5), 0, 0
		g.p.Values = append(g.p.Values, v)
		g.built = append(g.built, buildVal(&v))
	}
	tasks := make([][]OpPlan, 1)
	if g.prop != "C02" {
		tasks = make([][]OpPlan, g.pick(1, 1, 2, 3))
	}
	for i := 0; i < n+n/4; i++ {
		op := g.call(false)
		if i < n {
			op.Val = first + i
		}
		op.Faults = nil
		if r.p(10) {
			g.faults(&op, true)
		}
		k := r.n(len(tasks))
		tasks[k] = append(tasks[k], op)
	}
	g.p.Nested = nil
	for _, op := range stalled {
		tasks = append(tasks, []OpPlan{op})
	}
	g.p.Tasks = tasks
}

func bi(t reflect.Type) int {
	for i, b := range bases {
		if b == t {
			return i
		}
	}
	return 0
}

func (g *pgen) cfg() {
	r := g.r
	c := &g.p.Cfg
	c.StepLimit = 12_000_000
	for i := range g.p.Values {
		if g.p.Values[i].Deep > 0 || g.p.Values[i].Wide > 0 {
			c.StepLimit = 60_000_000
		}
	}
	if len(g.p.Tasks) > 1 {
		c.SwitchMean = int64(g.pick(0, 4, 12, 40, 150, 600, 3000))
		if r.p(30) {
			c.HotFrac = g.pick(3, 15, 60, 200)
			c.HotProb = g.pick(100, 400, 1000)
		}
		c.SyncProb = g.pick(0, 50, 250, 700)
		c.UserProb = g.pick(0, 50, 250, 700)
		c.PCT = r.p(25)
	}
	c.Procs = g.pick(1, 2, 4, 8, 8, 16, 64)
	c.GCMax = int64(g.pick(10, 30, 80))
	c.PoolMiss = g.pick(0, 0, 30, 300, 1000)
	c.PoolSteal = g.pick(0, 0, 300, 900)
	c.PoolDrop = g.pick(0, 0, 100)
	c.MapPerm = g.pick(0, 400, 1000)
	c.SMapPerm = g.pick(0, 400, 1000)
	if g.prop == "C07" {
		c.MapPerm, c.SMapPerm = g.pick(700, 1000), g.pick(700, 1000)
		c.PoolMiss = g.pick(0, 0, 0, 100)
	}
	switch g.prop {
	case "C08":
		c.SMapView = g.pick(0, 400, 700)
		if c.SyncProb == 0 && r.p(70) {
			c.SyncProb = 300
		}
	case "C11":
		c.GCMean = int64(g.pick(60, 300, 1500, 6000))
		c.GrowMean = int64(g.pick(0, 60, 300, 1500))
		c.FlushMean = int64(g.pick(0, 300, 1500))
	case "C03", "C12":
		if r.p(30) {
			c.GCMean = int64(g.pick(2000, 8000))
			c.FlushMean = int64(g.pick(0, 500, 3000))
		}
	default:
		if r.p(10) {
			c.GCMean = 20000
			c.GrowMean = int64(g.pick(0, 500, 5000))
			c.FlushMean = int64(g.pick(0, 500, 5000))
		}
	}
}

// ---- maps

var mapBases []int

func init() {
	for _, t := range []reflect.Type{rt0[Node](), rt0[RecC](), rt0[RMap](), rt0[Graph[int]](), rt0[Graph[CbStruct_Av]](), rt0[Graph[CbMap_Jv]](), rt0[PS2](), rt0[*simsync.Map](), rt0[SMHolder](), rt0[*SMValue](), rt0[DelegJ](), rt0[DelegA](), rt0[any](), rt0[CbStruct_Jv](), rt0[CbStr_Tp]()} {
		mapBases = append(mapBases, bi(t))
	}
}

func (g *pgen) mapValue(v *ValSpec) {
	r := g.r
	v.Type.Base = mapBases[r.n(len(mapBases))]
	// find a wrapping with a map on top or just below
	for i := 0; i < 30; i++ {
		v.Type.Wrap = r.n(nWraps)
		t := v.Type.Type()
		for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
			t = t.Elem()
		}
		if t.Kind() == reflect.Map {
			break
		}
	}
	v.Size = g.pick(10, 30, 60, 120)
	v.Edge = r.p(map[bool]int{true: 25, false: 8}[g.prop == "C11"])
	if v.Type.Type() == tSyncMap {
		v.Ptr = true
	}
	if v.Type.Type().Kind() == reflect.Interface {
		v.Ptr = true
	}
}

// smValue makes the value a sync.Map with keys whose texts are distinct.
func (g *pgen) smValue(v *ValSpec) {
	r := g.r
	v.Type.Base = bi([]reflect.Type{rt0[*simsync.Map](), rt0[*simsync.Map](), rt0[SMHolder](), rt0[*SMValue]()}[r.n(4)])
	v.Type.Wrap = 0
	if r.p(25) {
		v.Type.Wrap = r.n(nWraps)
	}
	v.Ptr = r.p(50)
	v.Size = g.pick(8, 20, 40)
	v.Plain = true
	v.SMKeys = 1 + r.n(3)
	v.Deep, v.Wide, v.Share = 0, 0, false
}

func (g *pgen) smOps() {
	r := g.r
	n := 3 + r.n(12)
	for i := 0; i < n; i++ {
		v := r.n(len(g.p.Values))
		if g.p.Values[v].SMKeys == 0 || len(g.built[v].smaps) == 0 {
			continue
		}
		g.p.SM = append(g.p.SM, SMOp{Val: v, Map: r.n(len(g.built[v].smaps)), Kind: []string{"store", "store", "store", "delete", "swap", "los", "lad", "clear", "cas"}[r.n(9)], Key: r.n(14), Seed: r.next() >> 12})
		if r.p(85) && g.p.SM[len(g.p.SM)-1].Kind == "clear" {
			g.p.SM[len(g.p.SM)-1].Kind = "delete"
		}
	}
}
