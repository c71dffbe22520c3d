package wl

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/rt"
)

type Method uint8

const (
	MC Method = iota
	MA
	MJ
	MT
)

var methodNames = [4]string{"AppendJSONContext", "AppendJSON", "MarshalJSON", "MarshalText"}

// Fault kinds, applied when the method of the value with the given ID runs.
const (
	FErr      = "err"       // return an error (with Arg&1: along with bytes)
	FPanic    = "panic"     // panic
	FExit     = "exit"      // runtime.Goexit
	FSleep    = "sleep"     // stall for Arg simulated microseconds
	FHang     = "hang"      // stall until everybody else is done
	FGC       = "gc"        // collect garbage
	FGrow     = "grow"      // grow and move the stack
	FFlush    = "flush"     // evict everything from the pools
	FReenter  = "reenter"   // run nested operation Arg
	FCancel   = "cancel"    // cancel the own context
	FSMap     = "smap"      // apply sync.Map mutation Arg
	FTear     = "tear"      // truncate the output at Arg per mille
	FFlip     = "flip"      // flip a bit of the output
	FEmpty    = "empty"     // no output at all
	FNull     = "null"      // output null
	FPad      = "pad"       // pad the output with white space
	FGarbage  = "garbage"   // arbitrary bytes
	FMutate   = "mutate"    // change one place of the output
	FDirtyErr = "dirty-err" // scribble over the buffer, then fail
	FDirtyPan = "dirty-panic"
)

// Fault is one planned fault.
type Fault struct {
	ID   int32  `json:"id"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}

// InjErr is the error returned by a failing method.
type InjErr struct {
	Op, ID int32
	Why    string
}

func (e *InjErr) Error() string { return fmt.Sprintf("injected %s op=%d id=%d", e.Why, e.Op, e.ID) }

// Other kinds of errors of methods.
type (
	wrapErr struct { // wraps a well-known error
		*InjErr
		err error
	}
	listErr struct { // cannot be compared
		*InjErr
		l []error
	}
)

type (
	nilErr  struct{ n int } // of which a nil pointer is returned
	zeroErr string          // of which the zero value is returned
	nilList []error         // of which a nil slice is returned
)

func (e *nilErr) Error() string { return "injected nil error" }
func (e zeroErr) Error() string { return string(e) }
func (e nilList) Error() string { return "injected nil list" }

func (e *wrapErr) Unwrap() error { return e.err }

// InjPanic is the value a method panics with.
type InjPanic struct{ Op, ID int32 }

// Other kinds of values methods panic with.
type (
	panErr  struct{ *InjErr } // an error
	panList struct {          // cannot be compared
		ID int32
		l  []int
	}
)

const panIndex = 1000000 // base of indexes that are out of range on purpose

// injected tells whether p is a value a method panicked with on purpose.
func injected(p any) bool {
	switch p := p.(type) {
	case nil, *InjPanic, *panErr, panList, *runtime.PanicNilError:
		return true
	case string:
		return strings.HasPrefix(p, "injected panic")
	case runtime.Error:
		n := 0
		if _, e, ok := strings.Cut(p.Error(), "index out of range ["); ok {
			fmt.Sscanf(e, "%d", &n)
		}
		return n >= panIndex
	}
	return false
}

// samePanic tells whether the caller got the value a method panicked with.
func samePanic(a, b any) bool {
	switch b := b.(type) {
	case nil:
		_, ok := a.(*runtime.PanicNilError)
		return a == nil || ok
	case panList:
		l, ok := a.(panList)
		return ok && l.ID == b.ID && len(l.l) == 1 && &l.l[0] == &b.l[0]
	case int32: // a run-time error
		e, ok := a.(runtime.Error)
		return ok && strings.Contains(e.Error(), fmt.Sprintf("[%d]", panIndex+int(b)))
	}
	if _, ok := a.(panList); ok {
		return false
	}
	return a == b
}

func sameErr(a, b error) bool {
	switch x := b.(type) {
	case listErr:
		y, ok := a.(listErr)
		return ok && x.InjErr == y.InjErr
	case nilList:
		y, ok := a.(nilList)
		return ok && len(y) == 0
	}
	switch a.(type) {
	case listErr, nilList:
		return false
	}
	return a == b
}

// comparableErr tells whether the error can be compared.
func comparableErr(e error) bool {
	switch e.(type) {
	case listErr, nilList:
		return false
	}
	return true
}

// Call is one observed method invocation.
type Call struct {
	ID   int32  `json:"id"`
	M    Method `json:"m"`
	T    int32  `json:"t"`
	Note string `json:"note,omitempty"`
}

func (c Call) String() string {
	s := typeName(int(c.T)) + "." + methodNames[c.M] + "#" + strconv.Itoa(int(c.ID))
	if c.Note != "" {
		s += "(" + c.Note + ")"
	}
	return s
}

type owned struct {
	full []byte // up to its capacity
	copy []byte
	id   int32
}

// OpState is the state of one operation while it runs.
type OpState struct {
	ID       int32
	plan     *OpPlan
	run      *run
	opt      *OptSpec
	ctx      *simCtx // nil: the caller gave none
	log      []Call
	owned    []owned
	errs     map[int32]error
	pans     map[int32]any
	dyn      map[int32]string // outcomes decided while running (context errors)
	delegOff int              // >0: inside a delegating method without context
	bad      []string         // problems noticed by methods
	res      Result
	lastCall int32

	prev       *OpState
	isNested   bool
	priv       any
	arena      []byte
	start, end int64
	dstBad     string
	ownBad     []string
	scribbled  bool
	smCache    map[*mnode][]*smKeyHist
	home       *home
	edge       bool // methods return memory at the edge
	homeSum    *hashed
	homeVal    any
}

type TaskState struct {
	cur   *OpState
	homes map[int]*home
	opts  []jettison.Option // options of the calls, see Plan.OptBuf
}

func curOp() *OpState {
	t := rt.Current()
	if t == nil {
		return nil
	}
	ts, _ := t.Local.(*TaskState)
	if ts == nil {
		return nil
	}
	return ts.cur
}

// simCtx is a context under the control of the simulator.
type simCtx struct {
	Tok      int32
	deadline int64
	canceled bool
	done     *rt.Done
}

func (c *simCtx) cancel() {
	c.canceled = true
	c.done.Close()
}

type ctxKey struct{}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.deadline == 0 {
		return time.Time{}, false
	}
	return time.Unix(1700000000, 0).Add(time.Duration(c.deadline) * time.Microsecond), true
}
func (c *simCtx) Done() <-chan struct{} { return c.done.C }
func (c *simCtx) Err() error {
	if c.canceled {
		return context.Canceled
	}
	if c.deadline != 0 && rt.Now() >= c.deadline {
		return context.DeadlineExceeded
	}
	return nil
}
func (c *simCtx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c.Tok
	}
	return nil
}

// ---- outputs: functions of the identity of the receiver and of the plan

// outSalt is that of the plan which is being made or executed.
var outSalt uint64

var longFill = bytes.Repeat([]byte("0123456789abcdef"), 4200)

var denseJSON = []string{`\"`, `\\`, `\\\"`, `<`, "\u2028", "\u2029\u2027", `&a`, `\u003c`, "\u00e9", `\\u003c`, "\\\\\u2028", ` `, `\n`}

var denseText = []string{`"`, `\`, `<`, "\u2028", "\xff", "\x01", "\n", "\xe2\x80", "a\"", "\u00e9", "\U0001f600", " "}

// jsonText is the JSON a MarshalJSON method of receiver id returns.
func jsonText(id int32) []byte {
	switch id {
	case zeroID:
		return []byte(` {"zero" : []} `)
	case nilRecv:
		return []byte(`null`)
	}
	r := newRng(uint64(id), 99, outSalt)
	n := strconv.Itoa(int(id))
	switch r.n(16) {
	case 0:
		return []byte("null")
	case 1:
		return []byte(n)
	case 2:
		return []byte(` [ ` + n + ` , "x" ,` + "\n\t" + `{"k":null} ] `)
	case 3:
		return []byte(`"<` + n + `>&` + "\u2028" + `é\"\\"`)
	case 4:
		return []byte(`{"id":` + n + `,"t":true}`)
	case 5:
		return []byte("\t{ \"id\" :\r\n" + n + ", \"s\" : \"a b\\u003c c\" }\n")
	case 6:
		return []byte(`"` + n + `"`)
	case 7:
		k := sizes[r.n(len(sizes))]
		if r.n(5) == 0 {
			k = bigSizes[r.n(len(bigSizes))]
		}
		if r.n(3) == 0 {
			// Much of it needs treatment, wherever it is looked at.
			u := denseJSON[r.n(len(denseJSON))]
			return []byte(`"` + n + strings.Repeat(u, 1+k/len(u)) + `"`)
		}
		return []byte(`"` + n + string(longFill[:k]) + `"`)
	case 8:
		return []byte("-" + n + ".5e+3")
	case 9:
		return []byte("[[],{},[" + n + "]]")
	case 10:
		return []byte(`"` + n + mixed(r, denseJSON) + `"`)
	case 11:
		d := 1 + r.n(12)
		if r.n(6) == 0 {
			d = []int{30, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 500, 1100}[r.n(17)]
		}
		return []byte(nest(r, d, n))
	case 12:
		return []byte(document(r, 3, n))
	}
	return []byte(`{"cb":` + n + `}`)
}

// mixed is a run of ordinary text with some units in it.
func mixed(r *rng, units []string) string {
	var b strings.Builder
	for k := r.n(14); k > 0; k-- {
		b.Write(longFill[:r.n(1+[]int{3, 9, 20, 70}[r.n(4)])])
		b.WriteString(units[r.n(len(units))])
		for r.n(3) == 0 {
			b.WriteString(units[r.n(len(units))])
		}
	}
	return b.String()
}

var jsonSpace = []string{"", "", "", "", "", "", " ", "\n", "\t", "\r\n", "  "}

// nest is a document of the given depth around a leaf.
func nest(r *rng, depth int, leaf string) string {
	var b strings.Builder
	end := make([]string, depth)
	for i := range end {
		sp := jsonSpace[r.n(len(jsonSpace))]
		if r.n(2) == 0 {
			b.WriteString("[" + sp)
			end[i] = sp + "]"
			if r.n(12) == 0 {
				b.WriteString(`"]",`)
			}
		} else {
			b.WriteString("{" + sp + `"` + []string{"k", "", "}", `\"`, "{", "<", "]:"}[r.n(7)] + `"` + sp + ":")
			end[i] = "}" + sp
		}
	}
	b.WriteString(leaf)
	for i := range end {
		b.WriteString(end[depth-1-i])
	}
	return b.String()
}

// document is a random JSON document.
func document(r *rng, depth int, leaf string) string {
	sp := func() string { return jsonSpace[r.n(len(jsonSpace))] }
	str := func() string { return `"` + mixed(newRng(r.next(), 1), denseJSON) + `"` }
	switch k := r.n(10); {
	case k < 2 && depth < 3:
		return leaf
	case k == 2 && depth < 3:
		return str()
	case k == 3 && depth < 3:
		return []string{"true", "false", "null", "0", "-0", "1.5E-7", "0.10", "1e400", `""`, "[]", "{}"}[r.n(11)]
	case k < 7 && depth > 0:
		s := "[" + sp()
		for i := r.n(5); i >= 0; i-- {
			s += sp() + document(r, depth-1, leaf) + sp()
			if i > 0 {
				s += ","
			}
		}
		return s + "]"
	case depth > 0:
		s := sp() + "{"
		for i := r.n(5); i >= 0; i-- {
			s += sp() + str() + sp() + ":" + sp() + document(r, depth-1, leaf)
			if i > 0 {
				s += ","
			}
		}
		return s + sp() + "}" + sp()
	}
	return leaf
}

// textOf is the text a MarshalText method of receiver id returns.
func textOf(id int32) []byte {
	switch id {
	case zeroID:
		return []byte("zero")
	case nilRecv:
		return nil
	}
	r := newRng(uint64(id), 98, outSalt)
	n := strconv.Itoa(int(id))
	switch r.n(12) {
	case 0:
		return []byte("te\"xt\\" + n)
	case 1:
		return []byte("<" + n + ">&\u2028\n\x01é\xff")
	case 2:
		return nil
	case 3:
		k := sizes[r.n(len(sizes))]
		if r.n(6) == 0 {
			k = bigSizes[r.n(len(bigSizes))]
		}
		if r.n(2) == 0 {
			u := denseText[r.n(len(denseText))]
			return []byte(n + strings.Repeat(u, 1+k/len(u)))
		}
		return []byte(n + string(longFill[:k]))
	case 4:
		return []byte("same")
	case 5:
		return []byte("null")
	case 6:
		return []byte(n + mixed(r, denseText))
	}
	return []byte("t" + n)
}

func compactJSON(b []byte) []byte {
	var o bytes.Buffer
	if err := json.Compact(&o, b); err != nil {
		panic("wl: bad JSON of a callback: " + string(b))
	}
	return o.Bytes()
}

// appendText is what the Append methods of receiver id append.
func appendText(id int32, tok string) []byte {
	b := compactJSON(jsonText(id))
	if tok != "" {
		return []byte(`{"ctx":` + tok + `,"v":` + string(b) + `}`)
	}
	return b
}

// corrupt applies a corruption fault to the output of a method.
func corrupt(out []byte, f *Fault) []byte {
	switch f.Kind {
	case FTear:
		n := int(int64(len(out)) * (f.Arg % 1000) / 1000)
		return out[:n:n]
	case FFlip:
		o := append([]byte(nil), out...)
		if len(o) > 0 {
			o[int(f.Arg/8)%len(o)] ^= 1 << (uint(f.Arg) % 8)
		}
		return o
	case FEmpty:
		if f.Arg&1 == 0 {
			return nil
		}
		return []byte{}
	case FNull:
		return []byte("null")
	case FPad:
		// White space, also what only looks like it.
		p := [...][2]string{{" \n", "\t\r "}, {"", "\n"}, {"\t", ""}, {"\ufeff", ""}, {"\u00a0", ""}, {"", "\x00"}, {"\v", "\f"}, {"", "\u2028"}, {" \r\n\t ", ""}, {"", ";"}, {"", "\x1a"}, {"\x1b[0m", ""}, {"", " //"}, {"/**/", ""}, {")]}',\n", ""}}
		k := p[int(f.Arg/3)%len(p)]
		if f.Arg%3 == 0 {
			k = p[0]
		}
		return []byte(k[0] + string(out) + k[1])
	case FMutate:
		return mutate(out, f.Arg)
	case FGarbage:
		g := garbage[int(f.Arg)%len(garbage)]
		return []byte(g)
	}
	return out
}

var garbage = []string{`}`, `"},"x":{"`, `","inj":"`, "\x00", `{}{}`, `[`, `"a`, `a"`, "\xff\xfe", ` `, `nan`, `{"a":1,}`, "\"\x01\"", `//c`, `1,2`, `"\u12"`, `"\`, `]`, `:`, "\u2028", `<script>`, `"</script>"`, "\"\xe2\x80\"", "\"\xe2\x80\xa8\"", `"\ud800"`,
	`01`, `-`, `+1`, `.5`, `1.`, `1e`, `1e+`, `0x1`, `-01`, `00`, `1.e1`, `-.1`, `Infinity`, `True`, `NULL`, `nulL`, `nullx`, `tru e`, `'a'`, `{a:1}`, `{'a':1}`, `[1,]`, `[,1]`, `[,]`, `{,}`, `{"a"}`, `{"a":}`, `{:1}`, `{"a":1 "b":2}`, `{"a":1}}`, `[1]]`, `[1}`, `{"a":1]`, `[1 2]`, "\"a\nb\"", "\"\t\"", `"\a"`, `"\'"`, `"\u00g0"`, `"\U0041"`, `"a"b"`, "\"\x7f\"", `"\/"`, `"\ud83d\ude00"`, `{"a":1,"a":2}`, "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "\xe2\x80\xa8", "[\u2028]", "{\"\u2029\": \"<\\u003c>&\"}", "[ \"\\\\\" , \" \\\" \" ]", "\"\\\\\\\" , <\"", "{ \"a\" : [ ] , \"b\" : { } }", "-0", "1E400", "\r\n\"x\"\r\n", "0 ", "\"\u2028\\\u2028\"", "\"\\\u2029\""}

// mutate changes one place of out.
func mutate(out []byte, arg int64) []byte {
	s := []byte(`",:[]{}\<>& ` + "\t\n\x00\x1f\x7f" + `/'nte01-+.E` + "\x80\xe2\xff")
	a := uint64(arg) * 0x9E3779B97F4A7C15
	o := append([]byte(nil), out...)
	n := len(o)
	c := s[int(a>>8)%len(s)]
	i := int(a>>24) % (n + 1)
	switch a >> 4 % 10 {
	case 8, 9: // break it
		if n > 1 {
			o[1+int(a>>24)%(n-1)] = "\"\n\x01\\,]}"[int(a>>8)%7]
		}
	case 0, 1: // insert
		o = append(o[:i], append([]byte{c}, out[i:]...)...)
	case 2, 3: // replace
		if i < n {
			o[i] = c
		}
	case 4: // delete
		if i < n {
			o = append(o[:i], out[i+1:]...)
		}
	case 5: // exchange
		if i+1 < n {
			o[i], o[i+1] = o[i+1], o[i]
		}
	case 6: // repeat a part
		j := i + 1 + int(a>>40)%9
		if j > n {
			j = n
		}
		o = append(append(o[:j:j], out[i:j]...), out[j:]...)
	case 7: // twice, or at the end
		if a>>60 == 0 {
			o = append(o, out...)
		} else {
			o = append(o, c)
		}
	}
	return o
}

var faultKinds = []string{FErr, FPanic, FExit, FSleep, FHang, FGC, FGrow, FFlush, FReenter, FCancel, FSMap, FTear, FFlip, FEmpty, FNull, FPad, FGarbage, FDirtyErr, FDirtyPan, FMutate}

func faultIdx(k string) int {
	for i, x := range faultKinds {
		if x == k {
			return i
		}
	}
	return 0
}

func isCorrupt(k string) bool {
	switch k {
	case FTear, FFlip, FEmpty, FNull, FPad, FGarbage, FMutate:
		return true
	}
	return false
}

func isFail(k string) bool {
	switch k {
	case FErr, FPanic, FExit, FDirtyErr, FDirtyPan:
		return true
	}
	return false
}

// enter logs the invocation and performs the faults that come before output.
func enter(ti int, m Method, id int32) (*OpState, *Fault) {
	op := curOp()
	if op == nil {
		panic("wl: method called outside an operation")
	}
	op.log = append(op.log, Call{ID: id, M: m, T: int32(ti)})
	op.lastCall = id
	rt.Event(uint64(op.ID)<<40 ^ uint64(uint32(id))<<8 ^ uint64(m)<<4 ^ uint64(ti)<<52)
	rt.User(uint32(m))
	f := op.plan.fault(id)
	if f == nil {
		return op, nil
	}
	op.run.fired[faultIdx(f.Kind)]++
	switch f.Kind {
	case FSleep:
		rt.Sleep(f.Arg)
	case FHang:
		rt.Hang()
	case FGC:
		rt.ForceGC()
	case FGrow:
		rt.ForceGrow()
	case FFlush:
		if rt.FlushPools != nil {
			rt.FlushPools()
		}
	case FCancel:
		if op.ctx != nil {
			op.ctx.cancel()
		}
	case FReenter:
		op.run.nestedOp(op, int(f.Arg))
	case FSMap:
		op.run.smapOp(int(f.Arg))
		if op.run.plan.Prop == "C11" {
			rt.ForceGC() // what was removed from the map is gone
		}
	}
	return op, f
}

func (op *OpState) fail(f *Fault, id int32) error {
	e := op.errs[id]
	if e == nil {
		i := &InjErr{Op: op.ID, ID: id, Why: f.Kind}
		switch (f.Arg >> 1) % 18 {
		case 14:
			e = (*nilErr)(nil)
		case 15:
			e = zeroErr("")
		case 16:
			e = nilList(nil)
		case 0:
			e = io.EOF
		case 1:
			e = context.Canceled
		case 2:
			e = context.DeadlineExceeded
		case 3:
			e = listErr{i, []error{io.EOF}}
		case 4:
			e = &wrapErr{i, io.EOF}
		case 5:
			e = &wrapErr{i, context.Canceled}
		case 6:
			e = &wrapErr{i, &json.UnsupportedTypeError{Type: rt0[int]()}}
		default:
			e = i
		}
		op.errs[id] = e
	}
	return e
}

func (op *OpState) panic(f *Fault, id int32) {
	p, ok := op.pans[id]
	if !ok {
		i := &InjErr{Op: op.ID, ID: id, Why: "panic"}
		switch (f.Arg >> 1) % 14 {
		case 0:
			p = &panErr{i}
		case 1:
			p = i.Error()
		case 2:
			p = panList{id, []int{1}}
		case 3:
			p = nil
		case 4, 5:
			p = id
		default:
			p = &InjPanic{Op: op.ID, ID: id}
		}
		op.pans[id] = p
	}
	if id, ok := p.(int32); ok {
		var none []int
		none[panIndex+int(id)]++
	}
	panic(p)
}

// hand returns a slice owned by the method: it must never be written to.
func (op *OpState) hand(out []byte, id int32) []byte {
	if out == nil {
		return nil
	}
	n := len(out)
	var full []byte
	pad := int(id%3) * 9
	if op.run.plan.Reuse && !op.run.race {
		full = op.run.reuse(n + pad)
	}
	if full == nil && pad == 0 && op.edge {
		full = edgeBytes(out, false)
	}
	if full == nil {
		full = make([]byte, n+pad)
	}
	copy(full, out)
	for i := n; i < len(full); i++ {
		full[i] = 0xa5
	}
	op.owned = append(op.owned, owned{full: full, copy: append([]byte(nil), full...), id: id})
	return full[:n]
}

func cbJ(ti int, id int32) ([]byte, error) { return cbBytes(ti, MJ, id) }
func cbT(ti int, id int32) ([]byte, error) { return cbBytes(ti, MT, id) }

func cbBytes(ti int, m Method, id int32) ([]byte, error) {
	if p := probe; p != nil {
		p.call = &Call{ID: id, M: m, T: int32(ti)}
		if m == MJ {
			return jsonText(id), nil
		}
		return textOf(id), nil
	}
	op, f := enter(ti, m, id)
	var out []byte
	if m == MJ {
		out = jsonText(id)
	} else {
		out = textOf(id)
	}
	if f != nil {
		switch f.Kind {
		case FErr, FDirtyErr:
			if f.Arg&1 != 0 {
				return op.hand(out, id), op.fail(f, id)
			}
			return nil, op.fail(f, id)
		case FPanic, FDirtyPan:
			op.panic(f, id)
		case FExit:
			op.exit()
		}
		out = corrupt(out, f)
	}
	b := op.hand(out, id)
	rt.User(8)
	return b, nil
}

// count tells how often methods of the receiver were invoked.
func (op *OpState) count(id int32) (n int) {
	for i := range op.log {
		if op.log[i].ID == id {
			n++
		}
	}
	return n
}

func cbA(ti int, id int32, dst []byte) ([]byte, error) { return cbAppend(ti, MA, id, dst, "") }

func cbC(ti int, id int32, ctx context.Context, dst []byte) ([]byte, error) {
	tok := `"none"`
	if probe != nil {
		if t, ok := ctx.Value(ctxKey{}).(int32); ok {
			tok = strconv.Itoa(int(t))
		}
	} else if op := curOp(); op != nil {
		tok = op.checkCtx(ctx)
	}
	return cbAppend(ti, MC, id, dst, tok)
}

// checkCtx verifies that ctx is the context of this very call and returns the
// token that goes into the output.
func (op *OpState) checkCtx(ctx context.Context) string {
	if ctx == nil {
		op.bad = append(op.bad, "ctx: nil context passed to a method")
		return `"nil"`
	}
	v := ctx.Value(ctxKey{})
	want := op.ctx
	if op.delegOff > 0 {
		want = nil
	}
	if v == nil {
		if want != nil {
			op.bad = append(op.bad, "ctx: the call's own context did not reach the method")
		}
		if err := ctx.Err(); err != nil {
			op.bad = append(op.bad, "ctx: default context is unusable: "+err.Error())
		}
		return `"none"`
	}
	t, _ := v.(int32)
	if want == nil || t != want.Tok {
		op.bad = append(op.bad, fmt.Sprintf("ctx: context of another call (%d) reached the method", t))
	} else if c, ok := ctx.(*simCtx); !ok || c != want {
		op.bad = append(op.bad, fmt.Sprintf("ctx: the method was given a %T in place of the call's own context", ctx))
	} else if (ctx.Err() != nil) != (want.Err() != nil) {
		op.bad = append(op.bad, "ctx: cancellation state differs from the call's own context")
	}
	return strconv.Itoa(int(t))
}

func cbAppend(ti int, m Method, id int32, dst []byte, tok string) ([]byte, error) {
	out := appendText(id, tok)
	if p := probe; p != nil {
		p.call = &Call{ID: id, M: m, T: int32(ti)}
		return append(dst, out...), nil
	}
	op, f := enter(ti, m, id)
	if f != nil {
		switch f.Kind {
		case FErr:
			if f.Arg&1 != 0 {
				return nil, op.fail(f, id)
			}
			return dst, op.fail(f, id)
		case FDirtyErr, FDirtyPan:
			d := append(dst, longFill[:1+f.Arg%3000]...)
			if f.Kind == FDirtyPan {
				op.panic(f, id)
			}
			return d, op.fail(f, id)
		case FPanic:
			op.panic(f, id)
		case FExit:
			op.exit()
		}
	}
	if m == MC && op.ctx != nil && op.delegOff == 0 && op.ctx.Err() != nil && id%2 == 0 && id < u8Base && op.count(id) == 1 {
		// A method that honours its context.
		var e error = &InjErr{Op: op.ID, ID: id, Why: "ctx"}
		if id%4 == 0 {
			e = op.ctx.Err()
		}
		op.errs[id] = e
		op.dyn[id] = "ctx"
		return dst, e
	}
	switch id % 4 {
	case 0:
		dst = append(dst, out...)
	case 1:
		n := make([]byte, len(dst)+len(out))
		copy(n[copy(n, dst):], out)
		dst = n
	case 2:
		dst = append(dst, out...)
		n := len(dst)
		dst = append(dst, "GARBAGE-BEYOND-LENGTH"...)[:n]
	case 3:
		k := len(out) / 2
		dst = append(dst, out[:k]...)
		rt.User(9)
		dst = append(dst, out[k:]...)
	}
	rt.User(10)
	return dst, nil
}

// delegate runs a method that encodes its content with the package.
func delegate(ti int, m Method, id int32, ctx context.Context, enc func() ([]byte, error)) ([]byte, error) {
	if p := probe; p != nil {
		p.call = &Call{ID: id, M: m, T: int32(ti)}
		p.deleg = true
		return nil, nil
	}
	if op := curOp(); op != nil && m == MC {
		op.checkCtx(ctx)
	}
	op, f := enter(ti, m, id)
	if f != nil {
		switch f.Kind {
		case FErr, FDirtyErr:
			return nil, op.fail(f, id)
		case FPanic, FDirtyPan:
			op.panic(f, id)
		case FExit:
			op.exit()
		}
	}
	if m != MC {
		op.delegOff++
		defer func() { op.delegOff-- }()
	} else if op.ctx == nil || op.delegOff > 0 {
		op.delegOff++
		defer func() { op.delegOff-- }()
	}
	return enc()
}
