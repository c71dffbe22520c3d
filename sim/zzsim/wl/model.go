package wl

import (
	"bytes"
	"context"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/simsync"
)

// The reference model: what a call has to do, written from the documentation
// and the behaviour of encoding/json, on top of package reflect. It yields a
// tree that describes the bytes of the result and the method invocations.

type nkind uint8

const (
	kSeq  nkind = iota // the concatenation of kids
	kMap               // entries in some order
	kFail              // the call ends here
	kDyn               // a sync.Map that is modified during the call
)

type failKind uint8

const (
	fkInj    failKind = iota // injected error (through frames)
	fkPanic                  // injected panic
	fkExit                   // runtime.Goexit
	fkBadOut                 // the output of a method is not valid JSON
	fkType                   // UnsupportedTypeError
	fkValue                  // UnsupportedValueError
	fkOther                  // some other error
	fkNil                    // a run time panic (nil dereference in the user's code)
)

type frame struct {
	t  reflect.Type // static type
	dt reflect.Type // dynamic type, if different
	m  Method
}

type failure struct {
	kind   failKind
	id     int32
	t      reflect.Type
	frames []frame // outermost first
}

// mnode describes a part of the output.
type mnode struct {
	kind   nkind
	call   *Call  // the method invoked first
	b      []byte // then these bytes
	kids   []*mnode
	silent bool // invoked, but not part of the output
	items  []*entry
	sorted bool
	fail   *failure
	sm     *simsync.Map
	mod    *model // of a sync.Map that is modified: how to encode its entries
	esc    int    // bit 0: escape HTML, bit 1: escape line separators
	// caches
	det  int8
	flat []byte
	nc   int
}

type entry struct {
	key, val *mnode
	text     string
}

func nb(b string) *mnode      { return &mnode{b: []byte(b)} }
func nseq(k ...*mnode) *mnode { return &mnode{kids: k} }
func nfail(f *failure) *mnode { return &mnode{kind: kFail, fail: f} }
func (n *mnode) isNull() bool {
	return n.kind == kSeq && n.call == nil && len(n.kids) == 0 && string(n.b) == "null"
}
func (m *model) failed(k failKind, t reflect.Type, id int32) *mnode {
	f := &failure{kind: k, t: t, id: id, frames: append([]frame(nil), m.frames...)}
	return nfail(f)
}

// mopts are the options the model works with.
type mopts struct {
	*OptSpec
	ctx    context.Context
	ctxTok string
}

type model struct {
	o      *mopts
	frames []frame
	faults map[int32]*Fault
	dyn    map[int32]string
	mut    map[*simsync.Map]bool // maps modified during the run
}

// probe state: the methods answer without side effects
type probeState struct {
	call  *Call
	deleg bool
	out   []byte
}

var probe *probeState

var defaultOpt = &OptSpec{}

// modelOf builds the tree for v.
func modelOf(v any, o *OptSpec, ctx *simCtx, faults map[int32]*Fault, dyn map[int32]string, mut map[*simsync.Map]bool) *mnode {
	if o == nil {
		o = defaultOpt
	}
	m := &model{o: &mopts{OptSpec: o}, faults: faults, dyn: dyn, mut: mut}
	m.o.ctx = context.TODO()
	if ctx != nil {
		m.o.ctx = ctx
	}
	return m.top(v)
}

func (m *model) top(v any) *mnode {
	if v == nil {
		return nb("null")
	}
	return m.enc(reflect.ValueOf(v), false)
}

// ---- scalars

func modelEscape(s []byte, o *OptSpec) []byte {
	if o.NoEsc {
		return s
	}
	var b bytes.Buffer
	for len(s) > 0 {
		r, n := utf8.DecodeRune(s)
		switch {
		case r == utf8.RuneError && n == 1:
			if o.NoUTF8 {
				b.WriteByte(s[0])
			} else {
				b.WriteString(`\ufffd`)
			}
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < ' ', !o.NoHTML && (r == '<' || r == '>' || r == '&'), !o.NoUTF8 && (r == 0x2028 || r == 0x2029):
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.Write(s[:n])
		}
		s = s[n:]
	}
	return b.Bytes()
}

func modelQuote(s []byte, o *OptSpec) *mnode {
	b := append([]byte{'"'}, modelEscape(s, o)...)
	return &mnode{b: append(b, '"')}
}

// modelCompact compacts valid JSON.
func modelCompact(src []byte, o *OptSpec) ([]byte, bool) {
	if !json.Valid(src) {
		return nil, false
	}
	var c, h bytes.Buffer
	if json.Compact(&c, src) != nil {
		return nil, false
	}
	if o.NoHTML {
		b := bytes.ReplaceAll(c.Bytes(), []byte("\u2028"), []byte(`\u2028`))
		return bytes.ReplaceAll(b, []byte("\u2029"), []byte(`\u2029`)), true
	}
	json.HTMLEscape(&h, c.Bytes())
	return h.Bytes(), true
}

var numberRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func (m *model) time(t time.Time) *mnode {
	if y := t.Year(); y < 0 || y > 9999 {
		return m.failed(fkOther, nil, 0)
	}
	if m.o.Unix {
		return nb(strconv.FormatInt(t.Unix(), 10))
	}
	l := m.o.layout()
	return nb(`"` + t.Format(l) + `"`)
}

func (m *model) duration(d time.Duration) *mnode {
	switch m.o.durFmt() {
	case jettison.DurationString:
		return nb(`"` + d.String() + `"`)
	case jettison.DurationMinutes:
		return m.float(d.Minutes(), 64)
	case jettison.DurationSeconds:
		return m.float(d.Seconds(), 64)
	case jettison.DurationMilliseconds:
		return nb(strconv.FormatInt(int64(d/time.Millisecond), 10))
	case jettison.DurationMicroseconds:
		return nb(strconv.FormatInt(int64(d/time.Microsecond), 10))
	}
	return nb(strconv.FormatInt(int64(d), 10))
}

func (m *model) float(f float64, bits int) *mnode {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return m.failed(fkValue, nil, 0)
	}
	var b []byte
	if bits == 32 {
		b, _ = json.Marshal(float32(f))
	} else {
		b, _ = json.Marshal(f)
	}
	return &mnode{b: b}
}

// ---- methods

// pickMethod returns the method that encodes v, and its receiver.
func pickMethod(v reflect.Value) (Method, any, bool) {
	t := v.Type()
	for i, it := range [4]reflect.Type{tC, tA, tJ, tT} {
		if t.Implements(it) {
			return Method(i), v.Interface(), true
		}
		if t.Kind() != reflect.Pointer && v.CanAddr() && reflect.PointerTo(t).Implements(it) {
			return Method(i), v.Addr().Interface(), true
		}
	}
	return 0, nil, false
}

// invoke runs a method in probe mode.
func (m *model) invoke(me Method, recv any) (out []byte, err error, call *Call, deleg bool, pan any) {
	probe = &probeState{}
	p := probe
	defer func() {
		pan = recover()
		probe = nil
		call, deleg = p.call, p.deleg
	}()
	switch me {
	case MC:
		out, err = recv.(jettison.AppendMarshalerCtx).AppendJSONContext(m.o.ctx, nil)
	case MA:
		out, err = recv.(jettison.AppendMarshaler).AppendJSON(nil)
	case MJ:
		out, err = recv.(json.Marshaler).MarshalJSON()
	case MT:
		out, err = recv.(encoding.TextMarshaler).MarshalText()
	}
	return
}

// method yields the node of a value that encodes itself.
func (m *model) method(t reflect.Type, me Method, recv any, key bool) (*mnode, []byte) {
	fr := frame{t: t, dt: reflect.TypeOf(recv), m: me}
	out, err, call, deleg, pan := m.invoke(me, recv)
	m.frames = append(m.frames, fr)
	defer func() { m.frames = m.frames[:len(m.frames)-1] }()
	if pan != nil {
		n := m.failed(fkNil, t, 0)
		n.call = call
		return n, nil
	}
	if call == nil { // a method of the standard library
		if err != nil {
			return m.failed(fkOther, t, 0), nil
		}
		return m.embed(me, out, nil, key, t)
	}
	if f := m.faults[call.ID]; f != nil {
		switch f.Kind {
		case FErr, FDirtyErr:
			n := m.failed(fkInj, t, call.ID)
			n.call = call
			return n, nil
		case FPanic, FDirtyPan:
			n := m.failed(fkPanic, t, call.ID)
			n.call = call
			return n, nil
		case FExit:
			n := m.failed(fkExit, t, call.ID)
			n.call = call
			return n, nil
		}
		if isCorrupt(f.Kind) && !deleg && me != MC && me != MA {
			out = corrupt(out, f)
		}
	}
	if deleg {
		inner := delegInner(recv)
		mo := *m.o
		switch me {
		case MC:
			mo.OptSpec = defaultOpt
		default:
			mo.OptSpec = defaultOpt
			mo.ctx = context.TODO()
		}
		sub := &model{o: &mo, frames: append([]frame(nil), m.frames...), faults: m.faults, dyn: m.dyn, mut: m.mut}
		n := sub.top(inner)
		if me == MJ && !m.o.NoCompact {
			// The result is compacted, which escapes what the methods
			// called inside appended.
			if m.o.NoHTML {
				n.escape(2)
			} else {
				n.escape(3)
			}
		}
		return &mnode{call: call, kids: []*mnode{n}}, nil
	}
	if m.dyn[call.ID] != "" && me == MC {
		n := m.failed(fkInj, t, call.ID)
		n.call = call
		return n, nil
	}
	return m.embed(me, out, call, key, t)
}

// embed puts the output of a method into the document.
func (m *model) embed(me Method, out []byte, call *Call, key bool, t reflect.Type) (*mnode, []byte) {
	switch me {
	case MC, MA:
		return &mnode{call: call, b: out}, nil
	case MJ:
		if m.o.NoCompact {
			return &mnode{call: call, b: out}, nil
		}
		b, ok := modelCompact(out, m.o.OptSpec)
		if !ok {
			n := m.failed(fkBadOut, t, 0)
			n.call = call
			return n, nil
		}
		return &mnode{call: call, b: b}, nil
	}
	n := modelQuote(out, m.o.OptSpec)
	n.call = call
	return n, out
}

// escape escapes the output of a finished subtree.
func (n *mnode) escape(how int) {
	if how == 0 {
		return
	}
	n.esc |= how
	b := n.b
	if how&1 != 0 && bytes.ContainsAny(b, "<>&") {
		b = bytes.ReplaceAll(b, []byte("<"), []byte(`\u003c`))
		b = bytes.ReplaceAll(b, []byte(">"), []byte(`\u003e`))
		b = bytes.ReplaceAll(b, []byte("&"), []byte(`\u0026`))
	}
	if bytes.Contains(b, []byte("\xe2\x80")) {
		b = bytes.ReplaceAll(b, []byte("\u2028"), []byte(`\u2028`))
		b = bytes.ReplaceAll(b, []byte("\u2029"), []byte(`\u2029`))
	}
	n.b = b
	for _, k := range n.kids {
		k.escape(how)
	}
	for _, e := range n.items {
		e.key.escape(how)
		e.val.escape(how)
	}
}

func delegInner(recv any) any {
	switch d := recv.(type) {
	case DelegA:
		return d.Inner
	case *DelegA:
		return d.Inner
	case DelegJ:
		return d.Inner
	case *DelegJ:
		return d.Inner
	case DelegC:
		return d.Inner
	case *DelegC:
		return d.Inner
	}
	panic(fmt.Sprintf("wl: delegate %T", recv))
}

// ---- values

func (m *model) enc(v reflect.Value, quoted bool) *mnode {
	t := v.Type()
	switch t {
	case tTime:
		return m.time(v.Interface().(time.Time))
	case tDuration:
		return m.duration(time.Duration(v.Int()))
	case tNumber:
		s := v.String()
		if s == "" {
			s = "0"
		}
		if !m.o.NoNumVal && !numberRE.MatchString(s) {
			return m.failed(fkOther, nil, 0)
		}
		return nb(s)
	case tRaw:
		if v.IsNil() {
			return nb("null")
		}
		if m.o.NoCompact {
			return &mnode{b: append([]byte(nil), v.Bytes()...)}
		}
		b, ok := modelCompact(v.Bytes(), m.o.OptSpec)
		if !ok {
			m.frames = append(m.frames, frame{t: t, m: MJ})
			n := m.failed(fkBadOut, t, 0)
			m.frames = m.frames[:len(m.frames)-1]
			return n
		}
		return &mnode{b: b}
	case tSyncMap:
		return m.syncMap(v.Addr().Interface().(*simsync.Map))
	case reflect.PointerTo(tTime):
		if v.IsNil() {
			return nb("null")
		}
		return m.time(v.Elem().Interface().(time.Time))
	}
	if me, recv, ok := pickMethod(v); ok {
		if (t.Kind() == reflect.Pointer || t.Kind() == reflect.Interface) && v.IsNil() {
			return nb("null")
		}
		n, _ := m.method(t, me, recv, false)
		return n
	}
	switch t.Kind() {
	case reflect.Bool:
		return m.quoted(nb(strconv.FormatBool(v.Bool())), quoted)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return m.quoted(nb(strconv.FormatInt(v.Int(), 10)), quoted)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return m.quoted(nb(strconv.FormatUint(v.Uint(), 10)), quoted)
	case reflect.Float32, reflect.Float64:
		return m.quoted(m.float(v.Float(), t.Bits()), quoted)
	case reflect.String:
		return modelQuote([]byte(v.String()), m.o.OptSpec)
	case reflect.Pointer:
		if v.IsNil() {
			return nb("null")
		}
		return m.enc(v.Elem(), quoted)
	case reflect.Interface:
		if v.IsNil() {
			return nb("null")
		}
		return m.enc(v.Elem(), false)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !selfEncoding(reflect.PointerTo(t.Elem())) {
			if v.IsNil() {
				return nb("null")
			}
			if m.o.RawBytes {
				return modelQuote(v.Bytes(), m.o.OptSpec)
			}
			return nb(`"` + base64.StdEncoding.EncodeToString(v.Bytes()) + `"`)
		}
		if v.IsNil() {
			if m.o.NilSlice {
				return nb("[]")
			}
			return nb("null")
		}
		return m.array(v)
	case reflect.Array:
		if m.o.ByteArr && t.Elem().Kind() == reflect.Uint8 && !selfEncoding(reflect.PointerTo(t.Elem())) {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), asAddr(v))
			return modelQuote(b, m.o.OptSpec)
		}
		return m.array(v)
	case reflect.Map:
		return m.mapp(v)
	case reflect.Struct:
		return m.structv(v)
	}
	return m.failed(fkType, t, 0)
}

func asAddr(v reflect.Value) reflect.Value {
	p := reflect.New(reflect.ArrayOf(v.Len(), rt0[byte]())).Elem()
	for i := 0; i < v.Len(); i++ {
		p.Index(i).SetUint(v.Index(i).Uint())
	}
	return p.Slice(0, v.Len())
}

func selfEncoding(t reflect.Type) bool {
	return t.Implements(tC) || t.Implements(tA) || t.Implements(tJ) || t.Implements(tT)
}

func (m *model) quoted(n *mnode, q bool) *mnode {
	if q && n.kind != kFail {
		n.b = []byte(`"` + string(n.b) + `"`)
	}
	return n
}

func (m *model) array(v reflect.Value) *mnode {
	n := &mnode{}
	n.kids = append(n.kids, nb("["))
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			n.kids = append(n.kids, nb(","))
		}
		n.kids = append(n.kids, m.enc(v.Index(i), false))
	}
	n.kids = append(n.kids, nb("]"))
	return n
}

// mapKey resolves a map key to its text.
func (m *model) mapKey(k reflect.Value) (*mnode, string, bool) {
	t := k.Type()
	unq := func(n *mnode) (*mnode, string, bool) {
		if n.kind == kFail {
			return n, "", true
		}
		s := strings.Trim(string(n.b), `"`)
		return nb(`"` + s + `"`), s, true
	}
	switch {
	case t.Kind() == reflect.String:
		return modelQuote([]byte(k.String()), m.o.OptSpec), k.String(), true
	case t == tTime:
		return unq(m.time(k.Interface().(time.Time)))
	case t == tDuration:
		return unq(m.duration(time.Duration(k.Int())))
	case t.Implements(tT):
		if t.Kind() == reflect.Pointer && k.IsNil() {
			return nb(`""`), "", true
		}
		n, txt := m.method(t, MT, k.Interface(), true)
		return n, string(txt), true
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return unq(nb(strconv.FormatInt(k.Int(), 10)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return unq(nb(strconv.FormatUint(k.Uint(), 10)))
	}
	return nil, "", false
}

func keyTypeOK(t reflect.Type) bool {
	if t.Kind() == reflect.String || t.Implements(tT) {
		return true
	}
	k := t.Kind()
	return k >= reflect.Int && k <= reflect.Uintptr
}

func (m *model) mapp(v reflect.Value) *mnode {
	t := v.Type()
	if !keyTypeOK(t.Key()) {
		return m.failed(fkType, t, 0)
	}
	if v.IsNil() {
		if m.o.NilMap {
			return nb("{}")
		}
		return nb("null")
	}
	n := &mnode{kind: kMap, sorted: !m.o.Unsorted}
	for it := v.MapRange(); it.Next(); {
		kn, txt, _ := m.mapKey(it.Key())
		n.items = append(n.items, &entry{key: kn, val: m.enc(it.Value(), false), text: txt})
	}
	n.order()
	return n
}

// order gives the entries a canonical order, which is that of the output if
// the map is sorted.
func (n *mnode) order() {
	sort.SliceStable(n.items, func(i, j int) bool {
		a, b := n.items[i], n.items[j]
		if a.text != b.text {
			return a.text < b.text
		}
		if a.key.call != nil && b.key.call != nil {
			if a.key.call.ID != b.key.call.ID {
				return a.key.call.ID < b.key.call.ID
			}
		}
		// The real iteration order must not show anywhere.
		return a.key.print(nil)+a.val.print(nil) < b.key.print(nil)+b.val.print(nil)
	})
}

// print renders the node by content.
func (n *mnode) print(b []byte) string { return string(n.print1(b)) }

func (n *mnode) print1(b []byte) []byte {
	if n.call != nil {
		b = append(b, n.call.String()...)
	}
	if n.fail != nil {
		b = append(b, n.fail.String()...)
	}
	b = append(b, n.b...)
	for _, k := range n.kids {
		b = append(k.print1(append(b, '(')), ')')
	}
	for _, e := range n.items {
		b = e.key.print1(append(b, '{'))
		b = append(e.val.print1(append(b, ':')), '}')
	}
	return b
}

func (m *model) syncMap(sm *simsync.Map) *mnode {
	if m.mut[sm] {
		c := *m
		c.frames = append([]frame(nil), m.frames...)
		return &mnode{kind: kDyn, sm: sm, mod: &c, sorted: !m.o.Unsorted}
	}
	n := &mnode{kind: kMap, sorted: !m.o.Unsorted}
	sm.Range(func(k, v any) bool {
		n.items = append(n.items, m.smEntry(k, v))
		return true
	})
	n.order()
	return n
}

func (m *model) smEntry(k, v any) *entry {
	if k == nil {
		return &entry{key: m.failed(fkOther, nil, 0), val: nb("")}
	}
	kn, txt, ok := m.mapKey(reflect.ValueOf(k))
	if !ok {
		return &entry{key: m.failed(fkOther, nil, 0), val: nb("")}
	}
	return &entry{key: kn, val: m.top(v), text: txt}
}

// ---- structs

type mfield struct {
	name   string
	tagged bool
	index  []int
	t      reflect.Type
	empty  bool
	omitn  bool
	quoted bool
}

var fieldCache = map[reflect.Type][]mfield{}

func okName(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", r) && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return true
}

func basicKind(t reflect.Type) bool {
	return isNumKind(t.Kind()) || t.Kind() == reflect.String
}

func fieldsOf(t reflect.Type) []mfield {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	type lvl struct {
		t     reflect.Type
		index []int
	}
	var all []mfield
	visited := map[reflect.Type]bool{}
	level := []lvl{{t: t}}
	mult := map[reflect.Type]int{t: 1}
	for len(level) > 0 {
		var next []lvl
		nextMult := map[reflect.Type]int{}
		for _, l := range level {
			if visited[l.t] {
				continue
			}
			visited[l.t] = true
			for i := 0; i < l.t.NumField(); i++ {
				sf := l.t.Field(i)
				ft := sf.Type
				if sf.Anonymous {
					e := ft
					if e.Kind() == reflect.Pointer {
						e = e.Elem()
					}
					if !sf.IsExported() && e.Kind() != reflect.Struct {
						continue
					}
				} else if !sf.IsExported() {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name, opts := parts[0], parts[1:]
				has := func(o string) bool {
					for _, x := range opts {
						if x == o {
							return true
						}
					}
					return false
				}
				if !okName(name) {
					name = ""
				}
				idx := append(append([]int(nil), l.index...), i)
				e := ft
				if e.Name() == "" && e.Kind() == reflect.Pointer {
					e = e.Elem()
				}
				if sf.Anonymous && name == "" && e.Kind() == reflect.Struct {
					nextMult[e]++
					if nextMult[e] == 1 {
						next = append(next, lvl{e, idx})
					}
					continue
				}
				f := mfield{name: name, tagged: name != "", index: idx, t: ft, empty: has("omitempty"), omitn: has("omitnil"), quoted: has("string") && basicKind(e)}
				if name == "" {
					f.name = sf.Name
				}
				all = append(all, f)
				if mult[l.t] > 1 {
					all = append(all, f)
				}
			}
		}
		level, mult = next, nextMult
	}
	// visibility
	byName := map[string][]mfield{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []mfield
	for _, l := range byName {
		min := len(l[0].index)
		for _, f := range l {
			if len(f.index) < min {
				min = len(f.index)
			}
		}
		var tg, un []mfield
		for _, f := range l {
			if len(f.index) == min {
				if f.tagged {
					tg = append(tg, f)
				} else {
					un = append(un, f)
				}
			}
		}
		switch {
		case len(tg) == 1:
			out = append(out, tg[0])
		case len(tg) == 0 && len(un) == 1:
			out = append(out, un[0])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].index, out[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	fieldCache[t] = out
	return out
}

func isEmptyVal(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Interface, reflect.Pointer:
		return v.IsZero()
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	}
	return false
}

func (m *model) structv(v reflect.Value) *mnode {
	n := &mnode{}
	sep := "{"
fields:
	for _, f := range fieldsOf(v.Type()) {
		if m.o.Deny != nil && contains(m.o.Deny, f.name) || m.o.Allow != nil && !contains(m.o.Allow, f.name) {
			continue
		}
		fv := v
		for _, i := range f.index {
			if fv.Kind() == reflect.Pointer {
				if fv.IsNil() {
					continue fields
				}
				fv = fv.Elem()
			}
			fv = fv.Field(i)
		}
		if f.omitn {
			switch fv.Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map:
				if fv.IsNil() {
					continue
				}
			}
		}
		if f.empty && isEmptyVal(fv) {
			continue
		}
		c := m.enc(fv, f.quoted)
		if f.omitn && (f.t.Implements(tJ) || reflect.PointerTo(f.t).Implements(tJ)) && c.endsNull() {
			n.kids = append(n.kids, &mnode{silent: true, kids: []*mnode{c}})
			continue
		}
		var h []byte
		if m.o.NoHTML {
			h = []byte(f.name)
		} else {
			var hb bytes.Buffer
			json.HTMLEscape(&hb, []byte(f.name))
			h = hb.Bytes()
		}
		n.kids = append(n.kids, nb(sep+`"`+string(h)+`":`), c)
		sep = ","
	}
	if sep == "{" {
		n.kids = append(n.kids, nb("{}"))
	} else {
		n.kids = append(n.kids, nb("}"))
	}
	return n
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// endsNull tells whether the output of the node ends with null.
func (n *mnode) endsNull() bool {
	if n.kind != kSeq || n.silent {
		return false
	}
	for i := len(n.kids) - 1; i >= 0; i-- {
		k := n.kids[i]
		if k.silent || k.kind == kSeq && k.determ() && len(k.flatten()) == 0 {
			continue
		}
		return k.endsNull()
	}
	return bytes.HasSuffix(n.b, []byte("null"))
}

// ---- derived facts

// determ tells whether the node stands for exactly one sequence of bytes.
func (n *mnode) determ() bool {
	if n.det == 0 {
		n.det = 1
		switch n.kind {
		case kFail, kDyn:
			n.det = 2
		case kMap:
			if !n.sorted && len(n.items) > 1 {
				n.det = 2
			}
			for i, e := range n.items {
				if i > 0 && e.text == n.items[i-1].text {
					n.det = 2
				}
				if !e.key.determ() || !e.val.determ() {
					n.det = 2
				}
			}
		default:
			if !n.silent {
				for _, k := range n.kids {
					if !k.determ() {
						n.det = 2
					}
				}
			} else if n.fails() {
				n.det = 2
			}
		}
	}
	return n.det == 1
}

func (n *mnode) flatten() []byte {
	if n.flat == nil {
		var b []byte
		switch {
		case n.silent:
		case n.kind == kMap:
			b = append(b, '{')
			for i, e := range n.items {
				if i > 0 {
					b = append(b, ',')
				}
				b = append(b, e.key.flatten()...)
				b = append(b, ':')
				b = append(b, e.val.flatten()...)
			}
			b = append(b, '}')
		default:
			b = append(b, n.b...)
			for _, k := range n.kids {
				b = append(b, k.flatten()...)
			}
		}
		if b == nil {
			b = []byte{}
		}
		n.flat = b
	}
	return n.flat
}

// fails tells whether the call certainly fails.
func (n *mnode) fails() bool {
	if n.kind == kFail {
		return true
	}
	for _, k := range n.kids {
		if k.fails() {
			return true
		}
	}
	for _, e := range n.items {
		if e.key.fails() || e.val.fails() {
			return true
		}
	}
	return false
}

func (n *mnode) hasDyn() bool {
	if n.kind == kDyn {
		return true
	}
	for _, k := range n.kids {
		if k.hasDyn() {
			return true
		}
	}
	for _, e := range n.items {
		if e.val.hasDyn() {
			return true
		}
	}
	return false
}

// failures lists the failures of the tree.
func (n *mnode) failures(l []*failure) []*failure {
	if n.kind == kFail {
		return append(l, n.fail)
	}
	for _, k := range n.kids {
		l = k.failures(l)
	}
	for _, e := range n.items {
		l = e.key.failures(l)
		l = e.val.failures(l)
	}
	return l
}

// calls lists the method invocations of a successful call in canonical order.
func (n *mnode) calls(l []Call) []Call {
	if n.call != nil {
		l = append(l, *n.call)
	}
	for _, k := range n.kids {
		l = k.calls(l)
	}
	for _, e := range n.items {
		l = e.key.calls(l)
		l = e.val.calls(l)
	}
	return l
}

func (n *mnode) ncalls() int {
	if n.nc == 0 {
		n.nc = 1 + len(n.calls(nil))
	}
	return n.nc - 1
}

// ---- matching bytes

const maxMatch = 200000

type bmatch struct {
	work int
	dyn  dynMatcher
}

// dynMatcher matches the encoding of a sync.Map that is being modified.
type dynMatcher func(bm *bmatch, n *mnode, b []byte, pos int) []int

// ends returns the positions at which a rendering of n starting at pos may end.
func (bm *bmatch) ends(n *mnode, b []byte, pos int) []int {
	if bm.work++; bm.work > maxMatch {
		return nil
	}
	if n.determ() {
		f := n.flatten()
		if bytes.HasPrefix(b[pos:], f) {
			return []int{pos + len(f)}
		}
		return nil
	}
	switch n.kind {
	case kFail:
		return nil
	case kDyn:
		if bm.dyn == nil {
			return nil
		}
		return bm.dyn(bm, n, b, pos)
	case kMap:
		if pos >= len(b) || b[pos] != '{' {
			return nil
		}
		if len(n.items) == 0 {
			if pos+1 < len(b) && b[pos+1] == '}' {
				return []int{pos + 2}
			}
			return nil
		}
		used := make([]bool, len(n.items))
		return uniq(bm.entries(n, used, 0, b, pos+1))
	}
	if n.silent {
		return []int{pos}
	}
	if !bytes.HasPrefix(b[pos:], n.b) {
		return nil
	}
	cur := []int{pos + len(n.b)}
	for _, k := range n.kids {
		var nx []int
		for _, p := range cur {
			nx = append(nx, bm.ends(k, b, p)...)
		}
		cur = uniq(nx)
		if len(cur) == 0 {
			return nil
		}
	}
	return cur
}

func uniq(l []int) []int {
	if len(l) < 2 {
		return l
	}
	sort.Ints(l)
	o := l[:1]
	for _, x := range l[1:] {
		if x != o[len(o)-1] {
			o = append(o, x)
		}
	}
	return o
}

func (bm *bmatch) entries(n *mnode, used []bool, k int, b []byte, pos int) []int {
	if k == len(n.items) {
		if pos < len(b) && b[pos] == '}' {
			return []int{pos + 1}
		}
		return nil
	}
	if bm.work++; bm.work > maxMatch {
		return nil
	}
	if k > 0 {
		if pos >= len(b) || b[pos] != ',' {
			return nil
		}
		pos++
	}
	lo, hi := 0, len(n.items)
	if n.sorted {
		lo = k
		for lo > 0 && n.items[lo-1].text == n.items[k].text {
			lo--
		}
		hi = k + 1
		for hi < len(n.items) && n.items[hi].text == n.items[k].text {
			hi++
		}
	}
	var out []int
	for i := lo; i < hi; i++ {
		if used[i] {
			continue
		}
		e := n.items[i]
		for _, p := range bm.ends(e.key, b, pos) {
			if p >= len(b) || b[p] != ':' {
				continue
			}
			for _, q := range bm.ends(e.val, b, p+1) {
				used[i] = true
				out = append(out, bm.entries(n, used, k+1, b, q)...)
				used[i] = false
				if len(out) > 0 && k == len(n.items)-1 {
					return out
				}
			}
		}
		if len(out) > 0 {
			break // one way to match is enough: renderings are prefix free
		}
	}
	return out
}

// accepts tells whether b is a rendering of n.
func accepts(n *mnode, b []byte, dyn dynMatcher) (ok, undecided bool) {
	if n.determ() {
		return bytes.Equal(n.flatten(), b), false
	}
	bm := &bmatch{dyn: dyn}
	for _, e := range bm.ends(n, b, 0) {
		if e == len(b) {
			return true, false
		}
	}
	return bm.work > maxMatch, bm.work > maxMatch
}

// ---- matching logs

type lend struct {
	pos  int
	fail *failure
}

type lmatch struct {
	log  []Call
	work int
}

func sameCall(a, b *Call) bool { return a.ID == b.ID && a.M == b.M && a.T == b.T }

// ends returns the positions in the log at which n may be done, starting at
// pos, or at which the call may have ended with a failure.
func (lm *lmatch) ends(n *mnode, pos int) []lend {
	if lm.work++; lm.work > maxMatch {
		return nil
	}
	if n.call != nil {
		if pos >= len(lm.log) || !sameCall(&lm.log[pos], n.call) {
			return nil
		}
		pos++
	}
	switch n.kind {
	case kFail:
		if pos == len(lm.log) {
			return []lend{{pos, n.fail}}
		}
		return nil
	case kDyn:
		return nil
	case kMap:
		used := make([]uint8, len(n.items))
		return uniqL(lm.entries(n, used, pos))
	}
	cur := []lend{{pos: pos}}
	for _, k := range n.kids {
		var nx []lend
		for _, c := range cur {
			if c.fail != nil {
				nx = append(nx, c)
				continue
			}
			nx = append(nx, lm.ends(k, c.pos)...)
		}
		cur = uniqL(nx)
		if len(cur) == 0 {
			return nil
		}
	}
	return cur
}

func uniqL(l []lend) []lend {
	var o []lend
outer:
	for _, x := range l {
		for _, y := range o {
			if x == y {
				continue outer
			}
		}
		o = append(o, x)
	}
	return o
}

// entries matches the entries of a map in any order; used: bit 0 key done,
// bit 1 value done. Entries without any calls and failures do not matter.
func (lm *lmatch) entries(n *mnode, used []uint8, pos int) []lend {
	if lm.work++; lm.work > maxMatch {
		return nil
	}
	// Greedy: finish everything that consumes nothing.
	var out []lend
	done := true
	tried := false
	for i, e := range n.items {
		if used[i] == 3 {
			continue
		}
		part, bit := e.key, uint8(1)
		if used[i]&1 != 0 {
			part, bit = e.val, 2
		}
		if part.ncalls() == 0 && !part.fails() {
			used[i] |= bit
			r := lm.entries(n, used, pos)
			used[i] &^= bit
			return r
		}
		done = false
	}
	if done {
		return []lend{{pos: pos}}
	}
	for i, e := range n.items {
		if used[i] == 3 {
			continue
		}
		part, bit := e.key, uint8(1)
		if used[i]&1 != 0 {
			part, bit = e.val, 2
		}
		for _, c := range lm.ends(part, pos) {
			if c.fail != nil {
				out = append(out, c)
				continue
			}
			if tried {
				// an alternative without failure has been explored:
				// entries with equal calls are interchangeable
				if c.pos == pos {
					continue
				}
			}
			used[i] |= bit
			r := lm.entries(n, used, c.pos)
			used[i] &^= bit
			if len(r) > 0 {
				tried = true
			}
			out = append(out, r...)
			ok := false
			for _, x := range r {
				if x.fail == nil {
					ok = true
				}
			}
			if ok {
				return out
			}
		}
	}
	return out
}

// matchLog returns how the call may have ended, given its log: nil if the log
// is not possible at all.
func matchLog(n *mnode, log []Call) ([]lend, bool) {
	lm := &lmatch{log: log}
	var o []lend
	for _, e := range lm.ends(n, 0) {
		if e.pos == len(log) {
			o = append(o, e)
		}
	}
	return o, lm.work > maxMatch
}

func ctxOf(st *OpState) context.Context {
	if st.ctx != nil {
		return st.ctx
	}
	return context.TODO()
}
