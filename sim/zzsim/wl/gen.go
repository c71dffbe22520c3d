package wl

import (
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/wI2L/jettison/zzsim/simsync"
)

type rng struct{ s uint64 }

func newRng(a ...uint64) *rng {
	r := &rng{0x243f6a8885a308d3}
	for _, x := range a {
		r.s = (r.s ^ x) * 0xff51afd7ed558ccd
		r.s ^= r.s >> 29
		r.next()
	}
	return r
}
func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.next() % uint64(k))
}
func (r *rng) p(pct int) bool { return r.n(100) < pct }

// bases is the list of types everything is built around.
var (
	bases   []reflect.Type
	cbBase0 int // index of the first callback type in bases
	famBase int
	nsBase  int // index of the types that share their names
)

func init() {
	bases = append(bases, plainBases...)
	bases = append(bases, recBases...)
	bases = append(bases, miscBases...)
	famBase = len(bases)
	bases = append(bases, genFamilies...)
	bases = append(bases, embedBases...)
	cbBase0 = len(bases)
	for _, ti := range infos {
		bases = append(bases, ti.T)
	}
	nsBase = len(bases)
	for _, l := range namesakes {
		bases = append(bases, l...)
	}
	bases = append(bases, dagBases...)
	bases = append(bases, largeBases...)
}

// TypeRef names a type: a base and the way it is wrapped.
type TypeRef struct {
	Base int `json:"base"`
	Wrap int `json:"wrap"`
}

const nWraps = 64

var typeCache = map[TypeRef]reflect.Type{}

var keyTypes = []reflect.Type{
	rt0[string](), rt0[string](), rt0[MyStr](), rt0[int](), rt0[int8](), rt0[uint16](), rt0[MyInt](), rt0[uint64](), rt0[uintptr](),
	rt0[CbStruct_Tv](), rt0[CbInt_Tv](), rt0[CbStr_Tv](), rt0[*CbStruct_Tv](), rt0[*CbStruct_Tp](), rt0[CbInt_Jv](), rt0[CbStruct_JvTv](), rt0[CbInt_CvAvJvTv](), rt0[CbStr_Jv](),
	rt0[time.Time](), rt0[time.Duration](), rt0[json.Number](), rt0[CbU8_Tv](), rt0[CbPSt_Tv](), rt0[CbArr1_Tv](), rt0[CbInt_JvTv](), rt0[CbU8_JvTv](), tT,
}

func (tr TypeRef) Type() reflect.Type {
	if t, ok := typeCache[tr]; ok {
		return t
	}
	r := newRng(uint64(tr.Base), uint64(tr.Wrap), 77)
	t := bases[tr.Base]
	n := 0
	if tr.Wrap > 0 {
		n = 1 + r.n(3)
		if tr.Wrap < 8 {
			n = 1
		}
	}
	for i := 0; i < n; i++ {
		t = wrapType(t, r)
	}
	typeCache[tr] = t
	return t
}

func wrapType(t reflect.Type, r *rng) reflect.Type {
	switch r.n(12) {
	case 0, 1:
		return reflect.PointerTo(t)
	case 2, 3:
		return reflect.SliceOf(t)
	case 4:
		return reflect.ArrayOf(r.n(4), t)
	case 5:
		return reflect.ArrayOf(1, t)
	case 6, 7:
		return reflect.MapOf(keyTypes[r.n(len(keyTypes))], t)
	case 8:
		fs := []reflect.StructField{{Name: "F", Type: t, Tag: tagFor(r, t)}}
		if r.p(30) {
			for i, ft := range []reflect.Type{reflect.PointerTo(t), reflect.SliceOf(t), reflect.SliceOf(t), reflect.PointerTo(t), reflect.PointerTo(reflect.SliceOf(t))} {
				fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ft, Tag: tagFor(r, ft)})
			}
		}
		return structOf(fs)
	}
	n := 1 + r.n(5)
	wide := 9
	if r.p(6) {
		// more fields than fit a word, a byte, ...
		n = []int{12, 33, 65, 70, 129, 260}[r.n(6)]
		wide = 60
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		ft := t
		k := r.n(wide)
		if k >= 9 {
			k = -1
			ft = plainBases[r.n(25)]
		}
		switch k {
		case 0:
			ft = reflect.PointerTo(t)
		case 1:
			ft = reflect.SliceOf(t)
		case 2:
			ft = tAny
		case 3:
			ft = plainBases[r.n(len(plainBases))]
		case 4:
			ft = infos[r.n(len(infos))].T
		case 5:
			ft = reflect.MapOf(keyTypes[r.n(len(keyTypes))], t)
		}
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ft, Tag: tagFor(r, ft)}
		if r.p(20) && i == 0 {
			e := ft
			if e.Kind() == reflect.Pointer {
				e = e.Elem()
			}
			if e.Kind() == reflect.Struct && e.Name() != "" && ft.NumMethod() == 0 && reflect.PointerTo(e).NumMethod() == 0 && e.Name()[len(e.Name())-1] != ']' {
				f.Anonymous = true
				f.Name = e.Name()
				f.Tag = ""
			}
		}
		fs = append(fs, f)
	}
	return structOf(fs)
}

func structOf(fs []reflect.StructField) (t reflect.Type) {
	defer func() {
		if recover() != nil {
			for i := range fs {
				if fs[i].Anonymous {
					fs[i].Anonymous = false
					fs[i].Name = "F" + strconv.Itoa(i)
				}
			}
			t = reflect.StructOf(fs)
		}
	}()
	return reflect.StructOf(fs)
}

func tagFor(r *rng, t reflect.Type) reflect.StructTag {
	name := ""
	if r.p(30) {
		name = []string{"a", "b", "key<>", "x&", "ü", "long-name-of-a-field", "f0", "F1"}[r.n(8)]
	}
	switch r.n(8) {
	case 0, 1:
		return reflect.StructTag(`json:"` + name + `,omitempty"`)
	case 2, 3:
		return reflect.StructTag(`json:"` + name + `,omitnil"`)
	case 4:
		if isNumKind(t.Kind()) && t != tDuration {
			return reflect.StructTag(`json:"` + name + `,string"`)
		}
	}
	if name != "" {
		return reflect.StructTag(`json:"` + name + `"`)
	}
	return ""
}

func isNumKind(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Float64
}

// ValSpec names a value.
type ValSpec struct {
	Type  TypeRef `json:"type"`
	Ptr   bool    `json:"ptr,omitempty"` // encode a pointer to it
	Seed  uint64  `json:"seed"`
	Size  int     `json:"size"`
	Theme []int   `json:"theme,omitempty"` // bases that fill interfaces
	Bad   bool    `json:"bad,omitempty"`   // may contain values that cannot be encoded
	Plain bool    `json:"plain,omitempty"` // no special strings
	// SMKeys: keys of sync.Maps have distinct texts: 1 strings, 2 integers, 3 named strings
	SMKeys int `json:"smkeys,omitempty"`
	// Deep: nested this deep; Wide: with a container of so many elements
	Deep int `json:"deep,omitempty"`
	Wide int `json:"wide,omitempty"`
	// Big: with a string of so many bytes
	Big int `json:"big,omitempty"`
	// Edge: strings and memory without pointers at the edge of what can be accessed
	Edge bool `json:"edge,omitempty"`
	// Pal: values with the same number have scalars in common
	Pal uint64 `json:"pal,omitempty"`
	// Share: parts of the value occur several times in it
	Share bool `json:"share,omitempty"`
	// Tweaks: changes made in place afterwards
	Tweaks []uint64 `json:"tweaks,omitempty"`
}

type gen struct {
	r      *rng
	budget int
	id     int32
	theme  []int
	bad    bool
	plain  bool
	maxDep int
	smKeys int
	deep   bool
	wide   int
	big    int
	pal    *palette
	share  bool
	near   []byte // what keys of maps have in common
	kept   map[reflect.Type][]shared
}

// palette is a set of scalars that occur again and again, as values of
// different types and in different guises.
type palette struct {
	f [3]float64
	n [3]int64
	t [2]time.Time
	z [4]*time.Location
	s [3]string
}

func newPalette(seed uint64, plain bool) *palette {
	if seed == 0 {
		return nil
	}
	r := newRng(seed, 11)
	g := &gen{r: r, plain: plain}
	p := &palette{}
	for i := range p.f {
		p.f[i] = g.float()
		if r.p(50) {
			p.f[i] = float64(float32(p.f[i]))
		}
		p.n[i] = g.int64()
	}
	p.f[0] = float64(p.n[0])
	for i := range p.t {
		p.t[i] = g.time()
		if p.t[i].Year() == 1 {
			p.t[i] = p.t[i].AddDate(1, 0, 0) // never in the year 0, in any zone
		}
	}
	z := g.zone()
	_, off := time.Time{}.In(z).Zone()
	p.z = [4]*time.Location{time.UTC, z, time.FixedZone(zoneNames[r.n(len(zoneNames))], off), g.zone()}
	for i := range p.s {
		p.s[i] = g.str()
	}
	if !plain && r.p(50) {
		p.s[0] = strconv.FormatInt(p.n[0], 10)
	}
	return p
}

// Value builds the value: the same one every time.
func (vs *ValSpec) Value() (any, []*simsync.Map) {
	v := vs.base()
	for _, s := range vs.Tweaks {
		tweak(vs, v, s)
	}
	if vs.Ptr {
		p := v.Addr().Interface()
		return p, syncMaps(p)
	}
	if vs.Edge && isFlat(v.Type()) && len(vs.Tweaks) == 0 {
		return edgeIface(v), nil
	}
	x := v.Interface()
	return x, syncMaps(x)
}

// syncMaps lists the sync.Maps reachable from v that have an address.
func syncMaps(v any) []*simsync.Map {
	var l []*simsync.Map
	seen := map[hkey]bool{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 60 {
			return
		}
		t := v.Type()
		if t == tSyncMap {
			if !v.CanAddr() {
				return
			}
			m := (*simsync.Map)(v.Addr().UnsafePointer())
			l = append(l, m)
			m.Range(func(_, x any) bool {
				if x != nil {
					walk(reflect.ValueOf(x), d+1)
				}
				return true
			})
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			k := hkey{v.UnsafePointer(), t}
			if seen[k] {
				return
			}
			seen[k] = true
			walk(v.Elem(), d+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), d+1)
			}
		case reflect.Slice, reflect.Array:
			if !mayHoldSM(t.Elem()) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		}
	}
	if v != nil {
		walk(reflect.ValueOf(v), 0)
	}
	return l
}

func mayHoldSM(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Array, reflect.Struct:
		return true
	}
	return false
}

func (g *gen) nextID() int32 {
	g.id++
	return g.id
}

var sizes = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500}
var bigSizes = []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4090, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 20000, 33000, 66000}

var frags = []string{"a", "Z", "0", " ", "<", ">", "&", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x00", "\x1f", "\x7f", "é", "日本", "\u2028", "\u2029", "😀", "\xff", "\xc0\x80", "\xed\xa0\x80", "\ufffd", "null", "true", "{}", "hello world", "'"}

func (g *gen) str() string {
	r := g.r
	n := 0
	if n, g.big = g.big, 0; n > 0 {
		// Below.
	} else if p := g.pal; p != nil && r.p(25) {
		return p.s[r.n(3)]
	}
	switch k := r.n(20); {
	case n > 0:
	case k == 0:
		n = sizes[r.n(len(sizes))]
	case k == 1:
		if r.n(12) == 0 {
			n = bigSizes[r.n(len(bigSizes))]
		} else {
			n = sizes[r.n(len(sizes))]
		}
	default:
		n = r.n(12)
	}
	if g.plain {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.n(26))
		}
		return string(b)
	}
	if n > 100 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(' ' + (i*7+n)%90)
		}
		if r.p(50) {
			f := frags[r.n(len(frags))]
			copy(b[r.n(n-len(f)):], f)
		}
		return string(b)
	}
	s := ""
	for i := 0; i < n; i++ {
		if r.p(60) {
			s += string(rune('a' + r.n(26)))
		} else {
			s += frags[r.n(len(frags))]
		}
	}
	return s
}

// literal makes a number literal.
func (g *gen) literal() string {
	r := g.r
	digits := func() string {
		b := make([]byte, 1+r.n(6))
		for i := range b {
			b[i] = '0' + byte(r.n(10))
			if r.p(20) {
				b[i] = "09"[r.n(2)]
			}
		}
		return string(b)
	}
	s := ""
	if r.p(40) {
		s = "-"
	}
	if r.p(25) {
		s += "0"
	} else {
		s += string(rune('1'+r.n(9))) + digits()[1:]
	}
	if r.p(50) {
		s += "." + digits()
	}
	if r.p(50) {
		s += string("eE"[r.n(2)]) + []string{"", "+", "-"}[r.n(3)] + digits()
	}
	return s
}

func (g *gen) count(dep int) int {
	r := g.r
	if g.budget <= 0 || dep > g.maxDep {
		return 0
	}
	n := 0
	if g.wide > 0 && dep <= 2 && r.p(60) {
		n, g.wide = g.wide, 0
		return n
	}
	if g.deep && r.p(94) {
		return 1
	}
	switch r.n(16) {
	case 0:
		n = 0
	case 1, 2, 3:
		n = 1
	case 4:
		n = sizes[r.n(14)]
	case 5:
		if dep <= 1 && r.n(4) == 0 {
			n = sizes[r.n(len(sizes))]
		} else {
			n = 8 + r.n(3)
		}
	default:
		n = 1 + r.n(5)
	}
	if n > g.budget {
		n = g.budget
	}
	return n
}

func (g *gen) nilOdds(n int) int {
	if g.deep {
		return 100 * n
	}
	return n
}

func (g *gen) time() time.Time {
	r := g.r
	y := []int{1, 2, 99, 999, 1000, 1900, 1969, 1970, 2000, 2023, 2024, 9998, 9999}[r.n(13)]
	ns := []int{0, 1, 10, 500, 1000, 123456789, 999999999, 100000000, 120000000}[r.n(9)]
	loc := time.UTC
	if p := g.pal; p != nil && r.p(50) {
		// The same instants in several places.
		return p.t[r.n(2)].In(p.z[r.n(4)])
	}
	if r.p(50) {
		loc = g.zone()
	}
	if y == 1 || y == 9999 {
		loc = time.UTC
	}
	mo, d := time.Month(1+r.n(12)), 1+r.n(28)
	switch {
	case g.bad && r.p(12):
		y = []int{-1, 10000, 12023, -400}[r.n(4)]
	case r.p(25):
		// The ends of months, of centuries in particular.
		y = 100 * (1 + r.n(99))
		if r.p(30) {
			y += r.n(100)
		}
		if r.p(60) {
			mo, d = time.March, -1+r.n(3)
		} else {
			d = -1 + r.n(3)
		}
	}
	return time.Date(y, mo, d, r.n(24), r.n(60), r.n(60), ns, loc)
}

var zoneNames = []string{"Z", "CET", "BST", "", "+0100", "Ünïcode"}

func (g *gen) zone() *time.Location {
	r := g.r
	return time.FixedZone(zoneNames[r.n(len(zoneNames))], (r.n(27)-13)*3600+r.n(4)*900)
}

func (g *gen) float() float64 {
	r := g.r
	if p := g.pal; p != nil && r.p(40) {
		return p.f[r.n(3)]
	}
	switch r.n(8) {
	case 0, 1:
		return float64(r.n(200000)-100000) / []float64{1, 3, 7, 10, 100, 1000, 65536}[r.n(7)]
	case 2:
		for {
			f := math.Float64frombits(r.next())
			if a := math.Abs(f); a < 1e30 && a > 1e-30 {
				return f
			}
		}
	}
	return []float64{0, 1, -1, 0.5, 1e-7, 1e21, 123456.789, 1e20, -2.5e-9, math.Copysign(0, -1), 3.4e38, 100}[r.n(12)]
}

func (g *gen) int64() int64 {
	r := g.r
	if p := g.pal; p != nil && r.p(40) {
		return p.n[r.n(3)]
	}
	switch r.n(6) {
	case 0:
		return 0
	case 1:
		return int64(r.next())
	case 2:
		return []int64{math.MaxInt64, math.MinInt64, -1, 1, 9, 10, 99, 100, 999999, -999999999999}[r.n(10)]
	}
	return int64(r.n(2000)) - 500
}

var rawMsgs = []string{`{}`, `null`, ` [1, 2 ,3 ] `, `"a<b>&\u2028"`, "\"\u2028\u2029x\"", `{"a" : {"b":[true,false,null]}, "c":"d\\\"e"}`, "\n1.5e3\t", `"\\"`, `{"x":"\u003c"}`, `""`, "[\"\xff\"]"}
var badRaw = []string{``, `{`, `[1,`, `"abc`, `tru`, `{"a":1}}`, `1 2`, `{"a" 1}`, "\"\n\"", `01`, `"\x"`, `,`, `nul`, ` `}

func (g *gen) fill(v reflect.Value, dep int) {
	if !g.share {
		g.fillNew(v, dep)
		return
	}
	r, t := g.r, v.Type()
	k := t.Kind()
	ref := k == reflect.Pointer || k == reflect.Slice || k == reflect.Map
	if l := g.kept[t]; ref && len(l) > 0 && r.p(35) {
		x := l[r.n(len(l))]
		if x.weight <= g.budget {
			g.budget -= x.weight
			v.Set(x.v)
			if n := x.v.Len; k == reflect.Slice && n() > 0 && r.p(50) {
				i := 0
				if r.p(50) {
					i = r.n(n() + 1)
				}
				v.Set(x.v.Slice(i, i+r.n(n()-i+1)))
			}
			return
		}
	}
	b := g.budget
	g.fillNew(v, dep)
	// Only what is complete is shared: there are no cycles.
	w := b - g.budget
	if w < 1 {
		w = 1
	}
	if ref && !v.IsNil() {
		g.keep(t, reflect.ValueOf(v.Interface()), w)
	}
	if v.CanAddr() && r.p(20) {
		g.keep(reflect.PointerTo(t), v.Addr(), w+1)
	}
}

// shared is a part of the value that may occur again.
type shared struct {
	v      reflect.Value
	weight int
}

func (g *gen) keep(t reflect.Type, v reflect.Value, w int) {
	if g.kept == nil {
		g.kept = map[reflect.Type][]shared{}
	}
	if len(g.kept[t]) < 20 {
		g.kept[t] = append(g.kept[t], shared{v, w})
	}
}

// fillNew fills in v, with parts of its own.
func (g *gen) fillNew(v reflect.Value, dep int) {
	t := v.Type()
	r := g.r
	if ti := infoOf[t]; ti != nil {
		g.budget--
		switch ti.Shape {
		case "Map", "Slice", "Func", "PSt", "PSt2", "Arr1", "Arr2", "PArr", "Any", "Str", "Bytes", "Chan":
			if r.n(14) == 0 {
				return // zero value
			}
		}
		v.Set(reflect.ValueOf(ti.mk(g.nextID())))
		return
	}
	switch t {
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tDuration:
		d := []time.Duration{0, 1, -1, 999, 1500, time.Millisecond, time.Second, 90 * time.Minute, -time.Hour, 1<<63 - 1, -1 << 63, 123456789, 3*time.Hour + 4*time.Microsecond}
		v.SetInt(int64(d[r.n(len(d))]))
		return
	case tNumber:
		if g.bad && r.n(6) == 0 {
			if r.p(50) {
				v.SetString(string(mutate([]byte(g.literal()), int64(r.n(1<<30)))))
				return
			}
			v.SetString([]string{"abc", "1.", "-", "01", "1e", "+1", "0x1", ".5", "1e+", "-01", "1 ", "1,2", "NaN"}[r.n(13)])
			return
		}
		if r.p(60) {
			v.SetString(g.literal())
			return
		}
		v.SetString([]string{"", "0", "-0", "123", "1.5", "1e10", "-1.5E-7", "99999999999999999999999", "1E+5", "0.0", "-0.50e-01"}[r.n(11)])
		return
	case tRaw:
		if r.n(6) == 0 {
			return
		}
		s := rawMsgs[r.n(len(rawMsgs))]
		if r.n(25) == 0 {
			k := sizes[r.n(len(sizes))]
			if r.n(6) == 0 && g.budget > 0 {
				k = bigSizes[r.n(len(bigSizes))]
				g.budget -= 10
			}
			u := denseJSON[r.n(len(denseJSON))]
			s = [...]string{`"`, ` "`, `["`}[k%3] + strings.Repeat(u, 1+k/len(u)) + [...]string{`"`, "\"\n", `"]`}[k%3]
		}
		if g.bad && r.n(4) == 0 {
			s = badRaw[r.n(len(badRaw))]
			switch r.n(4) {
			case 0:
				s = garbage[r.n(len(garbage))]
			case 1, 2:
				s = string(mutate([]byte(rawMsgs[r.n(len(rawMsgs))]), int64(r.n(1<<20))))
			}
		}
		v.SetBytes([]byte(s))
		return
	case tSyncMap:
		g.fillSyncMap(v.Addr().Interface().(*simsync.Map), dep)
		return
	}
	if _, ok := delegTypes[t]; ok {
		g.budget--
		v.FieldByName("ID").SetInt(int64(g.nextID()))
		// Each level of these goes over the output of those below.
		max := g.maxDep
		if max > dep+12 {
			g.maxDep = dep + 12
		}
		g.fill(v.FieldByName("Inner"), dep+1)
		g.maxDep = max
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.p(60))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int64() << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.int64()) << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Float32, reflect.Float64:
		if g.bad && r.n(4) == 0 {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.n(3)])
			return
		}
		f := g.float()
		if t.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Pointer:
		if dep > g.maxDep || g.budget <= 0 && t.Elem().Kind() != reflect.Pointer || r.n(g.nilOdds(5)) == 0 && t.Elem() != tSyncMap {
			return
		}
		g.budget--
		p := reflect.New(t.Elem())
		g.fill(p.Elem(), dep+1)
		v.Set(p)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && infoOf[t.Elem()] == nil {
			if r.n(6) == 0 {
				return
			}
			s := g.str()
			if g.plain {
				s = strconv.Itoa(r.n(1000))
			}
			b := make([]byte, len(s), len(s)+r.n(4))
			copy(b, s)
			v.SetBytes(b)
			return
		}
		n := g.count(dep)
		if n == 0 {
			if r.p(50) {
				v.Set(reflect.MakeSlice(t, 0, r.n(2)))
			}
			return
		}
		g.budget -= n
		s := reflect.MakeSlice(t, n, n+r.n(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), dep+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), dep+1)
		}
	case reflect.Map:
		n := g.count(dep)
		if n == 0 {
			if r.p(50) {
				v.Set(reflect.MakeMap(t))
			}
			return
		}
		g.budget -= n
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			g.key(k)
			if m.MapIndex(k).IsValid() {
				continue
			}
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, dep+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fillField(v.Field(i), t.Field(i), dep)
		}
	case reflect.Interface:
		g.fillIface(v, t, dep)
	}
}

func (g *gen) fillField(f reflect.Value, sf reflect.StructField, dep int) {
	if !f.CanSet() {
		if sf.Anonymous && f.Kind() == reflect.Struct {
			for i := 0; i < f.NumField(); i++ {
				g.fillField(f.Field(i), sf.Type.Field(i), dep)
			}
		} else if sf.Anonymous && f.Kind() == reflect.Pointer && f.CanAddr() && g.r.p(70) {
			p := reflect.New(sf.Type.Elem())
			g.fill(p.Elem(), dep+1)
			*(*uintptrPtr)(ptrTo(f)) = uintptrPtr(p.UnsafePointer())
		}
		return
	}
	if sf.Anonymous && sf.Type.Kind() == reflect.Interface {
		// Never nil: promoted methods would be called on nothing.
		if sf.Type.NumMethod() == 0 {
			f.Set(reflect.ValueOf(g.r.n(100)))
		}
		g.fillIface(f, sf.Type, dep)
		for f.Kind() == reflect.Interface && f.IsNil() {
			l := implsOf(sf.Type)
			im := l[g.r.n(len(l))]
			p := reflect.New(im.t)
			p.Elem().Set(reflect.ValueOf(infoOf[im.t].mk(g.nextID())))
			g.budget--
			if im.ptr {
				f.Set(p)
			} else {
				f.Set(p.Elem())
			}
		}
		return
	}
	g.fill(f, dep+1)
}

// implementors of the callback interfaces: value or pointer
type impl struct {
	t   reflect.Type
	ptr bool
}

var implCache = map[reflect.Type][]impl{}

func implsOf(it reflect.Type) []impl {
	if l, ok := implCache[it]; ok {
		return l
	}
	var l []impl
	for _, ti := range infos {
		if ti.T.Implements(it) {
			l = append(l, impl{ti.T, false})
		}
		if reflect.PointerTo(ti.T).Implements(it) {
			l = append(l, impl{ti.T, true})
		}
	}
	implCache[it] = l
	return l
}

func (g *gen) fillIface(v reflect.Value, t reflect.Type, dep int) {
	r := g.r
	if r.n(g.nilOdds(6)) == 0 || dep > g.maxDep || g.budget < -20 {
		return
	}
	g.budget--
	if t.NumMethod() > 0 {
		l := implsOf(t)
		im := l[r.n(len(l))]
		p := reflect.New(im.t)
		g.fill(p.Elem(), dep+1)
		if im.ptr {
			v.Set(p)
		} else {
			v.Set(p.Elem())
		}
		return
	}
	var e reflect.Type
	switch {
	case g.budget <= 0 || r.p(25):
		e = plainBases[r.n(15)]
	case len(g.theme) > 0 && (g.deep || r.p(75)):
		e = bases[g.theme[r.n(len(g.theme))]]
	case r.p(60):
		e = infos[r.n(len(infos))].T
	default:
		e = plainBases[r.n(len(plainBases))]
	}
	if e.Kind() == reflect.Interface {
		e = rt0[string]()
	}
	if g.bad && r.n(10) == 0 {
		v.Set(reflect.ValueOf([]any{make(chan int), func() {}, complex(1, 2), struct{ C chan int }{}, map[bool]int{true: 1}, [1]func(){nil}}[r.n(6)]))
		return
	}
	p := reflect.New(e)
	g.fill(p.Elem(), dep+1)
	switch r.n(4) {
	case 0:
		v.Set(p)
	default:
		v.Set(p.Elem())
	}
}

// key fills a map key.
const nearEnds = "ab\x00\x01\x7f\x80\xff~ \"\\<\xc3\xa9"

func (g *gen) key(k reflect.Value) {
	r := g.r
	t := k.Type()
	if ti := infoOf[t]; ti != nil {
		k.Set(reflect.ValueOf(ti.mk(g.nextID())))
		return
	}
	switch {
	case t == tTime || t == tDuration || t == tNumber:
		g.fill(k, 1)
		if t == tDuration && r.p(50) {
			k.SetInt(g.int64())
		}
	case t.Kind() == reflect.String:
		switch {
		case r.p(45):
			k.SetString("k" + strconv.Itoa(r.n(500)))
		case r.p(25):
			// Keys that have much in common.
			if g.near == nil {
				p := sizes[r.n(len(sizes))]
				if r.n(8) == 0 {
					p = bigSizes[r.n(10)]
				}
				b := make([]byte, p, p+3)
				for i := range b {
					b[i] = byte('a' + i%23)
				}
				g.near = b
			}
			b := append([]byte(nil), g.near...)
			if g.plain {
				b = append(b, "aaabczA0"[:r.n(9)]...)
			} else {
				for i := r.n(3); i > 0; i-- {
					b = append(b, nearEnds[r.n(len(nearEnds))])
				}
			}
			if r.p(20) && len(b) > 0 {
				b[r.n(len(b))]++
			}
			k.SetString(string(b))
		default:
			k.SetString(g.str())
		}
	case t.Kind() == reflect.Interface:
		c := []reflect.Type{rt0[CbStruct_Tv](), rt0[CbInt_Tv](), rt0[CbStr_Tv](), rt0[*CbStruct_Tp](), rt0[CbPSt_Tv]()}
		e := reflect.New(c[r.n(len(c))]).Elem()
		if e.Kind() == reflect.Pointer {
			e.Set(reflect.New(e.Type().Elem()))
			g.key(e.Elem())
		} else {
			g.key(e)
		}
		k.Set(e)
	case t.Kind() == reflect.Pointer:
		if r.n(10) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		g.key(p.Elem())
		k.Set(p)
	default:
		g.fill(k, 1)
	}
}

var smKeyTypes = []reflect.Type{rt0[string](), rt0[string](), rt0[MyStr](), rt0[int](), rt0[uint8](), rt0[MyInt](), rt0[CbStruct_Tv](), rt0[CbInt_Tv](), rt0[*CbStruct_Tp](), rt0[CbInt_JvTv](), rt0[time.Duration](), rt0[time.Time](), rt0[CbPSt_Tv](), rt0[CbInt_Jv](), rt0[CbStruct_JvTv](), rt0[CbStr_Tv]()}

func smKey(kind, i int) any {
	switch kind {
	case 1:
		return "key" + strconv.Itoa(i*7%23) + "<"
	case 2:
		return i*37%41 - 5
	}
	return MyStr("k" + strconv.Itoa(i*11%29))
}

func (g *gen) fillSyncMap(m *simsync.Map, dep int) {
	n := g.count(dep)
	if g.r.p(40) && n < 3 {
		n += 1 + g.r.n(3)
	}
	g.budget -= n
	mixed := g.r.p(40)
	kt := smKeyTypes[g.r.n(len(smKeyTypes))]
	if g.r.p(60) {
		kt = smKeyTypes[g.r.n(6)]
	}
	for i := 0; i < n; i++ {
		if mixed {
			kt = smKeyTypes[g.r.n(len(smKeyTypes))]
		}
		k := reflect.New(kt).Elem()
		if kt.Kind() == reflect.Pointer {
			k.Set(reflect.New(kt.Elem()))
			g.key(k.Elem())
		} else {
			g.key(k)
		}
		key := k.Interface()
		if g.smKeys != 0 {
			key = smKey(g.smKeys, i)
		}
		if g.bad && g.r.n(12) == 0 {
			key = []any{nil, 1.5, true, Plain{}}[g.r.n(4)]
		}
		if _, ok := m.Load(key); ok {
			continue
		}
		var val any
		g.fillIface(reflect.ValueOf(&val).Elem(), tAny, dep+1)
		m.Store(key, val)
	}
}
