package wl

import (
	"context"
	"encoding"
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/simsync"
)

const (
	magic    = 0x5eed1e55
	zeroID   = 900001 // receivers of zero size have no identity
	nilRecv  = 900002 // a nil receiver
	badID    = 900666 // the receiver is not a value the plan contains
	u8Base   = 800000 // receivers of one byte
	u8Values = 200
)

type payload struct {
	Magic uint64
	ID    int32
	Fill  [6]uint64
}

func mkPay(id int32) *payload {
	p := &payload{Magic: magic<<8 | 0x11, ID: id}
	for i := range p.Fill {
		p.Fill[i] = uint64(id)*0x9e3779b97f4a7c15 + uint64(i)
	}
	return p
}

func idPay(p *payload) int32 {
	if p == nil {
		return nilRecv
	}
	if p.Magic != magic<<8|0x11 {
		return badID
	}
	for i := range p.Fill {
		if p.Fill[i] != uint64(p.ID)*0x9e3779b97f4a7c15+uint64(i) {
			return badID
		}
	}
	return p.ID
}

func idStruct(m uint32, id int32) int32 {
	if m != magic {
		if m == 0 && id == 0 {
			return nilRecv
		}
		return badID
	}
	return id
}

func mkInt(id int32) int64 { return magic<<24 | int64(id) }
func idInt(v int64) int32 {
	if v == 0 {
		return nilRecv
	}
	if v>>24 != magic {
		return badID
	}
	return int32(v & 0xffffff)
}

func mkU8(id int32) uint8 { return uint8(id % u8Values) }
func idU8(v uint8) int32  { return u8Base + int32(v) }

func mkF64(id int32) float64 { return float64(id) + 0.5 }
func idF64(v float64) int32 {
	if v == 0 {
		return nilRecv
	}
	if v != math.Floor(v)+0.5 || v < 0 || v > 1e7 {
		return badID
	}
	return int32(v)
}

func mkStr(id int32) string { return "cb<#" + strconv.Itoa(int(id)) + ">" }
func idStr(s string) int32 {
	if s == "" {
		return nilRecv
	}
	if !strings.HasPrefix(s, "cb<#") || !strings.HasSuffix(s, ">") {
		return badID
	}
	n, err := strconv.Atoi(s[4 : len(s)-1])
	if err != nil {
		return badID
	}
	return int32(n)
}

func mkSlice(id int32) []int32 { return []int32{magic & 0x7fffffff, id, ^id} }
func idSlice(s []int32) int32 {
	if s == nil {
		return nilRecv
	}
	if len(s) != 3 || s[0] != magic&0x7fffffff || s[2] != ^s[1] {
		return badID
	}
	return s[1]
}

func mkMap(id int32) map[string]int32 { return map[string]int32{"id": id} }
func idMap(m map[string]int32) int32 {
	if m == nil {
		return nilRecv
	}
	if len(m) != 1 {
		return badID
	}
	return m["id"]
}

func mkFunc(id int32) func() int32 {
	return func() int32 { return id }
}
func idFunc(f func() int32) int32 {
	if f == nil {
		return nilRecv
	}
	return f()
}

func idAny(v any) int32 {
	if v == nil {
		return nilRecv
	}
	p, ok := v.(*payload)
	if !ok {
		return badID
	}
	return idPay(p)
}

type ider interface{ zzid() int32 }

func ptrID[T ider](p *T) int32 {
	if p == nil {
		return nilRecv
	}
	return (*p).zzid()
}

// TypeInfo describes a generated callback type.
type TypeInfo struct {
	Name  string
	Shape string
	M     string // e.g. "AvJp"
	T     reflect.Type
	mk    func(id int32) any
}

var infoOf = map[reflect.Type]*TypeInfo{}

func init() {
	for _, ti := range infos {
		infoOf[ti.T] = ti
	}
}

// ---- plain and recursive types

type Plain struct {
	A int
	B string `json:"b"`
	C *float64
}

type Node struct {
	V    int         `json:"v"`
	Cb   CbStruct_Jv `json:"cb"`
	PCb  CbStruct_Ap `json:"pcb"`
	Next *Node       `json:"next,omitempty"`
	Kids []Node      `json:"kids,omitempty"`
	M    map[string]Node
	I    any
}

// Knot has many places for references to the same things.
type Knot[T any] struct {
	V    T
	P, Q *T
	A    []T
	B    []T `json:"b,omitempty"`
	PP   **T
	Next *Knot[T] `json:",omitempty"`
	PA   *[]T     `json:",omitnil"`
	M, N map[string]T
	F    *[2]T
	G    [2]T
	I    any
	L    []*Knot[T]
}

type RecA struct {
	B  *RecB
	N  int
	Cb CbStruct_Cp
}
type RecB struct {
	As []RecA
	C  *RecC
	S  CbPSt_Jv
}
type RecC struct {
	A map[string]RecA `json:",omitempty"`
	B [1]*RecB
	T CbStr_Tv
}

// Generic containers give plenty of distinct recursive types.
type Tree[T any] struct {
	L, R *Tree[T]
	V    T
}
type List[T any] struct {
	Head T
	Tail *List[T] `json:",omitempty"`
}
type Pair[A, B any] struct {
	X A `json:"x"`
	Y B `json:"y"`
}
type Graph[T any] struct {
	Out map[string]*Graph[T]
	V   *T
	In  []Graph[T]
}
type Opt[T any] struct {
	V *T `json:"v,omitnil"`
	W *T `json:"w,omitempty"`
	N int
}

type RSlice []RSlice
type RMap map[string]RMap
type RArr [2]*RArr
type RMix struct{ M map[string][]*RMix }
type RIface struct {
	I any
	N json.Marshaler
}

// ---- pointer shaped types
type PS1 struct{ P *int }
type PS2 struct{ S struct{ M map[string]int } }
type PS3 [1]*Plain
type PS4 [1]map[string]CbStruct_Jv
type PS5 struct{ A [1]*CbStruct_Jp }
type PS6 struct{ P PS1 }
type PS7 struct{ M map[string]*PS1 }
type PS8 [1]PS5
type NArr0 struct{ Z [0]*int }

// ---- embedding
type EmbCb struct {
	CbStruct_Jv
	X int
}
type EmbCbP struct {
	*CbStruct_Ap
	X int
}
type embHidden struct {
	H  int
	Cb CbStruct_Jp
}
type EmbH struct {
	embHidden
	Z string
}
type EmbHP struct {
	*embHidden
	Z string
}
type EmbI struct {
	json.Marshaler
	K int
}
type EmbInt struct {
	MyInt
	S MyStr
}
type Shadow struct {
	Plain
	*Node
	A string `json:"v"`
}
type MyInt int
type MyStr string
type MyBool bool
type MyF32 float32
type MyBytes []byte
type MyU16 uint16

// ---- time and friends
type Times struct {
	T  time.Time
	P  *time.Time
	D  time.Duration
	DP *time.Duration
	L  []time.Time
	M  map[time.Duration]time.Time
	N  json.Number
	R  json.RawMessage
	RP *json.RawMessage
	X  struct{ time.Time }
}

type Ifaces struct {
	A any
	J json.Marshaler
	T encoding.TextMarshaler
	P jettison.AppendMarshaler
	C jettison.AppendMarshalerCtx
	I ider
}

type Bytes struct {
	S []byte
	A [5]byte
	P *[3]byte
	M MyBytes
	L [][]byte
	Z [0]byte
}

type Empty struct{}
type ZeroTail struct {
	A int
	E Empty
	Z CbZero_Jv
}

// ---- sync.Map
type SMHolder struct {
	A int
	M *simsync.Map
	S string
}
type SMValue struct {
	N int
	M simsync.Map
}

// ---- delegating methods: encode their content with the package itself
type DelegA struct {
	ID    int32
	Inner any
}

func (d DelegA) zzid() int32 { return d.ID }
func (d DelegA) AppendJSON(dst []byte) ([]byte, error) {
	return delegate(deA, MA, d.ID, nil, func() ([]byte, error) { return jettison.Append(dst, d.Inner) })
}

type DelegJ struct {
	ID    int32
	Inner any
}

func (d DelegJ) zzid() int32 { return d.ID }
func (d *DelegJ) MarshalJSON() ([]byte, error) {
	return delegate(deJ, MJ, d.ID, nil, func() ([]byte, error) { return jettison.Marshal(d.Inner) })
}

type DelegC struct {
	Inner any
	ID    int32
}

func (d DelegC) zzid() int32 { return d.ID }
func (d DelegC) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return delegate(deC, MC, d.ID, ctx, func() ([]byte, error) {
		return jettison.AppendOpts(dst, d.Inner, jettison.WithContext(ctx))
	})
}

const (
	deA = 10001
	deJ = 10002
	deC = 10003
)

var delegTypes = map[reflect.Type]Method{
	reflect.TypeOf(DelegA{}): MA,
	reflect.TypeOf(DelegJ{}): MJ,
	reflect.TypeOf(DelegC{}): MC,
}

func typeName(ti int) string {
	switch ti {
	case deA:
		return "DelegA"
	case deJ:
		return "DelegJ"
	case deC:
		return "DelegC"
	}
	if ti >= 0 && ti < len(infos) {
		return infos[ti].Name
	}
	return "?"
}

var (
	tAny      = reflect.TypeOf((*any)(nil)).Elem()
	tJ        = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tT        = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tA        = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	tC        = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
	tIder     = reflect.TypeOf((*ider)(nil)).Elem()
	tTime     = reflect.TypeOf(time.Time{})
	tDuration = reflect.TypeOf(time.Duration(0))
	tNumber   = reflect.TypeOf(json.Number(""))
	tRaw      = reflect.TypeOf(json.RawMessage(nil))
	tSyncMap  = reflect.TypeOf((*simsync.Map)(nil)).Elem()
	tPayload  = reflect.TypeOf((*payload)(nil))
	tUnsafe   = reflect.TypeOf(unsafe.Pointer(nil))
)

func rt0[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// base types of the workload; the wrappers of gen.go are built around them.
var plainBases = []reflect.Type{
	rt0[bool](), rt0[int](), rt0[int8](), rt0[int16](), rt0[int32](), rt0[int64](), rt0[uint](), rt0[uint8](), rt0[uint16](), rt0[uint32](), rt0[uint64](), rt0[uintptr](),
	rt0[float32](), rt0[float64](), rt0[string](), rt0[[]byte](), rt0[[3]byte](), rt0[any](),
	rt0[MyInt](), rt0[MyStr](), rt0[MyBool](), rt0[MyF32](), rt0[MyBytes](), rt0[MyU16](),
	rt0[time.Time](), rt0[time.Duration](), rt0[json.Number](), rt0[json.RawMessage](),
	rt0[Plain](), rt0[Empty](), rt0[PS1](), rt0[PS2](), rt0[PS3](), rt0[PS6](), rt0[PS7](), rt0[NArr0](), rt0[EmbInt](), rt0[Bytes](), rt0[Times](),
}

var recBases = []reflect.Type{
	rt0[Node](), rt0[RecA](), rt0[RecB](), rt0[RecC](), rt0[RSlice](), rt0[RMap](), rt0[RArr](), rt0[RMix](), rt0[RIface](),
	rt0[Tree[int]](), rt0[Tree[string]](), rt0[Tree[CbStruct_Jv]](), rt0[Tree[*CbPSt_Ap]](), rt0[Tree[CbStr_Cp]](), rt0[Tree[Plain]](),
	rt0[List[int]](), rt0[List[any]](), rt0[List[CbInt_Tv]](), rt0[List[CbStruct_Jp]](), rt0[List[RecA]](),
	rt0[Graph[int]](), rt0[Graph[CbStruct_Av]](), rt0[Graph[CbMap_Jv]](), rt0[Graph[Tree[int]]](), rt0[Tree[List[CbStruct_Cv]]](),
	rt0[Knot[int]](), rt0[Knot[string]](), rt0[Knot[Plain]](), rt0[Knot[CbStruct_Jp]](), rt0[Knot[CbStruct_Av]](), rt0[Knot[CbStr_Tp]](), rt0[Knot[CbZero_Ap]](), rt0[Knot[[]byte]](),
	rt0[Pair[Node, *Node]](), rt0[Pair[RecA, RecB]](), rt0[Pair[*RecC, []RecA]](), rt0[Opt[Node]](), rt0[Opt[CbStruct_Jv]](), rt0[Opt[Tree[CbStruct_Jp]]](),
}

var miscBases = []reflect.Type{
	rt0[PS4](), rt0[PS5](), rt0[PS8](), rt0[EmbCb](), rt0[EmbCbP](), rt0[EmbH](), rt0[EmbHP](), rt0[EmbI](), rt0[Shadow](), rt0[Ifaces](), rt0[ZeroTail](),
	rt0[DelegA](), rt0[DelegJ](), rt0[DelegC](), rt0[SMHolder](), rt0[*simsync.Map](), rt0[*SMValue](),
	rt0[json.Marshaler](), rt0[encoding.TextMarshaler](), rt0[ider](), rt0[Opt[CbMap_Jv]](), rt0[Pair[CbStruct_Jp, *CbStruct_Jp]](), rt0[Pair[CbStruct_Ap, []CbStruct_Ap]](), rt0[Pair[CbStruct_Cp, map[string]CbStruct_Cp]](), rt0[Pair[CbStr_Tp, any]](),
}
