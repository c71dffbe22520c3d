// Code generated by tools/mktypes.py. DO NOT EDIT.

package wl

import (
	"context"
	"encoding"
	"encoding/json"
	"reflect"
	"time"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/simsync"
)

var (
	_ context.Context
	_ encoding.TextMarshaler
	_ json.Marshaler
	_ time.Time
	_ simsync.Map
	_ jettison.Option
)

type CbStruct_Cv struct {
	Magic uint32
	ID    int32
	Pad   [0]byte
}

func (c CbStruct_Cv) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c CbStruct_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(0, c.zzid(), ctx, dst)
}

type CbStruct_Cp struct {
	Magic uint32
	ID    int32
	Pad   [3]byte
}

func (c CbStruct_Cp) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(1, ptrID(c), ctx, dst)
}

type CbStruct_Av struct {
	Magic uint32
	ID    int32
	Pad   [6]byte
}

func (c CbStruct_Av) zzid() int32                           { return idStruct(c.Magic, c.ID) }
func (c CbStruct_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(2, c.zzid(), dst) }

type CbStruct_Ap struct {
	Magic uint32
	ID    int32
	Pad   [9]byte
}

func (c CbStruct_Ap) zzid() int32                            { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(3, ptrID(c), dst) }

type CbStruct_Jv struct {
	Magic uint32
	ID    int32
	Pad   [12]byte
}

func (c CbStruct_Jv) zzid() int32                  { return idStruct(c.Magic, c.ID) }
func (c CbStruct_Jv) MarshalJSON() ([]byte, error) { return cbJ(4, c.zzid()) }

type CbStruct_Jp struct {
	Magic uint32
	ID    int32
	Pad   [0]byte
}

func (c CbStruct_Jp) zzid() int32                   { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_Jp) MarshalJSON() ([]byte, error) { return cbJ(5, ptrID(c)) }

type CbStruct_Tv struct {
	Magic uint32
	ID    int32
	Pad   [3]byte
}

func (c CbStruct_Tv) zzid() int32                  { return idStruct(c.Magic, c.ID) }
func (c CbStruct_Tv) MarshalText() ([]byte, error) { return cbT(6, c.zzid()) }

type CbStruct_Tp struct {
	Magic uint32
	ID    int32
	Pad   [6]byte
}

func (c CbStruct_Tp) zzid() int32                   { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_Tp) MarshalText() ([]byte, error) { return cbT(7, ptrID(c)) }

type CbInt_Cv int64

func (c CbInt_Cv) zzid() int32 { return idInt(int64(c)) }
func (c CbInt_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(8, c.zzid(), ctx, dst)
}

type CbInt_Cp int64

func (c CbInt_Cp) zzid() int32 { return idInt(int64(c)) }
func (c *CbInt_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(9, ptrID(c), ctx, dst)
}

type CbInt_Av int64

func (c CbInt_Av) zzid() int32                           { return idInt(int64(c)) }
func (c CbInt_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(10, c.zzid(), dst) }

type CbInt_Ap int64

func (c CbInt_Ap) zzid() int32                            { return idInt(int64(c)) }
func (c *CbInt_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(11, ptrID(c), dst) }

type CbInt_Jv int64

func (c CbInt_Jv) zzid() int32                  { return idInt(int64(c)) }
func (c CbInt_Jv) MarshalJSON() ([]byte, error) { return cbJ(12, c.zzid()) }

type CbInt_Jp int64

func (c CbInt_Jp) zzid() int32                   { return idInt(int64(c)) }
func (c *CbInt_Jp) MarshalJSON() ([]byte, error) { return cbJ(13, ptrID(c)) }

type CbInt_Tv int64

func (c CbInt_Tv) zzid() int32                  { return idInt(int64(c)) }
func (c CbInt_Tv) MarshalText() ([]byte, error) { return cbT(14, c.zzid()) }

type CbInt_Tp int64

func (c CbInt_Tp) zzid() int32                   { return idInt(int64(c)) }
func (c *CbInt_Tp) MarshalText() ([]byte, error) { return cbT(15, ptrID(c)) }

type CbU8_Cv uint8

func (c CbU8_Cv) zzid() int32 { return idU8(uint8(c)) }
func (c CbU8_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(16, c.zzid(), ctx, dst)
}

type CbU8_Cp uint8

func (c CbU8_Cp) zzid() int32 { return idU8(uint8(c)) }
func (c *CbU8_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(17, ptrID(c), ctx, dst)
}

type CbU8_Av uint8

func (c CbU8_Av) zzid() int32                           { return idU8(uint8(c)) }
func (c CbU8_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(18, c.zzid(), dst) }

type CbU8_Ap uint8

func (c CbU8_Ap) zzid() int32                            { return idU8(uint8(c)) }
func (c *CbU8_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(19, ptrID(c), dst) }

type CbU8_Jv uint8

func (c CbU8_Jv) zzid() int32                  { return idU8(uint8(c)) }
func (c CbU8_Jv) MarshalJSON() ([]byte, error) { return cbJ(20, c.zzid()) }

type CbU8_Jp uint8

func (c CbU8_Jp) zzid() int32                   { return idU8(uint8(c)) }
func (c *CbU8_Jp) MarshalJSON() ([]byte, error) { return cbJ(21, ptrID(c)) }

type CbU8_Tv uint8

func (c CbU8_Tv) zzid() int32                  { return idU8(uint8(c)) }
func (c CbU8_Tv) MarshalText() ([]byte, error) { return cbT(22, c.zzid()) }

type CbU8_Tp uint8

func (c CbU8_Tp) zzid() int32                   { return idU8(uint8(c)) }
func (c *CbU8_Tp) MarshalText() ([]byte, error) { return cbT(23, ptrID(c)) }

type CbStr_Cv string

func (c CbStr_Cv) zzid() int32 { return idStr(string(c)) }
func (c CbStr_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(24, c.zzid(), ctx, dst)
}

type CbStr_Cp string

func (c CbStr_Cp) zzid() int32 { return idStr(string(c)) }
func (c *CbStr_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(25, ptrID(c), ctx, dst)
}

type CbStr_Av string

func (c CbStr_Av) zzid() int32                           { return idStr(string(c)) }
func (c CbStr_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(26, c.zzid(), dst) }

type CbStr_Ap string

func (c CbStr_Ap) zzid() int32                            { return idStr(string(c)) }
func (c *CbStr_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(27, ptrID(c), dst) }

type CbStr_Jv string

func (c CbStr_Jv) zzid() int32                  { return idStr(string(c)) }
func (c CbStr_Jv) MarshalJSON() ([]byte, error) { return cbJ(28, c.zzid()) }

type CbStr_Jp string

func (c CbStr_Jp) zzid() int32                   { return idStr(string(c)) }
func (c *CbStr_Jp) MarshalJSON() ([]byte, error) { return cbJ(29, ptrID(c)) }

type CbStr_Tv string

func (c CbStr_Tv) zzid() int32                  { return idStr(string(c)) }
func (c CbStr_Tv) MarshalText() ([]byte, error) { return cbT(30, c.zzid()) }

type CbStr_Tp string

func (c CbStr_Tp) zzid() int32                   { return idStr(string(c)) }
func (c *CbStr_Tp) MarshalText() ([]byte, error) { return cbT(31, ptrID(c)) }

type CbF64_Cv float64

func (c CbF64_Cv) zzid() int32 { return idF64(float64(c)) }
func (c CbF64_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(32, c.zzid(), ctx, dst)
}

type CbF64_Cp float64

func (c CbF64_Cp) zzid() int32 { return idF64(float64(c)) }
func (c *CbF64_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(33, ptrID(c), ctx, dst)
}

type CbF64_Av float64

func (c CbF64_Av) zzid() int32                           { return idF64(float64(c)) }
func (c CbF64_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(34, c.zzid(), dst) }

type CbF64_Ap float64

func (c CbF64_Ap) zzid() int32                            { return idF64(float64(c)) }
func (c *CbF64_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(35, ptrID(c), dst) }

type CbF64_Jv float64

func (c CbF64_Jv) zzid() int32                  { return idF64(float64(c)) }
func (c CbF64_Jv) MarshalJSON() ([]byte, error) { return cbJ(36, c.zzid()) }

type CbF64_Jp float64

func (c CbF64_Jp) zzid() int32                   { return idF64(float64(c)) }
func (c *CbF64_Jp) MarshalJSON() ([]byte, error) { return cbJ(37, ptrID(c)) }

type CbF64_Tv float64

func (c CbF64_Tv) zzid() int32                  { return idF64(float64(c)) }
func (c CbF64_Tv) MarshalText() ([]byte, error) { return cbT(38, c.zzid()) }

type CbF64_Tp float64

func (c CbF64_Tp) zzid() int32                   { return idF64(float64(c)) }
func (c *CbF64_Tp) MarshalText() ([]byte, error) { return cbT(39, ptrID(c)) }

type CbSlice_Cv []int32

func (c CbSlice_Cv) zzid() int32 { return idSlice([]int32(c)) }
func (c CbSlice_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(40, c.zzid(), ctx, dst)
}

type CbSlice_Cp []int32

func (c CbSlice_Cp) zzid() int32 { return idSlice([]int32(c)) }
func (c *CbSlice_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(41, ptrID(c), ctx, dst)
}

type CbSlice_Av []int32

func (c CbSlice_Av) zzid() int32                           { return idSlice([]int32(c)) }
func (c CbSlice_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(42, c.zzid(), dst) }

type CbSlice_Ap []int32

func (c CbSlice_Ap) zzid() int32                            { return idSlice([]int32(c)) }
func (c *CbSlice_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(43, ptrID(c), dst) }

type CbSlice_Jv []int32

func (c CbSlice_Jv) zzid() int32                  { return idSlice([]int32(c)) }
func (c CbSlice_Jv) MarshalJSON() ([]byte, error) { return cbJ(44, c.zzid()) }

type CbSlice_Jp []int32

func (c CbSlice_Jp) zzid() int32                   { return idSlice([]int32(c)) }
func (c *CbSlice_Jp) MarshalJSON() ([]byte, error) { return cbJ(45, ptrID(c)) }

type CbSlice_Tv []int32

func (c CbSlice_Tv) zzid() int32                  { return idSlice([]int32(c)) }
func (c CbSlice_Tv) MarshalText() ([]byte, error) { return cbT(46, c.zzid()) }

type CbSlice_Tp []int32

func (c CbSlice_Tp) zzid() int32                   { return idSlice([]int32(c)) }
func (c *CbSlice_Tp) MarshalText() ([]byte, error) { return cbT(47, ptrID(c)) }

type CbBytes_Cv []byte

func (c CbBytes_Cv) zzid() int32 { return idStr(string(c)) }
func (c CbBytes_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(48, c.zzid(), ctx, dst)
}

type CbBytes_Cp []byte

func (c CbBytes_Cp) zzid() int32 { return idStr(string(c)) }
func (c *CbBytes_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(49, ptrID(c), ctx, dst)
}

type CbBytes_Av []byte

func (c CbBytes_Av) zzid() int32                           { return idStr(string(c)) }
func (c CbBytes_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(50, c.zzid(), dst) }

type CbBytes_Ap []byte

func (c CbBytes_Ap) zzid() int32                            { return idStr(string(c)) }
func (c *CbBytes_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(51, ptrID(c), dst) }

type CbBytes_Jv []byte

func (c CbBytes_Jv) zzid() int32                  { return idStr(string(c)) }
func (c CbBytes_Jv) MarshalJSON() ([]byte, error) { return cbJ(52, c.zzid()) }

type CbBytes_Jp []byte

func (c CbBytes_Jp) zzid() int32                   { return idStr(string(c)) }
func (c *CbBytes_Jp) MarshalJSON() ([]byte, error) { return cbJ(53, ptrID(c)) }

type CbBytes_Tv []byte

func (c CbBytes_Tv) zzid() int32                  { return idStr(string(c)) }
func (c CbBytes_Tv) MarshalText() ([]byte, error) { return cbT(54, c.zzid()) }

type CbBytes_Tp []byte

func (c CbBytes_Tp) zzid() int32                   { return idStr(string(c)) }
func (c *CbBytes_Tp) MarshalText() ([]byte, error) { return cbT(55, ptrID(c)) }

type CbMap_Cv map[string]int32

func (c CbMap_Cv) zzid() int32 { return idMap(map[string]int32(c)) }
func (c CbMap_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(56, c.zzid(), ctx, dst)
}

type CbMap_Cp map[string]int32

func (c CbMap_Cp) zzid() int32 { return idMap(map[string]int32(c)) }
func (c *CbMap_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(57, ptrID(c), ctx, dst)
}

type CbMap_Av map[string]int32

func (c CbMap_Av) zzid() int32                           { return idMap(map[string]int32(c)) }
func (c CbMap_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(58, c.zzid(), dst) }

type CbMap_Ap map[string]int32

func (c CbMap_Ap) zzid() int32                            { return idMap(map[string]int32(c)) }
func (c *CbMap_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(59, ptrID(c), dst) }

type CbMap_Jv map[string]int32

func (c CbMap_Jv) zzid() int32                  { return idMap(map[string]int32(c)) }
func (c CbMap_Jv) MarshalJSON() ([]byte, error) { return cbJ(60, c.zzid()) }

type CbMap_Jp map[string]int32

func (c CbMap_Jp) zzid() int32                   { return idMap(map[string]int32(c)) }
func (c *CbMap_Jp) MarshalJSON() ([]byte, error) { return cbJ(61, ptrID(c)) }

type CbMap_Tv map[string]int32

func (c CbMap_Tv) zzid() int32                  { return idMap(map[string]int32(c)) }
func (c CbMap_Tv) MarshalText() ([]byte, error) { return cbT(62, c.zzid()) }

type CbMap_Tp map[string]int32

func (c CbMap_Tp) zzid() int32                   { return idMap(map[string]int32(c)) }
func (c *CbMap_Tp) MarshalText() ([]byte, error) { return cbT(63, ptrID(c)) }

type CbPSt_Cv struct{ P *payload }

func (c CbPSt_Cv) zzid() int32 { return idPay(c.P) }
func (c CbPSt_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(64, c.zzid(), ctx, dst)
}

type CbPSt_Cp struct{ P *payload }

func (c CbPSt_Cp) zzid() int32 { return idPay(c.P) }
func (c *CbPSt_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(65, ptrID(c), ctx, dst)
}

type CbPSt_Av struct{ P *payload }

func (c CbPSt_Av) zzid() int32                           { return idPay(c.P) }
func (c CbPSt_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(66, c.zzid(), dst) }

type CbPSt_Ap struct{ P *payload }

func (c CbPSt_Ap) zzid() int32                            { return idPay(c.P) }
func (c *CbPSt_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(67, ptrID(c), dst) }

type CbPSt_Jv struct{ P *payload }

func (c CbPSt_Jv) zzid() int32                  { return idPay(c.P) }
func (c CbPSt_Jv) MarshalJSON() ([]byte, error) { return cbJ(68, c.zzid()) }

type CbPSt_Jp struct{ P *payload }

func (c CbPSt_Jp) zzid() int32                   { return idPay(c.P) }
func (c *CbPSt_Jp) MarshalJSON() ([]byte, error) { return cbJ(69, ptrID(c)) }

type CbPSt_Tv struct{ P *payload }

func (c CbPSt_Tv) zzid() int32                  { return idPay(c.P) }
func (c CbPSt_Tv) MarshalText() ([]byte, error) { return cbT(70, c.zzid()) }

type CbPSt_Tp struct{ P *payload }

func (c CbPSt_Tp) zzid() int32                   { return idPay(c.P) }
func (c *CbPSt_Tp) MarshalText() ([]byte, error) { return cbT(71, ptrID(c)) }

type CbPSt2_Cv struct {
	P *payload
	Q int
}

func (c CbPSt2_Cv) zzid() int32 { return idPay(c.P) }
func (c CbPSt2_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(72, c.zzid(), ctx, dst)
}

type CbPSt2_Cp struct {
	P *payload
	Q int
}

func (c CbPSt2_Cp) zzid() int32 { return idPay(c.P) }
func (c *CbPSt2_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(73, ptrID(c), ctx, dst)
}

type CbPSt2_Av struct {
	P *payload
	Q int
}

func (c CbPSt2_Av) zzid() int32                           { return idPay(c.P) }
func (c CbPSt2_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(74, c.zzid(), dst) }

type CbPSt2_Ap struct {
	P *payload
	Q int
}

func (c CbPSt2_Ap) zzid() int32                            { return idPay(c.P) }
func (c *CbPSt2_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(75, ptrID(c), dst) }

type CbPSt2_Jv struct {
	P *payload
	Q int
}

func (c CbPSt2_Jv) zzid() int32                  { return idPay(c.P) }
func (c CbPSt2_Jv) MarshalJSON() ([]byte, error) { return cbJ(76, c.zzid()) }

type CbPSt2_Jp struct {
	P *payload
	Q int
}

func (c CbPSt2_Jp) zzid() int32                   { return idPay(c.P) }
func (c *CbPSt2_Jp) MarshalJSON() ([]byte, error) { return cbJ(77, ptrID(c)) }

type CbPSt2_Tv struct {
	P *payload
	Q int
}

func (c CbPSt2_Tv) zzid() int32                  { return idPay(c.P) }
func (c CbPSt2_Tv) MarshalText() ([]byte, error) { return cbT(78, c.zzid()) }

type CbPSt2_Tp struct {
	P *payload
	Q int
}

func (c CbPSt2_Tp) zzid() int32                   { return idPay(c.P) }
func (c *CbPSt2_Tp) MarshalText() ([]byte, error) { return cbT(79, ptrID(c)) }

type CbArr1_Cv [1]*payload

func (c CbArr1_Cv) zzid() int32 { return idPay(c[0]) }
func (c CbArr1_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(80, c.zzid(), ctx, dst)
}

type CbArr1_Cp [1]*payload

func (c CbArr1_Cp) zzid() int32 { return idPay(c[0]) }
func (c *CbArr1_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(81, ptrID(c), ctx, dst)
}

type CbArr1_Av [1]*payload

func (c CbArr1_Av) zzid() int32                           { return idPay(c[0]) }
func (c CbArr1_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(82, c.zzid(), dst) }

type CbArr1_Ap [1]*payload

func (c CbArr1_Ap) zzid() int32                            { return idPay(c[0]) }
func (c *CbArr1_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(83, ptrID(c), dst) }

type CbArr1_Jv [1]*payload

func (c CbArr1_Jv) zzid() int32                  { return idPay(c[0]) }
func (c CbArr1_Jv) MarshalJSON() ([]byte, error) { return cbJ(84, c.zzid()) }

type CbArr1_Jp [1]*payload

func (c CbArr1_Jp) zzid() int32                   { return idPay(c[0]) }
func (c *CbArr1_Jp) MarshalJSON() ([]byte, error) { return cbJ(85, ptrID(c)) }

type CbArr1_Tv [1]*payload

func (c CbArr1_Tv) zzid() int32                  { return idPay(c[0]) }
func (c CbArr1_Tv) MarshalText() ([]byte, error) { return cbT(86, c.zzid()) }

type CbArr1_Tp [1]*payload

func (c CbArr1_Tp) zzid() int32                   { return idPay(c[0]) }
func (c *CbArr1_Tp) MarshalText() ([]byte, error) { return cbT(87, ptrID(c)) }

type CbArr2_Cv [2]*payload

func (c CbArr2_Cv) zzid() int32 { return idPay(c[1]) }
func (c CbArr2_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(88, c.zzid(), ctx, dst)
}

type CbArr2_Cp [2]*payload

func (c CbArr2_Cp) zzid() int32 { return idPay(c[1]) }
func (c *CbArr2_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(89, ptrID(c), ctx, dst)
}

type CbArr2_Av [2]*payload

func (c CbArr2_Av) zzid() int32                           { return idPay(c[1]) }
func (c CbArr2_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(90, c.zzid(), dst) }

type CbArr2_Ap [2]*payload

func (c CbArr2_Ap) zzid() int32                            { return idPay(c[1]) }
func (c *CbArr2_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(91, ptrID(c), dst) }

type CbArr2_Jv [2]*payload

func (c CbArr2_Jv) zzid() int32                  { return idPay(c[1]) }
func (c CbArr2_Jv) MarshalJSON() ([]byte, error) { return cbJ(92, c.zzid()) }

type CbArr2_Jp [2]*payload

func (c CbArr2_Jp) zzid() int32                   { return idPay(c[1]) }
func (c *CbArr2_Jp) MarshalJSON() ([]byte, error) { return cbJ(93, ptrID(c)) }

type CbArr2_Tv [2]*payload

func (c CbArr2_Tv) zzid() int32                  { return idPay(c[1]) }
func (c CbArr2_Tv) MarshalText() ([]byte, error) { return cbT(94, c.zzid()) }

type CbArr2_Tp [2]*payload

func (c CbArr2_Tp) zzid() int32                   { return idPay(c[1]) }
func (c *CbArr2_Tp) MarshalText() ([]byte, error) { return cbT(95, ptrID(c)) }

type CbPArr_Cv struct{ A [1]*payload }

func (c CbPArr_Cv) zzid() int32 { return idPay(c.A[0]) }
func (c CbPArr_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(96, c.zzid(), ctx, dst)
}

type CbPArr_Cp struct{ A [1]*payload }

func (c CbPArr_Cp) zzid() int32 { return idPay(c.A[0]) }
func (c *CbPArr_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(97, ptrID(c), ctx, dst)
}

type CbPArr_Av struct{ A [1]*payload }

func (c CbPArr_Av) zzid() int32                           { return idPay(c.A[0]) }
func (c CbPArr_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(98, c.zzid(), dst) }

type CbPArr_Ap struct{ A [1]*payload }

func (c CbPArr_Ap) zzid() int32                            { return idPay(c.A[0]) }
func (c *CbPArr_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(99, ptrID(c), dst) }

type CbPArr_Jv struct{ A [1]*payload }

func (c CbPArr_Jv) zzid() int32                  { return idPay(c.A[0]) }
func (c CbPArr_Jv) MarshalJSON() ([]byte, error) { return cbJ(100, c.zzid()) }

type CbPArr_Jp struct{ A [1]*payload }

func (c CbPArr_Jp) zzid() int32                   { return idPay(c.A[0]) }
func (c *CbPArr_Jp) MarshalJSON() ([]byte, error) { return cbJ(101, ptrID(c)) }

type CbPArr_Tv struct{ A [1]*payload }

func (c CbPArr_Tv) zzid() int32                  { return idPay(c.A[0]) }
func (c CbPArr_Tv) MarshalText() ([]byte, error) { return cbT(102, c.zzid()) }

type CbPArr_Tp struct{ A [1]*payload }

func (c CbPArr_Tp) zzid() int32                   { return idPay(c.A[0]) }
func (c *CbPArr_Tp) MarshalText() ([]byte, error) { return cbT(103, ptrID(c)) }

type CbFunc_Cv func() int32

func (c CbFunc_Cv) zzid() int32 { return idFunc((func() int32)(c)) }
func (c CbFunc_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(104, c.zzid(), ctx, dst)
}

type CbFunc_Cp func() int32

func (c CbFunc_Cp) zzid() int32 { return idFunc((func() int32)(c)) }
func (c *CbFunc_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(105, ptrID(c), ctx, dst)
}

type CbFunc_Av func() int32

func (c CbFunc_Av) zzid() int32                           { return idFunc((func() int32)(c)) }
func (c CbFunc_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(106, c.zzid(), dst) }

type CbFunc_Ap func() int32

func (c CbFunc_Ap) zzid() int32                            { return idFunc((func() int32)(c)) }
func (c *CbFunc_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(107, ptrID(c), dst) }

type CbFunc_Jv func() int32

func (c CbFunc_Jv) zzid() int32                  { return idFunc((func() int32)(c)) }
func (c CbFunc_Jv) MarshalJSON() ([]byte, error) { return cbJ(108, c.zzid()) }

type CbFunc_Jp func() int32

func (c CbFunc_Jp) zzid() int32                   { return idFunc((func() int32)(c)) }
func (c *CbFunc_Jp) MarshalJSON() ([]byte, error) { return cbJ(109, ptrID(c)) }

type CbFunc_Tv func() int32

func (c CbFunc_Tv) zzid() int32                  { return idFunc((func() int32)(c)) }
func (c CbFunc_Tv) MarshalText() ([]byte, error) { return cbT(110, c.zzid()) }

type CbFunc_Tp func() int32

func (c CbFunc_Tp) zzid() int32                   { return idFunc((func() int32)(c)) }
func (c *CbFunc_Tp) MarshalText() ([]byte, error) { return cbT(111, ptrID(c)) }

type CbChan_Cv chan struct{}

func (c CbChan_Cv) zzid() int32 { return int32(cap(c)) }
func (c CbChan_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(112, c.zzid(), ctx, dst)
}

type CbChan_Cp chan struct{}

func (c CbChan_Cp) zzid() int32 { return int32(cap(c)) }
func (c *CbChan_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(113, ptrID(c), ctx, dst)
}

type CbChan_Av chan struct{}

func (c CbChan_Av) zzid() int32                           { return int32(cap(c)) }
func (c CbChan_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(114, c.zzid(), dst) }

type CbChan_Ap chan struct{}

func (c CbChan_Ap) zzid() int32                            { return int32(cap(c)) }
func (c *CbChan_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(115, ptrID(c), dst) }

type CbChan_Jv chan struct{}

func (c CbChan_Jv) zzid() int32                  { return int32(cap(c)) }
func (c CbChan_Jv) MarshalJSON() ([]byte, error) { return cbJ(116, c.zzid()) }

type CbChan_Jp chan struct{}

func (c CbChan_Jp) zzid() int32                   { return int32(cap(c)) }
func (c *CbChan_Jp) MarshalJSON() ([]byte, error) { return cbJ(117, ptrID(c)) }

type CbChan_Tv chan struct{}

func (c CbChan_Tv) zzid() int32                  { return int32(cap(c)) }
func (c CbChan_Tv) MarshalText() ([]byte, error) { return cbT(118, c.zzid()) }

type CbChan_Tp chan struct{}

func (c CbChan_Tp) zzid() int32                   { return int32(cap(c)) }
func (c *CbChan_Tp) MarshalText() ([]byte, error) { return cbT(119, ptrID(c)) }

type CbAny_Cv struct{ V any }

func (c CbAny_Cv) zzid() int32 { return idAny(c.V) }
func (c CbAny_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(120, c.zzid(), ctx, dst)
}

type CbAny_Cp struct{ V any }

func (c CbAny_Cp) zzid() int32 { return idAny(c.V) }
func (c *CbAny_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(121, ptrID(c), ctx, dst)
}

type CbAny_Av struct{ V any }

func (c CbAny_Av) zzid() int32                           { return idAny(c.V) }
func (c CbAny_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(122, c.zzid(), dst) }

type CbAny_Ap struct{ V any }

func (c CbAny_Ap) zzid() int32                            { return idAny(c.V) }
func (c *CbAny_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(123, ptrID(c), dst) }

type CbAny_Jv struct{ V any }

func (c CbAny_Jv) zzid() int32                  { return idAny(c.V) }
func (c CbAny_Jv) MarshalJSON() ([]byte, error) { return cbJ(124, c.zzid()) }

type CbAny_Jp struct{ V any }

func (c CbAny_Jp) zzid() int32                   { return idAny(c.V) }
func (c *CbAny_Jp) MarshalJSON() ([]byte, error) { return cbJ(125, ptrID(c)) }

type CbAny_Tv struct{ V any }

func (c CbAny_Tv) zzid() int32                  { return idAny(c.V) }
func (c CbAny_Tv) MarshalText() ([]byte, error) { return cbT(126, c.zzid()) }

type CbAny_Tp struct{ V any }

func (c CbAny_Tp) zzid() int32                   { return idAny(c.V) }
func (c *CbAny_Tp) MarshalText() ([]byte, error) { return cbT(127, ptrID(c)) }

type CbZero_Cv struct{}

func (c CbZero_Cv) zzid() int32 { return zeroID }
func (c CbZero_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(128, c.zzid(), ctx, dst)
}

type CbZero_Cp struct{}

func (c CbZero_Cp) zzid() int32 { return zeroID }
func (c *CbZero_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(129, ptrID(c), ctx, dst)
}

type CbZero_Av struct{}

func (c CbZero_Av) zzid() int32                           { return zeroID }
func (c CbZero_Av) AppendJSON(dst []byte) ([]byte, error) { return cbA(130, c.zzid(), dst) }

type CbZero_Ap struct{}

func (c CbZero_Ap) zzid() int32                            { return zeroID }
func (c *CbZero_Ap) AppendJSON(dst []byte) ([]byte, error) { return cbA(131, ptrID(c), dst) }

type CbZero_Jv struct{}

func (c CbZero_Jv) zzid() int32                  { return zeroID }
func (c CbZero_Jv) MarshalJSON() ([]byte, error) { return cbJ(132, c.zzid()) }

type CbZero_Jp struct{}

func (c CbZero_Jp) zzid() int32                   { return zeroID }
func (c *CbZero_Jp) MarshalJSON() ([]byte, error) { return cbJ(133, ptrID(c)) }

type CbZero_Tv struct{}

func (c CbZero_Tv) zzid() int32                  { return zeroID }
func (c CbZero_Tv) MarshalText() ([]byte, error) { return cbT(134, c.zzid()) }

type CbZero_Tp struct{}

func (c CbZero_Tp) zzid() int32                   { return zeroID }
func (c *CbZero_Tp) MarshalText() ([]byte, error) { return cbT(135, ptrID(c)) }

type CbStruct_CvAvJvTv struct {
	Magic uint32
	ID    int32
	Pad   [3]byte
}

func (c CbStruct_CvAvJvTv) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c CbStruct_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(136, c.zzid(), ctx, dst)
}
func (c CbStruct_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(136, c.zzid(), dst) }
func (c CbStruct_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(136, c.zzid()) }
func (c CbStruct_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(136, c.zzid()) }

type CbStruct_JvTv struct {
	Magic uint32
	ID    int32
	Pad   [6]byte
}

func (c CbStruct_JvTv) zzid() int32                  { return idStruct(c.Magic, c.ID) }
func (c CbStruct_JvTv) MarshalJSON() ([]byte, error) { return cbJ(137, c.zzid()) }
func (c CbStruct_JvTv) MarshalText() ([]byte, error) { return cbT(137, c.zzid()) }

type CbStruct_ApJv struct {
	Magic uint32
	ID    int32
	Pad   [9]byte
}

func (c CbStruct_ApJv) zzid() int32                            { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(138, ptrID(c), dst) }
func (c CbStruct_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(138, c.zzid()) }

type CbInt_CvAvJvTv int64

func (c CbInt_CvAvJvTv) zzid() int32 { return idInt(int64(c)) }
func (c CbInt_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(139, c.zzid(), ctx, dst)
}
func (c CbInt_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(139, c.zzid(), dst) }
func (c CbInt_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(139, c.zzid()) }
func (c CbInt_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(139, c.zzid()) }

type CbInt_JvTv int64

func (c CbInt_JvTv) zzid() int32                  { return idInt(int64(c)) }
func (c CbInt_JvTv) MarshalJSON() ([]byte, error) { return cbJ(140, c.zzid()) }
func (c CbInt_JvTv) MarshalText() ([]byte, error) { return cbT(140, c.zzid()) }

type CbInt_ApJv int64

func (c CbInt_ApJv) zzid() int32                            { return idInt(int64(c)) }
func (c *CbInt_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(141, ptrID(c), dst) }
func (c CbInt_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(141, c.zzid()) }

type CbStr_CvAvJvTv string

func (c CbStr_CvAvJvTv) zzid() int32 { return idStr(string(c)) }
func (c CbStr_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(142, c.zzid(), ctx, dst)
}
func (c CbStr_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(142, c.zzid(), dst) }
func (c CbStr_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(142, c.zzid()) }
func (c CbStr_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(142, c.zzid()) }

type CbStr_JvTv string

func (c CbStr_JvTv) zzid() int32                  { return idStr(string(c)) }
func (c CbStr_JvTv) MarshalJSON() ([]byte, error) { return cbJ(143, c.zzid()) }
func (c CbStr_JvTv) MarshalText() ([]byte, error) { return cbT(143, c.zzid()) }

type CbStr_ApJv string

func (c CbStr_ApJv) zzid() int32                            { return idStr(string(c)) }
func (c *CbStr_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(144, ptrID(c), dst) }
func (c CbStr_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(144, c.zzid()) }

type CbPSt_CvAvJvTv struct{ P *payload }

func (c CbPSt_CvAvJvTv) zzid() int32 { return idPay(c.P) }
func (c CbPSt_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(145, c.zzid(), ctx, dst)
}
func (c CbPSt_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(145, c.zzid(), dst) }
func (c CbPSt_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(145, c.zzid()) }
func (c CbPSt_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(145, c.zzid()) }

type CbPSt_JvTv struct{ P *payload }

func (c CbPSt_JvTv) zzid() int32                  { return idPay(c.P) }
func (c CbPSt_JvTv) MarshalJSON() ([]byte, error) { return cbJ(146, c.zzid()) }
func (c CbPSt_JvTv) MarshalText() ([]byte, error) { return cbT(146, c.zzid()) }

type CbPSt_ApJv struct{ P *payload }

func (c CbPSt_ApJv) zzid() int32                            { return idPay(c.P) }
func (c *CbPSt_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(147, ptrID(c), dst) }
func (c CbPSt_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(147, c.zzid()) }

type CbMap_CvAvJvTv map[string]int32

func (c CbMap_CvAvJvTv) zzid() int32 { return idMap(map[string]int32(c)) }
func (c CbMap_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(148, c.zzid(), ctx, dst)
}
func (c CbMap_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(148, c.zzid(), dst) }
func (c CbMap_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(148, c.zzid()) }
func (c CbMap_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(148, c.zzid()) }

type CbMap_JvTv map[string]int32

func (c CbMap_JvTv) zzid() int32                  { return idMap(map[string]int32(c)) }
func (c CbMap_JvTv) MarshalJSON() ([]byte, error) { return cbJ(149, c.zzid()) }
func (c CbMap_JvTv) MarshalText() ([]byte, error) { return cbT(149, c.zzid()) }

type CbMap_ApJv map[string]int32

func (c CbMap_ApJv) zzid() int32                            { return idMap(map[string]int32(c)) }
func (c *CbMap_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(150, ptrID(c), dst) }
func (c CbMap_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(150, c.zzid()) }

type CbSlice_CvAvJvTv []int32

func (c CbSlice_CvAvJvTv) zzid() int32 { return idSlice([]int32(c)) }
func (c CbSlice_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(151, c.zzid(), ctx, dst)
}
func (c CbSlice_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(151, c.zzid(), dst) }
func (c CbSlice_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(151, c.zzid()) }
func (c CbSlice_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(151, c.zzid()) }

type CbSlice_JvTv []int32

func (c CbSlice_JvTv) zzid() int32                  { return idSlice([]int32(c)) }
func (c CbSlice_JvTv) MarshalJSON() ([]byte, error) { return cbJ(152, c.zzid()) }
func (c CbSlice_JvTv) MarshalText() ([]byte, error) { return cbT(152, c.zzid()) }

type CbSlice_ApJv []int32

func (c CbSlice_ApJv) zzid() int32                            { return idSlice([]int32(c)) }
func (c *CbSlice_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(153, ptrID(c), dst) }
func (c CbSlice_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(153, c.zzid()) }

type CbU8_CvAvJvTv uint8

func (c CbU8_CvAvJvTv) zzid() int32 { return idU8(uint8(c)) }
func (c CbU8_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(154, c.zzid(), ctx, dst)
}
func (c CbU8_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) { return cbA(154, c.zzid(), dst) }
func (c CbU8_CvAvJvTv) MarshalJSON() ([]byte, error)          { return cbJ(154, c.zzid()) }
func (c CbU8_CvAvJvTv) MarshalText() ([]byte, error)          { return cbT(154, c.zzid()) }

type CbU8_JvTv uint8

func (c CbU8_JvTv) zzid() int32                  { return idU8(uint8(c)) }
func (c CbU8_JvTv) MarshalJSON() ([]byte, error) { return cbJ(155, c.zzid()) }
func (c CbU8_JvTv) MarshalText() ([]byte, error) { return cbT(155, c.zzid()) }

type CbU8_ApJv uint8

func (c CbU8_ApJv) zzid() int32                            { return idU8(uint8(c)) }
func (c *CbU8_ApJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(156, ptrID(c), dst) }
func (c CbU8_ApJv) MarshalJSON() ([]byte, error)           { return cbJ(156, c.zzid()) }

type CbStruct_AvJv struct {
	Magic uint32
	ID    int32
	Pad   [6]byte
}

func (c CbStruct_AvJv) zzid() int32                           { return idStruct(c.Magic, c.ID) }
func (c CbStruct_AvJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(157, c.zzid(), dst) }
func (c CbStruct_AvJv) MarshalJSON() ([]byte, error)          { return cbJ(157, c.zzid()) }

type CbStruct_JpTv struct {
	Magic uint32
	ID    int32
	Pad   [9]byte
}

func (c CbStruct_JpTv) zzid() int32                   { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_JpTv) MarshalJSON() ([]byte, error) { return cbJ(158, ptrID(c)) }
func (c CbStruct_JpTv) MarshalText() ([]byte, error)  { return cbT(158, c.zzid()) }

type CbStruct_CpAvTp struct {
	Magic uint32
	ID    int32
	Pad   [12]byte
}

func (c CbStruct_CpAvTp) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_CpAvTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(159, ptrID(c), ctx, dst)
}
func (c CbStruct_CpAvTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(159, c.zzid(), dst) }
func (c *CbStruct_CpAvTp) MarshalText() ([]byte, error)         { return cbT(159, ptrID(c)) }

type CbStruct_CvAp struct {
	Magic uint32
	ID    int32
	Pad   [0]byte
}

func (c CbStruct_CvAp) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c CbStruct_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(160, c.zzid(), ctx, dst)
}
func (c *CbStruct_CvAp) AppendJSON(dst []byte) ([]byte, error) { return cbA(160, ptrID(c), dst) }

type CbStruct_CpJpTp struct {
	Magic uint32
	ID    int32
	Pad   [3]byte
}

func (c CbStruct_CpJpTp) zzid() int32 { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_CpJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(161, ptrID(c), ctx, dst)
}
func (c *CbStruct_CpJpTp) MarshalJSON() ([]byte, error) { return cbJ(161, ptrID(c)) }
func (c *CbStruct_CpJpTp) MarshalText() ([]byte, error) { return cbT(161, ptrID(c)) }

type CbStruct_ApTp struct {
	Magic uint32
	ID    int32
	Pad   [6]byte
}

func (c CbStruct_ApTp) zzid() int32                            { return idStruct(c.Magic, c.ID) }
func (c *CbStruct_ApTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(162, ptrID(c), dst) }
func (c *CbStruct_ApTp) MarshalText() ([]byte, error)          { return cbT(162, ptrID(c)) }

type CbPSt_AvJv struct{ P *payload }

func (c CbPSt_AvJv) zzid() int32                           { return idPay(c.P) }
func (c CbPSt_AvJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(163, c.zzid(), dst) }
func (c CbPSt_AvJv) MarshalJSON() ([]byte, error)          { return cbJ(163, c.zzid()) }

type CbPSt_JpTv struct{ P *payload }

func (c CbPSt_JpTv) zzid() int32                   { return idPay(c.P) }
func (c *CbPSt_JpTv) MarshalJSON() ([]byte, error) { return cbJ(164, ptrID(c)) }
func (c CbPSt_JpTv) MarshalText() ([]byte, error)  { return cbT(164, c.zzid()) }

type CbPSt_CpAvTp struct{ P *payload }

func (c CbPSt_CpAvTp) zzid() int32 { return idPay(c.P) }
func (c *CbPSt_CpAvTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(165, ptrID(c), ctx, dst)
}
func (c CbPSt_CpAvTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(165, c.zzid(), dst) }
func (c *CbPSt_CpAvTp) MarshalText() ([]byte, error)         { return cbT(165, ptrID(c)) }

type CbPSt_CvAp struct{ P *payload }

func (c CbPSt_CvAp) zzid() int32 { return idPay(c.P) }
func (c CbPSt_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(166, c.zzid(), ctx, dst)
}
func (c *CbPSt_CvAp) AppendJSON(dst []byte) ([]byte, error) { return cbA(166, ptrID(c), dst) }

type CbPSt_CpJpTp struct{ P *payload }

func (c CbPSt_CpJpTp) zzid() int32 { return idPay(c.P) }
func (c *CbPSt_CpJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(167, ptrID(c), ctx, dst)
}
func (c *CbPSt_CpJpTp) MarshalJSON() ([]byte, error) { return cbJ(167, ptrID(c)) }
func (c *CbPSt_CpJpTp) MarshalText() ([]byte, error) { return cbT(167, ptrID(c)) }

type CbPSt_ApTp struct{ P *payload }

func (c CbPSt_ApTp) zzid() int32                            { return idPay(c.P) }
func (c *CbPSt_ApTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(168, ptrID(c), dst) }
func (c *CbPSt_ApTp) MarshalText() ([]byte, error)          { return cbT(168, ptrID(c)) }

type CbArr1_AvJv [1]*payload

func (c CbArr1_AvJv) zzid() int32                           { return idPay(c[0]) }
func (c CbArr1_AvJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(169, c.zzid(), dst) }
func (c CbArr1_AvJv) MarshalJSON() ([]byte, error)          { return cbJ(169, c.zzid()) }

type CbArr1_JpTv [1]*payload

func (c CbArr1_JpTv) zzid() int32                   { return idPay(c[0]) }
func (c *CbArr1_JpTv) MarshalJSON() ([]byte, error) { return cbJ(170, ptrID(c)) }
func (c CbArr1_JpTv) MarshalText() ([]byte, error)  { return cbT(170, c.zzid()) }

type CbArr1_CpAvTp [1]*payload

func (c CbArr1_CpAvTp) zzid() int32 { return idPay(c[0]) }
func (c *CbArr1_CpAvTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(171, ptrID(c), ctx, dst)
}
func (c CbArr1_CpAvTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(171, c.zzid(), dst) }
func (c *CbArr1_CpAvTp) MarshalText() ([]byte, error)         { return cbT(171, ptrID(c)) }

type CbArr1_CvAp [1]*payload

func (c CbArr1_CvAp) zzid() int32 { return idPay(c[0]) }
func (c CbArr1_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(172, c.zzid(), ctx, dst)
}
func (c *CbArr1_CvAp) AppendJSON(dst []byte) ([]byte, error) { return cbA(172, ptrID(c), dst) }

type CbArr1_CpJpTp [1]*payload

func (c CbArr1_CpJpTp) zzid() int32 { return idPay(c[0]) }
func (c *CbArr1_CpJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(173, ptrID(c), ctx, dst)
}
func (c *CbArr1_CpJpTp) MarshalJSON() ([]byte, error) { return cbJ(173, ptrID(c)) }
func (c *CbArr1_CpJpTp) MarshalText() ([]byte, error) { return cbT(173, ptrID(c)) }

type CbArr1_ApTp [1]*payload

func (c CbArr1_ApTp) zzid() int32                            { return idPay(c[0]) }
func (c *CbArr1_ApTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(174, ptrID(c), dst) }
func (c *CbArr1_ApTp) MarshalText() ([]byte, error)          { return cbT(174, ptrID(c)) }

type CbFunc_AvJv func() int32

func (c CbFunc_AvJv) zzid() int32                           { return idFunc((func() int32)(c)) }
func (c CbFunc_AvJv) AppendJSON(dst []byte) ([]byte, error) { return cbA(175, c.zzid(), dst) }
func (c CbFunc_AvJv) MarshalJSON() ([]byte, error)          { return cbJ(175, c.zzid()) }

type CbFunc_JpTv func() int32

func (c CbFunc_JpTv) zzid() int32                   { return idFunc((func() int32)(c)) }
func (c *CbFunc_JpTv) MarshalJSON() ([]byte, error) { return cbJ(176, ptrID(c)) }
func (c CbFunc_JpTv) MarshalText() ([]byte, error)  { return cbT(176, c.zzid()) }

type CbFunc_CpAvTp func() int32

func (c CbFunc_CpAvTp) zzid() int32 { return idFunc((func() int32)(c)) }
func (c *CbFunc_CpAvTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(177, ptrID(c), ctx, dst)
}
func (c CbFunc_CpAvTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(177, c.zzid(), dst) }
func (c *CbFunc_CpAvTp) MarshalText() ([]byte, error)         { return cbT(177, ptrID(c)) }

type CbFunc_CvAp func() int32

func (c CbFunc_CvAp) zzid() int32 { return idFunc((func() int32)(c)) }
func (c CbFunc_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(178, c.zzid(), ctx, dst)
}
func (c *CbFunc_CvAp) AppendJSON(dst []byte) ([]byte, error) { return cbA(178, ptrID(c), dst) }

type CbFunc_CpJpTp func() int32

func (c CbFunc_CpJpTp) zzid() int32 { return idFunc((func() int32)(c)) }
func (c *CbFunc_CpJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return cbC(179, ptrID(c), ctx, dst)
}
func (c *CbFunc_CpJpTp) MarshalJSON() ([]byte, error) { return cbJ(179, ptrID(c)) }
func (c *CbFunc_CpJpTp) MarshalText() ([]byte, error) { return cbT(179, ptrID(c)) }

type CbFunc_ApTp func() int32

func (c CbFunc_ApTp) zzid() int32                            { return idFunc((func() int32)(c)) }
func (c *CbFunc_ApTp) AppendJSON(dst []byte) ([]byte, error) { return cbA(180, ptrID(c), dst) }
func (c *CbFunc_ApTp) MarshalText() ([]byte, error)          { return cbT(180, ptrID(c)) }

var infos = []*TypeInfo{
	{Name: "CbStruct_Cv", Shape: "Struct", M: "Cv", T: reflect.TypeOf((*CbStruct_Cv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Cv{Magic: magic, ID: id} }},
	{Name: "CbStruct_Cp", Shape: "Struct", M: "Cp", T: reflect.TypeOf((*CbStruct_Cp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Cp{Magic: magic, ID: id} }},
	{Name: "CbStruct_Av", Shape: "Struct", M: "Av", T: reflect.TypeOf((*CbStruct_Av)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Av{Magic: magic, ID: id} }},
	{Name: "CbStruct_Ap", Shape: "Struct", M: "Ap", T: reflect.TypeOf((*CbStruct_Ap)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Ap{Magic: magic, ID: id} }},
	{Name: "CbStruct_Jv", Shape: "Struct", M: "Jv", T: reflect.TypeOf((*CbStruct_Jv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Jv{Magic: magic, ID: id} }},
	{Name: "CbStruct_Jp", Shape: "Struct", M: "Jp", T: reflect.TypeOf((*CbStruct_Jp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Jp{Magic: magic, ID: id} }},
	{Name: "CbStruct_Tv", Shape: "Struct", M: "Tv", T: reflect.TypeOf((*CbStruct_Tv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Tv{Magic: magic, ID: id} }},
	{Name: "CbStruct_Tp", Shape: "Struct", M: "Tp", T: reflect.TypeOf((*CbStruct_Tp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_Tp{Magic: magic, ID: id} }},
	{Name: "CbInt_Cv", Shape: "Int", M: "Cv", T: reflect.TypeOf((*CbInt_Cv)(nil)).Elem(), mk: func(id int32) any { return CbInt_Cv(mkInt(id)) }},
	{Name: "CbInt_Cp", Shape: "Int", M: "Cp", T: reflect.TypeOf((*CbInt_Cp)(nil)).Elem(), mk: func(id int32) any { return CbInt_Cp(mkInt(id)) }},
	{Name: "CbInt_Av", Shape: "Int", M: "Av", T: reflect.TypeOf((*CbInt_Av)(nil)).Elem(), mk: func(id int32) any { return CbInt_Av(mkInt(id)) }},
	{Name: "CbInt_Ap", Shape: "Int", M: "Ap", T: reflect.TypeOf((*CbInt_Ap)(nil)).Elem(), mk: func(id int32) any { return CbInt_Ap(mkInt(id)) }},
	{Name: "CbInt_Jv", Shape: "Int", M: "Jv", T: reflect.TypeOf((*CbInt_Jv)(nil)).Elem(), mk: func(id int32) any { return CbInt_Jv(mkInt(id)) }},
	{Name: "CbInt_Jp", Shape: "Int", M: "Jp", T: reflect.TypeOf((*CbInt_Jp)(nil)).Elem(), mk: func(id int32) any { return CbInt_Jp(mkInt(id)) }},
	{Name: "CbInt_Tv", Shape: "Int", M: "Tv", T: reflect.TypeOf((*CbInt_Tv)(nil)).Elem(), mk: func(id int32) any { return CbInt_Tv(mkInt(id)) }},
	{Name: "CbInt_Tp", Shape: "Int", M: "Tp", T: reflect.TypeOf((*CbInt_Tp)(nil)).Elem(), mk: func(id int32) any { return CbInt_Tp(mkInt(id)) }},
	{Name: "CbU8_Cv", Shape: "U8", M: "Cv", T: reflect.TypeOf((*CbU8_Cv)(nil)).Elem(), mk: func(id int32) any { return CbU8_Cv(mkU8(id)) }},
	{Name: "CbU8_Cp", Shape: "U8", M: "Cp", T: reflect.TypeOf((*CbU8_Cp)(nil)).Elem(), mk: func(id int32) any { return CbU8_Cp(mkU8(id)) }},
	{Name: "CbU8_Av", Shape: "U8", M: "Av", T: reflect.TypeOf((*CbU8_Av)(nil)).Elem(), mk: func(id int32) any { return CbU8_Av(mkU8(id)) }},
	{Name: "CbU8_Ap", Shape: "U8", M: "Ap", T: reflect.TypeOf((*CbU8_Ap)(nil)).Elem(), mk: func(id int32) any { return CbU8_Ap(mkU8(id)) }},
	{Name: "CbU8_Jv", Shape: "U8", M: "Jv", T: reflect.TypeOf((*CbU8_Jv)(nil)).Elem(), mk: func(id int32) any { return CbU8_Jv(mkU8(id)) }},
	{Name: "CbU8_Jp", Shape: "U8", M: "Jp", T: reflect.TypeOf((*CbU8_Jp)(nil)).Elem(), mk: func(id int32) any { return CbU8_Jp(mkU8(id)) }},
	{Name: "CbU8_Tv", Shape: "U8", M: "Tv", T: reflect.TypeOf((*CbU8_Tv)(nil)).Elem(), mk: func(id int32) any { return CbU8_Tv(mkU8(id)) }},
	{Name: "CbU8_Tp", Shape: "U8", M: "Tp", T: reflect.TypeOf((*CbU8_Tp)(nil)).Elem(), mk: func(id int32) any { return CbU8_Tp(mkU8(id)) }},
	{Name: "CbStr_Cv", Shape: "Str", M: "Cv", T: reflect.TypeOf((*CbStr_Cv)(nil)).Elem(), mk: func(id int32) any { return CbStr_Cv(mkStr(id)) }},
	{Name: "CbStr_Cp", Shape: "Str", M: "Cp", T: reflect.TypeOf((*CbStr_Cp)(nil)).Elem(), mk: func(id int32) any { return CbStr_Cp(mkStr(id)) }},
	{Name: "CbStr_Av", Shape: "Str", M: "Av", T: reflect.TypeOf((*CbStr_Av)(nil)).Elem(), mk: func(id int32) any { return CbStr_Av(mkStr(id)) }},
	{Name: "CbStr_Ap", Shape: "Str", M: "Ap", T: reflect.TypeOf((*CbStr_Ap)(nil)).Elem(), mk: func(id int32) any { return CbStr_Ap(mkStr(id)) }},
	{Name: "CbStr_Jv", Shape: "Str", M: "Jv", T: reflect.TypeOf((*CbStr_Jv)(nil)).Elem(), mk: func(id int32) any { return CbStr_Jv(mkStr(id)) }},
	{Name: "CbStr_Jp", Shape: "Str", M: "Jp", T: reflect.TypeOf((*CbStr_Jp)(nil)).Elem(), mk: func(id int32) any { return CbStr_Jp(mkStr(id)) }},
	{Name: "CbStr_Tv", Shape: "Str", M: "Tv", T: reflect.TypeOf((*CbStr_Tv)(nil)).Elem(), mk: func(id int32) any { return CbStr_Tv(mkStr(id)) }},
	{Name: "CbStr_Tp", Shape: "Str", M: "Tp", T: reflect.TypeOf((*CbStr_Tp)(nil)).Elem(), mk: func(id int32) any { return CbStr_Tp(mkStr(id)) }},
	{Name: "CbF64_Cv", Shape: "F64", M: "Cv", T: reflect.TypeOf((*CbF64_Cv)(nil)).Elem(), mk: func(id int32) any { return CbF64_Cv(mkF64(id)) }},
	{Name: "CbF64_Cp", Shape: "F64", M: "Cp", T: reflect.TypeOf((*CbF64_Cp)(nil)).Elem(), mk: func(id int32) any { return CbF64_Cp(mkF64(id)) }},
	{Name: "CbF64_Av", Shape: "F64", M: "Av", T: reflect.TypeOf((*CbF64_Av)(nil)).Elem(), mk: func(id int32) any { return CbF64_Av(mkF64(id)) }},
	{Name: "CbF64_Ap", Shape: "F64", M: "Ap", T: reflect.TypeOf((*CbF64_Ap)(nil)).Elem(), mk: func(id int32) any { return CbF64_Ap(mkF64(id)) }},
	{Name: "CbF64_Jv", Shape: "F64", M: "Jv", T: reflect.TypeOf((*CbF64_Jv)(nil)).Elem(), mk: func(id int32) any { return CbF64_Jv(mkF64(id)) }},
	{Name: "CbF64_Jp", Shape: "F64", M: "Jp", T: reflect.TypeOf((*CbF64_Jp)(nil)).Elem(), mk: func(id int32) any { return CbF64_Jp(mkF64(id)) }},
	{Name: "CbF64_Tv", Shape: "F64", M: "Tv", T: reflect.TypeOf((*CbF64_Tv)(nil)).Elem(), mk: func(id int32) any { return CbF64_Tv(mkF64(id)) }},
	{Name: "CbF64_Tp", Shape: "F64", M: "Tp", T: reflect.TypeOf((*CbF64_Tp)(nil)).Elem(), mk: func(id int32) any { return CbF64_Tp(mkF64(id)) }},
	{Name: "CbSlice_Cv", Shape: "Slice", M: "Cv", T: reflect.TypeOf((*CbSlice_Cv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Cv(mkSlice(id)) }},
	{Name: "CbSlice_Cp", Shape: "Slice", M: "Cp", T: reflect.TypeOf((*CbSlice_Cp)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Cp(mkSlice(id)) }},
	{Name: "CbSlice_Av", Shape: "Slice", M: "Av", T: reflect.TypeOf((*CbSlice_Av)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Av(mkSlice(id)) }},
	{Name: "CbSlice_Ap", Shape: "Slice", M: "Ap", T: reflect.TypeOf((*CbSlice_Ap)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Ap(mkSlice(id)) }},
	{Name: "CbSlice_Jv", Shape: "Slice", M: "Jv", T: reflect.TypeOf((*CbSlice_Jv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Jv(mkSlice(id)) }},
	{Name: "CbSlice_Jp", Shape: "Slice", M: "Jp", T: reflect.TypeOf((*CbSlice_Jp)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Jp(mkSlice(id)) }},
	{Name: "CbSlice_Tv", Shape: "Slice", M: "Tv", T: reflect.TypeOf((*CbSlice_Tv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Tv(mkSlice(id)) }},
	{Name: "CbSlice_Tp", Shape: "Slice", M: "Tp", T: reflect.TypeOf((*CbSlice_Tp)(nil)).Elem(), mk: func(id int32) any { return CbSlice_Tp(mkSlice(id)) }},
	{Name: "CbBytes_Cv", Shape: "Bytes", M: "Cv", T: reflect.TypeOf((*CbBytes_Cv)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Cv(mkStr(id)) }},
	{Name: "CbBytes_Cp", Shape: "Bytes", M: "Cp", T: reflect.TypeOf((*CbBytes_Cp)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Cp(mkStr(id)) }},
	{Name: "CbBytes_Av", Shape: "Bytes", M: "Av", T: reflect.TypeOf((*CbBytes_Av)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Av(mkStr(id)) }},
	{Name: "CbBytes_Ap", Shape: "Bytes", M: "Ap", T: reflect.TypeOf((*CbBytes_Ap)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Ap(mkStr(id)) }},
	{Name: "CbBytes_Jv", Shape: "Bytes", M: "Jv", T: reflect.TypeOf((*CbBytes_Jv)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Jv(mkStr(id)) }},
	{Name: "CbBytes_Jp", Shape: "Bytes", M: "Jp", T: reflect.TypeOf((*CbBytes_Jp)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Jp(mkStr(id)) }},
	{Name: "CbBytes_Tv", Shape: "Bytes", M: "Tv", T: reflect.TypeOf((*CbBytes_Tv)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Tv(mkStr(id)) }},
	{Name: "CbBytes_Tp", Shape: "Bytes", M: "Tp", T: reflect.TypeOf((*CbBytes_Tp)(nil)).Elem(), mk: func(id int32) any { return CbBytes_Tp(mkStr(id)) }},
	{Name: "CbMap_Cv", Shape: "Map", M: "Cv", T: reflect.TypeOf((*CbMap_Cv)(nil)).Elem(), mk: func(id int32) any { return CbMap_Cv(mkMap(id)) }},
	{Name: "CbMap_Cp", Shape: "Map", M: "Cp", T: reflect.TypeOf((*CbMap_Cp)(nil)).Elem(), mk: func(id int32) any { return CbMap_Cp(mkMap(id)) }},
	{Name: "CbMap_Av", Shape: "Map", M: "Av", T: reflect.TypeOf((*CbMap_Av)(nil)).Elem(), mk: func(id int32) any { return CbMap_Av(mkMap(id)) }},
	{Name: "CbMap_Ap", Shape: "Map", M: "Ap", T: reflect.TypeOf((*CbMap_Ap)(nil)).Elem(), mk: func(id int32) any { return CbMap_Ap(mkMap(id)) }},
	{Name: "CbMap_Jv", Shape: "Map", M: "Jv", T: reflect.TypeOf((*CbMap_Jv)(nil)).Elem(), mk: func(id int32) any { return CbMap_Jv(mkMap(id)) }},
	{Name: "CbMap_Jp", Shape: "Map", M: "Jp", T: reflect.TypeOf((*CbMap_Jp)(nil)).Elem(), mk: func(id int32) any { return CbMap_Jp(mkMap(id)) }},
	{Name: "CbMap_Tv", Shape: "Map", M: "Tv", T: reflect.TypeOf((*CbMap_Tv)(nil)).Elem(), mk: func(id int32) any { return CbMap_Tv(mkMap(id)) }},
	{Name: "CbMap_Tp", Shape: "Map", M: "Tp", T: reflect.TypeOf((*CbMap_Tp)(nil)).Elem(), mk: func(id int32) any { return CbMap_Tp(mkMap(id)) }},
	{Name: "CbPSt_Cv", Shape: "PSt", M: "Cv", T: reflect.TypeOf((*CbPSt_Cv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Cv{mkPay(id)} }},
	{Name: "CbPSt_Cp", Shape: "PSt", M: "Cp", T: reflect.TypeOf((*CbPSt_Cp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Cp{mkPay(id)} }},
	{Name: "CbPSt_Av", Shape: "PSt", M: "Av", T: reflect.TypeOf((*CbPSt_Av)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Av{mkPay(id)} }},
	{Name: "CbPSt_Ap", Shape: "PSt", M: "Ap", T: reflect.TypeOf((*CbPSt_Ap)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Ap{mkPay(id)} }},
	{Name: "CbPSt_Jv", Shape: "PSt", M: "Jv", T: reflect.TypeOf((*CbPSt_Jv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Jv{mkPay(id)} }},
	{Name: "CbPSt_Jp", Shape: "PSt", M: "Jp", T: reflect.TypeOf((*CbPSt_Jp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Jp{mkPay(id)} }},
	{Name: "CbPSt_Tv", Shape: "PSt", M: "Tv", T: reflect.TypeOf((*CbPSt_Tv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Tv{mkPay(id)} }},
	{Name: "CbPSt_Tp", Shape: "PSt", M: "Tp", T: reflect.TypeOf((*CbPSt_Tp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_Tp{mkPay(id)} }},
	{Name: "CbPSt2_Cv", Shape: "PSt2", M: "Cv", T: reflect.TypeOf((*CbPSt2_Cv)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Cv{mkPay(id), 7} }},
	{Name: "CbPSt2_Cp", Shape: "PSt2", M: "Cp", T: reflect.TypeOf((*CbPSt2_Cp)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Cp{mkPay(id), 7} }},
	{Name: "CbPSt2_Av", Shape: "PSt2", M: "Av", T: reflect.TypeOf((*CbPSt2_Av)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Av{mkPay(id), 7} }},
	{Name: "CbPSt2_Ap", Shape: "PSt2", M: "Ap", T: reflect.TypeOf((*CbPSt2_Ap)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Ap{mkPay(id), 7} }},
	{Name: "CbPSt2_Jv", Shape: "PSt2", M: "Jv", T: reflect.TypeOf((*CbPSt2_Jv)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Jv{mkPay(id), 7} }},
	{Name: "CbPSt2_Jp", Shape: "PSt2", M: "Jp", T: reflect.TypeOf((*CbPSt2_Jp)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Jp{mkPay(id), 7} }},
	{Name: "CbPSt2_Tv", Shape: "PSt2", M: "Tv", T: reflect.TypeOf((*CbPSt2_Tv)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Tv{mkPay(id), 7} }},
	{Name: "CbPSt2_Tp", Shape: "PSt2", M: "Tp", T: reflect.TypeOf((*CbPSt2_Tp)(nil)).Elem(), mk: func(id int32) any { return CbPSt2_Tp{mkPay(id), 7} }},
	{Name: "CbArr1_Cv", Shape: "Arr1", M: "Cv", T: reflect.TypeOf((*CbArr1_Cv)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Cv{mkPay(id)} }},
	{Name: "CbArr1_Cp", Shape: "Arr1", M: "Cp", T: reflect.TypeOf((*CbArr1_Cp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Cp{mkPay(id)} }},
	{Name: "CbArr1_Av", Shape: "Arr1", M: "Av", T: reflect.TypeOf((*CbArr1_Av)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Av{mkPay(id)} }},
	{Name: "CbArr1_Ap", Shape: "Arr1", M: "Ap", T: reflect.TypeOf((*CbArr1_Ap)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Ap{mkPay(id)} }},
	{Name: "CbArr1_Jv", Shape: "Arr1", M: "Jv", T: reflect.TypeOf((*CbArr1_Jv)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Jv{mkPay(id)} }},
	{Name: "CbArr1_Jp", Shape: "Arr1", M: "Jp", T: reflect.TypeOf((*CbArr1_Jp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Jp{mkPay(id)} }},
	{Name: "CbArr1_Tv", Shape: "Arr1", M: "Tv", T: reflect.TypeOf((*CbArr1_Tv)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Tv{mkPay(id)} }},
	{Name: "CbArr1_Tp", Shape: "Arr1", M: "Tp", T: reflect.TypeOf((*CbArr1_Tp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_Tp{mkPay(id)} }},
	{Name: "CbArr2_Cv", Shape: "Arr2", M: "Cv", T: reflect.TypeOf((*CbArr2_Cv)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Cv{nil, mkPay(id)} }},
	{Name: "CbArr2_Cp", Shape: "Arr2", M: "Cp", T: reflect.TypeOf((*CbArr2_Cp)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Cp{nil, mkPay(id)} }},
	{Name: "CbArr2_Av", Shape: "Arr2", M: "Av", T: reflect.TypeOf((*CbArr2_Av)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Av{nil, mkPay(id)} }},
	{Name: "CbArr2_Ap", Shape: "Arr2", M: "Ap", T: reflect.TypeOf((*CbArr2_Ap)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Ap{nil, mkPay(id)} }},
	{Name: "CbArr2_Jv", Shape: "Arr2", M: "Jv", T: reflect.TypeOf((*CbArr2_Jv)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Jv{nil, mkPay(id)} }},
	{Name: "CbArr2_Jp", Shape: "Arr2", M: "Jp", T: reflect.TypeOf((*CbArr2_Jp)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Jp{nil, mkPay(id)} }},
	{Name: "CbArr2_Tv", Shape: "Arr2", M: "Tv", T: reflect.TypeOf((*CbArr2_Tv)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Tv{nil, mkPay(id)} }},
	{Name: "CbArr2_Tp", Shape: "Arr2", M: "Tp", T: reflect.TypeOf((*CbArr2_Tp)(nil)).Elem(), mk: func(id int32) any { return CbArr2_Tp{nil, mkPay(id)} }},
	{Name: "CbPArr_Cv", Shape: "PArr", M: "Cv", T: reflect.TypeOf((*CbPArr_Cv)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Cv{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Cp", Shape: "PArr", M: "Cp", T: reflect.TypeOf((*CbPArr_Cp)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Cp{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Av", Shape: "PArr", M: "Av", T: reflect.TypeOf((*CbPArr_Av)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Av{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Ap", Shape: "PArr", M: "Ap", T: reflect.TypeOf((*CbPArr_Ap)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Ap{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Jv", Shape: "PArr", M: "Jv", T: reflect.TypeOf((*CbPArr_Jv)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Jv{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Jp", Shape: "PArr", M: "Jp", T: reflect.TypeOf((*CbPArr_Jp)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Jp{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Tv", Shape: "PArr", M: "Tv", T: reflect.TypeOf((*CbPArr_Tv)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Tv{[1]*payload{mkPay(id)}} }},
	{Name: "CbPArr_Tp", Shape: "PArr", M: "Tp", T: reflect.TypeOf((*CbPArr_Tp)(nil)).Elem(), mk: func(id int32) any { return CbPArr_Tp{[1]*payload{mkPay(id)}} }},
	{Name: "CbFunc_Cv", Shape: "Func", M: "Cv", T: reflect.TypeOf((*CbFunc_Cv)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Cv(mkFunc(id)) }},
	{Name: "CbFunc_Cp", Shape: "Func", M: "Cp", T: reflect.TypeOf((*CbFunc_Cp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Cp(mkFunc(id)) }},
	{Name: "CbFunc_Av", Shape: "Func", M: "Av", T: reflect.TypeOf((*CbFunc_Av)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Av(mkFunc(id)) }},
	{Name: "CbFunc_Ap", Shape: "Func", M: "Ap", T: reflect.TypeOf((*CbFunc_Ap)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Ap(mkFunc(id)) }},
	{Name: "CbFunc_Jv", Shape: "Func", M: "Jv", T: reflect.TypeOf((*CbFunc_Jv)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Jv(mkFunc(id)) }},
	{Name: "CbFunc_Jp", Shape: "Func", M: "Jp", T: reflect.TypeOf((*CbFunc_Jp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Jp(mkFunc(id)) }},
	{Name: "CbFunc_Tv", Shape: "Func", M: "Tv", T: reflect.TypeOf((*CbFunc_Tv)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Tv(mkFunc(id)) }},
	{Name: "CbFunc_Tp", Shape: "Func", M: "Tp", T: reflect.TypeOf((*CbFunc_Tp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_Tp(mkFunc(id)) }},
	{Name: "CbChan_Cv", Shape: "Chan", M: "Cv", T: reflect.TypeOf((*CbChan_Cv)(nil)).Elem(), mk: func(id int32) any { return CbChan_Cv(make(chan struct{}, id)) }},
	{Name: "CbChan_Cp", Shape: "Chan", M: "Cp", T: reflect.TypeOf((*CbChan_Cp)(nil)).Elem(), mk: func(id int32) any { return CbChan_Cp(make(chan struct{}, id)) }},
	{Name: "CbChan_Av", Shape: "Chan", M: "Av", T: reflect.TypeOf((*CbChan_Av)(nil)).Elem(), mk: func(id int32) any { return CbChan_Av(make(chan struct{}, id)) }},
	{Name: "CbChan_Ap", Shape: "Chan", M: "Ap", T: reflect.TypeOf((*CbChan_Ap)(nil)).Elem(), mk: func(id int32) any { return CbChan_Ap(make(chan struct{}, id)) }},
	{Name: "CbChan_Jv", Shape: "Chan", M: "Jv", T: reflect.TypeOf((*CbChan_Jv)(nil)).Elem(), mk: func(id int32) any { return CbChan_Jv(make(chan struct{}, id)) }},
	{Name: "CbChan_Jp", Shape: "Chan", M: "Jp", T: reflect.TypeOf((*CbChan_Jp)(nil)).Elem(), mk: func(id int32) any { return CbChan_Jp(make(chan struct{}, id)) }},
	{Name: "CbChan_Tv", Shape: "Chan", M: "Tv", T: reflect.TypeOf((*CbChan_Tv)(nil)).Elem(), mk: func(id int32) any { return CbChan_Tv(make(chan struct{}, id)) }},
	{Name: "CbChan_Tp", Shape: "Chan", M: "Tp", T: reflect.TypeOf((*CbChan_Tp)(nil)).Elem(), mk: func(id int32) any { return CbChan_Tp(make(chan struct{}, id)) }},
	{Name: "CbAny_Cv", Shape: "Any", M: "Cv", T: reflect.TypeOf((*CbAny_Cv)(nil)).Elem(), mk: func(id int32) any { return CbAny_Cv{mkPay(id)} }},
	{Name: "CbAny_Cp", Shape: "Any", M: "Cp", T: reflect.TypeOf((*CbAny_Cp)(nil)).Elem(), mk: func(id int32) any { return CbAny_Cp{mkPay(id)} }},
	{Name: "CbAny_Av", Shape: "Any", M: "Av", T: reflect.TypeOf((*CbAny_Av)(nil)).Elem(), mk: func(id int32) any { return CbAny_Av{mkPay(id)} }},
	{Name: "CbAny_Ap", Shape: "Any", M: "Ap", T: reflect.TypeOf((*CbAny_Ap)(nil)).Elem(), mk: func(id int32) any { return CbAny_Ap{mkPay(id)} }},
	{Name: "CbAny_Jv", Shape: "Any", M: "Jv", T: reflect.TypeOf((*CbAny_Jv)(nil)).Elem(), mk: func(id int32) any { return CbAny_Jv{mkPay(id)} }},
	{Name: "CbAny_Jp", Shape: "Any", M: "Jp", T: reflect.TypeOf((*CbAny_Jp)(nil)).Elem(), mk: func(id int32) any { return CbAny_Jp{mkPay(id)} }},
	{Name: "CbAny_Tv", Shape: "Any", M: "Tv", T: reflect.TypeOf((*CbAny_Tv)(nil)).Elem(), mk: func(id int32) any { return CbAny_Tv{mkPay(id)} }},
	{Name: "CbAny_Tp", Shape: "Any", M: "Tp", T: reflect.TypeOf((*CbAny_Tp)(nil)).Elem(), mk: func(id int32) any { return CbAny_Tp{mkPay(id)} }},
	{Name: "CbZero_Cv", Shape: "Zero", M: "Cv", T: reflect.TypeOf((*CbZero_Cv)(nil)).Elem(), mk: func(id int32) any { return CbZero_Cv{} }},
	{Name: "CbZero_Cp", Shape: "Zero", M: "Cp", T: reflect.TypeOf((*CbZero_Cp)(nil)).Elem(), mk: func(id int32) any { return CbZero_Cp{} }},
	{Name: "CbZero_Av", Shape: "Zero", M: "Av", T: reflect.TypeOf((*CbZero_Av)(nil)).Elem(), mk: func(id int32) any { return CbZero_Av{} }},
	{Name: "CbZero_Ap", Shape: "Zero", M: "Ap", T: reflect.TypeOf((*CbZero_Ap)(nil)).Elem(), mk: func(id int32) any { return CbZero_Ap{} }},
	{Name: "CbZero_Jv", Shape: "Zero", M: "Jv", T: reflect.TypeOf((*CbZero_Jv)(nil)).Elem(), mk: func(id int32) any { return CbZero_Jv{} }},
	{Name: "CbZero_Jp", Shape: "Zero", M: "Jp", T: reflect.TypeOf((*CbZero_Jp)(nil)).Elem(), mk: func(id int32) any { return CbZero_Jp{} }},
	{Name: "CbZero_Tv", Shape: "Zero", M: "Tv", T: reflect.TypeOf((*CbZero_Tv)(nil)).Elem(), mk: func(id int32) any { return CbZero_Tv{} }},
	{Name: "CbZero_Tp", Shape: "Zero", M: "Tp", T: reflect.TypeOf((*CbZero_Tp)(nil)).Elem(), mk: func(id int32) any { return CbZero_Tp{} }},
	{Name: "CbStruct_CvAvJvTv", Shape: "Struct", M: "CvAvJvTv", T: reflect.TypeOf((*CbStruct_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_CvAvJvTv{Magic: magic, ID: id} }},
	{Name: "CbStruct_JvTv", Shape: "Struct", M: "JvTv", T: reflect.TypeOf((*CbStruct_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_JvTv{Magic: magic, ID: id} }},
	{Name: "CbStruct_ApJv", Shape: "Struct", M: "ApJv", T: reflect.TypeOf((*CbStruct_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_ApJv{Magic: magic, ID: id} }},
	{Name: "CbInt_CvAvJvTv", Shape: "Int", M: "CvAvJvTv", T: reflect.TypeOf((*CbInt_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbInt_CvAvJvTv(mkInt(id)) }},
	{Name: "CbInt_JvTv", Shape: "Int", M: "JvTv", T: reflect.TypeOf((*CbInt_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbInt_JvTv(mkInt(id)) }},
	{Name: "CbInt_ApJv", Shape: "Int", M: "ApJv", T: reflect.TypeOf((*CbInt_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbInt_ApJv(mkInt(id)) }},
	{Name: "CbStr_CvAvJvTv", Shape: "Str", M: "CvAvJvTv", T: reflect.TypeOf((*CbStr_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbStr_CvAvJvTv(mkStr(id)) }},
	{Name: "CbStr_JvTv", Shape: "Str", M: "JvTv", T: reflect.TypeOf((*CbStr_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbStr_JvTv(mkStr(id)) }},
	{Name: "CbStr_ApJv", Shape: "Str", M: "ApJv", T: reflect.TypeOf((*CbStr_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbStr_ApJv(mkStr(id)) }},
	{Name: "CbPSt_CvAvJvTv", Shape: "PSt", M: "CvAvJvTv", T: reflect.TypeOf((*CbPSt_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_CvAvJvTv{mkPay(id)} }},
	{Name: "CbPSt_JvTv", Shape: "PSt", M: "JvTv", T: reflect.TypeOf((*CbPSt_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_JvTv{mkPay(id)} }},
	{Name: "CbPSt_ApJv", Shape: "PSt", M: "ApJv", T: reflect.TypeOf((*CbPSt_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_ApJv{mkPay(id)} }},
	{Name: "CbMap_CvAvJvTv", Shape: "Map", M: "CvAvJvTv", T: reflect.TypeOf((*CbMap_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbMap_CvAvJvTv(mkMap(id)) }},
	{Name: "CbMap_JvTv", Shape: "Map", M: "JvTv", T: reflect.TypeOf((*CbMap_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbMap_JvTv(mkMap(id)) }},
	{Name: "CbMap_ApJv", Shape: "Map", M: "ApJv", T: reflect.TypeOf((*CbMap_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbMap_ApJv(mkMap(id)) }},
	{Name: "CbSlice_CvAvJvTv", Shape: "Slice", M: "CvAvJvTv", T: reflect.TypeOf((*CbSlice_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_CvAvJvTv(mkSlice(id)) }},
	{Name: "CbSlice_JvTv", Shape: "Slice", M: "JvTv", T: reflect.TypeOf((*CbSlice_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_JvTv(mkSlice(id)) }},
	{Name: "CbSlice_ApJv", Shape: "Slice", M: "ApJv", T: reflect.TypeOf((*CbSlice_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbSlice_ApJv(mkSlice(id)) }},
	{Name: "CbU8_CvAvJvTv", Shape: "U8", M: "CvAvJvTv", T: reflect.TypeOf((*CbU8_CvAvJvTv)(nil)).Elem(), mk: func(id int32) any { return CbU8_CvAvJvTv(mkU8(id)) }},
	{Name: "CbU8_JvTv", Shape: "U8", M: "JvTv", T: reflect.TypeOf((*CbU8_JvTv)(nil)).Elem(), mk: func(id int32) any { return CbU8_JvTv(mkU8(id)) }},
	{Name: "CbU8_ApJv", Shape: "U8", M: "ApJv", T: reflect.TypeOf((*CbU8_ApJv)(nil)).Elem(), mk: func(id int32) any { return CbU8_ApJv(mkU8(id)) }},
	{Name: "CbStruct_AvJv", Shape: "Struct", M: "AvJv", T: reflect.TypeOf((*CbStruct_AvJv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_AvJv{Magic: magic, ID: id} }},
	{Name: "CbStruct_JpTv", Shape: "Struct", M: "JpTv", T: reflect.TypeOf((*CbStruct_JpTv)(nil)).Elem(), mk: func(id int32) any { return CbStruct_JpTv{Magic: magic, ID: id} }},
	{Name: "CbStruct_CpAvTp", Shape: "Struct", M: "CpAvTp", T: reflect.TypeOf((*CbStruct_CpAvTp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_CpAvTp{Magic: magic, ID: id} }},
	{Name: "CbStruct_CvAp", Shape: "Struct", M: "CvAp", T: reflect.TypeOf((*CbStruct_CvAp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_CvAp{Magic: magic, ID: id} }},
	{Name: "CbStruct_CpJpTp", Shape: "Struct", M: "CpJpTp", T: reflect.TypeOf((*CbStruct_CpJpTp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_CpJpTp{Magic: magic, ID: id} }},
	{Name: "CbStruct_ApTp", Shape: "Struct", M: "ApTp", T: reflect.TypeOf((*CbStruct_ApTp)(nil)).Elem(), mk: func(id int32) any { return CbStruct_ApTp{Magic: magic, ID: id} }},
	{Name: "CbPSt_AvJv", Shape: "PSt", M: "AvJv", T: reflect.TypeOf((*CbPSt_AvJv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_AvJv{mkPay(id)} }},
	{Name: "CbPSt_JpTv", Shape: "PSt", M: "JpTv", T: reflect.TypeOf((*CbPSt_JpTv)(nil)).Elem(), mk: func(id int32) any { return CbPSt_JpTv{mkPay(id)} }},
	{Name: "CbPSt_CpAvTp", Shape: "PSt", M: "CpAvTp", T: reflect.TypeOf((*CbPSt_CpAvTp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_CpAvTp{mkPay(id)} }},
	{Name: "CbPSt_CvAp", Shape: "PSt", M: "CvAp", T: reflect.TypeOf((*CbPSt_CvAp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_CvAp{mkPay(id)} }},
	{Name: "CbPSt_CpJpTp", Shape: "PSt", M: "CpJpTp", T: reflect.TypeOf((*CbPSt_CpJpTp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_CpJpTp{mkPay(id)} }},
	{Name: "CbPSt_ApTp", Shape: "PSt", M: "ApTp", T: reflect.TypeOf((*CbPSt_ApTp)(nil)).Elem(), mk: func(id int32) any { return CbPSt_ApTp{mkPay(id)} }},
	{Name: "CbArr1_AvJv", Shape: "Arr1", M: "AvJv", T: reflect.TypeOf((*CbArr1_AvJv)(nil)).Elem(), mk: func(id int32) any { return CbArr1_AvJv{mkPay(id)} }},
	{Name: "CbArr1_JpTv", Shape: "Arr1", M: "JpTv", T: reflect.TypeOf((*CbArr1_JpTv)(nil)).Elem(), mk: func(id int32) any { return CbArr1_JpTv{mkPay(id)} }},
	{Name: "CbArr1_CpAvTp", Shape: "Arr1", M: "CpAvTp", T: reflect.TypeOf((*CbArr1_CpAvTp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_CpAvTp{mkPay(id)} }},
	{Name: "CbArr1_CvAp", Shape: "Arr1", M: "CvAp", T: reflect.TypeOf((*CbArr1_CvAp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_CvAp{mkPay(id)} }},
	{Name: "CbArr1_CpJpTp", Shape: "Arr1", M: "CpJpTp", T: reflect.TypeOf((*CbArr1_CpJpTp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_CpJpTp{mkPay(id)} }},
	{Name: "CbArr1_ApTp", Shape: "Arr1", M: "ApTp", T: reflect.TypeOf((*CbArr1_ApTp)(nil)).Elem(), mk: func(id int32) any { return CbArr1_ApTp{mkPay(id)} }},
	{Name: "CbFunc_AvJv", Shape: "Func", M: "AvJv", T: reflect.TypeOf((*CbFunc_AvJv)(nil)).Elem(), mk: func(id int32) any { return CbFunc_AvJv(mkFunc(id)) }},
	{Name: "CbFunc_JpTv", Shape: "Func", M: "JpTv", T: reflect.TypeOf((*CbFunc_JpTv)(nil)).Elem(), mk: func(id int32) any { return CbFunc_JpTv(mkFunc(id)) }},
	{Name: "CbFunc_CpAvTp", Shape: "Func", M: "CpAvTp", T: reflect.TypeOf((*CbFunc_CpAvTp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_CpAvTp(mkFunc(id)) }},
	{Name: "CbFunc_CvAp", Shape: "Func", M: "CvAp", T: reflect.TypeOf((*CbFunc_CvAp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_CvAp(mkFunc(id)) }},
	{Name: "CbFunc_CpJpTp", Shape: "Func", M: "CpJpTp", T: reflect.TypeOf((*CbFunc_CpJpTp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_CpJpTp(mkFunc(id)) }},
	{Name: "CbFunc_ApTp", Shape: "Func", M: "ApTp", T: reflect.TypeOf((*CbFunc_ApTp)(nil)).Elem(), mk: func(id int32) any { return CbFunc_ApTp(mkFunc(id)) }},
}

type E0x5 struct {
	F0_5a []int
}

type E0x4 struct {
	E0x5
	F0_4a bool
	F0_4b string
}

type E0x3 struct {
	E0x4
	F0_3a int
}

type E0x2 struct {
	E0x3
	F0_2a CbPSt_Tv
	Dup   int `json:"dup"`
}

type E0x9 struct {
	F0_9a string
	F0_9b []int
}

type E0x8 struct {
	E0x9
	F0_8a any
}

type E0x7 struct {
	F0_7a []int
	E0x8
	F0_7b CbInt_Cp
}

type E0x6 struct {
	F0_6a CbStruct_Jv
	E0x7
	F0_6b []int
	Dup   int `json:"dup"`
}

type E0x1 struct {
	F0_1a string
	E0x2
	E0x6
}

type E0x14 struct {
	F0_14a float64
}

type E0x15 struct {
	F0_15a CbPSt_Tv
	F0_15b map[string]int
}

type E0x13 struct {
	*E0x14
	E0x15
	F0_13a time.Time
	Dup    int `json:"dup"`
}

type E0x17 struct {
	F0_17a map[string]int
}

type E0x16 struct {
	F0_16a map[string]int
	F0_16b CbStr_Tp
	E0x17
}

type E0x12 struct {
	F0_12a []int
	E0x16
	*E0x13
}

type E0x11 struct {
	F0_11a *int
	E0x12
	F0_11b any
}

type E0x21 struct {
	F0_21a CbStruct_Jv
}

type E0x22 struct {
	F0_22a CbInt_Cp
	F0_22b []int
	Dup    int `json:"dup"`
}

type E0x20 struct {
	E0x21
	F0_20a bool
	E0x22
	F0_20b float64
}

type E0x19 struct {
	E0x20
	F0_19a map[string]int
	Dup    int `json:"dup"`
}

type E0x25 struct {
	F0_25a CbStruct_Jv
}

type E0x26 struct {
	F0_26a map[string]int
}

type E0x24 struct {
	F0_24a *int
	E0x25
	E0x26
}

type E0x28 struct {
	F0_28a CbStr_Tp
	F0_28b bool
	Dup    int `json:"dup"`
}

type E0x27 struct {
	*E0x28
	F0_27a bool
	F0_27b bool
}

type E0x23 struct {
	F0_23a int
	*E0x24
	E0x27
	Dup int `json:"dup"`
}

type E0x18 struct {
	*E0x23
	E0x19
	F0_18a CbStruct_Jp
}

type E0x10 struct {
	E0x18
	F0_10a float64
	E0x11
	F0_10b CbPSt_Tv
	Dup    int `json:"dup"`
}

type E0x0 struct {
	F0_0a CbStruct_Jv
	*E0x1
	F0_0b bool
	E0x10
	Dup int `json:"dup"`
}

type E1x5 struct {
	F1_5a map[string]int
	F1_5b *int
}

type E1x4 struct {
	E1x5
	F1_4a CbStruct_Jv
	Dup   int `json:"dup"`
}

type E1x7 struct {
	F1_7a CbStr_Tp
	F1_7b CbInt_Cp
	Dup   int `json:"dup"`
}

type E1x6 struct {
	F1_6a map[string]int
	E1x7
}

type E1x3 struct {
	F1_3a CbStruct_Ap
	*E1x6
	E1x4
	F1_3b CbStruct_Ap
}

type E1x10 struct {
	F1_10a CbStruct_Jp
}

type E1x11 struct {
	F1_11a time.Time
	Dup    int `json:"dup"`
}

type E1x9 struct {
	*E1x10
	F1_9a CbInt_Cp
	*E1x11
}

type E1x8 struct {
	F1_8a any
	*E1x9
}

type E1x2 struct {
	*E1x8
	F1_2a CbInt_Cp
	E1x3
	Dup int `json:"dup"`
}

type E1x15 struct {
	F1_15a time.Time
	F1_15b map[string]int
}

type E1x14 struct {
	E1x15
	F1_14a CbInt_Cp
}

type E1x17 struct {
	F1_17a CbStruct_Jv
}

type E1x16 struct {
	F1_16a CbStruct_Ap
	F1_16b bool
	*E1x17
}

type E1x13 struct {
	E1x14
	E1x16
	F1_13a float64
	F1_13b CbStr_Tp
}

type E1x12 struct {
	F1_12a CbStruct_Ap
	E1x13
}

type E1x1 struct {
	F1_1a CbStruct_Ap
	*E1x12
	E1x2
	F1_1b string
	Dup   int `json:"dup"`
}

type E1x22 struct {
	F1_22a *int
	F1_22b []int
}

type E1x21 struct {
	F1_21a *int
	*E1x22
}

type E1x24 struct {
	F1_24a CbInt_Cp
}

type E1x23 struct {
	*E1x24
	F1_23a []int
}

type E1x20 struct {
	*E1x23
	F1_20a int
	E1x21
}

type E1x19 struct {
	E1x20
	F1_19a bool
}

type E1x28 struct {
	F1_28a []int
	F1_28b int
}

type E1x27 struct {
	F1_27a time.Time
	E1x28
}

type E1x30 struct {
	F1_30a map[string]int
}

type E1x31 struct {
	F1_31a CbInt_Cp
}

type E1x29 struct {
	F1_29a CbStruct_Ap
	E1x30
	F1_29b []int
	E1x31
}

type E1x26 struct {
	*E1x29
	E1x27
	F1_26a CbStruct_Jp
}

type E1x25 struct {
	F1_25a float64
	*E1x26
}

type E1x18 struct {
	E1x25
	F1_18a []int
	E1x19
}

type E1x0 struct {
	F1_0a CbPSt_Tv
	F1_0b any
	E1x18
	E1x1
	Dup int `json:"dup"`
}

type E2x5 struct {
	F2_5a CbPSt_Tv
	F2_5b bool
	Dup   int `json:"dup"`
}

type E2x6 struct {
	F2_6a CbPSt_Tv
}

type E2x4 struct {
	*E2x6
	F2_4a map[string]int
	*E2x5
}

type E2x3 struct {
	F2_3a CbStr_Tp
	*E2x4
}

type E2x9 struct {
	F2_9a time.Time
	F2_9b CbStruct_Jv
}

type E2x8 struct {
	F2_8a int
	F2_8b float64
	E2x9
}

type E2x11 struct {
	F2_11a int
	F2_11b time.Time
}

type E2x10 struct {
	*E2x11
	F2_10a map[string]int
	F2_10b CbPSt_Tv
	Dup    int `json:"dup"`
}

type E2x7 struct {
	*E2x10
	*E2x8
	F2_7a string
}

type E2x2 struct {
	*E2x7
	*E2x3
	F2_2a bool
	Dup   int `json:"dup"`
}

type E2x15 struct {
	F2_15a int
	F2_15b CbStruct_Jv
	Dup    int `json:"dup"`
}

type E2x14 struct {
	F2_14a string
	*E2x15
}

type E2x13 struct {
	F2_13a any
	*E2x14
	F2_13b CbStruct_Jv
}

type E2x18 struct {
	F2_18a CbStruct_Jp
	F2_18b float64
}

type E2x17 struct {
	F2_17a int
	*E2x18
}

type E2x16 struct {
	F2_16a *int
	*E2x17
}

type E2x12 struct {
	*E2x16
	F2_12a CbPSt_Tv
	*E2x13
}

type E2x1 struct {
	F2_1a map[string]int
	E2x2
	*E2x12
}

type E2x23 struct {
	F2_23a any
	F2_23b CbStruct_Jp
}

type E2x24 struct {
	F2_24a *int
}

type E2x22 struct {
	*E2x23
	*E2x24
	F2_22a CbStr_Tp
}

type E2x21 struct {
	*E2x22
	F2_21a bool
	F2_21b CbStruct_Jv
	Dup    int `json:"dup"`
}

type E2x20 struct {
	E2x21
	F2_20a int
}

type E2x28 struct {
	F2_28a bool
}

type E2x27 struct {
	F2_27a *int
	*E2x28
}

type E2x26 struct {
	*E2x27
	F2_26a CbStruct_Jp
}

type E2x31 struct {
	F2_31a CbInt_Cp
}

type E2x30 struct {
	F2_30a map[string]int
	F2_30b any
	E2x31
}

type E2x29 struct {
	F2_29a map[string]int
	F2_29b CbStruct_Ap
	*E2x30
	Dup int `json:"dup"`
}

type E2x25 struct {
	F2_25a CbStruct_Ap
	*E2x26
	*E2x29
}

type E2x19 struct {
	E2x25
	F2_19a CbInt_Cp
	*E2x20
}

type E2x0 struct {
	F2_0a CbStruct_Ap
	*E2x1
	*E2x19
}

type E3x5 struct {
	F3_5a CbStruct_Ap
	Dup   int `json:"dup"`
}

type E3x4 struct {
	E3x5
	F3_4a CbStr_Tp
}

type E3x7 struct {
	F3_7a time.Time
	F3_7b string
}

type E3x8 struct {
	F3_8a map[string]int
}

type E3x6 struct {
	E3x7
	E3x8
	F3_6a map[string]int
	Dup   int `json:"dup"`
}

type E3x3 struct {
	E3x4
	E3x6
	F3_3a bool
}

type E3x11 struct {
	F3_11a int
}

type E3x12 struct {
	F3_12a map[string]int
	Dup    int `json:"dup"`
}

type E3x10 struct {
	F3_10a *int
	F3_10b CbStr_Tp
	E3x12
	E3x11
}

type E3x9 struct {
	E3x10
	F3_9a any
}

type E3x2 struct {
	E3x3
	E3x9
	F3_2a CbStr_Tp
}

type E3x16 struct {
	F3_16a map[string]int
}

type E3x15 struct {
	E3x16
	F3_15a any
}

type E3x14 struct {
	F3_14a bool
	E3x15
	F3_14b CbStruct_Jp
}

type E3x19 struct {
	F3_19a CbStr_Tp
	F3_19b CbStruct_Ap
}

type E3x18 struct {
	F3_18a int
	E3x19
	F3_18b CbStruct_Jv
}

type E3x21 struct {
	F3_21a string
	F3_21b float64
	Dup    int `json:"dup"`
}

type E3x22 struct {
	F3_22a CbPSt_Tv
	F3_22b string
}

type E3x20 struct {
	F3_20a CbPSt_Tv
	*E3x21
	E3x22
	Dup int `json:"dup"`
}

type E3x17 struct {
	F3_17a float64
	E3x18
	E3x20
	F3_17b float64
}

type E3x13 struct {
	E3x17
	E3x14
	F3_13a CbStruct_Ap
	F3_13b string
}

type E3x1 struct {
	E3x13
	E3x2
	F3_1a int
	Dup   int `json:"dup"`
}

type E3x27 struct {
	F3_27a any
	F3_27b time.Time
	Dup    int `json:"dup"`
}

type E3x28 struct {
	F3_28a float64
}

type E3x26 struct {
	F3_26a int
	E3x28
	E3x27
}

type E3x25 struct {
	F3_25a float64
	E3x26
	F3_25b float64
}

type E3x24 struct {
	F3_24a time.Time
	E3x25
	F3_24b bool
}

type E3x32 struct {
	F3_32a bool
	F3_32b CbStruct_Jv
}

type E3x33 struct {
	F3_33a []int
	F3_33b string
}

type E3x31 struct {
	E3x32
	F3_31a CbStruct_Ap
	E3x33
	Dup int `json:"dup"`
}

type E3x35 struct {
	F3_35a *int
	F3_35b CbPSt_Tv
}

type E3x34 struct {
	F3_34a bool
	F3_34b map[string]int
	E3x35
}

type E3x30 struct {
	F3_30a CbStruct_Jp
	*E3x31
	E3x34
}

type E3x29 struct {
	E3x30
	F3_29a string
	F3_29b CbStruct_Jv
	Dup    int `json:"dup"`
}

type E3x23 struct {
	F3_23a time.Time
	E3x29
	E3x24
}

type E3x0 struct {
	F3_0a string
	E3x23
	E3x1
}

type E4x5 struct {
	F4_5a CbStruct_Jv
	Dup   int `json:"dup"`
}

type E4x4 struct {
	E4x5
	F4_4a CbStruct_Jp
	F4_4b time.Time
}

type E4x7 struct {
	F4_7a time.Time
	Dup   int `json:"dup"`
}

type E4x6 struct {
	E4x7
	F4_6a []int
}

type E4x3 struct {
	*E4x6
	F4_3a bool
	E4x4
}

type E4x2 struct {
	F4_2a any
	E4x3
	F4_2b CbStruct_Ap
}

type E4x11 struct {
	F4_11a *int
	F4_11b CbPSt_Tv
}

type E4x12 struct {
	F4_12a []int
	Dup    int `json:"dup"`
}

type E4x10 struct {
	F4_10a []int
	E4x11
	E4x12
}

type E4x9 struct {
	*E4x10
	F4_9a *int
	F4_9b CbStruct_Jp
}

type E4x8 struct {
	F4_8a []int
	E4x9
	F4_8b any
	Dup   int `json:"dup"`
}

type E4x1 struct {
	*E4x2
	*E4x8
	F4_1a bool
}

type E4x17 struct {
	F4_17a *int
}

type E4x18 struct {
	F4_18a *int
}

type E4x16 struct {
	F4_16a CbStruct_Jp
	*E4x17
	*E4x18
}

type E4x20 struct {
	F4_20a float64
}

type E4x19 struct {
	F4_19a bool
	F4_19b float64
	*E4x20
	Dup int `json:"dup"`
}

type E4x15 struct {
	*E4x19
	*E4x16
	F4_15a time.Time
	Dup    int `json:"dup"`
}

type E4x14 struct {
	F4_14a CbStr_Tp
	F4_14b bool
	E4x15
}

type E4x24 struct {
	F4_24a CbPSt_Tv
	F4_24b CbStruct_Ap
	Dup    int `json:"dup"`
}

type E4x25 struct {
	F4_25a CbPSt_Tv
}

type E4x23 struct {
	F4_23a *int
	*E4x24
	E4x25
}

type E4x27 struct {
	F4_27a int
}

type E4x28 struct {
	F4_28a CbStruct_Jp
	F4_28b CbPSt_Tv
}

type E4x26 struct {
	E4x28
	F4_26a CbInt_Cp
	F4_26b time.Time
	*E4x27
}

type E4x22 struct {
	F4_22a CbStr_Tp
	*E4x23
	*E4x26
}

type E4x21 struct {
	*E4x22
	F4_21a CbPSt_Tv
}

type E4x13 struct {
	E4x21
	E4x14
	F4_13a map[string]int
	F4_13b bool
	Dup    int `json:"dup"`
}

type E4x0 struct {
	*E4x1
	F4_0a CbStruct_Jv
	E4x13
}

type E5x5 struct {
	F5_5a CbStruct_Ap
}

type E5x4 struct {
	F5_4a CbInt_Cp
	*E5x5
}

type E5x3 struct {
	F5_3a map[string]int
	E5x4
	Dup int `json:"dup"`
}

type E5x8 struct {
	F5_8a CbPSt_Tv
	F5_8b time.Time
}

type E5x9 struct {
	F5_9a time.Time
	F5_9b CbStruct_Jv
	Dup   int `json:"dup"`
}

type E5x7 struct {
	*E5x9
	*E5x8
	F5_7a CbPSt_Tv
}

type E5x6 struct {
	*E5x7
	F5_6a CbInt_Cp
	F5_6b map[string]int
}

type E5x2 struct {
	E5x6
	*E5x3
	F5_2a float64
	F5_2b *int
	Dup   int `json:"dup"`
}

type E5x13 struct {
	F5_13a time.Time
}

type E5x12 struct {
	F5_12a CbStruct_Ap
	F5_12b any
	*E5x13
	Dup int `json:"dup"`
}

type E5x11 struct {
	F5_11a CbStruct_Jp
	*E5x12
	Dup int `json:"dup"`
}

type E5x16 struct {
	F5_16a *int
	F5_16b CbStruct_Jp
}

type E5x15 struct {
	*E5x16
	F5_15a CbPSt_Tv
}

type E5x18 struct {
	F5_18a float64
	F5_18b CbPSt_Tv
	Dup    int `json:"dup"`
}

type E5x17 struct {
	*E5x18
	F5_17a CbStruct_Ap
	Dup    int `json:"dup"`
}

type E5x14 struct {
	E5x15
	F5_14a CbStruct_Jv
	*E5x17
	Dup int `json:"dup"`
}

type E5x10 struct {
	*E5x11
	*E5x14
	F5_10a CbStruct_Ap
	F5_10b map[string]int
}

type E5x1 struct {
	*E5x2
	F5_1a *int
	*E5x10
}

type E5x23 struct {
	F5_23a bool
	F5_23b CbStr_Tp
}

type E5x22 struct {
	*E5x23
	F5_22a CbInt_Cp
	Dup    int `json:"dup"`
}

type E5x21 struct {
	F5_21a *int
	*E5x22
	Dup int `json:"dup"`
}

type E5x20 struct {
	F5_20a CbPSt_Tv
	*E5x21
	F5_20b CbStruct_Jv
}

type E5x27 struct {
	F5_27a *int
}

type E5x28 struct {
	F5_28a int
	F5_28b CbInt_Cp
}

type E5x26 struct {
	F5_26a CbStr_Tp
	E5x28
	E5x27
	F5_26b *int
}

type E5x30 struct {
	F5_30a CbInt_Cp
	Dup    int `json:"dup"`
}

type E5x31 struct {
	F5_31a time.Time
	F5_31b CbStruct_Jv
	Dup    int `json:"dup"`
}

type E5x29 struct {
	F5_29a float64
	*E5x31
	*E5x30
	F5_29b CbStruct_Jv
}

type E5x25 struct {
	E5x29
	*E5x26
	F5_25a map[string]int
	F5_25b *int
}

type E5x24 struct {
	E5x25
	F5_24a CbStr_Tp
	Dup    int `json:"dup"`
}

type E5x19 struct {
	F5_19a CbStruct_Jp
	*E5x24
	F5_19b int
	*E5x20
}

type E5x0 struct {
	F5_0a CbPSt_Tv
	F5_0b any
	*E5x1
	*E5x19
}

type Wide struct {
	W0  int
	W1  string      `json:"w1,omitempty"`
	W2  CbStruct_Jv `json:"w2,omitnil"`
	W3  CbStruct_Jp
	W4  *int
	W5  CbPSt_Tv `json:"w5,omitempty"`
	W6  bool     `json:"w6,omitnil"`
	W7  CbStruct_Ap
	W8  []int
	W9  any      `json:"w9,omitempty"`
	W10 CbStr_Tp `json:"w10,omitnil"`
	W11 map[string]int
	W12 time.Time
	W13 CbInt_Cp `json:"w13,omitempty"`
	W14 float64  `json:"w14,omitnil"`
	W15 int
	W16 string
	W17 CbStruct_Jv `json:"w17,omitempty"`
	W18 CbStruct_Jp `json:"w18,omitnil"`
	W19 *int
	W20 CbPSt_Tv
	W21 bool        `json:"w21,omitempty"`
	W22 CbStruct_Ap `json:"w22,omitnil"`
	W23 []int
	W24 any
	W25 CbStr_Tp       `json:"w25,omitempty"`
	W26 map[string]int `json:"w26,omitnil"`
	W27 time.Time
	W28 CbInt_Cp
	W29 float64 `json:"w29,omitempty"`
	W30 int     `json:"w30,omitnil"`
	W31 string
	W32 CbStruct_Jv
	W33 CbStruct_Jp `json:"w33,omitempty"`
	W34 *int        `json:"w34,omitnil"`
	W35 CbPSt_Tv
	W36 bool
	W37 CbStruct_Ap `json:"w37,omitempty"`
	W38 []int       `json:"w38,omitnil"`
	W39 any
	W40 CbStr_Tp
	W41 map[string]int `json:"w41,omitempty"`
	W42 time.Time      `json:"w42,omitnil"`
	W43 CbInt_Cp
	W44 float64
	W45 int    `json:"w45,omitempty"`
	W46 string `json:"w46,omitnil"`
	W47 CbStruct_Jv
}

type OmitEmpty struct {
	O0  bool                   `json:",omitempty"`
	O1  int                    `json:",omitempty"`
	O2  int8                   `json:",omitempty"`
	O3  uint16                 `json:",omitempty"`
	O4  uint64                 `json:",omitempty"`
	O5  float32                `json:",omitempty"`
	O6  float64                `json:",omitempty"`
	O7  string                 `json:",omitempty"`
	O8  []int                  `json:",omitempty"`
	O9  []byte                 `json:",omitempty"`
	O10 [2]int                 `json:",omitempty"`
	O11 [0]int                 `json:",omitempty"`
	O12 [3]byte                `json:",omitempty"`
	O13 map[string]int         `json:",omitempty"`
	O14 *int                   `json:",omitempty"`
	O15 *string                `json:",omitempty"`
	O16 any                    `json:",omitempty"`
	O17 struct{ X int }        `json:",omitempty"`
	O18 *Plain                 `json:",omitempty"`
	O19 time.Time              `json:",omitempty"`
	O20 *time.Time             `json:",omitempty"`
	O21 time.Duration          `json:",omitempty"`
	O22 json.Number            `json:",omitempty"`
	O23 json.RawMessage        `json:",omitempty"`
	O24 CbStruct_Jv            `json:",omitempty"`
	O25 *CbStruct_Jv           `json:",omitempty"`
	O26 CbStruct_Jp            `json:",omitempty"`
	O27 *CbStruct_Jp           `json:",omitempty"`
	O28 CbMap_Jv               `json:",omitempty"`
	O29 CbSlice_Jv             `json:",omitempty"`
	O30 CbSlice_Tv             `json:",omitempty"`
	O31 CbMap_Ap               `json:",omitempty"`
	O32 json.Marshaler         `json:",omitempty"`
	O33 encoding.TextMarshaler `json:",omitempty"`
	O34 CbFunc_Jv              `json:",omitempty"`
	O35 CbPSt_Jv               `json:",omitempty"`
	O36 CbStr_Jp               `json:",omitempty"`
	O37 CbInt_Tv               `json:",omitempty"`
	O38 CbBytes_Jp             `json:",omitempty"`
	O39 CbU8_Av                `json:",omitempty"`
	O40 []CbU8_Jv              `json:",omitempty"`
	O41 [2]CbU8_Tv             `json:",omitempty"`
	O42 []CbU8_Cp              `json:",omitempty"`
}

type OmitNil struct {
	O0  bool                   `json:",omitnil"`
	O1  int                    `json:",omitnil"`
	O2  int8                   `json:",omitnil"`
	O3  uint16                 `json:",omitnil"`
	O4  uint64                 `json:",omitnil"`
	O5  float32                `json:",omitnil"`
	O6  float64                `json:",omitnil"`
	O7  string                 `json:",omitnil"`
	O8  []int                  `json:",omitnil"`
	O9  []byte                 `json:",omitnil"`
	O10 [2]int                 `json:",omitnil"`
	O11 [0]int                 `json:",omitnil"`
	O12 [3]byte                `json:",omitnil"`
	O13 map[string]int         `json:",omitnil"`
	O14 *int                   `json:",omitnil"`
	O15 *string                `json:",omitnil"`
	O16 any                    `json:",omitnil"`
	O17 struct{ X int }        `json:",omitnil"`
	O18 *Plain                 `json:",omitnil"`
	O19 time.Time              `json:",omitnil"`
	O20 *time.Time             `json:",omitnil"`
	O21 time.Duration          `json:",omitnil"`
	O22 json.Number            `json:",omitnil"`
	O23 json.RawMessage        `json:",omitnil"`
	O24 CbStruct_Jv            `json:",omitnil"`
	O25 *CbStruct_Jv           `json:",omitnil"`
	O26 CbStruct_Jp            `json:",omitnil"`
	O27 *CbStruct_Jp           `json:",omitnil"`
	O28 CbMap_Jv               `json:",omitnil"`
	O29 CbSlice_Jv             `json:",omitnil"`
	O30 CbSlice_Tv             `json:",omitnil"`
	O31 CbMap_Ap               `json:",omitnil"`
	O32 json.Marshaler         `json:",omitnil"`
	O33 encoding.TextMarshaler `json:",omitnil"`
	O34 CbFunc_Jv              `json:",omitnil"`
	O35 CbPSt_Jv               `json:",omitnil"`
	O36 CbStr_Jp               `json:",omitnil"`
	O37 CbInt_Tv               `json:",omitnil"`
	O38 CbBytes_Jp             `json:",omitnil"`
	O39 CbU8_Av                `json:",omitnil"`
	O40 []CbU8_Jv              `json:",omitnil"`
	O41 [2]CbU8_Tv             `json:",omitnil"`
	O42 []CbU8_Cp              `json:",omitnil"`
}

type OmitBoth struct {
	O0  bool                   `json:",omitempty,omitnil"`
	O1  int                    `json:",omitempty,omitnil"`
	O2  int8                   `json:",omitempty,omitnil"`
	O3  uint16                 `json:",omitempty,omitnil"`
	O4  uint64                 `json:",omitempty,omitnil"`
	O5  float32                `json:",omitempty,omitnil"`
	O6  float64                `json:",omitempty,omitnil"`
	O7  string                 `json:",omitempty,omitnil"`
	O8  []int                  `json:",omitempty,omitnil"`
	O9  []byte                 `json:",omitempty,omitnil"`
	O10 [2]int                 `json:",omitempty,omitnil"`
	O11 [0]int                 `json:",omitempty,omitnil"`
	O12 [3]byte                `json:",omitempty,omitnil"`
	O13 map[string]int         `json:",omitempty,omitnil"`
	O14 *int                   `json:",omitempty,omitnil"`
	O15 *string                `json:",omitempty,omitnil"`
	O16 any                    `json:",omitempty,omitnil"`
	O17 struct{ X int }        `json:",omitempty,omitnil"`
	O18 *Plain                 `json:",omitempty,omitnil"`
	O19 time.Time              `json:",omitempty,omitnil"`
	O20 *time.Time             `json:",omitempty,omitnil"`
	O21 time.Duration          `json:",omitempty,omitnil"`
	O22 json.Number            `json:",omitempty,omitnil"`
	O23 json.RawMessage        `json:",omitempty,omitnil"`
	O24 CbStruct_Jv            `json:",omitempty,omitnil"`
	O25 *CbStruct_Jv           `json:",omitempty,omitnil"`
	O26 CbStruct_Jp            `json:",omitempty,omitnil"`
	O27 *CbStruct_Jp           `json:",omitempty,omitnil"`
	O28 CbMap_Jv               `json:",omitempty,omitnil"`
	O29 CbSlice_Jv             `json:",omitempty,omitnil"`
	O30 CbSlice_Tv             `json:",omitempty,omitnil"`
	O31 CbMap_Ap               `json:",omitempty,omitnil"`
	O32 json.Marshaler         `json:",omitempty,omitnil"`
	O33 encoding.TextMarshaler `json:",omitempty,omitnil"`
	O34 CbFunc_Jv              `json:",omitempty,omitnil"`
	O35 CbPSt_Jv               `json:",omitempty,omitnil"`
	O36 CbStr_Jp               `json:",omitempty,omitnil"`
	O37 CbInt_Tv               `json:",omitempty,omitnil"`
	O38 CbBytes_Jp             `json:",omitempty,omitnil"`
	O39 CbU8_Av                `json:",omitempty,omitnil"`
	O40 []CbU8_Jv              `json:",omitempty,omitnil"`
	O41 [2]CbU8_Tv             `json:",omitempty,omitnil"`
	O42 []CbU8_Cp              `json:",omitempty,omitnil"`
}

type Quoted struct {
	Q0  bool      `json:"q0,string"`
	Q1  int       `json:"q1,string"`
	Q2  int8      `json:"q2,string"`
	Q3  uint16    `json:"q3,string"`
	Q4  uint64    `json:"q4,string"`
	Q5  float32   `json:"q5,string"`
	Q6  float64   `json:"q6,string"`
	Q7  *int      `json:"q7,string"`
	Q8  *bool     `json:"q8,string"`
	Q9  CbInt_Jv  `json:"q9,string"`
	Q10 *CbInt_Jp `json:"q10,string"`
	Q11 CbStr_Tv  `json:"q11,string"`
}

type Names struct {
	N0 int            `json:"a<b"`
	N1 CbStruct_Jv    `json:"x&y>"`
	N2 string         `json:"日本語"`
	N3 []int          `json:"$%-/"`
	N4 int            `json:"-,"`
	N5 bool           `json:"é"`
	N6 map[string]int `json:"sp ace"`
	N7 any            `json:"a.b:c"`
}

var genFamilies = []reflect.Type{
	reflect.TypeOf(E0x0{}),
	reflect.TypeOf(E1x0{}),
	reflect.TypeOf(E2x0{}),
	reflect.TypeOf(E3x0{}),
	reflect.TypeOf(E4x0{}),
	reflect.TypeOf(E5x0{}),
	reflect.TypeOf(Wide{}),
	reflect.TypeOf(OmitEmpty{}),
	reflect.TypeOf(OmitNil{}),
	reflect.TypeOf(OmitBoth{}),
	reflect.TypeOf(Quoted{}),
	reflect.TypeOf(Names{}),
}
