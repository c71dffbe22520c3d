// Code generated by tools/genemb.py. DO NOT EDIT.

package wl

import (
	"encoding/json"
	"reflect"
	"time"
)

type em0 struct {
	D json.Number `json:",omitempty"`
	B any         `json:",omitempty"`
	MyInt
}

type Em1 struct {
	E time.Duration `json:"-"`
	G CbStruct_Tp   `json:"x"`
}

type Em2 struct {
}

type em3 struct {
}

type Em4 struct {
	A *CbStruct_Ap `json:"b,omitnil"`
	*MyStr
}

type Em5 struct {
	E json.RawMessage `json:"C,omitnil"`
	B CbStr_Cp        `json:"x,omitnil"`
}

type em6 struct {
	F json.Number `json:"-"`
	G json.Number `json:"B"`
	*Em5
	*MyStr
}

type Em7 struct {
	A    *CbPSt_Jv `json:"x"`
	*Em2 `json:"-"`
	em6  `json:"-"`
	E    [0]int
	*Em5 `json:",omitempty"`
}

type Em8 struct {
	em3
	*Em4 `json:",omitempty"`
	F    bool `json:"b"`
}

type em9 struct {
	A int `json:"A"`
	Em7
	G    []CbStruct_Cv `json:",omitnil"`
	*em6 `json:"em"`
	B    bool `json:"b"`
}

type Em10 struct {
	B string `json:"C"`
	em9
	D []CbStruct_Cv `json:"-"`
}

type Em11 struct {
	*Em10
}

type em12 struct {
	A    CbStruct_Jp `json:"a,omitempty"`
	D    int64       `json:"b,omitnil"`
	*Em4 `json:"em"`
	E    time.Time `json:"-"`
	*em6
	Em11
	*MyStr
}

type Em13 struct {
	E []CbStruct_Cv `json:"B"`
	F bool          `json:"-"`
	*Em4
	B MyInt `json:"a"`
	*em9
	D int8 `json:"B,string"`
	em12
}

type Em14 struct {
	em9 `json:"em"`
	D   MyInt `json:"-"`
	G   *int
}

type em15 struct {
	B    CbStr_Cp `json:"-"`
	Em14 `json:"-"`
	A    float64 `json:"A"`
	*Em13
	F []CbStruct_Cv `json:"B,omitempty"`
}

type Em16 struct {
	D MyInt `json:"x"`
	*em15
	F int8 `json:"b,string"`
	MyInt
}

type Em17 struct {
	A     string `json:"B,omitempty"`
	*Em16 `json:",omitempty"`
	D     string `json:",omitempty"`
	E     *int   `json:"B"`
}

type em18 struct {
	Em17 `json:"-"`
	C    *CbPSt_Jv `json:",omitnil"`
	G    []byte    `json:",omitempty"`
	MyInt
}

type Em19 struct {
	em18
	D any
	Em11
	F int64 `json:",omitnil"`
	MyInt
}

type Em20 struct {
	B CbStruct_Jp `json:",omitempty"`
	E time.Time   `json:"-"`
	*em12
	G MyStr `json:",omitempty"`
}

type em21 struct {
	*Em16 `json:"-"`
	E     json.Number `json:"b,omitnil"`
}

type Em22 struct {
	A     CbStruct_Jp
	C     []string `json:"C"`
	*em21 `json:"em"`
}

type Em23 struct {
	Em14 `json:",omitempty"`
	B    *string  `json:"B,omitnil"`
	A    CbMap_Jv `json:"a,omitempty"`
	MyInt
}

type em24 struct {
	Em23 `json:",omitempty"`
	A    []string `json:"A,omitempty"`
	MyInt
}

type Em25 struct {
	E []byte `json:",omitempty"`
	*em24
	B    CbStruct_Jv `json:"a"`
	em18 `json:",omitempty"`
	F    CbStr_Jv `json:"B,omitempty"`
}

type Em26 struct {
	D *CbStruct_Ap `json:"a,omitempty"`
	*Em25
	F *CbPSt_Jv `json:"a"`
}

type em27 struct {
	F json.Number   `json:"B,omitempty"`
	G []CbStruct_Cv `json:"C,omitempty"`
	*em21
}

type Em28 struct {
	B CbStruct_Jp `json:"x"`
	Em25
	D    uint16      `json:"x"`
	E    CbStruct_Tp `json:"C,omitempty"`
	Em26 `json:"em"`
}

type Em29 struct {
	G CbMap_Jv `json:"x,omitempty"`
	F [2]uint8 `json:"x"`
	Em28
	C any `json:"x"`
	Em26
	D json.RawMessage `json:"-"`
	*MyStr
}

type em30 struct {
	D []CbStruct_Cv `json:"A"`
	G json.RawMessage
	Em28
	F time.Duration `json:"b,omitnil"`
}

type Em31 struct {
	B time.Time `json:",omitnil"`
	em30
	A CbInt_Tv `json:"A"`
	F int8
}

type Em32 struct {
	*Em31
	A [2]uint8      `json:"-"`
	F time.Duration `json:"a,omitempty"`
	em27
}

type em33 struct {
	G MyStr   `json:"b,omitempty"`
	C float64 `json:"a,omitnil"`
	Em32
	D CbStruct_Tp `json:"B"`
}

type Em34 struct {
	C    [2]uint8 `json:"-"`
	F    MyStr    `json:"-"`
	Em29 `json:"-"`
	G    CbMap_Jv `json:"x"`
	*em33
}

type Em35 struct {
	G CbPSt_Av `json:"b"`
	*em27
	E int64 `json:"B,string"`
	Em26
}

type em36 struct {
	C MyInt `json:",omitnil"`
	Em34
	E CbStr_Jv `json:"b"`
	Em35
	G CbStr_Jv `json:"a,omitempty"`
	MyInt
}

type Em37 struct {
	G     []string `json:"-"`
	*Em29 `json:"em"`
}

type Em38 struct {
	A int `json:"B"`
	*Em37
	E CbInt_Tv `json:"A,omitnil"`
}

type em39 struct {
	E *CbStruct_Ap
	*Em32
	C time.Time `json:"b,omitempty"`
	*Em38
	D any `json:",omitempty"`
}

type Em40 struct {
	E     struct{} `json:",omitnil"`
	*Em31 `json:"em"`
	B     string
	C     json.RawMessage `json:"a"`
	Em37  `json:"-"`
	em39  `json:"em"`
	MyInt
}

type Em41 struct {
	C [0]int   `json:"A,omitempty"`
	D CbMap_Jv `json:"-"`
	*Em32
	E bool
	F int `json:",omitnil"`
}

type em42 struct {
	em33
	*Em35
	E []byte   `json:",omitempty"`
	C CbPSt_Av `json:"a,omitnil"`
}

type Em43 struct {
	G json.RawMessage `json:",omitempty"`
	B bool            `json:"-"`
	*Em41
	A     [2]uint8 `json:"a"`
	D     []string `json:",omitempty"`
	*em42 `json:",omitempty"`
	F     CbMap_Jv `json:"C,omitempty"`
}

type Em44 struct {
	*Em43 `json:",omitempty"`
	A     *int          `json:"A,omitnil"`
	B     time.Duration `json:",omitnil"`
	*MyStr
}

type em45 struct {
	Em41 `json:",omitempty"`
	D    any `json:"B"`
}

type Em46 struct {
	*em45
	A bool
	B struct{}
	MyInt
}

type Em47 struct {
	F CbStruct_Jv `json:"A,omitnil"`
	Em46
	D CbMap_Jv `json:"x"`
}

type em48 struct {
	C    any           `json:"A,omitempty"`
	A    []CbStruct_Cv `json:"B,omitempty"`
	Em43 `json:"-"`
	E    MyInt `json:",omitnil"`
}

type Em49 struct {
	F CbStr_Jv `json:"A,omitempty"`
	Em41
	*Em43
	B int8
	C any `json:"b,omitempty"`
	*Em46
	A CbStr_Cp `json:",omitnil"`
}

type Em50 struct {
	*Em47
	MyInt
}

type em51 struct {
	Em49
}

type Em52 struct {
	E MyInt `json:"x,string"`
	em51
	C time.Time `json:"a"`
	*Em44
	em45
	B CbStruct_Jv  `json:",omitnil"`
	A *CbStruct_Ap `json:"A,omitnil"`
}

type Em53 struct {
	F any `json:"b,omitempty"`
	*Em47
	*em51 `json:"-"`
	A     []byte `json:"a,omitempty"`
	MyInt
}

type em54 struct {
	*Em50
	C     *CbStruct_Ap `json:"C,omitempty"`
	*em51 `json:"em"`
}

type Em55 struct {
	F CbStruct_Tp `json:",omitnil"`
	B any         `json:",omitempty"`
	em48
	D json.Number `json:"-"`
}

// Embedding that comes back to the same type.
type EmR struct {
	A int
	*EmR
	Cb CbStruct_Jp
}

type EmS struct {
	B string `json:"b,omitempty"`
	*EmT
}

type EmT struct {
	C CbStruct_Av
	*EmS
	K []EmS
}

var embedBases = []reflect.Type{
	reflect.TypeOf(em6{}),
	reflect.TypeOf(Em7{}),
	reflect.TypeOf(Em8{}),
	reflect.TypeOf(em9{}),
	reflect.TypeOf(Em10{}),
	reflect.TypeOf(Em11{}),
	reflect.TypeOf(em12{}),
	reflect.TypeOf(Em13{}),
	reflect.TypeOf(Em14{}),
	reflect.TypeOf(em15{}),
	reflect.TypeOf(Em16{}),
	reflect.TypeOf(Em17{}),
	reflect.TypeOf(em18{}),
	reflect.TypeOf(Em19{}),
	reflect.TypeOf(Em20{}),
	reflect.TypeOf(em21{}),
	reflect.TypeOf(Em22{}),
	reflect.TypeOf(Em23{}),
	reflect.TypeOf(em24{}),
	reflect.TypeOf(Em25{}),
	reflect.TypeOf(Em26{}),
	reflect.TypeOf(em27{}),
	reflect.TypeOf(Em28{}),
	reflect.TypeOf(Em29{}),
	reflect.TypeOf(em30{}),
	reflect.TypeOf(Em31{}),
	reflect.TypeOf(Em32{}),
	reflect.TypeOf(em33{}),
	reflect.TypeOf(Em34{}),
	reflect.TypeOf(Em35{}),
	reflect.TypeOf(em36{}),
	reflect.TypeOf(Em37{}),
	reflect.TypeOf(Em38{}),
	reflect.TypeOf(em39{}),
	reflect.TypeOf(Em40{}),
	reflect.TypeOf(Em41{}),
	reflect.TypeOf(em42{}),
	reflect.TypeOf(Em43{}),
	reflect.TypeOf(Em44{}),
	reflect.TypeOf(em45{}),
	reflect.TypeOf(Em46{}),
	reflect.TypeOf(Em47{}),
	reflect.TypeOf(em48{}),
	reflect.TypeOf(Em49{}),
	reflect.TypeOf(Em50{}),
	reflect.TypeOf(em51{}),
	reflect.TypeOf(Em52{}),
	reflect.TypeOf(Em53{}),
	reflect.TypeOf(em54{}),
	reflect.TypeOf(Em55{}),
	reflect.TypeOf(EmR{}),
	reflect.TypeOf(EmS{}),
	reflect.TypeOf(EmT{}),
}
