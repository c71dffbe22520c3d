// Code generated by tools/gendag.py. DO NOT EDIT.

package wl

import "reflect"

type dagP0 struct {
	A *dagP1
	B *dagP1 `json:",omitempty"`
	X int
}

type DagEA0 struct {
	*DagEA1
	*DagEB1
	X0A string
	Z   int8
}

type DagEB0 struct {
	*DagEA1
	*DagEB1
	X0B *CbStr_Tp
	Z   int8
}

type dagM0 map[string]struct{ A, B []dagM1 }

type dagV0 struct {
	A []dagV1
	B *[1]dagV1
}

type dagP1 struct {
	A *dagP2
	B []dagP2 `json:",omitempty"`
	X CbStruct_Jp
}

type DagEA1 struct {
	*DagEA2
	*DagEB2
	X1A *CbStr_Tp
	Z   int8
}

type DagEB1 struct {
	*DagEA2
	*DagEB2
	X1B []byte
	Z   int8
}

type dagM1 map[string]struct{ A, B []dagM2 }

type dagV1 struct {
	A []dagV2
	B *[1]dagV2
}

type dagP2 struct {
	A map[string]dagP3
	B *dagP3 `json:",omitempty"`
	X string
}

type DagEA2 struct {
	*DagEA3
	*DagEB3
	X2A []byte
	Z   int8
}

type DagEB2 struct {
	*DagEA3
	*DagEB3
	X2B CbStruct_Av
	Z   int8
}

type dagM2 map[string]struct{ A, B []dagM3 }

type dagV2 struct {
	A []dagV3
	B *[1]dagV3
}

type dagP3 struct {
	A []*dagP4
	B [1]*dagP4 `json:",omitempty"`
	X *CbStr_Tp
}

type DagEA3 struct {
	*DagEA4
	*DagEB4
	X3A CbStruct_Av
	Z   int8
}

type DagEB3 struct {
	*DagEA4
	*DagEB4
	X3B any
	Z   int8
}

type dagM3 map[string]struct{ A, B []dagM4 }

type dagV3 struct {
	A []dagV4
	B *[1]dagV4
}

type dagP4 struct {
	A *dagP5
	B *dagP5 `json:",omitempty"`
	X []byte
}

type DagEA4 struct {
	*DagEA5
	*DagEB5
	X4A any
	Z   int8
}

type DagEB4 struct {
	*DagEA5
	*DagEB5
	X4B int
	Z   int8
}

type dagM4 map[string]struct{ A, B []dagM5 }

type dagV4 struct {
	A []dagV5
	B *[1]dagV5
}

type dagP5 struct {
	A *dagP6
	B []dagP6 `json:",omitempty"`
	X CbStruct_Av
}

type DagEA5 struct {
	*DagEA6
	*DagEB6
	X5A int
	Z   int8
}

type DagEB5 struct {
	*DagEA6
	*DagEB6
	X5B CbStruct_Jp
	Z   int8
}

type dagM5 map[string]struct{ A, B []dagM6 }

type dagV5 struct {
	A []dagV6
	B *[1]dagV6
}

type dagP6 struct {
	A map[string]dagP7
	B *dagP7 `json:",omitempty"`
	X any
}

type DagEA6 struct {
	*DagEA7
	*DagEB7
	X6A CbStruct_Jp
	Z   int8
}

type DagEB6 struct {
	*DagEA7
	*DagEB7
	X6B string
	Z   int8
}

type dagM6 map[string]struct{ A, B []dagM7 }

type dagV6 struct {
	A []dagV7
	B *[1]dagV7
}

type dagP7 struct {
	A []*dagP8
	B [1]*dagP8 `json:",omitempty"`
	X int
}

type DagEA7 struct {
	*DagEA8
	*DagEB8
	X7A string
	Z   int8
}

type DagEB7 struct {
	*DagEA8
	*DagEB8
	X7B *CbStr_Tp
	Z   int8
}

type dagM7 map[string]struct{ A, B []dagM8 }

type dagV7 struct {
	A []dagV8
	B *[1]dagV8
}

type dagP8 struct {
	A *dagP9
	B *dagP9 `json:",omitempty"`
	X CbStruct_Jp
}

type DagEA8 struct {
	*DagEA9
	*DagEB9
	X8A *CbStr_Tp
	Z   int8
}

type DagEB8 struct {
	*DagEA9
	*DagEB9
	X8B []byte
	Z   int8
}

type dagM8 map[string]struct{ A, B []dagM9 }

type dagV8 struct {
	A []dagV9
	B *[1]dagV9
}

type dagP9 struct {
	A *dagP10
	B []dagP10 `json:",omitempty"`
	X string
}

type DagEA9 struct {
	*DagEA10
	*DagEB10
	X9A []byte
	Z   int8
}

type DagEB9 struct {
	*DagEA10
	*DagEB10
	X9B CbStruct_Av
	Z   int8
}

type dagM9 map[string]struct{ A, B []dagM10 }

type dagV9 struct {
	A []dagV10
	B *[1]dagV10
}

type dagP10 struct {
	A map[string]dagP11
	B *dagP11 `json:",omitempty"`
	X *CbStr_Tp
}

type DagEA10 struct {
	*DagEA11
	*DagEB11
	X10A CbStruct_Av
	Z    int8
}

type DagEB10 struct {
	*DagEA11
	*DagEB11
	X10B any
	Z    int8
}

type dagM10 map[string]struct{ A, B []dagM11 }

type dagV10 struct {
	A []dagV11
	B *[1]dagV11
}

type dagP11 struct {
	A []*dagP12
	B [1]*dagP12 `json:",omitempty"`
	X []byte
}

type DagEA11 struct {
	*DagEA12
	*DagEB12
	X11A any
	Z    int8
}

type DagEB11 struct {
	*DagEA12
	*DagEB12
	X11B int
	Z    int8
}

type dagM11 map[string]struct{ A, B []dagM12 }

type dagV11 struct {
	A []dagV12
	B *[1]dagV12
}

type dagP12 struct {
	A *dagP13
	B *dagP13 `json:",omitempty"`
	X CbStruct_Av
}

type DagEA12 struct {
	*DagEA13
	*DagEB13
	X12A int
	Z    int8
}

type DagEB12 struct {
	*DagEA13
	*DagEB13
	X12B CbStruct_Jp
	Z    int8
}

type dagM12 map[string]struct{ A, B []dagM13 }

type dagV12 struct {
	A, B dagV13
}

type dagP13 struct {
	A *dagP14
	B []dagP14 `json:",omitempty"`
	X any
}

type DagEA13 struct {
	*DagEA14
	*DagEB14
	X13A CbStruct_Jp
	Z    int8
}

type DagEB13 struct {
	*DagEA14
	*DagEB14
	X13B string
	Z    int8
}

type dagM13 map[string]struct{ A, B []dagM14 }

type dagV13 struct {
	A, B dagV14
}

type dagP14 struct {
	A map[string]dagP15
	B *dagP15 `json:",omitempty"`
	X int
}

type DagEA14 struct {
	*DagEA15
	*DagEB15
	X14A string
	Z    int8
}

type DagEB14 struct {
	*DagEA15
	*DagEB15
	X14B *CbStr_Tp
	Z    int8
}

type dagM14 map[string]struct{ A, B []dagM15 }

type dagV14 struct {
	A, B dagV15
}

type dagP15 struct {
	A []*dagP16
	B [1]*dagP16 `json:",omitempty"`
	X CbStruct_Jp
}

type DagEA15 struct {
	*DagEA16
	*DagEB16
	X15A *CbStr_Tp
	Z    int8
}

type DagEB15 struct {
	*DagEA16
	*DagEB16
	X15B []byte
	Z    int8
}

type dagM15 map[string]struct{ A, B []dagM16 }

type dagV15 struct {
	A, B dagV16
}

type dagP16 struct {
	A *dagP17
	B *dagP17 `json:",omitempty"`
	X string
}

type DagEA16 struct {
	*DagEA17
	*DagEB17
	X16A []byte
	Z    int8
}

type DagEB16 struct {
	*DagEA17
	*DagEB17
	X16B CbStruct_Av
	Z    int8
}

type dagM16 map[string]struct{ A, B []dagM17 }

type dagP17 struct {
	A *dagP18
	B []dagP18 `json:",omitempty"`
	X *CbStr_Tp
}

type DagEA17 struct {
	*DagEA18
	*DagEB18
	X17A CbStruct_Av
	Z    int8
}

type DagEB17 struct {
	*DagEA18
	*DagEB18
	X17B any
	Z    int8
}

type dagM17 map[string]struct{ A, B []dagM18 }

type dagP18 struct {
	A map[string]dagP19
	B *dagP19 `json:",omitempty"`
	X []byte
}

type DagEA18 struct {
	*DagEA19
	*DagEB19
	X18A any
	Z    int8
}

type DagEB18 struct {
	*DagEA19
	*DagEB19
	X18B int
	Z    int8
}

type dagM18 map[string]struct{ A, B []dagM19 }

type dagP19 struct {
	A []*dagP20
	B [1]*dagP20 `json:",omitempty"`
	X CbStruct_Av
}

type DagEA19 struct {
	*DagEA20
	*DagEB20
	X19A int
	Z    int8
}

type DagEB19 struct {
	*DagEA20
	*DagEB20
	X19B CbStruct_Jp
	Z    int8
}

type dagM19 map[string]struct{ A, B []dagM20 }

type dagP20 struct {
	A *dagP21
	B *dagP21 `json:",omitempty"`
	X any
}

type DagEA20 struct {
	*DagEA21
	*DagEB21
	X20A CbStruct_Jp
	Z    int8
}

type DagEB20 struct {
	*DagEA21
	*DagEB21
	X20B string
	Z    int8
}

type dagM20 map[string]struct{ A, B []dagM21 }

type dagP21 struct {
	A *dagP22
	B []dagP22 `json:",omitempty"`
	X int
}

type DagEA21 struct {
	*DagEA22
	*DagEB22
	X21A string
	Z    int8
}

type DagEB21 struct {
	*DagEA22
	*DagEB22
	X21B *CbStr_Tp
	Z    int8
}

type dagM21 map[string]struct{ A, B []dagM22 }

type dagP22 struct{ N CbStruct_Tv }

type DagEA22 struct{ N int }

type DagEB22 struct{ N CbStr_Jv }

type dagM22 []string

type dagV16 struct{ N int8 }

var dagBases = []reflect.Type{
	rt0[dagP0](), rt0[DagEA0](), rt0[DagEB1](), rt0[dagM0](), rt0[dagV0](), rt0[dagP3](), rt0[dagP14](), rt0[DagEA16](),
}
