package wl

import (
	"fmt"
	"reflect"
)

// largeStruct is a struct of n fields.
func largeStruct(n int, tags bool) reflect.Type {
	ts := []reflect.Type{rt0[int](), rt0[string](), rt0[bool](), rt0[*int](), rt0[float64](), rt0[CbStruct_Jv](), rt0[int8](), rt0[[]byte](), rt0[any](), rt0[*CbStruct_Ap](), rt0[uint8](), rt0[CbStr_Tv](), rt0[[]int](), rt0[CbInt_Cp]()}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("L%d", i), Type: ts[(i*5+i/len(ts))%len(ts)]}
		if tags {
			switch i % 9 {
			case 2:
				f.Tag = `json:",omitempty"`
			case 4:
				f.Tag = `json:",omitnil"`
			case 5:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"l<%d>"`, i))
			case 7:
				if k := f.Type.Kind(); k == reflect.Int || k == reflect.Bool || k == reflect.Float64 {
					f.Tag = `json:",string"`
				}
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// largeBases are types with many fields or elements: more than the bits of a
// word, or than a byte can count.
var largeBases = []reflect.Type{
	largeStruct(66, true), largeStruct(66, false), largeStruct(130, true), largeStruct(260, true), largeStruct(260, false),
	rt0[[300]byte](), rt0[[70]CbU8_Jp](), rt0[[260]CbU8_Tv](), rt0[[260]int8](), rt0[[68]CbPSt_Ap](), rt0[map[string][66]CbU8_Av](),
	rt0[[]int8](), rt0[[]bool](), rt0[[]MyBool](),
}
