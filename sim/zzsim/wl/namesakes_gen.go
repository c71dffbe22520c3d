// Code generated by tools/genns.py. DO NOT EDIT.

package wl

import "reflect"

// namesakes are lists of types with the same names, declared in different functions.
var namesakes = [][]reflect.Type{
	namesakes0(),
	namesakes1(),
	namesakes2(),
	namesakes3(),
	namesakes4(),
	namesakes5(),
	namesakes6(),
	namesakes7(),
	namesakes8(),
	namesakes9(),
	namesakes10(),
	namesakes11(),
	namesakes12(),
	namesakes13(),
	namesakes14(),
	namesakes15(),
}

func namesakes0() []reflect.Type {
	type id string
	type item struct {
		A id   `json:",omitempty"`
		B *id  `json:",omitempty"`
		C []id `json:"a"`
	}
	type flat struct {
		A int64 `json:",omitempty"`
		B int32
		C int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		D    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[id]item
	type list []id
	type pair [2]item
	type ptr *id
	type Emb struct {
		A id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes1() []reflect.Type {
	type id int
	type item struct {
		B id   `json:",omitempty"`
		C *id  `json:",omitempty"`
		D []id `json:"b"`
	}
	type flat struct {
		B uint64 `json:",omitempty"`
		C int32
		D int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		A    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[id]item
	type list []item
	type pair [2]id
	type ptr *flat
	type Emb struct {
		B id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes2() []reflect.Type {
	type id uint8
	type item struct {
		C id   `json:",omitempty"`
		D *id  `json:",omitempty"`
		A []id `json:"c"`
	}
	type flat struct {
		C float64 `json:",omitempty"`
		D uint32
		A int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		B    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[id]item
	type list []flat
	type pair [2]flat
	type ptr *node
	type Emb struct {
		C id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes3() []reflect.Type {
	type id [4]byte
	type item struct {
		D id   `json:",omitempty"`
		A *id  `json:",omitempty"`
		B []id `json:"d"`
	}
	type flat struct {
		D *int8 `json:",omitempty"`
		A uint32
		B uint32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		C    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []*id
	type pair [2]*node
	type ptr *id
	type Emb struct {
		D id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes4() []reflect.Type {
	type id []byte
	type item struct {
		A id   `json:",omitempty"`
		B *id  `json:",omitempty"`
		C []id `json:"e"`
	}
	type flat struct {
		A int64 `json:",omitempty"`
		B float32
		C uint32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		D    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []list
	type pair [2]item
	type ptr *flat
	type Emb struct {
		A id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes5() []reflect.Type {
	type id struct{ X, Y int8 }
	type item struct {
		B id   `json:",omitempty"`
		C *id  `json:",omitempty"`
		D []id `json:"f"`
	}
	type flat struct {
		B uint64 `json:",omitempty"`
		C float32
		D uint32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		A    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []id
	type pair [2]id
	type ptr *node
	type Emb struct {
		B id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes6() []reflect.Type {
	type id map[string]int8
	type item struct {
		C id   `json:",omitempty"`
		D *id  `json:",omitempty"`
		A []id `json:"g"`
	}
	type flat struct {
		C float64 `json:",omitempty"`
		D [4]int8
		A float32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		B    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []item
	type pair [2]flat
	type ptr *id
	type Emb struct {
		C id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes7() []reflect.Type {
	type id *int
	type item struct {
		D id   `json:",omitempty"`
		A *id  `json:",omitempty"`
		B []id `json:"h"`
	}
	type flat struct {
		D *int8 `json:",omitempty"`
		A [4]int8
		B float32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		C    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []flat
	type pair [2]*node
	type ptr *flat
	type Emb struct {
		D id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes8() []reflect.Type {
	type id bool
	type item struct {
		A id   `json:",omitempty"`
		B *id  `json:",omitempty"`
		C []id `json:"<"`
	}
	type flat struct {
		A int64 `json:",omitempty"`
		B int32
		C float32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		D    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []*id
	type pair [2]item
	type ptr *node
	type Emb struct {
		A id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes9() []reflect.Type {
	type id float64
	type item struct {
		B id   `json:",omitempty"`
		C *id  `json:",omitempty"`
		D []id `json:">"`
	}
	type flat struct {
		B uint64 `json:",omitempty"`
		C int32
		D [4]uint8 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		A    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []list
	type pair [2]id
	type ptr *id
	type Emb struct {
		B id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes10() []reflect.Type {
	type id any
	type item struct {
		C id   `json:",omitempty"`
		D *id  `json:",omitempty"`
		A []id `json:"&"`
	}
	type flat struct {
		C float64 `json:",omitempty"`
		D uint32
		A [4]uint8 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		B    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []id
	type pair [2]flat
	type ptr *flat
	type Emb struct {
		C id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes11() []reflect.Type {
	type id [0]int
	type item struct {
		D id   `json:",omitempty"`
		A *id  `json:",omitempty"`
		B []id `json:"a"`
	}
	type flat struct {
		D *int8 `json:",omitempty"`
		A uint32
		B [4]uint8 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		C    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []item
	type pair [2]*node
	type ptr *node
	type Emb struct {
		D id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes12() []reflect.Type {
	type id float32
	type item struct {
		A id   `json:",omitempty"`
		B *id  `json:",omitempty"`
		C []id `json:"b"`
	}
	type flat struct {
		A int64 `json:",omitempty"`
		B float32
		C int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		D    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []flat
	type pair [2]item
	type ptr *id
	type Emb struct {
		A id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes13() []reflect.Type {
	type id int32
	type item struct {
		B id   `json:",omitempty"`
		C *id  `json:",omitempty"`
		D []id `json:"c"`
	}
	type flat struct {
		B uint64 `json:",omitempty"`
		C float32
		D int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		A    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[id]item
	type list []*id
	type pair [2]id
	type ptr *flat
	type Emb struct {
		B id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes14() []reflect.Type {
	type id []string
	type item struct {
		C id   `json:",omitempty"`
		D *id  `json:",omitempty"`
		A []id `json:"d"`
	}
	type flat struct {
		C float64 `json:",omitempty"`
		D [4]int8
		A int32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		B    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[string]item
	type list []list
	type pair [2]flat
	type ptr *node
	type Emb struct {
		C id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}

func namesakes15() []reflect.Type {
	type id uint64
	type item struct {
		D id   `json:",omitempty"`
		A *id  `json:",omitempty"`
		B []id `json:"e"`
	}
	type flat struct {
		D *int8 `json:",omitempty"`
		A [4]int8
		B uint32 `json:",omitempty"`
	}
	type node struct {
		Next *node `json:",omitempty"`
		C    id
		L    []node `json:",omitempty"`
		V    any
	}
	type table map[id]item
	type list []id
	type pair [2]*node
	type ptr *id
	type Emb struct {
		D id
		Z flat
	}
	type outer struct {
		Emb
		Q item
		P ptr `json:",omitempty"`
	}
	return []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct {
		F id `json:",omitempty"`
	}]()}
}
