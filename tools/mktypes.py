#!/usr/bin/env python3
# Generates sim/zzsim/wl/types_gen.go: types with every kind of marshaling
# method on every shape of receiver, and families of plain types.
import os,random
o=[]
w=o.append
w('''// Code generated by tools/mktypes.py. DO NOT EDIT.

package wl

import (
	"context"
	"encoding"
	"encoding/json"
	"reflect"
	"time"

	"github.com/wI2L/jettison"
	"github.com/wI2L/jettison/zzsim/simsync"
)

var (
	_ context.Context
	_ encoding.TextMarshaler
	_ json.Marshaler
	_ time.Time
	_ simsync.Map
	_ jettison.Option
)
''')
# shape -> (declaration, id expression on receiver value c, constructor expression of id)
shapes={
 "Struct":("struct {\n\tMagic uint32\n\tID int32\n\tPad [%d]byte\n}","idStruct(c.Magic, c.ID)","%s{Magic: magic, ID: id}"),
 "Int":("int64","idInt(int64(c))","%s(mkInt(id))"),
 "U8":("uint8","idU8(uint8(c))","%s(mkU8(id))"),
 "Str":("string","idStr(string(c))","%s(mkStr(id))"),
 "F64":("float64","idF64(float64(c))","%s(mkF64(id))"),
 "Slice":("[]int32","idSlice([]int32(c))","%s(mkSlice(id))"),
 "Bytes":("[]byte","idStr(string(c))","%s(mkStr(id))"),
 "Map":("map[string]int32","idMap(map[string]int32(c))","%s(mkMap(id))"),
 "PSt":("struct{ P *payload }","idPay(c.P)","%s{mkPay(id)}"),
 "PSt2":("struct {\n\tP *payload\n\tQ int\n}","idPay(c.P)","%s{mkPay(id), 7}"),
 "Arr1":("[1]*payload","idPay(c[0])","%s{mkPay(id)}"),
 "Arr2":("[2]*payload","idPay(c[1])","%s{nil, mkPay(id)}"),
 "PArr":("struct{ A [1]*payload }","idPay(c.A[0])","%s{[1]*payload{mkPay(id)}}"),
 "Func":("func() int32","idFunc((func() int32)(c))","%s(mkFunc(id))"),
 "Chan":("chan struct{}","int32(cap(c))","%s(make(chan struct{}, id))"),
 "Any":("struct{ V any }","idAny(c.V)","%s{mkPay(id)}"),
 "Zero":("struct{}","zeroID","%s{}"),
}
sig={"C":("AppendJSONContext","ctx context.Context, dst []byte","cbC(%s, %s, ctx, dst)"),
 "A":("AppendJSON","dst []byte","cbA(%s, %s, dst)"),
 "J":("MarshalJSON","","cbJ(%s, %s)"),
 "T":("MarshalText","","cbT(%s, %s)")}
infos=[]
def cb(shape,methods):
    # methods: list of (letter, 'v'|'p')
    name="Cb"+shape+"_"+"".join(l+r for l,r in methods)
    decl,idx,ctor=shapes[shape]
    if shape=="Struct":
        decl=decl%(len(infos)%5*3)
    i=len(infos)
    w(f"type {name} {decl}\n")
    w(f"func (c {name}) zzid() int32 {{ return {idx} }}")
    for l,r in methods:
        m,p,body=sig[l]
        if r=="v":
            w(f"func (c {name}) {m}({p}) ([]byte, error) {{ return {body%(i,'c.zzid()')} }}")
        else:
            w(f"func (c *{name}) {m}({p}) ([]byte, error) {{ return {body%(i,'ptrID(c)')} }}")
    w("")
    infos.append((name,shape,methods,ctor%name))
for s in shapes:
    for l in "CAJT":
        for r in "vp":
            cb(s,[(l,r)])
for s in ["Struct","Int","Str","PSt","Map","Slice","U8"]:
    cb(s,[(l,"v") for l in "CAJT"])
    cb(s,[("J","v"),("T","v")])
    cb(s,[("A","p"),("J","v")])
for s in ["Struct","PSt","Arr1","Func"]:
    cb(s,[("A","v"),("J","v")])
    cb(s,[("J","p"),("T","v")])
    cb(s,[("C","p"),("A","v"),("T","p")])
    cb(s,[("C","v"),("A","p")])
    cb(s,[("C","p"),("J","p"),("T","p")])
    cb(s,[("A","p"),("T","p")])
w("var infos = []*TypeInfo{")
for n,s,m,c in infos:
    ml="".join(l+r for l,r in m)
    w(f"\t{{Name: {n!r}, Shape: {s!r}, M: {ml!r}, T: reflect.TypeOf((*{n})(nil)).Elem(), mk: func(id int32) any {{ return {c} }}}},".replace("'",'"'))
w("}\n")
# structural families with embedding: depth 5, siblings at every level, values and pointers
rnd=random.Random(7)
fam=[]
leafs=["int","string","CbStruct_Jv","CbStruct_Jp","*int","CbPSt_Tv","bool","CbStruct_Ap","[]int","any","CbStr_Tp","map[string]int","time.Time","CbInt_Cp","float64"]
for f in range(6):
    names=[]
    def mk(d):
        n=f"E{f}x{len(names)}"
        names.append(n)
        body=[]
        nl=rnd.randint(1,2)
        for k in range(nl):
            body.append(f"\tF{n[1:].replace('x','_')}{'abc'[k]} {rnd.choice(leafs)}")
        if d>0:
            for k in range(rnd.randint(1,2) if d<4 else 2):
                c=mk(d-1)
                star="*" if rnd.random()<(0.1 if f%3==0 else 0.4 if f%3==1 else 0.8) else ""
                pos=rnd.randint(0,len(body))
                body.insert(pos,f"\t{star}{c}")
        if rnd.random()<0.3:
            body.append(f"\tDup int `json:\"dup\"`")
        w(f"type {n} struct {{\n"+"\n".join(body)+"\n}\n")
        return n
    fam.append(mk(5))
# a wide struct
w("type Wide struct {")
for i in range(48):
    t=leafs[i%len(leafs)]
    tag={0:"",1:"omitempty",2:"omitnil",3:""}[i%4]
    w(f"\tW{i} {t} `json:\"w{i},{tag}\"`" if tag else f"\tW{i} {t}")
w("}\n")
# tags on every kind of field
kinds=["bool","int","int8","uint16","uint64","float32","float64","string","[]int","[]byte","[2]int","[0]int","[3]byte","map[string]int","*int","*string","any","struct{ X int }","*Plain","time.Time","*time.Time","time.Duration","json.Number","json.RawMessage",
 "CbStruct_Jv","*CbStruct_Jv","CbStruct_Jp","*CbStruct_Jp","CbMap_Jv","CbSlice_Jv","CbSlice_Tv","CbMap_Ap","json.Marshaler","encoding.TextMarshaler","CbFunc_Jv","CbPSt_Jv","CbStr_Jp","CbInt_Tv","CbBytes_Jp","CbU8_Av","[]CbU8_Jv","[2]CbU8_Tv","[]CbU8_Cp"]
for nm,opt in [("OmitEmpty","omitempty"),("OmitNil","omitnil"),("OmitBoth","omitempty,omitnil")]:
    w(f"type {nm} struct {{")
    for i,k in enumerate(kinds):
        if k=="json.RawMessage" or True:
            w(f"\tO{i} {k} `json:\",{opt}\"`")
    w("}\n")
w("type Quoted struct {")
for i,k in enumerate(["bool","int","int8","uint16","uint64","float32","float64","*int","*bool","CbInt_Jv","*CbInt_Jp","CbStr_Tv"]):
    w(f"\tQ{i} {k} `json:\"q{i},string\"`")
w("}\n")
w("type Names struct {")
for i,(n,k) in enumerate([("a<b","int"),("x&y>","CbStruct_Jv"),("日本語","string"),("$%-/","[]int"),("-,","int"),("é","bool"),("sp ace","map[string]int"),("a.b:c","any")]):
    w(f"\tN{i} {k} `json:\"{n}\"`")
w("}\n")
static=fam+["Wide","OmitEmpty","OmitNil","OmitBoth","Quoted","Names"]
w("var genFamilies = []reflect.Type{")
for n in static: w(f"\treflect.TypeOf({n}{{}}),")
w("}")
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,"sim/zzsim/wl/types_gen.go"),"w").write("\n".join(o)+"\n")
print(len(infos),"callback types")
