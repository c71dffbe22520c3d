#!/usr/bin/env python3
"""Writes sim/zzsim/wl/embeds_gen.go: struct types that embed one another."""
import os, random
r = random.Random(20240607)
PL = ["bool", "int", "int8", "uint16", "int64", "float64", "string", "any", "[]byte", "*int", "*string", "[]string", "map[string]int",
      "time.Time", "time.Duration", "json.Number", "MyStr", "MyInt", "[2]uint8", "[0]int", "struct{}", "json.RawMessage"]
CB = ["CbStruct_Jv", "CbStruct_Jp", "*CbStruct_Ap", "CbInt_Tv", "CbPSt_Av", "CbStr_Cp", "*CbPSt_Jv", "CbMap_Jv", "CbStruct_Tp", "CbStr_Jv", "[]CbStruct_Cv"]
NUM = {"bool", "int", "int8", "uint16", "int64", "float64", "MyInt"}
names = ["A", "B", "C", "D", "E", "F", "G"]
o = ["// Code generated by tools/genemb.py. DO NOT EDIT.", "", "package wl", "", 'import (', '\t"encoding/json"', '\t"reflect"', '\t"time"', ')', ""]
N = 56
def nm(i): return ("Em%d" if i % 3 else "em%d") % i
for i in range(N):
    fs, used = [], set()
    def plain(k):
        for _ in range(k):
            n = r.choice(names)
            if n in used: continue
            used.add(n)
            t = r.choice(CB if r.random() < .35 else PL)
            tag = r.choice(["", "", "", "a", "b", "A", "B", "C", "x", "-"])
            opt = r.choice(["", "", "omitempty", "omitnil", "string" if t in NUM or t.lstrip("*") in NUM else "omitempty"])
            if tag == "-" and opt: opt = ""
            s = ""
            if tag or opt: s = ' `json:"%s%s"`' % (tag, "," + opt if opt else "")
            fs.append("\t%s %s%s" % (n, t, s))
    plain(r.randrange(0, 3))
    if i >= 6:
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            j = i - 1 - int(r.random() ** 2 * min(i - 1, 9))
            n = nm(j)
            if n in used: continue
            used.add(n)
            s = r.choice(["", "", "", "", "", "", ' `json:"em"`', ' `json:",omitempty"`', ' `json:"-"`'])
            fs.append("\t%s%s%s" % (r.choice(["", "*"]), n, s))
            plain(r.randrange(0, 3))
    if r.random() < .15: fs.append("\tMyInt")
    if r.random() < .1: fs.append("\t*MyStr")
    o.append("type %s struct {" % nm(i)); o += fs; o += ["}", ""]
o += ["// Embedding that comes back to the same type.",
      "type EmR struct {", "\tA int", "\t*EmR", "\tCb CbStruct_Jp", "}", "",
      "type EmS struct {", "\tB string `json:\"b,omitempty\"`", "\t*EmT", "}", "",
      "type EmT struct {", "\tC CbStruct_Av", "\t*EmS", "\tK []EmS", "}", ""]
o.append("var embedBases = []reflect.Type{")
for i in range(6, N): o.append("\treflect.TypeOf(%s{})," % nm(i))
o += ["\treflect.TypeOf(EmR{}),", "\treflect.TypeOf(EmS{}),", "\treflect.TypeOf(EmT{}),", "}", ""]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, "sim/zzsim/wl/embeds_gen.go"), "w").write("\n".join(o))
