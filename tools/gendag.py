#!/usr/bin/env python3
"""Writes sim/zzsim/wl/dags_gen.go: types that reach other types on many paths.

Each level refers to the next one twice: a preparation that does not remember
the types it has seen takes two to the power of the depth steps."""
import os
N = 22
o = ["// Code generated by tools/gendag.py. DO NOT EDIT.", "", "package wl", "", 'import "reflect"', ""]
P = ["int", "CbStruct_Jp", "string", "*CbStr_Tp", "[]byte", "CbStruct_Av", "any"]
for i in range(N):
    j = i + 1
    a, b = [("*dagP%d", "*dagP%d"), ("*dagP%d", "[]dagP%d"), ("map[string]dagP%d", "*dagP%d"), ("[]*dagP%d", "[1]*dagP%d")][i % 4]
    o += ["type dagP%d struct {" % i, "\tA %s" % (a % j), "\tB %s `json:\",omitempty\"`" % (b % j), "\tX %s" % P[i % len(P)], "}", ""]
    for s in "AB":
        o += ["type DagE%s%d struct {" % (s, i), "\t*DagEA%d" % j, "\t*DagEB%d" % j, "\tX%d%s %s" % (i, s, P[(i + ord(s)) % len(P)]), "\tZ int8", "}", ""]
    o += ["type dagM%d map[string]struct { A, B []dagM%d }" % (i, j), "",
          "type dagV%d struct {" % i, "\tA, B dagV%d" % j if i >= 12 else "\tA []dagV%d\n\tB *[1]dagV%d" % (j, j), "}", ""] if i < 16 else []
    if 16 <= i: o += ["type dagM%d map[string]struct { A, B []dagM%d }" % (i, j), ""]
o += ["type dagP%d struct{ N CbStruct_Tv }" % N, "", "type DagEA%d struct{ N int }" % N, "", "type DagEB%d struct{ N CbStr_Jv }" % N, "",
      "type dagM%d []string" % N, "", "type dagV16 struct{ N int8 }", ""]
o += ["var dagBases = []reflect.Type{", "\trt0[dagP0](), rt0[DagEA0](), rt0[DagEB1](), rt0[dagM0](), rt0[dagV0](), rt0[dagP3](), rt0[dagP14](), rt0[DagEA16](),", "}", ""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim/zzsim/wl/dags_gen.go"), "w").write("\n".join(o))
