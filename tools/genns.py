#!/usr/bin/env python3
"""Writes sim/zzsim/wl/namesakes_gen.go: distinct types that share their names."""
U = ["string", "int", "uint8", "[4]byte", "[]byte", "struct{ X, Y int8 }", "map[string]int8", "*int", "bool", "float64", "any", "[0]int", "float32", "int32", "[]string", "uint64"]
out = ["// Code generated by tools/genns.py. DO NOT EDIT.", "", "package wl", "", 'import "reflect"', "",
       "// namesakes are lists of types with the same names, declared in different functions.",
       "var namesakes = [][]reflect.Type{"]
out += ["\tnamesakes%d()," % i for i in range(len(U))]
out += ["}", ""]
names = ["A", "B", "C", "D"]
for i, u in enumerate(U):
    key = "id" if u in ("string", "int", "uint8", "int32", "uint64") else "string"
    f = [names[(i + k) % 4] for k in range(4)]
    out += ["func namesakes%d() []reflect.Type {" % i,
            "\ttype id %s" % u,
            "\ttype item struct {",
            "\t\t%s id `json:\",omitempty\"`" % f[0],
            "\t\t%s *id `json:\",omitempty\"`" % f[1],
            "\t\t%s []id `json:\"%s\"`" % (f[2], "abcdefgh<>&"[i % 11]),
            "\t}",
            # the same size and number of fields everywhere
            "\ttype flat struct {",
            "\t\t%s %s `json:\",omitempty\"`" % (f[0], ["int64", "uint64", "float64", "*int8"][i % 4]),
            "\t\t%s %s" % (f[1], ["int32", "uint32", "float32", "[4]int8"][(i // 2) % 4]),
            "\t\t%s %s `json:\",omitempty\"`" % (f[2], ["int32", "uint32", "float32", "[4]uint8"][(i // 3) % 4]),
            "\t}",
            "\ttype node struct {",
            "\t\tNext *node `json:\",omitempty\"`",
            "\t\t%s id" % f[3],
            "\t\tL []node `json:\",omitempty\"`",
            "\t\tV any",
            "\t}",
            "\ttype table map[%s]item" % key,
            "\ttype list []%s" % ["id", "item", "flat", "*id", "list"][i % 5],
            "\ttype pair [2]%s" % ["item", "id", "flat", "*node"][i % 4],
            "\ttype ptr *%s" % ["id", "flat", "node"][i % 3],
            "\ttype Emb struct{ %s id; Z flat }" % f[0],
            "\ttype outer struct {",
            "\t\tEmb",
            "\t\tQ item",
            "\t\tP ptr `json:\",omitempty\"`",
            "\t}",
            "\treturn []reflect.Type{rt0[id](), rt0[item](), rt0[flat](), rt0[node](), rt0[table](), rt0[list](), rt0[pair](), rt0[outer](), rt0[*item](), rt0[struct{ F id `json:\",omitempty\"` }]()}",
            "}", ""]
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "sim/zzsim/wl/namesakes_gen.go"), "w").write("\n".join(out))
