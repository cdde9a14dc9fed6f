#!/usr/bin/env python3
"""Writes harness/core/c19_types.go: a family of struct handlers with a table
of what each of them declares (run: python3 tools/c19types.py)."""
import os, random

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(19)
SYS = ["OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft"]
NAMES = ["OnFoo", "OnBar", "OnChat", "Ping", "GetAll", "Baz", "Online", "On", "OnNamespaceConnectX", "XPing", "GetOnFoo", "OnRoom", "OnOpen", "Onnext", "GetGet", "Gettee"]
WRONG = [
    ("(m neffos.Message)", "", ""),
    ("(m *neffos.Message)", "error", "nil"),
    ("()", "error", "nil"),
    ("(m ...neffos.Message)", "error", "nil"),
    ("(c *neffos.NSConn, m neffos.Message, x int)", "error", "nil"),
    ("(m neffos.Message)", "(int, error)", "0, nil"),
    ("(m neffos.Message)", "bool", "true"),
    ("(m neffos.Message, c *neffos.NSConn)", "error", "nil"),
    ("(c *neffos.NSConn)", "error", "nil"),
    ("(c neffos.NSConn, m neffos.Message)", "error", "nil"),
]
# exported static fields: name, type, value expression of n (n != 0), comparison
FIELDS = [
    ("Before", "int", "n", "=="), ("Name", "string", 'fmt.Sprint("name", n)', "=="), ("Tags", "[]string", 'c19Strings(n)', "deep"),
    ("M", "map[string]int", 'c19Map(n)', "deep"), ("P", "*int", "&c19Ints[n%4]", "=="), ("B", "bool", "true", "=="),
    ("T", "time.Time", "time.Unix(int64(n), 0)", "=="), ("Arr", "[2]string", '[2]string{"", fmt.Sprint(n)}', "=="), ("I", "any", 'any([]int{n})', "deep"),
    ("E", "error", "c19Errs[n%4]", "=="), ("Sub", "c19Sub", "c19Sub{A: n, b: n}", "=="), ("D", "time.Duration", "time.Duration(n)", "=="),
    ("Ch", "chan int", "c19Chans[n%4]", "=="), ("Fl", "float64", "float64(n)/3", "=="), ("SubP", "*c19Sub", "&c19Subs[n%4]", "=="),
    ("Z", "c19Zero", "c19Zero{N: n}", "=="), ("Deep", "c19Deep", "c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}", "=="),
    ("ZInt", "c19IntZero", "c19IntZero{N: n}", "=="), ("Bytes", "[]byte", "c19Bytes(n)", "deep"), ("U", "uint8", "uint8(n)", "=="),
    ("Lock", "sync.Mutex", None, None), ("Other", "neffos.Message", 'neffos.Message{Event: fmt.Sprint(n)}', "deep"), ("Conn", "*neffos.Conn", None, None),
]
PRIV = [("priv", "int", "n"), ("privS", "string", "fmt.Sprint(n)"), ("privSl", "[]int", "[]int{n}"), ("privT", "time.Time", "time.Unix(int64(n), 0)"), ("privSub", "c19Sub", "c19Sub{A: n}"), ("privM", "map[int]int", "map[int]int{n: n}"), ("privP", "*int", "&c19Ints[n%4]"), ("privI", "any", "any(n)")]

out = ['''// Code generated by tools/c19types.py. DO NOT EDIT.

package core

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/kataras/neffos"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ time.Time
var _ sync.Mutex

''']
table = []
N = 64
for i in range(N):
    T = "c19T%02d" % i
    dyn = i % 3 != 0
    emb = dyn and rnd.random() < 0.5
    ns_field = "NSConn" if emb else rnd.choice(["Conn1", "C", "Ns"])
    base = rnd.choice(["", "", "c19BaseV", "c19BaseP"])
    fields = []
    chosen = rnd.sample(FIELDS, rnd.randint(0, 5))
    priv = rnd.sample(PRIV, rnd.choice([0, 0, 0, 1, 2]))
    nsk = rnd.choice(["none", "method", "vmethod", "field", "promoted", "fmethod", "wrong"])
    for f in chosen:
        fields.append("%s %s" % (f[0], f[1]))
    for f in priv:
        fields.append("%s %s" % (f[0], f[1]))
    fields.append("Count int")
    if nsk == "field":
        fields.append("Namespace string")
    if nsk == "fmethod":
        fields.append("Space string")
    if nsk == "promoted":
        fields.append("C19WithNamespace" if rnd.random() < 0.6 else "*C19WithNamespace")
    if nsk == "wrong":
        fields.append("Namespace int")
    if base == "c19BaseV":
        fields.append("C19Base")
    if base == "c19BaseP":
        fields.append("*C19Base")
    if dyn:
        fields.append("*neffos.NSConn" if emb else "%s *neffos.NSConn" % ns_field)
    rnd.shuffle(fields)
    o = "type %s struct {\n\t%s\n}\n\n" % (T, "\n\t".join(fields))
    # methods
    names = rnd.sample(NAMES, rnd.randint(1, 6)) + rnd.sample(SYS, rnd.choice([0, 1, 2, 4, 7]))
    rnd.shuffle(names)
    meths = []
    for m in names:
        wrong = rnd.random() < 0.2
        val = rnd.random() < 0.25 and not any(f[0] == "Lock" for f in chosen)
        recv = "(t %s)" % T if val else "(t *%s)" % T
        if wrong:
            if rnd.random() < 0.4:  # the shape of the other kind of struct
                sh = ("(c *neffos.NSConn, m neffos.Message)" if dyn else "(m neffos.Message)", "error", "nil")
            else:
                sh = rnd.choice(WRONG)
            o += "func %s %s%s %s { c19Wrong(%d, \"%s\"); return %s }\n" % (recv, m, sh[0], sh[1], i, m, sh[2])
            meths.append((m, False, val))
            continue
        inst = "nil" if val else "t"
        cnt = "&t.Count" if not val else "nil"
        if dyn:
            o += "func %s %s(m neffos.Message) error { return c19Rec(%d, \"%s\", %s, %s, t.%s, nil, t.same(), m) }\n" % (recv, m, i, m, inst, cnt, ns_field)
        else:
            o += "func %s %s(c *neffos.NSConn, m neffos.Message) error { return c19Rec(%d, \"%s\", %s, %s, nil, c, t.same(), m) }\n" % (recv, m, i, m, inst, cnt)
        meths.append((m, True, val))
    basem = []
    if base:
        own = {m for m, _, _ in meths}
        basem = [m for m in (["BaseDyn", "OnBaseDyn"] if dyn else ["BaseStat", "OnBaseStat"]) if m not in own]
    if nsk == "method":
        o += 'func (t *%s) Namespace() string { return "m" }\n' % T
    if nsk == "vmethod":
        lock = any(f[0] == "Lock" for f in chosen)
        o += 'func (t %s%s) Namespace() string { return "v" }\n' % ("*" if lock else "", T)
    if nsk == "fmethod":
        o += 'func (t *%s) Namespace() string { return t.Space }\n' % T
    # fill and compare
    o += "func (t *%s) fill(ns string, vals []int) {\n\tn := 0\n\t_ = n\n" % T
    k = 0
    for f in chosen:
        if f[2]:
            o += "\tif n = vals[%d]; n != 0 {\n\t\tt.%s = %s\n\t}\n" % (k, f[0], f[2])
        k += 1
    for f in priv:
        o += "\tif n = vals[%d]; n != 0 {\n\t\tt.%s = %s\n\t}\n" % (k, f[0], f[2])
        k += 1
    if nsk == "field":
        o += "\tt.Namespace = ns\n"
    if nsk == "fmethod":
        o += "\tt.Space = ns\n"
    if nsk == "promoted":
        if "*C19WithNamespace" in fields:
            o += "\tt.C19WithNamespace = &C19WithNamespace{ns}\n"
        else:
            o += "\tt.C19WithNamespace.Namespace = ns\n"
    if base == "c19BaseP":
        o += "\tt.C19Base = &C19Base{}\n"
    o += "}\n"
    o += "func (t %s) same() string {\n\tw := %s{}\n\tw.fill(c19Cur.ns[%d], c19Cur.vals[%d])\n" % ("*" + T, T, i, i)
    for f in chosen:
        if f[3] == "==":
            o += "\tif t.%s != w.%s {\n\t\treturn fmt.Sprintf(\"%s is %%v instead of %%v\", t.%s, w.%s)\n\t}\n" % ((f[0], f[0], f[0], f[0], f[0]))
        elif f[3] == "deep":
            o += "\tif !reflect.DeepEqual(t.%s, w.%s) {\n\t\treturn fmt.Sprintf(\"%s is %%v instead of %%v\", t.%s, w.%s)\n\t}\n" % ((f[0], f[0], f[0], f[0], f[0]))
    if nsk == "field":
        o += "\tif t.Namespace != w.Namespace {\n\t\treturn \"Namespace is \" + t.Namespace\n\t}\n"
    o += "\t_ = w\n\treturn \"\"\n}\n\n"
    out.append(o)
    vals = len(chosen) + len(priv)
    ms = ", ".join('{"%s", %s, %s}' % (m, str(g).lower(), str(v).lower()) for m, g, v in meths)
    kindns = {"none": 0, "method": 1, "vmethod": 2, "field": 3, "promoted": 3, "fmethod": 3, "wrong": 0}[nsk]
    table.append("\t{name: \"%s\", dyn: %s, vals: %d, ns: %d, priv: %d, methods: []c19M{%s}, base: []string{%s}, basePtr: %s, make: func(ns string, v []int) any { t := &%s{}; t.fill(ns, v); return t }},\n" % (
        T, str(dyn).lower(), vals, kindns, len(priv), ms, ", ".join('"%s"' % b for b in basem), str(base == "c19BaseP").lower(), T))
out.append("var c19Table = []c19Type{\n" + "".join(table) + "}\n")
p = os.path.join(R, "harness/core/c19_types.go")
open(p, "w").write("".join(out))
os.system("gofmt -w " + p)
