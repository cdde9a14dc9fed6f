// Code generated by tools/c19types.py. DO NOT EDIT.

package core

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/kataras/neffos"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ time.Time
var _ sync.Mutex

type c19T00 struct {
	Ch chan int
	C19WithNamespace
	M     map[string]int
	T     time.Time
	Count int
	Deep  c19Deep
}

func (t *c19T00) OnBar(m *neffos.Message) error { c19Wrong(0, "OnBar"); return nil }
func (t *c19T00) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(0, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T00) GetOnFoo(m neffos.Message) bool { c19Wrong(0, "GetOnFoo"); return true }
func (t *c19T00) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(0, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T00) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(0, "OnNamespaceConnect", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T00) OnNamespaceDisconnect(c *neffos.NSConn) error {
	c19Wrong(0, "OnNamespaceDisconnect")
	return nil
}
func (t *c19T00) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[2]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	if n = vals[3]; n != 0 {
		t.Ch = c19Chans[n%4]
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T00) same() string {
	w := c19T00{}
	w.fill(c19Cur.ns[0], c19Cur.vals[0])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	if t.Ch != w.Ch {
		return fmt.Sprintf("Ch is %v instead of %v", t.Ch, w.Ch)
	}
	_ = w
	return ""
}

type c19T01 struct {
	Count int
	P     *int
	Lock  sync.Mutex
	Conn1 *neffos.NSConn
	*C19WithNamespace
	privS string
	T     time.Time
}

func (t *c19T01) Online(m neffos.Message) error {
	return c19Rec(1, "Online", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T01) OnChat(m neffos.Message) error {
	return c19Rec(1, "OnChat", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T01) OnNamespaceConnectX() error { c19Wrong(1, "OnNamespaceConnectX"); return nil }
func (t *c19T01) Gettee(m neffos.Message) error {
	return c19Rec(1, "Gettee", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T01) Baz(m neffos.Message) error {
	return c19Rec(1, "Baz", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T01) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	if n = vals[1]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[3]; n != 0 {
		t.privS = fmt.Sprint(n)
	}
	t.C19WithNamespace = &C19WithNamespace{ns}
}
func (t *c19T01) same() string {
	w := c19T01{}
	w.fill(c19Cur.ns[1], c19Cur.vals[1])
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	_ = w
	return ""
}

type c19T02 struct {
	Count     int
	privS     string
	Namespace string
	*C19Base
	*neffos.NSConn
}

func (t *c19T02) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(2, "OnNamespaceConnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T02) OnRoomLeft(m *neffos.Message) error { c19Wrong(2, "OnRoomLeft"); return nil }
func (t *c19T02) Onnext(m neffos.Message) error {
	return c19Rec(2, "Onnext", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T02) GetOnFoo(c *neffos.NSConn, m neffos.Message, x int) error {
	c19Wrong(2, "GetOnFoo")
	return nil
}
func (t *c19T02) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privS = fmt.Sprint(n)
	}
	t.Namespace = ns
	t.C19Base = &C19Base{}
}
func (t *c19T02) same() string {
	w := c19T02{}
	w.fill(c19Cur.ns[2], c19Cur.vals[2])
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T03 struct {
	Bytes []byte
	I     any
	ZInt  c19IntZero
	D     time.Duration
	Count int
}

func (t *c19T03) Online(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(3, "Online", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T03) Ping(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(3, "Ping", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T03) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(3, "OnRoomJoined", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T03) OnBar(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(3, "OnBar", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T03) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(3, "OnRoomJoin", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T03) Namespace() string { return "v" }
func (t *c19T03) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[1]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[2]; n != 0 {
		t.D = time.Duration(n)
	}
	if n = vals[3]; n != 0 {
		t.I = any([]int{n})
	}
}
func (t *c19T03) same() string {
	w := c19T03{}
	w.fill(c19Cur.ns[3], c19Cur.vals[3])
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if t.D != w.D {
		return fmt.Sprintf("D is %v instead of %v", t.D, w.D)
	}
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	_ = w
	return ""
}

type c19T04 struct {
	Conn1 *neffos.NSConn
	C19WithNamespace
	Count int
	privS string
}

func (t *c19T04) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(4, "OnRoomJoin")
	return nil
}
func (t c19T04) Gettee(m neffos.Message) error {
	return c19Rec(4, "Gettee", nil, nil, t.Conn1, nil, t.same(), m)
}
func (t *c19T04) GetOnFoo(m *neffos.Message) error { c19Wrong(4, "GetOnFoo"); return nil }
func (t *c19T04) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(4, "OnNamespaceDisconnect", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T04) Onnext(m neffos.Message) error {
	return c19Rec(4, "Onnext", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T04) Baz(m ...neffos.Message) error { c19Wrong(4, "Baz"); return nil }
func (t *c19T04) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(4, "OnNamespaceConnect", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t c19T04) OnChat(c *neffos.NSConn, m neffos.Message) error  { c19Wrong(4, "OnChat"); return nil }
func (t *c19T04) OnOpen(c *neffos.NSConn, m neffos.Message) error { c19Wrong(4, "OnOpen"); return nil }
func (t *c19T04) OnRoomLeft(m neffos.Message) error {
	return c19Rec(4, "OnRoomLeft", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T04) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privS = fmt.Sprint(n)
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T04) same() string {
	w := c19T04{}
	w.fill(c19Cur.ns[4], c19Cur.vals[4])
	_ = w
	return ""
}

type c19T05 struct {
	M     map[string]int
	Count int
	*neffos.NSConn
	Other neffos.Message
}

func (t *c19T05) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(5, "OnNamespaceConnectX", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) OnRoomJoined(c *neffos.NSConn) error { c19Wrong(5, "OnRoomJoined"); return nil }
func (t *c19T05) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(5, "OnNamespaceDisconnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) OnRoomLeft(m neffos.Message) error {
	return c19Rec(5, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) On(m neffos.Message) error {
	return c19Rec(5, "On", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) GetAll(m neffos.Message) error {
	return c19Rec(5, "GetAll", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T05) OnRoomLeave(m neffos.Message) error {
	return c19Rec(5, "OnRoomLeave", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(5, "OnNamespaceConnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T05) OnFoo(c *neffos.NSConn, m neffos.Message) error { c19Wrong(5, "OnFoo"); return nil }
func (t *c19T05) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(5, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T05) OnRoomJoin(m neffos.Message) error {
	return c19Rec(5, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T05) Gettee(c *neffos.NSConn, m neffos.Message, x int) error {
	c19Wrong(5, "Gettee")
	return nil
}
func (t c19T05) Namespace() string { return "v" }
func (t *c19T05) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
}
func (t *c19T05) same() string {
	w := c19T05{}
	w.fill(c19Cur.ns[5], c19Cur.vals[5])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	_ = w
	return ""
}

type c19T06 struct {
	Arr   [2]string
	B     bool
	E     error
	Count int
	*C19WithNamespace
	*C19Base
	Sub c19Sub
}

func (t *c19T06) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "OnRoomLeave", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T06) Gettee(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "Gettee", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T06) OnRoomLeft(m ...neffos.Message) error { c19Wrong(6, "OnRoomLeft"); return nil }
func (t c19T06) OnRoomJoined(m neffos.Message) bool    { c19Wrong(6, "OnRoomJoined"); return true }
func (t c19T06) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "OnNamespaceDisconnect", nil, nil, nil, c, t.same(), m)
}
func (t c19T06) GetGet(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "GetGet", nil, nil, nil, c, t.same(), m)
}
func (t *c19T06) Online(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "Online", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T06) OnBar(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(6, "OnBar", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T06) OnFoo(m neffos.Message) error { c19Wrong(6, "OnFoo"); return nil }
func (t *c19T06) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[1]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[2]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[3]; n != 0 {
		t.B = true
	}
	t.C19WithNamespace = &C19WithNamespace{ns}
	t.C19Base = &C19Base{}
}
func (t *c19T06) same() string {
	w := c19T06{}
	w.fill(c19Cur.ns[6], c19Cur.vals[6])
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	_ = w
	return ""
}

type c19T07 struct {
	Count int
	B     bool
	privP *int
	M     map[string]int
	Conn1 *neffos.NSConn
}

func (t *c19T07) OnRoomLeave(m neffos.Message) error {
	return c19Rec(7, "OnRoomLeave", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T07) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(7, "OnNamespaceConnectX", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T07) Online(m *neffos.Message) error { c19Wrong(7, "Online"); return nil }
func (t *c19T07) Baz(m neffos.Message) error {
	return c19Rec(7, "Baz", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T07) Namespace() string { return "m" }
func (t *c19T07) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.B = true
	}
	if n = vals[2]; n != 0 {
		t.privP = &c19Ints[n%4]
	}
}
func (t *c19T07) same() string {
	w := c19T07{}
	w.fill(c19Cur.ns[7], c19Cur.vals[7])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	_ = w
	return ""
}

type c19T08 struct {
	Namespace int
	Deep      c19Deep
	I         any
	Other     neffos.Message
	Count     int
	Bytes     []byte
	*C19Base
	Ns *neffos.NSConn
}

func (t c19T08) OnOpen(m neffos.Message) error {
	return c19Rec(8, "OnOpen", nil, nil, t.Ns, nil, t.same(), m)
}
func (t *c19T08) OnChat(m neffos.Message) error {
	return c19Rec(8, "OnChat", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T08) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[1]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[2]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[3]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	t.C19Base = &C19Base{}
}
func (t *c19T08) same() string {
	w := c19T08{}
	w.fill(c19Cur.ns[8], c19Cur.vals[8])
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	_ = w
	return ""
}

type c19T09 struct {
	D    time.Duration
	Lock sync.Mutex
	C19WithNamespace
	Ch    chan int
	Count int
}

func (t *c19T09) Gettee(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "Gettee", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "OnNamespaceConnected", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) OnChat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "OnChat", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) OnNamespaceDisconnect(m neffos.Message) {
	c19Wrong(9, "OnNamespaceDisconnect")
	return
}
func (t *c19T09) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "Baz", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) GetGet(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(9, "GetGet", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T09) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Ch = c19Chans[n%4]
	}
	if n = vals[1]; n != 0 {
		t.D = time.Duration(n)
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T09) same() string {
	w := c19T09{}
	w.fill(c19Cur.ns[9], c19Cur.vals[9])
	if t.Ch != w.Ch {
		return fmt.Sprintf("Ch is %v instead of %v", t.Ch, w.Ch)
	}
	if t.D != w.D {
		return fmt.Sprintf("D is %v instead of %v", t.D, w.D)
	}
	_ = w
	return ""
}

type c19T10 struct {
	Count int
	*neffos.NSConn
	privM map[int]int
	privP *int
}

func (t c19T10) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(10, "OnNamespaceConnect", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T10) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(10, "OnRoomLeft")
	return nil
}
func (t *c19T10) GetAll(m neffos.Message, c *neffos.NSConn) error { c19Wrong(10, "GetAll"); return nil }
func (t *c19T10) OnRoom(m neffos.Message) error {
	return c19Rec(10, "OnRoom", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T10) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(10, "OnNamespaceDisconnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T10) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(10, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T10) OnRoomJoin(m neffos.Message) error {
	return c19Rec(10, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T10) OnRoomJoined(m neffos.Message) error {
	return c19Rec(10, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T10) OnRoomLeave(m neffos.Message) error {
	return c19Rec(10, "OnRoomLeave", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T10) Namespace() string { return "v" }
func (t *c19T10) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privM = map[int]int{n: n}
	}
	if n = vals[1]; n != 0 {
		t.privP = &c19Ints[n%4]
	}
}
func (t *c19T10) same() string {
	w := c19T10{}
	w.fill(c19Cur.ns[10], c19Cur.vals[10])
	_ = w
	return ""
}

type c19T11 struct {
	C     *neffos.NSConn
	I     any
	U     uint8
	Count int
}

func (t *c19T11) GetOnFoo(m neffos.Message) error {
	return c19Rec(11, "GetOnFoo", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T11) OnRoomLeft(m neffos.Message) error {
	return c19Rec(11, "OnRoomLeft", t, &t.Count, t.C, nil, t.same(), m)
}
func (t c19T11) GetGet(m neffos.Message) error {
	return c19Rec(11, "GetGet", nil, nil, t.C, nil, t.same(), m)
}
func (t *c19T11) GetAll(c *neffos.NSConn, m neffos.Message) error { c19Wrong(11, "GetAll"); return nil }
func (t *c19T11) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[1]; n != 0 {
		t.U = uint8(n)
	}
}
func (t *c19T11) same() string {
	w := c19T11{}
	w.fill(c19Cur.ns[11], c19Cur.vals[11])
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	_ = w
	return ""
}

type c19T12 struct {
	E     error
	Count int
	*C19Base
	SubP      *c19Sub
	Namespace string
}

func (t *c19T12) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(12, "OnNamespaceDisconnect", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T12) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(12, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T12) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(12, "OnNamespaceConnectX", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T12) OnBar(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(12, "OnBar", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T12) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[1]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
	t.Namespace = ns
	t.C19Base = &C19Base{}
}
func (t *c19T12) same() string {
	w := c19T12{}
	w.fill(c19Cur.ns[12], c19Cur.vals[12])
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T13 struct {
	B         bool
	Count     int
	C         *neffos.NSConn
	T         time.Time
	M         map[string]int
	Namespace int
	*C19Base
	Sub c19Sub
}

func (t c19T13) Ping(m neffos.Message) error {
	return c19Rec(13, "Ping", nil, nil, t.C, nil, t.same(), m)
}
func (t *c19T13) GetOnFoo(m neffos.Message) error {
	return c19Rec(13, "GetOnFoo", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T13) OnOpen(m neffos.Message) error {
	return c19Rec(13, "OnOpen", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T13) OnRoomJoin(m neffos.Message) error {
	return c19Rec(13, "OnRoomJoin", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T13) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.B = true
	}
	if n = vals[1]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[2]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[3]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	t.C19Base = &C19Base{}
}
func (t *c19T13) same() string {
	w := c19T13{}
	w.fill(c19Cur.ns[13], c19Cur.vals[13])
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	_ = w
	return ""
}

type c19T14 struct {
	Tags  []string
	privM map[int]int
	Conn1 *neffos.NSConn
	Sub   c19Sub
	privI any
	*C19WithNamespace
	ZInt  c19IntZero
	Count int
	T     time.Time
}

func (t *c19T14) Gettee(m neffos.Message) error {
	return c19Rec(14, "Gettee", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t c19T14) On(m neffos.Message) error {
	return c19Rec(14, "On", nil, nil, t.Conn1, nil, t.same(), m)
}
func (t *c19T14) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Tags = c19Strings(n)
	}
	if n = vals[1]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[2]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	if n = vals[3]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[4]; n != 0 {
		t.privM = map[int]int{n: n}
	}
	if n = vals[5]; n != 0 {
		t.privI = any(n)
	}
	t.C19WithNamespace = &C19WithNamespace{ns}
}
func (t *c19T14) same() string {
	w := c19T14{}
	w.fill(c19Cur.ns[14], c19Cur.vals[14])
	if !reflect.DeepEqual(t.Tags, w.Tags) {
		return fmt.Sprintf("Tags is %v instead of %v", t.Tags, w.Tags)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	_ = w
	return ""
}

type c19T15 struct {
	Lock   sync.Mutex
	Deep   c19Deep
	Z      c19Zero
	Before int
	Count  int
	Space  string
	Arr    [2]string
}

func (t *c19T15) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(15, "OnRoomLeft", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T15) Gettee(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(15, "Gettee", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T15) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(15, "OnRoomJoin", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T15) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(15, "XPing", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T15) Namespace() string { return t.Space }
func (t *c19T15) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Before = n
	}
	if n = vals[1]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	if n = vals[2]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[4]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	t.Space = ns
}
func (t *c19T15) same() string {
	w := c19T15{}
	w.fill(c19Cur.ns[15], c19Cur.vals[15])
	if t.Before != w.Before {
		return fmt.Sprintf("Before is %v instead of %v", t.Before, w.Before)
	}
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	_ = w
	return ""
}

type c19T16 struct {
	*C19Base
	Ns        *neffos.NSConn
	Namespace int
	Count     int
	Z         c19Zero
}

func (t *c19T16) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(16, "OnNamespaceConnect", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T16) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(16, "OnNamespaceDisconnect", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T16) OnRoomJoin(m neffos.Message) error {
	return c19Rec(16, "OnRoomJoin", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T16) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(16, "OnNamespaceConnected", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T16) OnOpen(m neffos.Message) error {
	return c19Rec(16, "OnOpen", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T16) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	t.C19Base = &C19Base{}
}
func (t *c19T16) same() string {
	w := c19T16{}
	w.fill(c19Cur.ns[16], c19Cur.vals[16])
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	_ = w
	return ""
}

type c19T17 struct {
	Count int
	E     error
	*neffos.NSConn
	P *int
}

func (t c19T17) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(17, "OnNamespaceDisconnect", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(17, "OnRoomJoined")
	return nil
}
func (t *c19T17) OnRoomJoin(m neffos.Message) error {
	return c19Rec(17, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) On(m neffos.Message) error {
	return c19Rec(17, "On", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(17, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T17) OnRoomLeave(m neffos.Message) error {
	return c19Rec(17, "OnRoomLeave", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(17, "OnNamespaceConnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) GetAll(m neffos.Message) error {
	return c19Rec(17, "GetAll", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T17) OnNamespaceConnectX(m ...neffos.Message) error {
	c19Wrong(17, "OnNamespaceConnectX")
	return nil
}
func (t c19T17) GetGet(m neffos.Message) error {
	return c19Rec(17, "GetGet", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T17) OnRoomLeft(m neffos.Message) error {
	return c19Rec(17, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T17) Ping(m neffos.Message) error {
	return c19Rec(17, "Ping", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T17) Namespace() string { return "v" }
func (t *c19T17) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[1]; n != 0 {
		t.P = &c19Ints[n%4]
	}
}
func (t *c19T17) same() string {
	w := c19T17{}
	w.fill(c19Cur.ns[17], c19Cur.vals[17])
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	_ = w
	return ""
}

type c19T18 struct {
	Count int
}

func (t *c19T18) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "XPing", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) GetGet(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "GetGet", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "OnNamespaceConnected", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) OnChat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(18, "OnChat", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T18) Namespace() string { return "m" }
func (t *c19T18) fill(ns string, vals []int) {
	n := 0
	_ = n
}
func (t *c19T18) same() string {
	w := c19T18{}
	w.fill(c19Cur.ns[18], c19Cur.vals[18])
	_ = w
	return ""
}

type c19T19 struct {
	Bytes []byte
	*neffos.NSConn
	*C19Base
	Count int
	Space string
}

func (t *c19T19) Onnext(m neffos.Message) error {
	return c19Rec(19, "Onnext", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T19) Baz(m neffos.Message) error {
	return c19Rec(19, "Baz", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T19) Ping(m neffos.Message) error {
	return c19Rec(19, "Ping", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T19) Namespace() string { return t.Space }
func (t *c19T19) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	t.Space = ns
	t.C19Base = &C19Base{}
}
func (t *c19T19) same() string {
	w := c19T19{}
	w.fill(c19Cur.ns[19], c19Cur.vals[19])
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	_ = w
	return ""
}

type c19T20 struct {
	Deep c19Deep
	Lock sync.Mutex
	*neffos.NSConn
	Count int
	Bytes []byte
	Sub   c19Sub
	ZInt  c19IntZero
}

func (t *c19T20) OnRoom(m neffos.Message) error {
	return c19Rec(20, "OnRoom", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T20) OnFoo(m neffos.Message) error {
	return c19Rec(20, "OnFoo", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T20) OnRoomLeft(m neffos.Message) error {
	return c19Rec(20, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T20) On(m neffos.Message) error {
	return c19Rec(20, "On", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T20) Namespace() string { return "v" }
func (t *c19T20) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[1]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[2]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[3]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[4]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
}
func (t *c19T20) same() string {
	w := c19T20{}
	w.fill(c19Cur.ns[20], c19Cur.vals[20])
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	_ = w
	return ""
}

type c19T21 struct {
	Bytes []byte
	Count int
	Deep  c19Deep
	C19Base
	I any
	U uint8
}

func (t *c19T21) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(21, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T21) GetOnFoo(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(21, "GetOnFoo", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T21) OnChat(m ...neffos.Message) error { c19Wrong(21, "OnChat"); return nil }
func (t *c19T21) Gettee(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(21, "Gettee", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T21) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(21, "OnNamespaceDisconnect", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T21) Online(m neffos.Message) (int, error) { c19Wrong(21, "Online"); return 0, nil }
func (t *c19T21) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.U = uint8(n)
	}
	if n = vals[1]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[2]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[3]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
}
func (t *c19T21) same() string {
	w := c19T21{}
	w.fill(c19Cur.ns[21], c19Cur.vals[21])
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	_ = w
	return ""
}

type c19T22 struct {
	Conn1 *neffos.NSConn
	*C19Base
	B     bool
	Arr   [2]string
	Count int
	Lock  sync.Mutex
}

func (t *c19T22) OnBar(m neffos.Message) error {
	return c19Rec(22, "OnBar", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(22, "OnNamespaceConnectX", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) OnRoomJoin(m neffos.Message) error {
	return c19Rec(22, "OnRoomJoin", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) OnChat(m neffos.Message) error {
	return c19Rec(22, "OnChat", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) GetOnFoo(m neffos.Message) error {
	return c19Rec(22, "GetOnFoo", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) OnRoomLeave(m neffos.Message) error {
	return c19Rec(22, "OnRoomLeave", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T22) Namespace() string { return "m" }
func (t *c19T22) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[1]; n != 0 {
		t.B = true
	}
	t.C19Base = &C19Base{}
}
func (t *c19T22) same() string {
	w := c19T22{}
	w.fill(c19Cur.ns[22], c19Cur.vals[22])
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	_ = w
	return ""
}

type c19T23 struct {
	C19WithNamespace
	Other neffos.Message
	P     *int
	*neffos.NSConn
	E     error
	Count int
	I     any
	D     time.Duration
	C19Base
}

func (t *c19T23) OnRoom(c *neffos.NSConn, m neffos.Message) error { c19Wrong(23, "OnRoom"); return nil }
func (t c19T23) Online(m neffos.Message) error {
	return c19Rec(23, "Online", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T23) Ping(m neffos.Message) error {
	return c19Rec(23, "Ping", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T23) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(23, "OnNamespaceConnectX", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T23) OnRoomLeave(m neffos.Message) error {
	return c19Rec(23, "OnRoomLeave", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T23) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[1]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[2]; n != 0 {
		t.D = time.Duration(n)
	}
	if n = vals[3]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[4]; n != 0 {
		t.E = c19Errs[n%4]
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T23) same() string {
	w := c19T23{}
	w.fill(c19Cur.ns[23], c19Cur.vals[23])
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.D != w.D {
		return fmt.Sprintf("D is %v instead of %v", t.D, w.D)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	_ = w
	return ""
}

type c19T24 struct {
	M map[string]int
	E error
	C19Base
	Count  int
	Z      c19Zero
	Before int
}

func (t *c19T24) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(24, "OnRoomLeave", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T24) GetOnFoo(m neffos.Message, c *neffos.NSConn) error {
	c19Wrong(24, "GetOnFoo")
	return nil
}
func (t c19T24) OnChat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(24, "OnChat", nil, nil, nil, c, t.same(), m)
}
func (t *c19T24) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(24, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T24) Ping(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(24, "Ping", nil, nil, nil, c, t.same(), m)
}
func (t c19T24) Namespace() string { return "v" }
func (t *c19T24) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.Before = n
	}
	if n = vals[2]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	if n = vals[3]; n != 0 {
		t.E = c19Errs[n%4]
	}
}
func (t *c19T24) same() string {
	w := c19T24{}
	w.fill(c19Cur.ns[24], c19Cur.vals[24])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.Before != w.Before {
		return fmt.Sprintf("Before is %v instead of %v", t.Before, w.Before)
	}
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	_ = w
	return ""
}

type c19T25 struct {
	E error
	*neffos.NSConn
	Count int
	SubP  *c19Sub
}

func (t *c19T25) Online(m neffos.Message) error {
	return c19Rec(25, "Online", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T25) GetGet(m neffos.Message) error {
	return c19Rec(25, "GetGet", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T25) Namespace() string { return "v" }
func (t *c19T25) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[1]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
}
func (t *c19T25) same() string {
	w := c19T25{}
	w.fill(c19Cur.ns[25], c19Cur.vals[25])
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	_ = w
	return ""
}

type c19T26 struct {
	Bytes []byte
	E     error
	privT time.Time
	C     *neffos.NSConn
	*C19Base
	Count int
}

func (t *c19T26) Gettee(c *neffos.NSConn, m neffos.Message, x int) error {
	c19Wrong(26, "Gettee")
	return nil
}
func (t *c19T26) OnRoom(c *neffos.NSConn, m neffos.Message) error { c19Wrong(26, "OnRoom"); return nil }
func (t *c19T26) XPing(m neffos.Message) (int, error)             { c19Wrong(26, "XPing"); return 0, nil }
func (t *c19T26) Onnext(m neffos.Message) error {
	return c19Rec(26, "Onnext", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T26) Baz(m neffos.Message) error {
	return c19Rec(26, "Baz", t, &t.Count, t.C, nil, t.same(), m)
}
func (t c19T26) OnRoomJoin(m neffos.Message) error {
	return c19Rec(26, "OnRoomJoin", nil, nil, t.C, nil, t.same(), m)
}
func (t c19T26) OnBar(m neffos.Message) error {
	return c19Rec(26, "OnBar", nil, nil, t.C, nil, t.same(), m)
}
func (t c19T26) OnRoomLeft(m neffos.Message) error {
	return c19Rec(26, "OnRoomLeft", nil, nil, t.C, nil, t.same(), m)
}
func (t *c19T26) Namespace() string { return "m" }
func (t *c19T26) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[1]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[2]; n != 0 {
		t.privT = time.Unix(int64(n), 0)
	}
	t.C19Base = &C19Base{}
}
func (t *c19T26) same() string {
	w := c19T26{}
	w.fill(c19Cur.ns[26], c19Cur.vals[26])
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	_ = w
	return ""
}

type c19T27 struct {
	Fl   float64
	priv int
	C19Base
	Before int
	D      time.Duration
	Count  int
	Deep   c19Deep
	Arr    [2]string
}

func (t *c19T27) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T27) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "Baz", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T27) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T27) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T27) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "OnNamespaceConnect", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T27) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(27, "XPing", nil, nil, nil, c, t.same(), m)
}
func (t c19T27) Namespace() string { return "v" }
func (t *c19T27) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[1]; n != 0 {
		t.Before = n
	}
	if n = vals[2]; n != 0 {
		t.D = time.Duration(n)
	}
	if n = vals[3]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[4]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[5]; n != 0 {
		t.priv = n
	}
}
func (t *c19T27) same() string {
	w := c19T27{}
	w.fill(c19Cur.ns[27], c19Cur.vals[27])
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	if t.Before != w.Before {
		return fmt.Sprintf("Before is %v instead of %v", t.Before, w.Before)
	}
	if t.D != w.D {
		return fmt.Sprintf("D is %v instead of %v", t.D, w.D)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	_ = w
	return ""
}

type c19T28 struct {
	Space string
	Count int
	I     any
	Conn  *neffos.Conn
	*neffos.NSConn
}

func (t *c19T28) Ping(m neffos.Message) error {
	return c19Rec(28, "Ping", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T28) Gettee(c *neffos.NSConn, m neffos.Message) error { c19Wrong(28, "Gettee"); return nil }
func (t c19T28) On(m neffos.Message) error {
	return c19Rec(28, "On", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T28) GetAll(m neffos.Message) error {
	return c19Rec(28, "GetAll", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T28) OnRoomJoin(m neffos.Message) error {
	return c19Rec(28, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T28) Namespace() string { return t.Space }
func (t *c19T28) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.I = any([]int{n})
	}
	t.Space = ns
}
func (t *c19T28) same() string {
	w := c19T28{}
	w.fill(c19Cur.ns[28], c19Cur.vals[28])
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	_ = w
	return ""
}

type c19T29 struct {
	Deep  c19Deep
	Count int
	*neffos.NSConn
	Namespace string
}

func (t *c19T29) OnOpen(m neffos.Message) error {
	return c19Rec(29, "OnOpen", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T29) OnRoomJoined(m neffos.Message) error {
	return c19Rec(29, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T29) Gettee(m *neffos.Message) error { c19Wrong(29, "Gettee"); return nil }
func (t c19T29) OnRoomLeave() error              { c19Wrong(29, "OnRoomLeave"); return nil }
func (t *c19T29) Onnext(m neffos.Message) error {
	return c19Rec(29, "Onnext", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T29) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	t.Namespace = ns
}
func (t *c19T29) same() string {
	w := c19T29{}
	w.fill(c19Cur.ns[29], c19Cur.vals[29])
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T30 struct {
	Count int
	privI any
	C19Base
	Deep   c19Deep
	Z      c19Zero
	Before int
	ZInt   c19IntZero
	M      map[string]int
	privM  map[int]int
}

func (t c19T30) GetGet(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "GetGet", nil, nil, nil, c, t.same(), m)
}
func (t *c19T30) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T30) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "OnNamespaceConnectX", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T30) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "XPing", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T30) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T30) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "OnNamespaceConnect", nil, nil, nil, c, t.same(), m)
}
func (t c19T30) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(30, "OnRoomJoin", nil, nil, nil, c, t.same(), m)
}
func (t *c19T30) Namespace() string { return "m" }
func (t *c19T30) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.Before = n
	}
	if n = vals[2]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	if n = vals[3]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[4]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[5]; n != 0 {
		t.privI = any(n)
	}
	if n = vals[6]; n != 0 {
		t.privM = map[int]int{n: n}
	}
}
func (t *c19T30) same() string {
	w := c19T30{}
	w.fill(c19Cur.ns[30], c19Cur.vals[30])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.Before != w.Before {
		return fmt.Sprintf("Before is %v instead of %v", t.Before, w.Before)
	}
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	_ = w
	return ""
}

type c19T31 struct {
	Namespace string
	Tags      []string
	Count     int
	*neffos.NSConn
	SubP *c19Sub
}

func (t *c19T31) OnRoom(m neffos.Message, c *neffos.NSConn) error { c19Wrong(31, "OnRoom"); return nil }
func (t *c19T31) OnRoomJoin(m neffos.Message) error {
	return c19Rec(31, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnRoomLeave(m neffos.Message) error {
	return c19Rec(31, "OnRoomLeave", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) XPing(m neffos.Message) error {
	return c19Rec(31, "XPing", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T31) OnChat(m neffos.Message) error {
	return c19Rec(31, "OnChat", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(31, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) GetAll(m neffos.Message) error {
	return c19Rec(31, "GetAll", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnRoomJoined(m neffos.Message) error {
	return c19Rec(31, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(31, "OnNamespaceConnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(31, "OnNamespaceDisconnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) OnRoomLeft(m neffos.Message) error {
	return c19Rec(31, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) Gettee(c neffos.NSConn, m neffos.Message) error { c19Wrong(31, "Gettee"); return nil }
func (t *c19T31) OnOpen(m neffos.Message) error {
	return c19Rec(31, "OnOpen", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T31) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Tags = c19Strings(n)
	}
	if n = vals[1]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
	t.Namespace = ns
}
func (t *c19T31) same() string {
	w := c19T31{}
	w.fill(c19Cur.ns[31], c19Cur.vals[31])
	if !reflect.DeepEqual(t.Tags, w.Tags) {
		return fmt.Sprintf("Tags is %v instead of %v", t.Tags, w.Tags)
	}
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T32 struct {
	T     time.Time
	Count int
	C19Base
	Ns *neffos.NSConn
}

func (t *c19T32) OnRoomJoin(m neffos.Message) error {
	return c19Rec(32, "OnRoomJoin", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T32) OnRoomLeave() error { c19Wrong(32, "OnRoomLeave"); return nil }
func (t c19T32) GetGet(m neffos.Message) error {
	return c19Rec(32, "GetGet", nil, nil, t.Ns, nil, t.same(), m)
}
func (t *c19T32) Ping(m neffos.Message) error {
	return c19Rec(32, "Ping", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T32) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(32, "OnNamespaceConnectX", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t c19T32) XPing(m neffos.Message) error {
	return c19Rec(32, "XPing", nil, nil, t.Ns, nil, t.same(), m)
}
func (t c19T32) OnRoomJoined(m neffos.Message) error {
	return c19Rec(32, "OnRoomJoined", nil, nil, t.Ns, nil, t.same(), m)
}
func (t *c19T32) GetAll(m neffos.Message) error {
	return c19Rec(32, "GetAll", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T32) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(32, "OnNamespaceConnected", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T32) Online(m neffos.Message) error {
	return c19Rec(32, "Online", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t c19T32) Namespace() string { return "v" }
func (t *c19T32) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
}
func (t *c19T32) same() string {
	w := c19T32{}
	w.fill(c19Cur.ns[32], c19Cur.vals[32])
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	_ = w
	return ""
}

type c19T33 struct {
	Count int
}

func (t *c19T33) Online(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "Online", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T33) Ping(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "Ping", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T33) Gettee(m neffos.Message) error { c19Wrong(33, "Gettee"); return nil }
func (t *c19T33) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnRoomJoined", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T33) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T33) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnRoomJoin", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T33) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnRoomLeave", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T33) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnNamespaceConnected", nil, nil, nil, c, t.same(), m)
}
func (t *c19T33) OnRoom(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(33, "OnRoom", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T33) Namespace() string { return "v" }
func (t *c19T33) fill(ns string, vals []int) {
	n := 0
	_ = n
}
func (t *c19T33) same() string {
	w := c19T33{}
	w.fill(c19Cur.ns[33], c19Cur.vals[33])
	_ = w
	return ""
}

type c19T34 struct {
	Count int
	*neffos.NSConn
	Namespace int
}

func (t *c19T34) OnRoomLeft(m *neffos.Message) error { c19Wrong(34, "OnRoomLeft"); return nil }
func (t *c19T34) OnRoomJoined(m neffos.Message) error {
	return c19Rec(34, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T34) Ping(m neffos.Message) error {
	return c19Rec(34, "Ping", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T34) fill(ns string, vals []int) {
	n := 0
	_ = n
}
func (t *c19T34) same() string {
	w := c19T34{}
	w.fill(c19Cur.ns[34], c19Cur.vals[34])
	_ = w
	return ""
}

type c19T35 struct {
	Bytes []byte
	Count int
	C     *neffos.NSConn
	I     any
}

func (t c19T35) OnFoo(m neffos.Message) error {
	return c19Rec(35, "OnFoo", nil, nil, t.C, nil, t.same(), m)
}
func (t *c19T35) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[1]; n != 0 {
		t.I = any([]int{n})
	}
}
func (t *c19T35) same() string {
	w := c19T35{}
	w.fill(c19Cur.ns[35], c19Cur.vals[35])
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	_ = w
	return ""
}

type c19T36 struct {
	Space string
	*C19Base
	P     *int
	Sub   c19Sub
	Count int
	ZInt  c19IntZero
}

func (t *c19T36) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "OnNamespaceConnect", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T36) Ping(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "Ping", nil, nil, nil, c, t.same(), m)
}
func (t *c19T36) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "OnRoomLeave", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T36) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "Baz", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T36) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T36) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T36) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(36, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T36) Namespace() string { return t.Space }
func (t *c19T36) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[1]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[2]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	t.Space = ns
	t.C19Base = &C19Base{}
}
func (t *c19T36) same() string {
	w := c19T36{}
	w.fill(c19Cur.ns[36], c19Cur.vals[36])
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	_ = w
	return ""
}

type c19T37 struct {
	*neffos.NSConn
	*C19Base
	privI any
	Count int
	Space string
}

func (t c19T37) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(37, "OnNamespaceConnect", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T37) OnRoomLeave(m neffos.Message) error {
	return c19Rec(37, "OnRoomLeave", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T37) OnRoom(c *neffos.NSConn, m neffos.Message) error { c19Wrong(37, "OnRoom"); return nil }
func (t *c19T37) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message, x int) error {
	c19Wrong(37, "OnNamespaceDisconnect")
	return nil
}
func (t *c19T37) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(37, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T37) Online(m neffos.Message) error {
	return c19Rec(37, "Online", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T37) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(37, "OnNamespaceConnectX", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T37) OnRoomJoined(m neffos.Message) { c19Wrong(37, "OnRoomJoined"); return }
func (t *c19T37) OnRoomJoin(m neffos.Message) error {
	return c19Rec(37, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T37) OnFoo(m neffos.Message) error {
	return c19Rec(37, "OnFoo", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T37) OnChat() error { c19Wrong(37, "OnChat"); return nil }
func (t *c19T37) OnRoomLeft(c *neffos.NSConn, m neffos.Message, x int) error {
	c19Wrong(37, "OnRoomLeft")
	return nil
}
func (t *c19T37) Namespace() string { return t.Space }
func (t *c19T37) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privI = any(n)
	}
	t.Space = ns
	t.C19Base = &C19Base{}
}
func (t *c19T37) same() string {
	w := c19T37{}
	w.fill(c19Cur.ns[37], c19Cur.vals[37])
	_ = w
	return ""
}

type c19T38 struct {
	privSl    []int
	Namespace string
	Count     int
	Ns        *neffos.NSConn
	*C19Base
}

func (t *c19T38) Online(m neffos.Message) error {
	return c19Rec(38, "Online", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T38) OnRoomLeft(m neffos.Message) error {
	return c19Rec(38, "OnRoomLeft", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T38) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privSl = []int{n}
	}
	t.Namespace = ns
	t.C19Base = &C19Base{}
}
func (t *c19T38) same() string {
	w := c19T38{}
	w.fill(c19Cur.ns[38], c19Cur.vals[38])
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T39 struct {
	Count int
	*C19Base
}

func (t *c19T39) OnNamespaceConnect(m *neffos.Message) error {
	c19Wrong(39, "OnNamespaceConnect")
	return nil
}
func (t c19T39) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "OnRoomJoined", nil, nil, nil, c, t.same(), m)
}
func (t *c19T39) OnFoo(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "OnFoo", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T39) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "Baz", nil, nil, nil, c, t.same(), m)
}
func (t *c19T39) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T39) OnRoomLeave(m neffos.Message) error { c19Wrong(39, "OnRoomLeave"); return nil }
func (t *c19T39) OnChat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "OnChat", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T39) Onnext(m neffos.Message, c *neffos.NSConn) error { c19Wrong(39, "Onnext"); return nil }
func (t c19T39) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "On", nil, nil, nil, c, t.same(), m)
}
func (t *c19T39) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(39, "OnNamespaceDisconnect", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T39) Namespace() string { return "m" }
func (t *c19T39) fill(ns string, vals []int) {
	n := 0
	_ = n
	t.C19Base = &C19Base{}
}
func (t *c19T39) same() string {
	w := c19T39{}
	w.fill(c19Cur.ns[39], c19Cur.vals[39])
	_ = w
	return ""
}

type c19T40 struct {
	Space string
	privI any
	Count int
	priv  int
	*neffos.NSConn
}

func (t c19T40) OnChat(m neffos.Message) error {
	return c19Rec(40, "OnChat", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T40) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(40, "OnNamespaceConnectX", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T40) OnBar(m neffos.Message) error {
	return c19Rec(40, "OnBar", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T40) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(40, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T40) GetGet(m neffos.Message) error {
	return c19Rec(40, "GetGet", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T40) Namespace() string { return t.Space }
func (t *c19T40) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privI = any(n)
	}
	if n = vals[1]; n != 0 {
		t.priv = n
	}
	t.Space = ns
}
func (t *c19T40) same() string {
	w := c19T40{}
	w.fill(c19Cur.ns[40], c19Cur.vals[40])
	_ = w
	return ""
}

type c19T41 struct {
	*C19Base
	Count int
	Arr   [2]string
	ZInt  c19IntZero
	C     *neffos.NSConn
}

func (t *c19T41) OnRoomJoin(m neffos.Message) error {
	return c19Rec(41, "OnRoomJoin", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T41) OnRoom(m neffos.Message) error {
	return c19Rec(41, "OnRoom", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T41) Online(m neffos.Message) error {
	return c19Rec(41, "Online", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T41) Namespace() string { return "m" }
func (t *c19T41) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[1]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	t.C19Base = &C19Base{}
}
func (t *c19T41) same() string {
	w := c19T41{}
	w.fill(c19Cur.ns[41], c19Cur.vals[41])
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	_ = w
	return ""
}

type c19T42 struct {
	*C19Base
	privSl []int
	privP  *int
	C19WithNamespace
	Count int
}

func (t c19T42) OnRoom(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnRoom", nil, nil, nil, c, t.same(), m)
}
func (t c19T42) OnRoomJoin(m neffos.Message) bool { c19Wrong(42, "OnRoomJoin"); return true }
func (t *c19T42) Online(c *neffos.NSConn) error   { c19Wrong(42, "Online"); return nil }
func (t c19T42) OnBar(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnBar", nil, nil, nil, c, t.same(), m)
}
func (t *c19T42) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T42) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "XPing", nil, nil, nil, c, t.same(), m)
}
func (t c19T42) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnNamespaceDisconnect", nil, nil, nil, c, t.same(), m)
}
func (t *c19T42) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnRoomLeave", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T42) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnNamespaceConnect", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T42) Gettee(m neffos.Message) error { c19Wrong(42, "Gettee"); return nil }
func (t *c19T42) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnRoomLeft", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T42) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnNamespaceConnected", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T42) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(42, "OnRoomJoined", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T42) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.privSl = []int{n}
	}
	if n = vals[1]; n != 0 {
		t.privP = &c19Ints[n%4]
	}
	t.C19WithNamespace.Namespace = ns
	t.C19Base = &C19Base{}
}
func (t *c19T42) same() string {
	w := c19T42{}
	w.fill(c19Cur.ns[42], c19Cur.vals[42])
	_ = w
	return ""
}

type c19T43 struct {
	Count int
	Conn1 *neffos.NSConn
	M     map[string]int
	U     uint8
	*C19Base
}

func (t *c19T43) OnRoomLeft(m neffos.Message) error {
	return c19Rec(43, "OnRoomLeft", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T43) GetAll(m neffos.Message) error {
	return c19Rec(43, "GetAll", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T43) OnRoomLeave(m neffos.Message) error {
	return c19Rec(43, "OnRoomLeave", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T43) Namespace() string { return "m" }
func (t *c19T43) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.U = uint8(n)
	}
	t.C19Base = &C19Base{}
}
func (t *c19T43) same() string {
	w := c19T43{}
	w.fill(c19Cur.ns[43], c19Cur.vals[43])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	_ = w
	return ""
}

type c19T44 struct {
	E   error
	Arr [2]string
	C19WithNamespace
	Count int
	C19Base
	B     bool
	Bytes []byte
	*neffos.NSConn
}

func (t *c19T44) OnChat(m neffos.Message) error {
	return c19Rec(44, "OnChat", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T44) Gettee(m neffos.Message) error {
	return c19Rec(44, "Gettee", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T44) GetAll(m neffos.Message) error {
	return c19Rec(44, "GetAll", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T44) Baz(m neffos.Message) error {
	return c19Rec(44, "Baz", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T44) OnNamespaceConnectX(m neffos.Message) error {
	return c19Rec(44, "OnNamespaceConnectX", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T44) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[1]; n != 0 {
		t.E = c19Errs[n%4]
	}
	if n = vals[2]; n != 0 {
		t.B = true
	}
	if n = vals[3]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T44) same() string {
	w := c19T44{}
	w.fill(c19Cur.ns[44], c19Cur.vals[44])
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if t.E != w.E {
		return fmt.Sprintf("E is %v instead of %v", t.E, w.E)
	}
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	_ = w
	return ""
}

type c19T45 struct {
	Arr       [2]string
	Namespace int
	privT     time.Time
	SubP      *c19Sub
	*C19Base
	Count int
	P     *int
	privS string
	ZInt  c19IntZero
	Fl    float64
}

func (t *c19T45) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(45, "OnNamespaceConnectX", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T45) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(45, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T45) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
	if n = vals[1]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[2]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[3]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[4]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	if n = vals[5]; n != 0 {
		t.privS = fmt.Sprint(n)
	}
	if n = vals[6]; n != 0 {
		t.privT = time.Unix(int64(n), 0)
	}
	t.C19Base = &C19Base{}
}
func (t *c19T45) same() string {
	w := c19T45{}
	w.fill(c19Cur.ns[45], c19Cur.vals[45])
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	_ = w
	return ""
}

type c19T46 struct {
	U uint8
	C19Base
	*neffos.NSConn
	Count int
}

func (t *c19T46) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(46, "OnRoomLeave")
	return nil
}
func (t *c19T46) GetGet(m neffos.Message) error {
	return c19Rec(46, "GetGet", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T46) OnRoomLeft(m neffos.Message) error {
	return c19Rec(46, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T46) XPing(m neffos.Message) error {
	return c19Rec(46, "XPing", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T46) Namespace() string { return "m" }
func (t *c19T46) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.U = uint8(n)
	}
}
func (t *c19T46) same() string {
	w := c19T46{}
	w.fill(c19Cur.ns[46], c19Cur.vals[46])
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	_ = w
	return ""
}

type c19T47 struct {
	Other neffos.Message
	Fl    float64
	Bytes []byte
	Count int
	Lock  sync.Mutex
	Conn1 *neffos.NSConn
}

func (t *c19T47) Ping(c *neffos.NSConn, m neffos.Message) error { c19Wrong(47, "Ping"); return nil }
func (t *c19T47) OnOpen(c *neffos.NSConn) error                 { c19Wrong(47, "OnOpen"); return nil }
func (t *c19T47) GetGet(m neffos.Message) error {
	return c19Rec(47, "GetGet", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T47) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(47, "OnNamespaceDisconnect", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T47) OnRoomLeave(m neffos.Message) error {
	return c19Rec(47, "OnRoomLeave", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T47) Baz(m neffos.Message) error {
	return c19Rec(47, "Baz", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T47) Onnext(m neffos.Message) { c19Wrong(47, "Onnext"); return }
func (t *c19T47) OnRoomJoined(m neffos.Message) error {
	return c19Rec(47, "OnRoomJoined", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T47) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(47, "OnNamespaceConnected")
	return nil
}
func (t *c19T47) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[2]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[3]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
}
func (t *c19T47) same() string {
	w := c19T47{}
	w.fill(c19Cur.ns[47], c19Cur.vals[47])
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	_ = w
	return ""
}

type c19T48 struct {
	privSub c19Sub
	Count   int
	privSl  []int
	SubP    *c19Sub
	I       any
	Space   string
}

func (t *c19T48) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(48, "OnNamespaceConnected", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T48) OnNamespaceDisconnect(m neffos.Message) error {
	c19Wrong(48, "OnNamespaceDisconnect")
	return nil
}
func (t *c19T48) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(48, "Baz", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T48) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(48, "OnNamespaceConnect", nil, nil, nil, c, t.same(), m)
}
func (t *c19T48) OnFoo(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(48, "OnFoo", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T48) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(48, "OnRoomJoined", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T48) Namespace() string { return t.Space }
func (t *c19T48) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[1]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
	if n = vals[2]; n != 0 {
		t.privSub = c19Sub{A: n}
	}
	if n = vals[3]; n != 0 {
		t.privSl = []int{n}
	}
	t.Space = ns
}
func (t *c19T48) same() string {
	w := c19T48{}
	w.fill(c19Cur.ns[48], c19Cur.vals[48])
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	_ = w
	return ""
}

type c19T49 struct {
	U         uint8
	Count     int
	privP     *int
	Namespace string
	Deep      c19Deep
	I         any
	C         *neffos.NSConn
	privT     time.Time
	Fl        float64
}

func (t *c19T49) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(49, "OnNamespaceConnect", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T49) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(49, "OnNamespaceConnected")
	return nil
}
func (t *c19T49) Ping(m neffos.Message) error {
	return c19Rec(49, "Ping", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T49) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(49, "OnNamespaceDisconnect", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T49) OnRoomJoin(m neffos.Message) error {
	return c19Rec(49, "OnRoomJoin", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T49) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[1]; n != 0 {
		t.U = uint8(n)
	}
	if n = vals[2]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[3]; n != 0 {
		t.I = any([]int{n})
	}
	if n = vals[4]; n != 0 {
		t.privP = &c19Ints[n%4]
	}
	if n = vals[5]; n != 0 {
		t.privT = time.Unix(int64(n), 0)
	}
	t.Namespace = ns
}
func (t *c19T49) same() string {
	w := c19T49{}
	w.fill(c19Cur.ns[49], c19Cur.vals[49])
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if !reflect.DeepEqual(t.I, w.I) {
		return fmt.Sprintf("I is %v instead of %v", t.I, w.I)
	}
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T50 struct {
	Conn *neffos.Conn
	C19Base
	*neffos.NSConn
	*C19WithNamespace
	Count int
	Ch    chan int
}

func (t c19T50) Baz(m neffos.Message) error {
	return c19Rec(50, "Baz", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T50) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(50, "OnNamespaceDisconnect", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T50) XPing(m neffos.Message) error {
	return c19Rec(50, "XPing", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T50) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Ch = c19Chans[n%4]
	}
	t.C19WithNamespace = &C19WithNamespace{ns}
}
func (t *c19T50) same() string {
	w := c19T50{}
	w.fill(c19Cur.ns[50], c19Cur.vals[50])
	if t.Ch != w.Ch {
		return fmt.Sprintf("Ch is %v instead of %v", t.Ch, w.Ch)
	}
	_ = w
	return ""
}

type c19T51 struct {
	C19WithNamespace
	Other neffos.Message
	Conn  *neffos.Conn
	Deep  c19Deep
	Count int
	Fl    float64
	privT time.Time
}

func (t *c19T51) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(51, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T51) OnOpen(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(51, "OnOpen", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T51) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[1]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[2]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[4]; n != 0 {
		t.privT = time.Unix(int64(n), 0)
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T51) same() string {
	w := c19T51{}
	w.fill(c19Cur.ns[51], c19Cur.vals[51])
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	_ = w
	return ""
}

type c19T52 struct {
	U     uint8
	Lock  sync.Mutex
	Other neffos.Message
	Count int
	*neffos.NSConn
	Space string
}

func (t *c19T52) XPing(m neffos.Message) error {
	return c19Rec(52, "XPing", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T52) OnRoom(c *neffos.NSConn, m neffos.Message) error { c19Wrong(52, "OnRoom"); return nil }
func (t *c19T52) OnBar(m neffos.Message) error {
	return c19Rec(52, "OnBar", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T52) GetAll(m neffos.Message) error {
	return c19Rec(52, "GetAll", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T52) OnRoomLeave(m neffos.Message) error {
	return c19Rec(52, "OnRoomLeave", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T52) Namespace() string { return t.Space }
func (t *c19T52) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.U = uint8(n)
	}
	if n = vals[1]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	t.Space = ns
}
func (t *c19T52) same() string {
	w := c19T52{}
	w.fill(c19Cur.ns[52], c19Cur.vals[52])
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	_ = w
	return ""
}

type c19T53 struct {
	Z     c19Zero
	Count int
	Conn1 *neffos.NSConn
	Bytes []byte
	U     uint8
	ZInt  c19IntZero
	*C19Base
	P *int
}

func (t c19T53) OnChat(c *neffos.NSConn, m neffos.Message) error { c19Wrong(53, "OnChat"); return nil }
func (t c19T53) GetAll(c *neffos.NSConn, m neffos.Message) error { c19Wrong(53, "GetAll"); return nil }
func (t *c19T53) GetGet(m neffos.Message) error {
	return c19Rec(53, "GetGet", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T53) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(53, "OnNamespaceDisconnect", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T53) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(53, "OnRoomLeave")
	return nil
}
func (t *c19T53) Onnext(m neffos.Message) error {
	return c19Rec(53, "Onnext", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t *c19T53) OnBar(m neffos.Message) error {
	return c19Rec(53, "OnBar", t, &t.Count, t.Conn1, nil, t.same(), m)
}
func (t c19T53) OnFoo(m neffos.Message) error {
	return c19Rec(53, "OnFoo", nil, nil, t.Conn1, nil, t.same(), m)
}
func (t *c19T53) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[1]; n != 0 {
		t.U = uint8(n)
	}
	if n = vals[2]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[3]; n != 0 {
		t.ZInt = c19IntZero{N: n}
	}
	if n = vals[4]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	t.C19Base = &C19Base{}
}
func (t *c19T53) same() string {
	w := c19T53{}
	w.fill(c19Cur.ns[53], c19Cur.vals[53])
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	if t.ZInt != w.ZInt {
		return fmt.Sprintf("ZInt is %v instead of %v", t.ZInt, w.ZInt)
	}
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	_ = w
	return ""
}

type c19T54 struct {
	Count     int
	Namespace string
	Lock      sync.Mutex
	Other     neffos.Message
	Sub       c19Sub
	Fl        float64
}

func (t *c19T54) Onnext(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(54, "Onnext", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T54) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(54, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T54) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Fl = float64(n) / 3
	}
	if n = vals[2]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[3]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	t.Namespace = ns
}
func (t *c19T54) same() string {
	w := c19T54{}
	w.fill(c19Cur.ns[54], c19Cur.vals[54])
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

type c19T55 struct {
	Count  int
	T      time.Time
	C      *neffos.NSConn
	Before int
	Deep   c19Deep
	P      *int
	Sub    c19Sub
}

func (t *c19T55) OnRoomJoined(m neffos.Message) error {
	return c19Rec(55, "OnRoomJoined", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T55) OnChat(m neffos.Message) error {
	return c19Rec(55, "OnChat", t, &t.Count, t.C, nil, t.same(), m)
}
func (t *c19T55) Namespace() string { return "m" }
func (t *c19T55) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	if n = vals[1]; n != 0 {
		t.P = &c19Ints[n%4]
	}
	if n = vals[2]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[3]; n != 0 {
		t.Sub = c19Sub{A: n, b: n}
	}
	if n = vals[4]; n != 0 {
		t.Before = n
	}
}
func (t *c19T55) same() string {
	w := c19T55{}
	w.fill(c19Cur.ns[55], c19Cur.vals[55])
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	if t.P != w.P {
		return fmt.Sprintf("P is %v instead of %v", t.P, w.P)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if t.Sub != w.Sub {
		return fmt.Sprintf("Sub is %v instead of %v", t.Sub, w.Sub)
	}
	if t.Before != w.Before {
		return fmt.Sprintf("Before is %v instead of %v", t.Before, w.Before)
	}
	_ = w
	return ""
}

type c19T56 struct {
	*C19WithNamespace
	U uint8
	*neffos.NSConn
	B     bool
	Count int
}

func (t *c19T56) OnRoomJoin(m neffos.Message) error {
	return c19Rec(56, "OnRoomJoin", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) Baz(m neffos.Message) { c19Wrong(56, "Baz"); return }
func (t c19T56) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(56, "OnNamespaceConnectX")
	return nil
}
func (t *c19T56) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(56, "OnNamespaceConnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) OnRoomJoined(m neffos.Message) error {
	return c19Rec(56, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) OnOpen(c *neffos.NSConn, m neffos.Message) error { c19Wrong(56, "OnOpen"); return nil }
func (t c19T56) OnRoom(m neffos.Message) error {
	return c19Rec(56, "OnRoom", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(56, "OnNamespaceDisconnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) Ping(m neffos.Message) error {
	return c19Rec(56, "Ping", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T56) GetAll(m neffos.Message) error {
	return c19Rec(56, "GetAll", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t *c19T56) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.B = true
	}
	if n = vals[1]; n != 0 {
		t.U = uint8(n)
	}
	t.C19WithNamespace = &C19WithNamespace{ns}
}
func (t *c19T56) same() string {
	w := c19T56{}
	w.fill(c19Cur.ns[56], c19Cur.vals[56])
	if t.B != w.B {
		return fmt.Sprintf("B is %v instead of %v", t.B, w.B)
	}
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	_ = w
	return ""
}

type c19T57 struct {
	*C19Base
	privSl []int
	Count  int
	Bytes  []byte
	Ch     chan int
	privM  map[int]int
}

func (t *c19T57) OnChat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(57, "OnChat", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T57) Ping(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(57, "Ping", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T57) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(57, "OnNamespaceConnect", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T57) On(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(57, "On", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T57) Namespace() string { return "m" }
func (t *c19T57) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Ch = c19Chans[n%4]
	}
	if n = vals[1]; n != 0 {
		t.Bytes = c19Bytes(n)
	}
	if n = vals[2]; n != 0 {
		t.privM = map[int]int{n: n}
	}
	if n = vals[3]; n != 0 {
		t.privSl = []int{n}
	}
	t.C19Base = &C19Base{}
}
func (t *c19T57) same() string {
	w := c19T57{}
	w.fill(c19Cur.ns[57], c19Cur.vals[57])
	if t.Ch != w.Ch {
		return fmt.Sprintf("Ch is %v instead of %v", t.Ch, w.Ch)
	}
	if !reflect.DeepEqual(t.Bytes, w.Bytes) {
		return fmt.Sprintf("Bytes is %v instead of %v", t.Bytes, w.Bytes)
	}
	_ = w
	return ""
}

type c19T58 struct {
	Tags  []string
	Count int
	SubP  *c19Sub
	C19Base
	*neffos.NSConn
}

func (t c19T58) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	c19Wrong(58, "OnNamespaceConnected")
	return nil
}
func (t *c19T58) Gettee(m neffos.Message) error {
	return c19Rec(58, "Gettee", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T58) OnRoomLeft(m neffos.Message) error {
	return c19Rec(58, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T58) GetOnFoo(m neffos.Message) error {
	return c19Rec(58, "GetOnFoo", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T58) Namespace() string { return "m" }
func (t *c19T58) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Tags = c19Strings(n)
	}
	if n = vals[1]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
}
func (t *c19T58) same() string {
	w := c19T58{}
	w.fill(c19Cur.ns[58], c19Cur.vals[58])
	if !reflect.DeepEqual(t.Tags, w.Tags) {
		return fmt.Sprintf("Tags is %v instead of %v", t.Tags, w.Tags)
	}
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	_ = w
	return ""
}

type c19T59 struct {
	Count int
	Arr   [2]string
	Tags  []string
	Ns    *neffos.NSConn
	*C19Base
}

func (t *c19T59) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(59, "OnNamespaceConnected", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T59) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(59, "OnNamespaceDisconnect", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t c19T59) OnNamespaceConnect(m neffos.Message) error {
	return c19Rec(59, "OnNamespaceConnect", nil, nil, t.Ns, nil, t.same(), m)
}
func (t *c19T59) OnRoomLeave(m neffos.Message) error {
	return c19Rec(59, "OnRoomLeave", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T59) OnOpen(m neffos.Message) error {
	return c19Rec(59, "OnOpen", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T59) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.Tags = c19Strings(n)
	}
	if n = vals[1]; n != 0 {
		t.Arr = [2]string{"", fmt.Sprint(n)}
	}
	t.C19Base = &C19Base{}
}
func (t *c19T59) same() string {
	w := c19T59{}
	w.fill(c19Cur.ns[59], c19Cur.vals[59])
	if !reflect.DeepEqual(t.Tags, w.Tags) {
		return fmt.Sprintf("Tags is %v instead of %v", t.Tags, w.Tags)
	}
	if t.Arr != w.Arr {
		return fmt.Sprintf("Arr is %v instead of %v", t.Arr, w.Arr)
	}
	_ = w
	return ""
}

type c19T60 struct {
	C19WithNamespace
	U     uint8
	Count int
	T     time.Time
}

func (t *c19T60) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(60, "OnNamespaceConnectX", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T60) OnOpen(m neffos.Message) error { c19Wrong(60, "OnOpen"); return nil }
func (t c19T60) OnFoo(m neffos.Message) error   { c19Wrong(60, "OnFoo"); return nil }
func (t *c19T60) XPing(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(60, "XPing", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T60) OnRoom(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(60, "OnRoom", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T60) OnRoomJoin(m neffos.Message) { c19Wrong(60, "OnRoomJoin"); return }
func (t *c19T60) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(60, "OnRoomLeft", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T60) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.U = uint8(n)
	}
	if n = vals[1]; n != 0 {
		t.T = time.Unix(int64(n), 0)
	}
	t.C19WithNamespace.Namespace = ns
}
func (t *c19T60) same() string {
	w := c19T60{}
	w.fill(c19Cur.ns[60], c19Cur.vals[60])
	if t.U != w.U {
		return fmt.Sprintf("U is %v instead of %v", t.U, w.U)
	}
	if t.T != w.T {
		return fmt.Sprintf("T is %v instead of %v", t.T, w.T)
	}
	_ = w
	return ""
}

type c19T61 struct {
	Ns        *neffos.NSConn
	SubP      *c19Sub
	privP     *int
	Count     int
	Namespace int
}

func (t *c19T61) Gettee(m neffos.Message) error {
	return c19Rec(61, "Gettee", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T61) GetAll() error { c19Wrong(61, "GetAll"); return nil }
func (t c19T61) XPing(m neffos.Message) error {
	return c19Rec(61, "XPing", nil, nil, t.Ns, nil, t.same(), m)
}
func (t *c19T61) OnRoom(m ...neffos.Message) error { c19Wrong(61, "OnRoom"); return nil }
func (t *c19T61) GetOnFoo(m neffos.Message) error {
	return c19Rec(61, "GetOnFoo", t, &t.Count, t.Ns, nil, t.same(), m)
}
func (t *c19T61) Ping(c *neffos.NSConn, m neffos.Message) error { c19Wrong(61, "Ping"); return nil }
func (t *c19T61) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.SubP = &c19Subs[n%4]
	}
	if n = vals[1]; n != 0 {
		t.privP = &c19Ints[n%4]
	}
}
func (t *c19T61) same() string {
	w := c19T61{}
	w.fill(c19Cur.ns[61], c19Cur.vals[61])
	if t.SubP != w.SubP {
		return fmt.Sprintf("SubP is %v instead of %v", t.SubP, w.SubP)
	}
	_ = w
	return ""
}

type c19T62 struct {
	Other neffos.Message
	Count int
	Deep  c19Deep
	Fl    float64
	M     map[string]int
	Z     c19Zero
	*neffos.NSConn
	*C19Base
}

func (t *c19T62) OnRoomLeft(m neffos.Message) error {
	return c19Rec(62, "OnRoomLeft", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T62) OnNamespaceConnected(m neffos.Message) error {
	return c19Rec(62, "OnNamespaceConnected", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t c19T62) Ping(m neffos.Message) error {
	return c19Rec(62, "Ping", nil, nil, t.NSConn, nil, t.same(), m)
}
func (t c19T62) Gettee(m neffos.Message, c *neffos.NSConn) error { c19Wrong(62, "Gettee"); return nil }
func (t *c19T62) OnRoomJoined(m neffos.Message) error {
	return c19Rec(62, "OnRoomJoined", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T62) OnNamespaceDisconnect(m neffos.Message) error {
	return c19Rec(62, "OnNamespaceDisconnect", t, &t.Count, t.NSConn, nil, t.same(), m)
}
func (t *c19T62) fill(ns string, vals []int) {
	n := 0
	_ = n
	if n = vals[0]; n != 0 {
		t.M = c19Map(n)
	}
	if n = vals[1]; n != 0 {
		t.Other = neffos.Message{Event: fmt.Sprint(n)}
	}
	if n = vals[2]; n != 0 {
		t.Z = c19Zero{N: n}
	}
	if n = vals[3]; n != 0 {
		t.Deep = c19Deep{t: time.Unix(int64(n), 0), S: c19Sub{b: n}}
	}
	if n = vals[4]; n != 0 {
		t.Fl = float64(n) / 3
	}
	t.C19Base = &C19Base{}
}
func (t *c19T62) same() string {
	w := c19T62{}
	w.fill(c19Cur.ns[62], c19Cur.vals[62])
	if !reflect.DeepEqual(t.M, w.M) {
		return fmt.Sprintf("M is %v instead of %v", t.M, w.M)
	}
	if !reflect.DeepEqual(t.Other, w.Other) {
		return fmt.Sprintf("Other is %v instead of %v", t.Other, w.Other)
	}
	if t.Z != w.Z {
		return fmt.Sprintf("Z is %v instead of %v", t.Z, w.Z)
	}
	if t.Deep != w.Deep {
		return fmt.Sprintf("Deep is %v instead of %v", t.Deep, w.Deep)
	}
	if t.Fl != w.Fl {
		return fmt.Sprintf("Fl is %v instead of %v", t.Fl, w.Fl)
	}
	_ = w
	return ""
}

type c19T63 struct {
	Namespace string
	Count     int
	*C19Base
}

func (t *c19T63) OnNamespaceConnectX(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(63, "OnNamespaceConnectX", t, &t.Count, nil, c, t.same(), m)
}
func (t c19T63) Baz(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(63, "Baz", nil, nil, nil, c, t.same(), m)
}
func (t c19T63) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(63, "OnNamespaceDisconnect", nil, nil, nil, c, t.same(), m)
}
func (t c19T63) OnFoo(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(63, "OnFoo", nil, nil, nil, c, t.same(), m)
}
func (t c19T63) OnChat() error { c19Wrong(63, "OnChat"); return nil }
func (t *c19T63) GetAll(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(63, "GetAll", t, &t.Count, nil, c, t.same(), m)
}
func (t *c19T63) OnRoomLeave(m neffos.Message) error { c19Wrong(63, "OnRoomLeave"); return nil }
func (t *c19T63) OnBar(m neffos.Message) error       { c19Wrong(63, "OnBar"); return nil }
func (t *c19T63) fill(ns string, vals []int) {
	n := 0
	_ = n
	t.Namespace = ns
	t.C19Base = &C19Base{}
}
func (t *c19T63) same() string {
	w := c19T63{}
	w.fill(c19Cur.ns[63], c19Cur.vals[63])
	if t.Namespace != w.Namespace {
		return "Namespace is " + t.Namespace
	}
	_ = w
	return ""
}

var c19Table = []c19Type{
	{name: "c19T00", dyn: false, vals: 4, ns: 3, priv: 0, methods: []c19M{{"OnBar", false, false}, {"Onnext", true, false}, {"GetOnFoo", false, false}, {"GetAll", true, false}, {"OnNamespaceConnect", true, false}, {"OnNamespaceDisconnect", false, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T00{}; t.fill(ns, v); return t }},
	{name: "c19T01", dyn: true, vals: 4, ns: 3, priv: 1, methods: []c19M{{"Online", true, false}, {"OnChat", true, false}, {"OnNamespaceConnectX", false, false}, {"Gettee", true, false}, {"Baz", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T01{}; t.fill(ns, v); return t }},
	{name: "c19T02", dyn: true, vals: 1, ns: 3, priv: 1, methods: []c19M{{"OnNamespaceConnect", true, false}, {"OnRoomLeft", false, false}, {"Onnext", true, false}, {"GetOnFoo", false, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T02{}; t.fill(ns, v); return t }},
	{name: "c19T03", dyn: false, vals: 4, ns: 2, priv: 0, methods: []c19M{{"Online", true, false}, {"Ping", true, false}, {"OnRoomJoined", true, false}, {"OnBar", true, false}, {"OnRoomJoin", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T03{}; t.fill(ns, v); return t }},
	{name: "c19T04", dyn: true, vals: 1, ns: 3, priv: 1, methods: []c19M{{"OnRoomJoin", false, false}, {"Gettee", true, true}, {"GetOnFoo", false, false}, {"OnNamespaceDisconnect", true, false}, {"Onnext", true, false}, {"Baz", false, false}, {"OnNamespaceConnect", true, false}, {"OnChat", false, true}, {"OnOpen", false, false}, {"OnRoomLeft", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T04{}; t.fill(ns, v); return t }},
	{name: "c19T05", dyn: true, vals: 2, ns: 2, priv: 0, methods: []c19M{{"OnNamespaceConnectX", true, false}, {"OnRoomJoined", false, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomLeft", true, false}, {"On", true, false}, {"GetAll", true, false}, {"OnRoomLeave", true, true}, {"OnNamespaceConnect", true, false}, {"OnFoo", false, true}, {"OnNamespaceConnected", true, false}, {"OnRoomJoin", true, false}, {"Gettee", false, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T05{}; t.fill(ns, v); return t }},
	{name: "c19T06", dyn: false, vals: 4, ns: 3, priv: 0, methods: []c19M{{"OnRoomLeave", true, false}, {"Gettee", true, false}, {"OnRoomLeft", false, false}, {"OnRoomJoined", false, true}, {"OnNamespaceDisconnect", true, true}, {"GetGet", true, true}, {"Online", true, false}, {"OnBar", true, false}, {"OnFoo", false, true}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T06{}; t.fill(ns, v); return t }},
	{name: "c19T07", dyn: true, vals: 3, ns: 1, priv: 1, methods: []c19M{{"OnRoomLeave", true, false}, {"OnNamespaceConnectX", true, false}, {"Online", false, false}, {"Baz", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T07{}; t.fill(ns, v); return t }},
	{name: "c19T08", dyn: true, vals: 4, ns: 0, priv: 0, methods: []c19M{{"OnOpen", true, true}, {"OnChat", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T08{}; t.fill(ns, v); return t }},
	{name: "c19T09", dyn: false, vals: 3, ns: 3, priv: 0, methods: []c19M{{"Gettee", true, false}, {"OnNamespaceConnected", true, false}, {"OnChat", true, false}, {"OnNamespaceDisconnect", false, false}, {"On", true, false}, {"OnOpen", true, false}, {"Baz", true, false}, {"GetGet", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T09{}; t.fill(ns, v); return t }},
	{name: "c19T10", dyn: true, vals: 2, ns: 2, priv: 2, methods: []c19M{{"OnNamespaceConnect", true, true}, {"OnRoomLeft", false, false}, {"GetAll", false, false}, {"OnRoom", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnNamespaceConnected", true, false}, {"OnRoomJoin", true, false}, {"OnRoomJoined", true, false}, {"OnRoomLeave", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T10{}; t.fill(ns, v); return t }},
	{name: "c19T11", dyn: true, vals: 2, ns: 0, priv: 0, methods: []c19M{{"GetOnFoo", true, false}, {"OnRoomLeft", true, false}, {"GetGet", true, true}, {"GetAll", false, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T11{}; t.fill(ns, v); return t }},
	{name: "c19T12", dyn: false, vals: 2, ns: 3, priv: 0, methods: []c19M{{"OnNamespaceDisconnect", true, false}, {"Onnext", true, false}, {"OnNamespaceConnectX", true, false}, {"OnBar", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T12{}; t.fill(ns, v); return t }},
	{name: "c19T13", dyn: true, vals: 4, ns: 0, priv: 0, methods: []c19M{{"Ping", true, true}, {"GetOnFoo", true, false}, {"OnOpen", true, false}, {"OnRoomJoin", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T13{}; t.fill(ns, v); return t }},
	{name: "c19T14", dyn: true, vals: 6, ns: 3, priv: 2, methods: []c19M{{"Gettee", true, false}, {"On", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T14{}; t.fill(ns, v); return t }},
	{name: "c19T15", dyn: false, vals: 5, ns: 3, priv: 0, methods: []c19M{{"OnRoomLeft", true, false}, {"Gettee", true, false}, {"OnRoomJoin", true, false}, {"XPing", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T15{}; t.fill(ns, v); return t }},
	{name: "c19T16", dyn: true, vals: 1, ns: 0, priv: 0, methods: []c19M{{"OnNamespaceConnect", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomJoin", true, false}, {"OnNamespaceConnected", true, false}, {"OnOpen", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T16{}; t.fill(ns, v); return t }},
	{name: "c19T17", dyn: true, vals: 2, ns: 2, priv: 0, methods: []c19M{{"OnNamespaceDisconnect", true, true}, {"OnRoomJoined", false, false}, {"OnRoomJoin", true, false}, {"On", true, false}, {"OnNamespaceConnected", true, false}, {"OnRoomLeave", true, true}, {"OnNamespaceConnect", true, false}, {"GetAll", true, false}, {"OnNamespaceConnectX", false, true}, {"GetGet", true, true}, {"OnRoomLeft", true, false}, {"Ping", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T17{}; t.fill(ns, v); return t }},
	{name: "c19T18", dyn: false, vals: 0, ns: 1, priv: 0, methods: []c19M{{"XPing", true, false}, {"GetGet", true, false}, {"OnOpen", true, false}, {"On", true, false}, {"OnNamespaceConnected", true, false}, {"OnChat", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T18{}; t.fill(ns, v); return t }},
	{name: "c19T19", dyn: true, vals: 1, ns: 3, priv: 0, methods: []c19M{{"Onnext", true, false}, {"Baz", true, false}, {"Ping", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T19{}; t.fill(ns, v); return t }},
	{name: "c19T20", dyn: true, vals: 5, ns: 2, priv: 0, methods: []c19M{{"OnRoom", true, false}, {"OnFoo", true, false}, {"OnRoomLeft", true, false}, {"On", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T20{}; t.fill(ns, v); return t }},
	{name: "c19T21", dyn: false, vals: 4, ns: 0, priv: 0, methods: []c19M{{"Onnext", true, false}, {"GetOnFoo", true, false}, {"OnChat", false, false}, {"Gettee", true, false}, {"OnNamespaceDisconnect", true, false}, {"Online", false, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T21{}; t.fill(ns, v); return t }},
	{name: "c19T22", dyn: true, vals: 3, ns: 1, priv: 0, methods: []c19M{{"OnBar", true, false}, {"OnNamespaceConnectX", true, false}, {"OnRoomJoin", true, false}, {"OnChat", true, false}, {"GetOnFoo", true, false}, {"OnRoomLeave", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T22{}; t.fill(ns, v); return t }},
	{name: "c19T23", dyn: true, vals: 5, ns: 3, priv: 0, methods: []c19M{{"OnRoom", false, false}, {"Online", true, true}, {"Ping", true, false}, {"OnNamespaceConnectX", true, false}, {"OnRoomLeave", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T23{}; t.fill(ns, v); return t }},
	{name: "c19T24", dyn: false, vals: 4, ns: 2, priv: 0, methods: []c19M{{"OnRoomLeave", true, false}, {"GetOnFoo", false, false}, {"OnChat", true, true}, {"On", true, false}, {"Ping", true, true}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T24{}; t.fill(ns, v); return t }},
	{name: "c19T25", dyn: true, vals: 2, ns: 2, priv: 0, methods: []c19M{{"Online", true, false}, {"GetGet", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T25{}; t.fill(ns, v); return t }},
	{name: "c19T26", dyn: true, vals: 3, ns: 1, priv: 1, methods: []c19M{{"Gettee", false, false}, {"OnRoom", false, false}, {"XPing", false, false}, {"Onnext", true, false}, {"Baz", true, false}, {"OnRoomJoin", true, true}, {"OnBar", true, true}, {"OnRoomLeft", true, true}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T26{}; t.fill(ns, v); return t }},
	{name: "c19T27", dyn: false, vals: 6, ns: 2, priv: 1, methods: []c19M{{"OnOpen", true, false}, {"Baz", true, false}, {"GetAll", true, false}, {"On", true, false}, {"OnNamespaceConnect", true, false}, {"XPing", true, true}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T27{}; t.fill(ns, v); return t }},
	{name: "c19T28", dyn: true, vals: 2, ns: 3, priv: 0, methods: []c19M{{"Ping", true, false}, {"Gettee", false, false}, {"On", true, true}, {"GetAll", true, false}, {"OnRoomJoin", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T28{}; t.fill(ns, v); return t }},
	{name: "c19T29", dyn: true, vals: 1, ns: 3, priv: 0, methods: []c19M{{"OnOpen", true, false}, {"OnRoomJoined", true, false}, {"Gettee", false, false}, {"OnRoomLeave", false, true}, {"Onnext", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T29{}; t.fill(ns, v); return t }},
	{name: "c19T30", dyn: false, vals: 7, ns: 1, priv: 2, methods: []c19M{{"GetGet", true, true}, {"Onnext", true, false}, {"OnNamespaceConnectX", true, false}, {"XPing", true, false}, {"OnOpen", true, false}, {"OnNamespaceConnect", true, true}, {"OnRoomJoin", true, true}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T30{}; t.fill(ns, v); return t }},
	{name: "c19T31", dyn: true, vals: 2, ns: 3, priv: 0, methods: []c19M{{"OnRoom", false, false}, {"OnRoomJoin", true, false}, {"OnRoomLeave", true, false}, {"XPing", true, false}, {"OnChat", true, true}, {"OnNamespaceConnected", true, false}, {"GetAll", true, false}, {"OnRoomJoined", true, false}, {"OnNamespaceConnect", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomLeft", true, false}, {"Gettee", false, false}, {"OnOpen", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T31{}; t.fill(ns, v); return t }},
	{name: "c19T32", dyn: true, vals: 1, ns: 2, priv: 0, methods: []c19M{{"OnRoomJoin", true, false}, {"OnRoomLeave", false, false}, {"GetGet", true, true}, {"Ping", true, false}, {"OnNamespaceConnectX", true, false}, {"XPing", true, true}, {"OnRoomJoined", true, true}, {"GetAll", true, false}, {"OnNamespaceConnected", true, false}, {"Online", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T32{}; t.fill(ns, v); return t }},
	{name: "c19T33", dyn: false, vals: 0, ns: 2, priv: 0, methods: []c19M{{"Online", true, false}, {"Ping", true, false}, {"Gettee", false, false}, {"OnRoomJoined", true, false}, {"OnOpen", true, false}, {"OnRoomJoin", true, false}, {"OnRoomLeave", true, false}, {"OnNamespaceConnected", true, true}, {"OnRoom", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T33{}; t.fill(ns, v); return t }},
	{name: "c19T34", dyn: true, vals: 0, ns: 0, priv: 0, methods: []c19M{{"OnRoomLeft", false, false}, {"OnRoomJoined", true, false}, {"Ping", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T34{}; t.fill(ns, v); return t }},
	{name: "c19T35", dyn: true, vals: 2, ns: 0, priv: 0, methods: []c19M{{"OnFoo", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T35{}; t.fill(ns, v); return t }},
	{name: "c19T36", dyn: false, vals: 3, ns: 3, priv: 0, methods: []c19M{{"OnNamespaceConnect", true, false}, {"Ping", true, true}, {"OnRoomLeave", true, false}, {"Baz", true, false}, {"On", true, false}, {"GetAll", true, false}, {"OnOpen", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T36{}; t.fill(ns, v); return t }},
	{name: "c19T37", dyn: true, vals: 1, ns: 3, priv: 1, methods: []c19M{{"OnNamespaceConnect", true, true}, {"OnRoomLeave", true, true}, {"OnRoom", false, false}, {"OnNamespaceDisconnect", false, false}, {"OnNamespaceConnected", true, false}, {"Online", true, true}, {"OnNamespaceConnectX", true, true}, {"OnRoomJoined", false, false}, {"OnRoomJoin", true, false}, {"OnFoo", true, false}, {"OnChat", false, true}, {"OnRoomLeft", false, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T37{}; t.fill(ns, v); return t }},
	{name: "c19T38", dyn: true, vals: 1, ns: 3, priv: 1, methods: []c19M{{"Online", true, false}, {"OnRoomLeft", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T38{}; t.fill(ns, v); return t }},
	{name: "c19T39", dyn: false, vals: 0, ns: 1, priv: 0, methods: []c19M{{"OnNamespaceConnect", false, false}, {"OnRoomJoined", true, true}, {"OnFoo", true, false}, {"Baz", true, true}, {"GetAll", true, false}, {"OnRoomLeave", false, true}, {"OnChat", true, false}, {"Onnext", false, false}, {"On", true, true}, {"OnNamespaceDisconnect", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T39{}; t.fill(ns, v); return t }},
	{name: "c19T40", dyn: true, vals: 2, ns: 3, priv: 2, methods: []c19M{{"OnChat", true, true}, {"OnNamespaceConnectX", true, true}, {"OnBar", true, false}, {"OnNamespaceConnected", true, false}, {"GetGet", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T40{}; t.fill(ns, v); return t }},
	{name: "c19T41", dyn: true, vals: 2, ns: 1, priv: 0, methods: []c19M{{"OnRoomJoin", true, false}, {"OnRoom", true, false}, {"Online", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T41{}; t.fill(ns, v); return t }},
	{name: "c19T42", dyn: false, vals: 2, ns: 3, priv: 2, methods: []c19M{{"OnRoom", true, true}, {"OnRoomJoin", false, true}, {"Online", false, false}, {"OnBar", true, true}, {"On", true, false}, {"XPing", true, true}, {"OnNamespaceDisconnect", true, true}, {"OnRoomLeave", true, false}, {"OnNamespaceConnect", true, false}, {"Gettee", false, true}, {"OnRoomLeft", true, false}, {"OnNamespaceConnected", true, false}, {"OnRoomJoined", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T42{}; t.fill(ns, v); return t }},
	{name: "c19T43", dyn: true, vals: 2, ns: 1, priv: 0, methods: []c19M{{"OnRoomLeft", true, false}, {"GetAll", true, false}, {"OnRoomLeave", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T43{}; t.fill(ns, v); return t }},
	{name: "c19T44", dyn: true, vals: 4, ns: 3, priv: 0, methods: []c19M{{"OnChat", true, false}, {"Gettee", true, true}, {"GetAll", true, true}, {"Baz", true, false}, {"OnNamespaceConnectX", true, true}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T44{}; t.fill(ns, v); return t }},
	{name: "c19T45", dyn: false, vals: 7, ns: 0, priv: 2, methods: []c19M{{"OnNamespaceConnectX", true, false}, {"Onnext", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T45{}; t.fill(ns, v); return t }},
	{name: "c19T46", dyn: true, vals: 1, ns: 1, priv: 0, methods: []c19M{{"OnRoomLeave", false, false}, {"GetGet", true, false}, {"OnRoomLeft", true, false}, {"XPing", true, true}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T46{}; t.fill(ns, v); return t }},
	{name: "c19T47", dyn: true, vals: 4, ns: 0, priv: 0, methods: []c19M{{"Ping", false, false}, {"OnOpen", false, false}, {"GetGet", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomLeave", true, false}, {"Baz", true, false}, {"Onnext", false, false}, {"OnRoomJoined", true, false}, {"OnNamespaceConnected", false, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T47{}; t.fill(ns, v); return t }},
	{name: "c19T48", dyn: false, vals: 4, ns: 3, priv: 2, methods: []c19M{{"OnNamespaceConnected", true, false}, {"OnNamespaceDisconnect", false, false}, {"Baz", true, false}, {"OnNamespaceConnect", true, true}, {"OnFoo", true, false}, {"OnRoomJoined", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T48{}; t.fill(ns, v); return t }},
	{name: "c19T49", dyn: true, vals: 6, ns: 3, priv: 2, methods: []c19M{{"OnNamespaceConnect", true, false}, {"OnNamespaceConnected", false, false}, {"Ping", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomJoin", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T49{}; t.fill(ns, v); return t }},
	{name: "c19T50", dyn: true, vals: 2, ns: 3, priv: 0, methods: []c19M{{"Baz", true, true}, {"OnNamespaceDisconnect", true, true}, {"XPing", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T50{}; t.fill(ns, v); return t }},
	{name: "c19T51", dyn: false, vals: 5, ns: 3, priv: 1, methods: []c19M{{"GetAll", true, false}, {"OnOpen", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T51{}; t.fill(ns, v); return t }},
	{name: "c19T52", dyn: true, vals: 3, ns: 3, priv: 0, methods: []c19M{{"XPing", true, false}, {"OnRoom", false, false}, {"OnBar", true, false}, {"GetAll", true, false}, {"OnRoomLeave", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T52{}; t.fill(ns, v); return t }},
	{name: "c19T53", dyn: true, vals: 5, ns: 0, priv: 0, methods: []c19M{{"OnChat", false, true}, {"GetAll", false, true}, {"GetGet", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnRoomLeave", false, false}, {"Onnext", true, false}, {"OnBar", true, false}, {"OnFoo", true, true}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T53{}; t.fill(ns, v); return t }},
	{name: "c19T54", dyn: false, vals: 4, ns: 3, priv: 0, methods: []c19M{{"Onnext", true, false}, {"GetAll", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T54{}; t.fill(ns, v); return t }},
	{name: "c19T55", dyn: true, vals: 5, ns: 1, priv: 0, methods: []c19M{{"OnRoomJoined", true, false}, {"OnChat", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T55{}; t.fill(ns, v); return t }},
	{name: "c19T56", dyn: true, vals: 2, ns: 3, priv: 0, methods: []c19M{{"OnRoomJoin", true, false}, {"Baz", false, false}, {"OnNamespaceConnectX", false, true}, {"OnNamespaceConnect", true, false}, {"OnRoomJoined", true, false}, {"OnOpen", false, false}, {"OnRoom", true, true}, {"OnNamespaceDisconnect", true, false}, {"Ping", true, false}, {"GetAll", true, true}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T56{}; t.fill(ns, v); return t }},
	{name: "c19T57", dyn: false, vals: 4, ns: 1, priv: 2, methods: []c19M{{"OnChat", true, false}, {"Ping", true, false}, {"OnNamespaceConnect", true, false}, {"On", true, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T57{}; t.fill(ns, v); return t }},
	{name: "c19T58", dyn: true, vals: 2, ns: 1, priv: 0, methods: []c19M{{"OnNamespaceConnected", false, true}, {"Gettee", true, false}, {"OnRoomLeft", true, false}, {"GetOnFoo", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: false, make: func(ns string, v []int) any { t := &c19T58{}; t.fill(ns, v); return t }},
	{name: "c19T59", dyn: true, vals: 2, ns: 0, priv: 0, methods: []c19M{{"OnNamespaceConnected", true, false}, {"OnNamespaceDisconnect", true, false}, {"OnNamespaceConnect", true, true}, {"OnRoomLeave", true, false}, {"OnOpen", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T59{}; t.fill(ns, v); return t }},
	{name: "c19T60", dyn: false, vals: 2, ns: 3, priv: 0, methods: []c19M{{"OnNamespaceConnectX", true, false}, {"OnOpen", false, false}, {"OnFoo", false, true}, {"XPing", true, false}, {"OnRoom", true, false}, {"OnRoomJoin", false, false}, {"OnRoomLeft", true, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T60{}; t.fill(ns, v); return t }},
	{name: "c19T61", dyn: true, vals: 2, ns: 0, priv: 1, methods: []c19M{{"Gettee", true, false}, {"GetAll", false, false}, {"XPing", true, true}, {"OnRoom", false, false}, {"GetOnFoo", true, false}, {"Ping", false, false}}, base: []string{}, basePtr: false, make: func(ns string, v []int) any { t := &c19T61{}; t.fill(ns, v); return t }},
	{name: "c19T62", dyn: true, vals: 5, ns: 0, priv: 0, methods: []c19M{{"OnRoomLeft", true, false}, {"OnNamespaceConnected", true, false}, {"Ping", true, true}, {"Gettee", false, true}, {"OnRoomJoined", true, false}, {"OnNamespaceDisconnect", true, false}}, base: []string{"BaseDyn", "OnBaseDyn"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T62{}; t.fill(ns, v); return t }},
	{name: "c19T63", dyn: false, vals: 0, ns: 3, priv: 0, methods: []c19M{{"OnNamespaceConnectX", true, false}, {"Baz", true, true}, {"OnNamespaceDisconnect", true, true}, {"OnFoo", true, true}, {"OnChat", false, true}, {"GetAll", true, false}, {"OnRoomLeave", false, false}, {"OnBar", false, false}}, base: []string{"BaseStat", "OnBaseStat"}, basePtr: true, make: func(ns string, v []int) any { t := &c19T63{}; t.fill(ns, v); return t }},
}
