package core

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------- C19: struct handlers

type c19M struct {
	name string
	ok   bool // has the shape of an event callback of its struct
	val  bool // value receiver
}

type c19Type struct {
	name    string
	dyn     bool // holds a namespace connection
	vals    int  // number of generated field values
	ns      int  // 0: no namespace, 1 method ("m"), 2 method ("v"), 3 as filled
	priv    int
	methods []c19M
	base    []string // promoted event methods
	basePtr bool
	make    func(ns string, v []int) any
}

type c19Sub struct {
	A int
	b int
}
type c19Zero struct{ N int }

func (z c19Zero) IsZero() bool { return z.N == 0 }

type c19IntZero struct{ N int }

func (z c19IntZero) IsZero() int { return z.N }

type c19Deep struct {
	t time.Time
	S c19Sub
}

type C19WithNamespace struct{ Namespace string }

// C19Base is embedded by some of the structs.
type C19Base struct{ Hits int }

func (b *C19Base) BaseDyn(m neffos.Message) error {
	return c19Rec(-1, "BaseDyn", b, &b.Hits, nil, nil, "", m)
}
func (b C19Base) OnBaseDyn(m neffos.Message) error {
	return c19Rec(-1, "OnBaseDyn", nil, nil, nil, nil, "", m)
}
func (b *C19Base) BaseStat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(-1, "BaseStat", b, &b.Hits, nil, c, "", m)
}
func (b C19Base) OnBaseStat(c *neffos.NSConn, m neffos.Message) error {
	return c19Rec(-1, "OnBaseStat", nil, nil, nil, c, "", m)
}

var (
	c19Ints  [4]int
	c19Subs  [4]c19Sub
	c19Errs  = [4]error{errors.New("e0"), errors.New("e1"), errors.New("e2"), errors.New("e3")}
	c19Chans = [4]chan int{make(chan int), make(chan int), make(chan int), make(chan int)}
)

// some of the values are empty, and not nil
func c19Strings(n int) []string {
	if n == 7 {
		return []string{}
	}
	return []string{fmt.Sprint(n), "x"}
}

func c19Map(n int) map[string]int {
	if n == 7 {
		return map[string]int{}
	}
	return map[string]int{"n": n}
}

func c19Bytes(n int) []byte {
	if n == 7 {
		return []byte{}
	}
	return []byte{byte(n)}
}

// c19Call is one run of a method of a struct handler.
type c19Call struct {
	typ    int
	method string
	inst   any // receiver, if it is a pointer
	count  int // value of its counter before the call
	field  *neffos.NSConn
	arg    *neffos.NSConn
	diff   string
	msg    neffos.Message
	// who was calling, told by the namespace connection
}

// c19State is the running case.
type c19State struct {
	mu    sync.Mutex
	calls []c19Call
	wrong []string
}

var c19Cur struct {
	st   atomic.Pointer[c19State]
	ns   []string
	vals [][]int
}

func c19Wrong(typ int, method string) {
	s := c19Cur.st.Load()
	s.mu.Lock()
	s.wrong = append(s.wrong, fmt.Sprintf("%s.%s", c19Table[typ].name, method))
	s.mu.Unlock()
}

func c19Rec(typ int, method string, inst any, cnt *int, field, arg *neffos.NSConn, diff string, m neffos.Message) error {
	s := c19Cur.st.Load()
	if s == nil {
		return nil
	}
	s.mu.Lock()
	c := c19Call{typ: typ, method: method, inst: inst, field: field, arg: arg, diff: diff, msg: m}
	if cnt != nil && !kit.Race {
		c.count = *cnt
		*cnt++
	}
	s.calls = append(s.calls, c)
	s.mu.Unlock()
	if strings.HasPrefix(m.Event, "_On") {
		return nil
	}
	return neffos.Reply([]byte(method + "|" + string(m.Body)))
}

type c19H struct {
	Type    int
	Vals    []int
	NS      string // what the struct's own field or method says
	Set     string // SetNamespace
	Matcher int    // 0 none 1 prefix On 2 trim On 3 prefix Get 4 custom 5 rejects all
	Inject  bool
	AsValue bool // NewStruct of a reflect.Value
}

type c19Op struct {
	C    int
	K    int // 0 connect 1 disconnect 2 ask 3 emit 4 join 5 leave 6 close and dial again 7 everyone asks at once
	E    int
	Srv  bool // initiated by the server's side
	Room int
}

type c19Plan struct {
	H      c19H
	Second *c19H // joined with it
	Client bool  // the struct handles the client's events
	Conns  int
	Ops    []c19Op
	Shared bool // one handler for all the clients (client side)
}

func genC19H(t *rapid.T) c19H {
	h := c19H{
		Type:    rapid.IntRange(0, len(c19Table)-1).Draw(t, "type"),
		NS:      rapid.SampledFrom([]string{"", "n", "n", "a;b"}).Draw(t, "ns"),
		Set:     rapid.SampledFrom([]string{"", "", "s"}).Draw(t, "set"),
		Matcher: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5}).Draw(t, "matcher"),
		Inject:  rapid.IntRange(0, 5).Draw(t, "inject") == 0,
		AsValue: rapid.IntRange(0, 5).Draw(t, "asvalue") == 0,
	}
	for i := 0; i < c19Table[h.Type].vals; i++ {
		h.Vals = append(h.Vals, rapid.SampledFrom([]int{0, 1, 2, 3, 7, 255}).Draw(t, "val"))
	}
	return h
}

func genC19(t *rapid.T) c19Plan {
	p := c19Plan{H: genC19H(t), Client: rapid.IntRange(0, 2).Draw(t, "client") == 0, Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Shared: rapid.Bool().Draw(t, "shared")}
	if rapid.IntRange(0, 3).Draw(t, "two") == 0 {
		h := genC19H(t)
		if h.Type == p.H.Type {
			h.Type = (h.Type + 1) % len(c19Table)
			h.Vals = make([]int, c19Table[h.Type].vals)
		}
		p.Second = &h
	}
	if rapid.IntRange(0, 4).Draw(t, "pre") > 0 {
		for i := 0; i < p.Conns; i++ {
			p.Ops = append(p.Ops, c19Op{C: i})
		}
	}
	for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
		p.Ops = append(p.Ops, c19Op{
			C:    rapid.IntRange(0, p.Conns-1).Draw(t, "c"),
			K:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7}).Draw(t, "k"),
			E:    rapid.IntRange(0, 40).Draw(t, "e"),
			Srv:  rapid.IntRange(0, 3).Draw(t, "srv") == 0,
			Room: rapid.IntRange(0, 1).Draw(t, "room"),
		})
	}
	return p
}

var c19System = map[string]bool{"OnNamespaceConnect": true, "OnNamespaceConnected": true, "OnNamespaceDisconnect": true, "OnRoomJoin": true, "OnRoomJoined": true, "OnRoomLeave": true, "OnRoomLeft": true}

// name is the event of a method, by the matcher's definition.
func (h c19H) event(method string) (string, bool) {
	if c19System[method] {
		return "_" + method, true
	}
	switch h.Matcher {
	case 1:
		return method, strings.HasPrefix(method, "On")
	case 2:
		return strings.TrimPrefix(method, "On"), strings.HasPrefix(method, "On")
	case 3:
		return method, strings.HasPrefix(method, "Get")
	case 4:
		return "ev;" + strings.ToLower(method), !strings.Contains(method, "a")
	case 5:
		return "", false
	}
	return method, true
}

// events are the expected events: event to method.
func (h c19H) events() map[string]c19M {
	ty := c19Table[h.Type]
	ev := map[string]c19M{}
	for _, m := range ty.methods {
		if !m.ok {
			continue
		}
		if e, ok := h.event(m.name); ok {
			ev[e] = m
		}
	}
	for _, b := range ty.base {
		if e, ok := h.event(b); ok {
			ev[e] = c19M{name: b, ok: true, val: strings.HasPrefix(b, "On")}
		}
	}
	return ev
}

func (h c19H) namespace() string {
	if h.Set != "" {
		return h.Set
	}
	switch c19Table[h.Type].ns {
	case 1:
		return "m"
	case 2:
		return "v"
	case 3:
		return h.NS
	}
	return ""
}

type c19Inject struct {
	typ  reflect.Type
	ns   *neffos.NSConn
	inst any
}

// build makes the handler. With forceNS the handlers of a pair share a namespace.
func (h c19H) build(res *kit.Result, inj *[]c19Inject, mu *sync.Mutex) (*neffos.Struct, any) {
	ty := c19Table[h.Type]
	proto := ty.make(h.NS, h.Vals)
	var arg any = proto
	if h.AsValue {
		arg = reflect.ValueOf(proto)
	}
	s := neffos.NewStruct(arg)
	if neffos.NewStruct(s) != s {
		res.Violatef("NewStruct of a *Struct returns another one")
	}
	if h.Set != "" {
		s.SetNamespace(h.Set)
	}
	chk := func(f neffos.EventMatcherFunc) neffos.EventMatcherFunc {
		return func(n string) (string, bool) {
			if c19System[n] {
				res.Violatef("the event matcher was asked about %s", n)
			}
			return f(n)
		}
	}
	switch h.Matcher {
	case 1:
		s.SetEventMatcher(chk(neffos.EventPrefixMatcher("On")))
	case 2:
		s.SetEventMatcher(chk(neffos.EventTrimPrefixMatcher("On")))
	case 3:
		s.SetEventMatcher(chk(neffos.EventPrefixMatcher("Get")))
	case 4, 5:
		s.SetEventMatcher(chk(h.event))
	}
	if h.Inject {
		s.SetInjector(func(typ reflect.Type, ns *neffos.NSConn) reflect.Value {
			v := reflect.ValueOf(ty.make(h.NS, h.Vals))
			mu.Lock()
			*inj = append(*inj, c19Inject{typ, ns, v.Interface()})
			mu.Unlock()
			return v
		})
	}
	return s, proto
}

// c19Epoch is one namespace connection of one link.
type c19Epoch struct {
	ns    *neffos.NSConn // of the struct's side
	inst  map[int]any    // per type
	bases map[int]any    // base receivers, per owner
	n     map[string]int // expected counter of each receiver
}

type c19Conn struct {
	cli   *neffos.Client
	srv   *neffos.Conn
	link  *sim.Link
	open  bool
	rooms map[string]bool
	cns   *neffos.NSConn // the client's, while connected
	ep    *c19Epoch
}

func runC19(p c19Plan, res *kit.Result) {
	hs := []c19H{p.H}
	if p.Second != nil {
		hs = append(hs, *p.Second)
		// both in one namespace
		if n := p.H.namespace(); p.Second.namespace() != n {
			hs[0].Set, hs[1].Set = "s", "s"
		}
		res.Label("two")
	}
	for _, h := range hs {
		if h.Type < 0 || h.Type >= len(c19Table) || len(h.Vals) < c19Table[h.Type].vals {
			return
		}
	}
	st := &c19State{}
	c19Cur.st.Store(st)
	c19Cur.ns = make([]string, len(c19Table))
	c19Cur.vals = make([][]int, len(c19Table))
	want := map[string]c19M{}
	owner := map[string]int{}
	for _, h := range hs {
		c19Cur.ns[h.Type], c19Cur.vals[h.Type] = h.NS, h.Vals
		for e, m := range h.events() {
			want[e], owner[e] = m, h.Type
		}
	}
	var inj []c19Inject
	var injMu sync.Mutex
	protos := map[int][]any{}
	// hasEvents checks that a struct has exactly its declared events.
	hasEvents := func(h c19H, s *neffos.Struct) {
		nss := s.GetNamespaces()
		if len(nss) != 1 {
			res.Violatef("%s has %d namespaces", c19Table[h.Type].name, len(nss))
		}
		evs, ok := nss[h.namespace()]
		if !ok {
			var got []string
			for k := range nss {
				got = append(got, k)
			}
			res.Violatef("%s is registered under the namespace %q, expected %q", c19Table[h.Type].name, got, h.namespace())
			return
		}
		exp := h.events()
		for e := range exp {
			if evs[e] == nil {
				res.Violatef("%s: the event %q is not registered", c19Table[h.Type].name, e)
			}
		}
		for e := range evs {
			if _, ok := exp[e]; !ok && !(c19Table[h.Type].dyn && e == neffos.OnNamespaceConnect) {
				res.Violatef("%s: the event %q is registered", c19Table[h.Type].name, e)
			}
		}
	}
	make1 := func() neffos.ConnHandler {
		var parts []neffos.ConnHandler
		for _, h := range hs {
			s, proto := h.build(res, &inj, &injMu)
			protos[h.Type] = append(protos[h.Type], proto)
			parts = append(parts, s)
			hasEvents(h, s)
			// another struct of the same type has its own namespace and events
			o := h
			o.Matcher, o.Set = (h.Matcher+1)%6, "o"
			os, _ := o.build(res, &inj, &injMu)
			hasEvents(o, os)
			hasEvents(h, s)
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return neffos.JoinConnHandlers(parts...)
	}
	space := hs[0].namespace()
	structH := make1()
	if len(res.Violations) > 0 {
		return
	}
	plain := neffos.Namespaces{space: neffos.Events{}}
	var w *World
	if p.Client {
		w = NewWorld(plain)
		res.Label("client")
	} else {
		w = NewWorld(structH)
	}
	conns := make([]*c19Conn, p.Conns)
	dials := 0
	dial := func(i int) bool {
		var h neffos.ConnHandler = plain
		if p.Client {
			h = structH
			if !p.Shared && dials > 0 {
				h = make1()
			}
		}
		dials++
		cli, link, acc, err := w.Dial(fmt.Sprintf("u%d-%d", i, dials), h, sim.Dir{}, sim.Dir{})
		if err != nil {
			res.Violatef("Dial failed: %v", err)
			return false
		}
		conns[i] = &c19Conn{cli: cli, srv: (<-acc).c, link: link, open: true, rooms: map[string]bool{}}
		return true
	}
	for i := range conns {
		if !dial(i) {
			return
		}
	}
	lastInj := 0
	seen := map[any]*c19Epoch{} // instances of the dynamic structs
	// all event names worth sending
	var names []string
	for _, h := range hs {
		for _, m := range c19Table[h.Type].methods {
			names = append(names, m.name)
			if e, ok := h.event(m.name); ok {
				names = append(names, e)
			}
		}
		for _, b := range c19Table[h.Type].base {
			names = append(names, b)
			if e, ok := h.event(b); ok {
				names = append(names, e)
			}
		}
	}
	names = append(names, "nope", "Namespace", "Emit")
	var events []string
	for _, n := range names {
		if !strings.HasPrefix(n, "_On") { // lifecycle events are not sent by hand
			events = append(events, n)
		}
	}

	var declared []string
	for e := range want {
		if !strings.HasPrefix(e, "_On") {
			declared = append(declared, e)
		}
	}
	sort.Strings(declared)
	pick := func(n int) string {
		if n%3 > 0 && len(declared) > 0 {
			return declared[n/3%len(declared)]
		}
		return events[n%len(events)]
	}

	// verify checks the calls of one operation on connection i.
	verify := func(what string, i int, exp []string, ep *c19Epoch) bool {
		st.mu.Lock()
		calls, wrong := st.calls, st.wrong
		st.calls, st.wrong = nil, nil
		st.mu.Unlock()
		if len(wrong) > 0 {
			res.Violatef("%s: methods that are not event callbacks ran: %v", what, wrong)
		}
		var got []string
		for _, c := range calls {
			got = append(got, c.method)
		}
		sort.Strings(got)
		sort.Strings(exp)
		if strings.Join(got, " ") != strings.Join(exp, " ") {
			res.Violatef("%s: the methods %v ran, expected %v", what, got, exp)
			return false
		}
		for _, c := range calls {
			m, ok := want[c.msg.Event]
			ty := owner[c.msg.Event]
			if !ok || m.name != c.method || (c.typ >= 0 && c.typ != ty) {
				res.Violatef("%s: the event %q ran the method %s of %d", what, c.msg.Event, c.method, c.typ)
				continue
			}
			T := c19Table[ty]
			if !checkC19Call(res, what, c, T, ty, ep, protos, seen, inj, hs) {
				return false
			}
		}
		return len(res.Violations) == 0
	}
	lifecycle := func(evs ...string) []string {
		var l []string
		for _, e := range evs {
			if m, ok := want[e]; ok {
				l = append(l, m.name)
			}
		}
		return l
	}
	end := func(c *c19Conn) []string {
		var l []string
		for range c.rooms {
			l = append(l, lifecycle(neffos.OnRoomLeave, neffos.OnRoomLeft)...)
		}
		c.rooms = map[string]bool{}
		if c.ep != nil {
			l = append(l, lifecycle(neffos.OnNamespaceDisconnect)...)
		}
		return l
	}
	ctx := context.Background()
	for k, o := range p.Ops {
		if o.C >= len(conns) {
			continue
		}
		c := conns[o.C]
		what := fmt.Sprintf("operation %d (%+v)", k, o)
		ok := true
		mine := func() *neffos.NSConn { // of the struct's side
			if p.Client {
				return c.cns
			}
			return c.srv.Namespace(space)
		}
		theirs := func() *neffos.NSConn {
			if p.Client {
				return c.srv.Namespace(space)
			}
			return c.cns
		}
		byInit := func() *neffos.NSConn {
			if o.Srv {
				return c.srv.Namespace(space)
			}
			return c.cns
		}
		switch o.K {
		case 0:
			if c.ep != nil {
				continue
			}
			var err error
			if !call(time.Minute, func() {
				if o.Srv {
					_, err = c.srv.Connect(ctx, space)
				} else {
					_, err = c.cli.Connect(ctx, space)
				}
			}) || err != nil {
				res.Violatef("%s: Connect: %v", what, err)
				return
			}
			Settle(time.Second)
			c.cns, err = c.cli.Connect(ctx, space)
			if err != nil || c.srv.Namespace(space) == nil {
				res.Violatef("%s: not connected: %v", what, err)
				return
			}
			c.ep = &c19Epoch{ns: mine(), inst: map[int]any{}, bases: map[int]any{}, n: map[string]int{}}
			injMu.Lock()
			n := len(inj) - lastInj
			lastInj = len(inj)
			injMu.Unlock()
			wantInj := 0
			for _, h := range hs {
				if h.Inject && c19Table[h.Type].dyn {
					wantInj++
				}
			}
			if len(hs) == 1 && n != wantInj {
				res.Violatef("%s: the injector ran %d times", what, n)
			}
			exp := lifecycle(neffos.OnNamespaceConnect, neffos.OnNamespaceConnected)
			if len(hs) > 1 {
				// which OnNamespaceConnect of two joined structs runs is not asserted
				st.mu.Lock()
				var l []c19Call
				for _, x := range st.calls {
					if x.msg.Event != neffos.OnNamespaceConnect {
						l = append(l, x)
					} else if x.inst != nil && x.typ >= 0 && c19Table[x.typ].dyn {
						c.ep.inst[x.typ] = x.inst
						c.ep.n[fmt.Sprintf("%T %[1]p", x.inst)]++
						seen[x.inst] = c.ep
					} else if x.inst != nil {
						c.ep.n[fmt.Sprintf("%T %[1]p", x.inst)]++
					}
				}
				st.calls = l
				st.mu.Unlock()
				exp = lifecycle(neffos.OnNamespaceConnected)
			}
			ok = verify(what, o.C, exp, c.ep)
		case 1:
			if c.ep == nil {
				continue
			}
			n := byInit()
			var err error
			exp := end(c)
			if !call(time.Minute, func() { err = n.Disconnect(ctx) }) || err != nil {
				res.Violatef("%s: Disconnect: %v", what, err)
				return
			}
			Settle(time.Second)
			ok = verify(what, o.C, exp, c.ep)
			c.ep = nil
		case 2, 3:
			if c.ep == nil {
				continue
			}
			e := pick(o.E)
			m, has := want[e]
			var exp []string
			if has {
				exp = []string{m.name}
				res.NonTrivial = true
			}
			body := fmt.Sprint("b", k)
			if o.K == 3 {
				if !theirs().Emit(e, []byte(body)) {
					res.Violatef("%s: Emit failed", what)
				}
			} else if has {
				var r neffos.Message
				var err error
				cx, cancel := context.WithTimeout(ctx, 10*time.Second)
				if !call(time.Minute, func() { r, err = theirs().Ask(cx, e, []byte(body)) }) || err != nil {
					res.Violatef("%s: Ask %q: %v", what, e, err)
				} else if string(r.Body) != m.name+"|"+body {
					res.Violatef("%s: Ask %q was answered %q, expected the method %s", what, e, r.Body, m.name)
				}
				cancel()
			}
			Settle(time.Second)
			if o.K == 2 && !has {
				continue
			}
			ok = verify(what, o.C, exp, c.ep)
		case 4:
			room := fmt.Sprint("r", o.Room)
			if c.ep == nil || c.rooms[room] {
				continue
			}
			var err error
			if !call(time.Minute, func() { _, err = byInit().JoinRoom(ctx, room) }) || err != nil {
				res.Violatef("%s: JoinRoom: %v", what, err)
				return
			}
			c.rooms[room] = true
			Settle(time.Second)
			ok = verify(what, o.C, lifecycle(neffos.OnRoomJoin, neffos.OnRoomJoined), c.ep)
		case 5:
			room := fmt.Sprint("r", o.Room)
			if c.ep == nil || !c.rooms[room] {
				continue
			}
			var err error
			if !call(time.Minute, func() { err = byInit().Room(room).Leave(ctx) }) || err != nil {
				res.Violatef("%s: Leave: %v", what, err)
				return
			}
			delete(c.rooms, room)
			Settle(time.Second)
			ok = verify(what, o.C, lifecycle(neffos.OnRoomLeave, neffos.OnRoomLeft), c.ep)
		case 6:
			exp := end(c)
			ep := c.ep
			if o.Srv {
				c.srv.Close()
			} else {
				c.cli.Close()
			}
			Settle(time.Second)
			ok = verify(what, o.C, exp, ep)
			if ok && !dial(o.C) {
				return
			}
		case 7:
			// all the connections ask at the same time
			var wg sync.WaitGroup
			e := pick(o.E)
			m, has := want[e]
			if !has {
				continue
			}
			type ans struct {
				body string
				err  error
			}
			got := make([]ans, len(conns))
			var eps []*c19Epoch
			for j, cc := range conns {
				if cc.ep == nil {
					continue
				}
				n := cc.srv.Namespace(space)
				if !p.Client {
					n = cc.cns
				}
				eps = append(eps, cc.ep)
				wg.Add(1)
				go func() {
					defer wg.Done()
					cx, cancel := context.WithTimeout(ctx, 10*time.Second)
					defer cancel()
					r, err := n.Ask(cx, e, []byte(fmt.Sprint(j)))
					got[j] = ans{string(r.Body), err}
				}()
			}
			wg.Wait()
			Settle(time.Second)
			if len(eps) > 1 {
				res.NonTrivial = true
				res.Label("at once")
			}
			for j, cc := range conns {
				if cc.ep != nil && (got[j].err != nil || got[j].body != m.name+"|"+fmt.Sprint(j)) {
					res.Violatef("%s: connection %d was answered %q, %v", what, j, got[j].body, got[j].err)
				}
			}
			st.mu.Lock()
			calls := st.calls
			st.calls = nil
			st.mu.Unlock()
			if len(calls) != len(eps) {
				res.Violatef("%s: %d calls for %d asks", what, len(calls), len(eps))
				ok = false
				break
			}
			for _, x := range calls {
				j := int(x.msg.Body[0] - '0')
				if m.name != x.method || conns[j].ep == nil {
					res.Violatef("%s: %s ran for connection %d", what, x.method, j)
					ok = false
					break
				}
				ok = ok && checkC19Call(res, what, x, c19Table[owner[e]], owner[e], conns[j].ep, protos, seen, inj, hs)
			}
		}
		if !ok || len(res.Violations) > 0 {
			break
		}
	}
	// the handed in structs were not changed (the dynamic ones)
	for _, h := range hs {
		if c19Table[h.Type].dyn {
			for _, pr := range protos[h.Type] {
				if n := reflect.ValueOf(pr).Elem().FieldByName("Count").Int(); n != 0 {
					res.Violatef("the struct given to NewStruct was used as an instance (%d calls)", n)
				}
				if s := pr.(interface{ same() string }).same(); s != "" {
					res.Violatef("the struct given to NewStruct was changed: %s", s)
				}
			}
		}
	}
	c19Cur.st.Store(&c19State{})
	w.Shutdown()
	c19Cur.st.Store(nil)
}

// checkC19Call verifies the receiver and the arguments of one call.
func checkC19Call(res *kit.Result, what string, c c19Call, T c19Type, ty int, ep *c19Epoch, protos map[int][]any, seen map[any]*c19Epoch, inj []c19Inject, hs []c19H) bool {
	if ep == nil {
		res.Violatef("%s: %s.%s ran while not connected", what, T.name, c.method)
		return false
	}
	if c.diff != "" {
		res.Violatef("%s: %s.%s: the static field %s", what, T.name, c.method, c.diff)
		return false
	}
	if !T.dyn {
		if c.arg != ep.ns && ep.ns != nil {
			res.Violatef("%s: %s.%s got another namespace connection", what, T.name, c.method)
		}
		if c.typ >= 0 && c.inst != nil {
			found := false
			for _, pr := range protos[ty] {
				found = found || pr == c.inst
			}
			if !found {
				res.Violatef("%s: %s.%s ran on another instance", what, T.name, c.method)
			}
		}
		return len(res.Violations) == 0
	}
	if c.typ >= 0 && c.field != ep.ns && ep.ns != nil {
		res.Violatef("%s: the instance of %s.%s holds another namespace connection", what, T.name, c.method)
		return false
	}
	if c.inst == nil {
		return true
	}
	if c.typ < 0 { // promoted method of an embedded struct
		if !T.basePtr {
			if ep.bases[ty] == nil {
				ep.bases[ty] = c.inst
				if o := seen[c.inst]; o != nil && o != ep {
					res.Violatef("%s: the instance of %s.%s serves two namespace connections", what, T.name, c.method)
				}
				seen[c.inst] = ep
			}
			if ep.bases[ty] != c.inst {
				res.Violatef("%s: %s.%s ran on another instance than before", what, T.name, c.method)
			}
			key := fmt.Sprintf("%T %[1]p", c.inst)
			if c.count != ep.n[key] {
				res.Violatef("%s: the embedded part of %s has counted %d calls, expected %d", what, T.name, c.count, ep.n[key])
			}
			ep.n[key]++
		}
		return len(res.Violations) == 0
	}
	if ep.inst[ty] == nil {
		ep.inst[ty] = c.inst
		if o := seen[c.inst]; o != nil && o != ep {
			res.Violatef("%s: the instance of %s.%s serves two namespace connections", what, T.name, c.method)
		}
		seen[c.inst] = ep
		for _, pr := range protos[ty] {
			if pr == c.inst {
				res.Violatef("%s: %s.%s ran on the struct given to NewStruct", what, T.name, c.method)
			}
		}
	}
	if ep.inst[ty] != c.inst {
		res.Violatef("%s: %s.%s ran on another instance than the events before it", what, T.name, c.method)
	}
	for _, h := range hs {
		if h.Type == ty && h.Inject {
			found := false
			for _, x := range inj {
				if x.inst == c.inst {
					found = true
					if x.ns != ep.ns && ep.ns != nil {
						res.Violatef("%s: the injector of %s got another namespace connection", what, T.name)
					}
					if x.typ != reflect.TypeOf(c.inst).Elem() {
						res.Violatef("%s: the injector of %s got the type %v", what, T.name, x.typ)
					}
				}
			}
			if !found {
				res.Violatef("%s: %s.%s ran on an instance the injector did not make", what, T.name, c.method)
			}
		}
	}
	key := fmt.Sprintf("%T %[1]p", c.inst)
	if c.count != ep.n[key] {
		res.Violatef("%s: the instance of %s.%s has seen %d calls, expected %d", what, T.name, c.method, c.count, ep.n[key])
	}
	ep.n[key]++
	return len(res.Violations) == 0
}

// ------------------------------------------- C19: several structs of one type

type c19Twin struct {
	*neffos.NSConn
	Tag   string
	Count int
}

func (t *c19Twin) OnQ(m neffos.Message) error {
	t.Count++
	return neffos.Reply([]byte(fmt.Sprintf("%s %s %s %d", t.Tag, m.Namespace, t.NSConn.Conn.ID(), t.Count)))
}

type c19TwinStat struct {
	Tag   string
	Count int
}

func (t *c19TwinStat) OnQ(c *neffos.NSConn, m neffos.Message) error {
	t.Count++
	return neffos.Reply([]byte(fmt.Sprintf("%s %s %s %d", t.Tag, m.Namespace, c.Conn.ID(), t.Count)))
}

type c19TwinPlan struct {
	Stat  []bool // the kind of the struct of each namespace
	Trim  []bool // with an event matcher
	NS    []int  // its namespace
	Conns int
	Ops   [][3]int // kind, connection, namespace
}

func genC19Twin(t *rapid.T) c19TwinPlan {
	p := c19TwinPlan{Conns: rapid.IntRange(1, 3).Draw(t, "conns")}
	for n := rapid.IntRange(2, 4).Draw(t, "structs"); n > 0; n-- {
		p.Stat = append(p.Stat, rapid.IntRange(0, 2).Draw(t, "stat") == 0)
		p.Trim = append(p.Trim, rapid.Bool().Draw(t, "trim"))
		p.NS = append(p.NS, rapid.IntRange(0, 2).Draw(t, "ns"))
	}
	if rapid.Bool().Draw(t, "pre") {
		for i := range p.Conns {
			for s := range p.Stat {
				p.Ops = append(p.Ops, [3]int{0, i, s})
			}
		}
	}
	for n := rapid.IntRange(4, 24).Draw(t, "n"); n > 0; n-- {
		p.Ops = append(p.Ops, [3]int{rapid.SampledFrom([]int{0, 0, 0, 1, 2, 2, 2, 3}).Draw(t, "k"), rapid.IntRange(0, p.Conns-1).Draw(t, "c"), rapid.IntRange(0, len(p.Stat)-1).Draw(t, "s")})
	}
	return p
}

// runC19Twin: several structs of the same types in the same and in other
// namespaces of one handler have their own instances and events.
func runC19Twin(p c19TwinPlan, res *kit.Result) {
	if len(p.Stat) == 0 || len(p.Stat) != len(p.Trim) || len(p.Stat) != len(p.NS) || p.Conns < 1 || p.Conns > 9 {
		return
	}
	var parts []neffos.ConnHandler
	nsName := func(i int) string { return fmt.Sprint("n", p.NS[i]) }
	event := func(i int) string {
		if p.Trim[i] {
			return fmt.Sprint("Q", i)
		}
		return "OnQ"
	}
	// the later one handles an event of two structs of a namespace
	owner := func(i int) int {
		if !p.Trim[i] {
			for j := range p.Stat {
				if j > i && !p.Trim[j] && p.NS[j] == p.NS[i] {
					i = j
				}
			}
		}
		return i
	}
	plain := neffos.Namespaces{}
	for i, stat := range p.Stat {
		var v any = &c19Twin{Tag: fmt.Sprint("t", i)}
		if stat {
			v = &c19TwinStat{Tag: fmt.Sprint("t", i)}
		}
		s := neffos.NewStruct(v).SetNamespace(nsName(i))
		if p.Trim[i] {
			s.SetEventMatcher(func(string) (string, bool) { return event(i), true })
		}
		parts = append(parts, s)
		plain[nsName(i)] = neffos.Events{}
	}
	w := NewWorld(neffos.JoinConnHandlers(parts...))
	clis := make([]*neffos.Client, p.Conns)
	ids := make([]string, p.Conns)
	count := map[string]int{}
	conn := make([]map[int]*neffos.NSConn, p.Conns)
	dials := 0
	dial := func(i int) bool {
		dials++
		ids[i] = fmt.Sprintf("u%d-%d", i, dials)
		cli, _, _, err := w.Dial(ids[i], plain, sim.Dir{}, sim.Dir{})
		if err != nil {
			res.Violatef("Dial failed: %v", err)
			return false
		}
		clis[i], conn[i] = cli, map[int]*neffos.NSConn{}
		return true
	}
	for i := range clis {
		if !dial(i) {
			return
		}
	}
	used := map[int]bool{}
	for k, o := range p.Ops {
		i, s := o[1], o[2]
		if i >= p.Conns || s >= len(p.Stat) {
			continue
		}
		what := fmt.Sprintf("operation %d %v", k, o)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		own := owner(s)
		key := fmt.Sprint(i, " ", own)
		if p.Stat[own] {
			key = fmt.Sprint(own)
		}
		switch o[0] {
		case 0:
			if conn[i][p.NS[s]] != nil {
				break
			}
			ns, err := clis[i].Connect(ctx, nsName(s))
			if err != nil {
				res.Violatef("%s: Connect: %v", what, err)
				break
			}
			conn[i][p.NS[s]] = ns
			for j := range p.Stat { // new instances
				if p.NS[j] == p.NS[s] && !p.Stat[j] {
					count[fmt.Sprint(i, " ", j)] = 0
				}
			}
		case 1:
			if ns := conn[i][p.NS[s]]; ns != nil {
				if err := ns.Disconnect(ctx); err != nil {
					res.Violatef("%s: Disconnect: %v", what, err)
				}
				delete(conn[i], p.NS[s])
			}
		case 2:
			ns := conn[i][p.NS[s]]
			if ns == nil {
				break
			}
			used[own] = true
			count[key]++
			exp := fmt.Sprintf("t%d %s %s %d", own, nsName(s), ids[i], count[key])
			m, err := ns.Ask(ctx, event(s), nil)
			if err != nil || string(m.Body) != exp {
				res.Violatef("%s: the struct of the namespace %q answered %q, %v, expected %q", what, nsName(s), m.Body, err, exp)
			}
		case 3:
			clis[i].Close()
			Settle(time.Second)
			dial(i)
		}
		cancel()
		if len(res.Violations) > 0 {
			break
		}
	}
	res.Label("twins")
	if len(used) > 1 {
		res.NonTrivial = true
	}
	w.Shutdown()
}
