package core

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ------------------------------------- C29: a stuck connection stands alone

type c29Plan struct {
	Sync    bool `json:",omitempty"`
	Healthy int
	Stuck   []c29Stuck
	Ops     []c29Op
	WTO     int `json:",omitempty"` // write timeout of the server in seconds
	Lat     int `json:",omitempty"`
}

type c29Stuck struct {
	Kind int
	At   int // before this operation
}

type c29Op struct {
	K   string
	C   int  // of the healthy connections
	Srv bool `json:",omitempty"`
}

const (
	stWrite      = iota // the peer does not read: the server's writes block
	stEvent             // a callback of the server does not return
	stConnect           // the server's decision on a namespace
	stOnConnect         // Server.OnConnect
	stNoAck             // the client does not acknowledge
	stNoReply           // the client does not answer a request of the server
	stDisconnect        // the server's callback of a disconnect that the client asked for
	stClient            // a callback of the client does not return
	stClosing           // Conn.Close waits for a callback
	stJoin              // the server's decision on a room
	stLeave             // the server's decision on leaving a room
	stWriteAsk          // as stWrite, and the server waits for a request's answer
	stKinds
)

var c29Ops = []string{"emit", "ask", "bc", "bcroom", "bcto", "sask", "saskany", "toggle", "room", "dial", "close", "reg", "do"}

func genC29(t *rapid.T) c29Plan {
	p := c29Plan{Healthy: rapid.IntRange(1, 3).Draw(t, "healthy"), Lat: rapid.SampledFrom([]int{0, 0, 200, 20000}).Draw(t, "lat")}
	n := rapid.IntRange(1, 10).Draw(t, "nops")
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, c29Op{K: rapid.SampledFrom(c29Ops).Draw(t, "k"), C: rapid.IntRange(0, 3).Draw(t, "c"), Srv: rapid.Bool().Draw(t, "srv")})
	}
	sync := true
	for m := rapid.IntRange(1, 3).Draw(t, "nstuck"); m > 0; m-- {
		x := c29Stuck{Kind: rapid.IntRange(0, stKinds-1).Draw(t, "kind"), At: rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "at")}
		if x.Kind == stWrite || x.Kind == stWriteAsk {
			sync = false // it waits for every connection: that is its point
		}
		p.Stuck = append(p.Stuck, x)
	}
	p.Sync = sync && rapid.Bool().Draw(t, "sync")
	p.WTO = rapid.SampledFrom([]int{0, 0, 0, 3600}).Draw(t, "wto")
	return p
}

type c29Conn struct {
	cli  *neffos.Client
	cc   *neffos.Conn
	sc   *neffos.Conn
	link *sim.Link
	id   string
	got  map[string]int // bodies handled by the client
	sgot map[string]int
	b    bool // namespace b is connected
	q    bool // room q of namespace a is joined
	gone bool
}

type c29World struct {
	p       c29Plan
	res     *kit.Result
	w       *World
	mu      sync.Mutex
	conns   map[string]*c29Conn // by ID
	kinds   map[string]int      // stuck connections
	release chan struct{}
	healthy []*c29Conn
	discs   map[string]int
	links   []*sim.Link
	seq     int
}

const c29Limit = 10 * time.Second

// fails runs f, which has to return in time, and reports whether the case is over.
func (e *c29World) fails(what string, f func() error) bool {
	var err error
	if !call(c29Limit, func() { err = f() }) {
		e.res.Violatef("%s does not return", what)
	} else if err != nil {
		e.res.Violatef("%s: %v", what, err)
	}
	return len(e.res.Violations) > 0
}

func (e *c29World) stuck(c *neffos.NSConn, kinds ...int) {
	e.mu.Lock()
	k, ok := e.kinds[c.Conn.ID()]
	e.mu.Unlock()
	for _, x := range kinds {
		if ok && k == x {
			<-e.release
		}
	}
}

func (e *c29World) handler(server bool, of *c29Conn) neffos.ConnHandler {
	stuck := func(kinds ...int) func(*neffos.NSConn, neffos.Message) error {
		return func(c *neffos.NSConn, m neffos.Message) error {
			if server {
				e.stuck(c, kinds...)
			}
			return nil
		}
	}
	user := func(c *neffos.NSConn, m neffos.Message) error {
		e.mu.Lock()
		h := of
		if server {
			h = e.conns[c.Conn.ID()]
		}
		if h != nil {
			g := h.got
			if server {
				g = h.sgot
			}
			g[string(m.Body)]++
		}
		e.mu.Unlock()
		if m.Event == "q" {
			return neffos.Reply([]byte("re:" + string(m.Body)))
		}
		return nil
	}
	hold := func(c *neffos.NSConn, m neffos.Message) error { <-e.release; return nil }
	a := neffos.Events{
		"u": user, "q": user, "hold": hold,
		neffos.OnNamespaceDisconnect: stuck(stDisconnect, stClosing),
		neffos.OnRoomJoin: func(c *neffos.NSConn, m neffos.Message) error {
			if server && m.Room == "stuck" {
				e.stuck(c, stJoin)
			}
			return nil
		},
		neffos.OnRoomLeave: stuck(stLeave),
	}
	h := neffos.Namespaces{"a": a, "b": neffos.Events{"u": user, neffos.OnNamespaceConnect: stuck(stConnect)}}
	if server && e.p.WTO > 0 {
		return neffos.WithTimeout{WriteTimeout: time.Duration(e.p.WTO) * time.Second, Namespaces: h}
	}
	return h
}

func (e *c29World) dial(id string) (*c29Conn, error) {
	d := sim.Dir{Lat: []int{e.p.Lat}}
	h := &c29Conn{id: id, got: map[string]int{}, sgot: map[string]int{}}
	e.mu.Lock()
	e.conns[id] = h
	e.mu.Unlock()
	var acc <-chan acceptResult
	var err error
	h.cli, h.link, acc, err = e.w.Dial(id, e.handler(false, h), d, d)
	if err != nil {
		return nil, fmt.Errorf("Dial: %w", err)
	}
	if r := <-acc; r.err != nil {
		return nil, fmt.Errorf("Upgrade: %w", r.err)
	} else {
		h.sc = r.c
	}
	ns, err := h.cli.Connect(context.Background(), "a")
	if err != nil {
		return nil, fmt.Errorf("Connect: %w", err)
	}
	h.cc = ns.Conn
	if _, err = ns.JoinRoom(context.Background(), "r"); err != nil {
		return nil, fmt.Errorf("JoinRoom: %w", err)
	}
	return h, nil
}

// stick makes a connection that is stuck from now on.
func (e *c29World) stick(i int, kind int) {
	id := fmt.Sprint("stuck", i)
	ctx := context.Background()
	if kind == stOnConnect || kind == stNoAck {
		e.mu.Lock()
		e.kinds[id] = kind
		e.mu.Unlock()
		l := sim.NewLink(sim.Dir{}, sim.Dir{}, false)
		e.links = append(e.links, l)
		if kind == stNoAck {
			e.w.Accept(l, id)
		} else {
			go neffos.Dial(ctx, func(context.Context, string) (neffos.Socket, error) {
				e.w.Accept(l, id)
				return l.A, nil
			}, "sim", e.handler(false, nil))
		}
		Settle(time.Second)
		return
	}
	var h *c29Conn
	if e.fails("the set-up of a connection", func() (err error) { h, err = e.dial(id); return }) {
		return
	}
	e.mu.Lock()
	e.kinds[id] = kind
	e.mu.Unlock()
	ns := h.cc.Namespace("a")
	switch kind {
	case stWrite:
		h.link.B.Block(true)
		go h.sc.Write(neffos.Message{Namespace: "a", Event: "u", Body: []byte("blocked")})
	case stWriteAsk:
		h.link.B.Block(true)
		go h.sc.Ask(ctx, neffos.Message{Namespace: "a", Event: "u", Body: []byte("blocked")})
	case stEvent:
		ns.Emit("hold", nil)
	case stConnect:
		go h.cc.Connect(ctx, "b")
	case stNoReply, stClient:
		go h.sc.Ask(ctx, neffos.Message{Namespace: "a", Event: "hold"})
	case stDisconnect:
		go ns.Disconnect(ctx)
	case stClosing:
		go h.sc.Close()
	case stJoin:
		go ns.JoinRoom(ctx, "stuck")
	case stLeave:
		go ns.Room("r").Leave(ctx)
	}
	Settle(time.Second)
}

func (e *c29World) each(what string, body string, to func(*c29Conn) bool) {
	Settle(c29Limit)
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, h := range e.healthy {
		want := 0
		if to(h) {
			want = 1
		}
		if n := h.got[body]; n != want {
			e.res.Violatef("%s was handled %d times by %s, want %d", what, n, h.id, want)
		}
	}
}

func (e *c29World) op(i int, o c29Op) {
	if len(e.healthy) == 0 {
		return
	}
	h := e.healthy[mod(o.C, len(e.healthy))]
	e.seq++
	body := fmt.Sprint("m", e.seq)
	ctx := context.Background()
	c, side := h.cc, "client"
	if o.Srv {
		c, side = h.sc, "server"
	}
	what := fmt.Sprintf("operation %d (%s by the %s of %s)", i, o.K, side, h.id)
	msg := neffos.Message{Namespace: "a", Event: "u", Body: []byte(body)}
	switch o.K {
	case "emit":
		if e.fails(what, func() error {
			if !c.Namespace("a").Emit("u", []byte(body)) {
				return fmt.Errorf("returned false")
			}
			return nil
		}) {
			return
		}
		Settle(c29Limit)
		e.mu.Lock()
		defer e.mu.Unlock()
		g := h.got
		if !o.Srv {
			g = h.sgot
		}
		if g[body] != 1 {
			e.res.Violatef("%s: the message was handled %d times", what, g[body])
		}
	case "ask", "sask", "saskany":
		msg.Event = "q"
		e.fails(what, func() error {
			var r neffos.Message
			var err error
			switch o.K {
			case "ask":
				r, err = c.Ask(ctx, msg)
			case "sask":
				msg.To = h.id
				fallthrough
			default:
				r, err = e.w.S.Ask(ctx, msg)
			}
			if err == nil && string(r.Body) != "re:"+body {
				err = fmt.Errorf("got %q", r.Body)
			}
			return err
		})
	case "bc", "bcroom", "bcto":
		to := func(*c29Conn) bool { return true }
		switch o.K {
		case "bcroom":
			msg.Room = "q"
			to = func(h *c29Conn) bool { return h.q }
		case "bcto":
			msg.To = h.id
			to = func(x *c29Conn) bool { return x == h }
		}
		if e.fails(what, func() error { e.w.S.Broadcast(nil, msg); return nil }) {
			return
		}
		e.each(what, body, to)
	case "toggle":
		if e.fails(what, func() (err error) {
			if h.b {
				return c.Namespace("b").Disconnect(ctx)
			}
			_, err = c.Connect(ctx, "b")
			return
		}) {
			return
		}
		h.b = !h.b
		Settle(c29Limit)
	case "room":
		if e.fails(what, func() (err error) {
			if h.q {
				return c.Namespace("a").Room("q").Leave(ctx)
			}
			_, err = c.Namespace("a").JoinRoom(ctx, "q")
			return
		}) {
			return
		}
		h.q = !h.q
		Settle(c29Limit)
	case "dial":
		e.fails(what, func() error {
			x, err := e.dial(fmt.Sprint("new", e.seq))
			if err == nil {
				e.healthy = append(e.healthy, x)
			}
			return err
		})
	case "close":
		if len(e.healthy) < 2 || e.fails(what, func() error {
			if o.Srv {
				h.sc.Close()
			} else {
				h.cli.Close()
			}
			return nil
		}) {
			return
		}
		Settle(c29Limit)
		for j, x := range e.healthy {
			if x == h {
				e.healthy = append(append([]*c29Conn(nil), e.healthy[:j]...), e.healthy[j+1:]...)
				break
			}
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		if !h.sc.IsClosed() || !h.cc.IsClosed() || e.discs[h.id] != 1 {
			e.res.Violatef("%s: closed %v on the server and %v on the client, OnDisconnect ran %d times", what, h.sc.IsClosed(), h.cc.IsClosed(), e.discs[h.id])
		}
	case "reg", "do":
		Settle(time.Second) // a connection is registered shortly after it is made
		var got []string
		if e.fails(what, func() error {
			if o.K == "do" {
				e.w.S.Do(func(c *neffos.Conn) { got = append(got, c.ID()) }, false)
			} else if o.Srv {
				for id := range e.w.S.GetConnections() {
					got = append(got, id)
				}
			} else {
				for id := range e.w.S.GetConnectionsByNamespace("a") {
					got = append(got, id)
				}
			}
			return nil
		}) {
			return
		}
		var a, b []string
		for _, x := range e.healthy {
			b = append(b, x.id)
		}
		for _, id := range got {
			if !strings.HasPrefix(id, "stuck") {
				a = append(a, id)
			}
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, " ") != strings.Join(b, " ") {
			e.res.Violatef("%s reports %q of the healthy connections %q", what, a, b)
		}
	}
}

func runC29(p c29Plan, res *kit.Result) {
	e := &c29World{p: p, res: res, conns: map[string]*c29Conn{}, kinds: map[string]int{}, discs: map[string]int{}, release: make(chan struct{})}
	e.w = NewWorld(e.handler(true, nil))
	e.w.keep = false
	e.w.S.SyncBroadcaster = p.Sync
	e.w.S.OnConnect = func(c *neffos.Conn) error {
		e.mu.Lock()
		k, ok := e.kinds[c.ID()]
		e.mu.Unlock()
		if ok && k == stOnConnect {
			<-e.release
		}
		return nil
	}
	e.w.S.OnDisconnect = func(c *neffos.Conn) {
		e.mu.Lock()
		e.discs[c.ID()]++
		e.mu.Unlock()
	}
	run := func() {
		for i := 0; i < p.Healthy; i++ {
			var h *c29Conn
			if e.fails("the set-up of a connection", func() (err error) { h, err = e.dial(fmt.Sprint("h", i)); return }) {
				return
			}
			e.healthy = append(e.healthy, h)
		}
		used := make([]bool, len(p.Stuck))
		for i, o := range p.Ops {
			for j, x := range p.Stuck {
				if !used[j] && x.At <= i {
					used[j] = true
					e.stick(j, x.Kind)
				}
			}
			if e.op(i, o); len(res.Violations) > 0 {
				return
			}
		}
		// whatever happened, everyone healthy is still served
		for i := range e.healthy {
			for _, k := range []string{"ask", "bc", "toggle"} {
				if e.op(1000+i, c29Op{K: k, C: i, Srv: i%2 == 1}); len(res.Violations) > 0 {
					return
				}
			}
		}
		for j, x := range p.Stuck {
			if used[j] {
				res.Label(fmt.Sprint("stuck", x.Kind))
				res.NonTrivial = true
			}
			if used[j] && (x.Kind == stDisconnect || x.Kind == stClosing || x.Kind == stLeave) {
				return // Server.Close would run into the callback that does not return
			}
		}
		if e.fails("Server.Close", func() error { e.w.S.Close(); return nil }) {
			return
		}
		Settle(c29Limit)
		for _, h := range e.conns {
			if h.sc != nil && !h.sc.IsClosed() {
				res.Violatef("%s is not closed on the server after Server.Close", h.id)
			}
		}
		for _, h := range e.healthy {
			if !h.cc.IsClosed() {
				res.Violatef("%s is not closed on the client after Server.Close", h.id)
			}
		}
	}
	run()
	close(e.release)
	e.mu.Lock()
	for _, h := range e.conns {
		if h.link != nil {
			h.link.B.Block(false)
		}
	}
	e.mu.Unlock()
	for _, l := range e.links {
		l.Cut()
	}
	time.Sleep(time.Second)
	e.w.Shutdown()
}
