package core

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"verif/sim"

	"github.com/kataras/neffos"
)

// The concurrent engine: several goroutines of both sides run generated
// operation lists at generated (simulated) times over links with generated
// latencies, while callbacks sleep, answer and run operations of their own.
// Everything that happens is recorded with a global sequence number, and the
// properties are invariants over that history.

type concPlan struct {
	Sync    bool `json:",omitempty"`
	FireAll bool `json:",omitempty"`
	Part    bool `json:",omitempty"` // each namespace is changed by one goroutine
	Conns   []concConn
	NS      []string
	Rooms   []string
	Actors  []concActor
	Scripts [][]cop   `json:",omitempty"` // run by callbacks
	Sys     []concSys `json:",omitempty"`
	Ends    []concEnd `json:",omitempty"`
	Disc    []cop     `json:",omitempty"` // run by Server.OnDisconnect, on the next connection
}

type concConn struct {
	ID       string
	Up, Down sim.Dir
	On       []int // namespaces connected before the concurrent phase
	Joined   []int // n*100+r
}

type concActor struct {
	C   int
	S   bool
	Ops []cop
}

type cop struct {
	K   string
	D   int    `json:",omitempty"` // µs to wait first
	N   int    `json:",omitempty"`
	R   int    `json:",omitempty"` // 0: none, else room R-1
	Bin bool   `json:",omitempty"`
	TO  int    `json:",omitempty"` // context timeout in µs, 0: none
	Was int    `json:",omitempty"` // the context ended so long ago (µs)
	Can bool   `json:",omitempty"` // cancelled instead of timed out
	Rep string `json:",omitempty"` // what the remote callback answers: "", R, E, K
	RD  int    `json:",omitempty"` // µs the remote callback takes
	Sc  int    `json:",omitempty"` // script+1 the remote callback runs
	To  int    `json:",omitempty"` // sask, bc: connection+1
	X   bool   `json:",omitempty"` // made by the other side
	M   int    `json:",omitempty"` // bc: number of messages
	Ex  int    `json:",omitempty"` // bc: excluded connection+1
	Big int    `json:",omitempty"` // so many bytes more in the body
}

// concSys says what a system callback does.
type concSys struct {
	S      bool
	N      int
	E      int  // index in sysEvents
	D      int  `json:",omitempty"` // µs
	Sc     int  `json:",omitempty"`
	Refuse bool `json:",omitempty"`
}

// concEnd ends a connection at some time.
type concEnd struct {
	C, At, How int
}

type opRec struct {
	C      int
	S      bool
	Op     cop
	ID     int // of the message, 0: none
	IDs    []int
	S0, S1 int64
	T0, T1 time.Time
	Ended  bool // S1, T1 are set
	Ok     bool
	Err    error
	Got    neffos.Message
	got    string
	NSC    *neffos.NSConn
	Room   *neffos.Room
	InCb   bool
	Room0  string
	NS0    string
	After  [2]nsState // both sides' view when the operation returned (Part)
}

// nsState is what a side reports of one namespace.
type nsState struct {
	on    bool
	rooms string
}

func stateOf(n *neffos.NSConn) nsState {
	if n == nil {
		return nsState{}
	}
	var s []string
	for _, r := range n.Rooms() {
		s = append(s, fmt.Sprintf("%q", r.Name))
	}
	sort.Strings(s)
	return nsState{true, strings.Join(s, " ")}
}

type cbRec struct {
	C                 int
	S                 bool
	NS, MNS, Room     string
	Event             string
	Body              string
	ID                int
	Bin, Local, Force bool
	Err               error
	S0, S1            int64
	T0, T1            time.Time
	NSC               *neffos.NSConn
	kept              []byte
	Ret               error // what it returned
}

type cconn struct {
	cli        *neffos.Client
	cc, sc     *neffos.Conn
	link       *sim.Link
	discs      []int64
	notifySeq  int64
	endedBy    bool // something in the plan ended it
	endT       time.Time
	endSeq     int64
	connectCnt int

	// connections made by "dial" operations
	id      string
	extra   bool
	refuse  bool
	started int64 // the dial began
	dialed  int64 // the dial returned a client
	dialedT time.Time
	err     error
}

type conc struct {
	p       concPlan
	w       *World
	conns   []*cconn
	mu      sync.Mutex
	ops     []*opRec
	cbs     []*cbRec
	seq     atomic.Int64
	ids     atomic.Int64
	sysUsed map[int]int
	bad     []mismatch
	hang    string
	running atomic.Int64
	phase   atomic.Int64 // 0 setup, 1 concurrent, 2 after
	wg      sync.WaitGroup
	probes  int
	srvConn map[*neffos.Conn]int
	extras  []*cconn
	regs    []*regRec
	closedS int64 // Server.Close was called
	loops   bool  // the server's loop runs operations
	discs   int
}

// regRec is what one look at the server's connections gave.
type regRec struct {
	kind   int // 0 GetTotalConnections, 1 GetConnections, 2 GetConnectionsByNamespace(ctlNS), 3 Do
	S0, S1 int64
	T0     time.Time
	total  uint64
	conns  map[*neffos.Conn]int
	keys   map[string]*neffos.Conn
}

func (e *conc) miss(tag, format string, args ...any) {
	if len(e.bad) < 10 {
		e.bad = append(e.bad, mismatch{tag, fmt.Sprintf(format, args...)})
	}
}

const (
	probeEv = "probe"
	userEv  = "u"
)

func concBody(id int, o cop, depth int) []byte {
	return []byte(fmt.Sprintf("%d|%s|%d|%d|%d%s", id, o.Rep, o.RD, o.Sc, depth, o.tail()))
}

// tail is what ends the body.
func (o cop) tail() string { return "|" + strings.Repeat("x;", o.Big/2) + ";0;1;" }

func parseBody(b string) (id int, rep string, rd, sc, depth int, ok bool) {
	f := strings.Split(b, "|")
	if len(f) != 6 {
		return
	}
	id, e1 := strconv.Atoi(f[0])
	rd, e2 := strconv.Atoi(f[2])
	sc, e3 := strconv.Atoi(f[3])
	depth, e4 := strconv.Atoi(f[4])
	return id, f[1], rd, sc, depth, e1 == nil && e2 == nil && e3 == nil && e4 == nil
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

func (e *conc) handlers(server bool, k int) neffos.Namespaces {
	connOf := func(c *neffos.NSConn) int {
		if !server {
			return k
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		if i, ok := e.srvConn[c.Conn]; ok {
			return i
		}
		return -1
	}
	out := neffos.Namespaces{ctlNS: neffos.Events{
		probeEv: func(c *neffos.NSConn, m neffos.Message) error {
			return neffos.Reply(append([]byte("pong "), m.Body...))
		},
	}}
	for n, name := range e.p.NS {
		n, name := n, name
		ev := neffos.Events{}
		rec := func(c *neffos.NSConn, m neffos.Message) (*cbRec, int) {
			r := &cbRec{C: connOf(c), S: server, NS: name, MNS: m.Namespace, Room: m.Room, Event: m.Event, Body: string(m.Body), Bin: m.SetBinary, Local: m.IsLocal, Force: m.IsForced, Err: m.Err, T0: time.Now(), NSC: c, kept: m.Body}
			r.ID, _, _, _, _, _ = parseBody(r.Body)
			e.mu.Lock()
			r.S0 = e.seq.Add(1)
			e.cbs = append(e.cbs, r)
			e.mu.Unlock()
			return r, r.C
		}
		fin := func(r *cbRec) {
			e.mu.Lock()
			r.S1 = e.seq.Add(1)
			r.T1 = time.Now()
			e.mu.Unlock()
		}
		ev[userEv] = func(c *neffos.NSConn, m neffos.Message) error {
			r, k := rec(c, m)
			defer fin(r)
			id, rep, rd, sc, depth, ok := parseBody(r.Body)
			if !ok || m.Err != nil {
				return nil
			}
			if rd > 0 {
				time.Sleep(us(rd))
			}
			if sc > 0 && sc <= len(e.p.Scripts) && depth < 2 && k >= 0 {
				e.runOps(k, server, e.p.Scripts[sc-1], depth+1, true)
			}
			switch rep {
			case "R":
				return neffos.Reply([]byte(fmt.Sprintf("re;%d;%d;%v", id, k, server)))
			case "E":
				return fmt.Errorf("er;%d;%d;%v", id, k, server)
			case "K":
				return errKnownB
			}
			return nil
		}
		for i, s := range sysEvents {
			i, s := i, s
			ev[s] = func(c *neffos.NSConn, m neffos.Message) error {
				r, k := rec(c, m)
				defer fin(r)
				if e.phase.Load() != 1 {
					return nil
				}
				var err error
				for j, y := range e.p.Sys {
					if y.S != server || mod(y.N, len(e.p.NS)) != n || mod(y.E, len(sysEvents)) != i {
						continue
					}
					e.mu.Lock()
					e.sysUsed[j]++
					first := e.sysUsed[j] <= 2
					e.mu.Unlock()
					if y.D > 0 {
						time.Sleep(us(y.D))
					}
					if first && y.Sc > 0 && y.Sc <= len(e.p.Scripts) && k >= 0 {
						e.runOps(k, server, e.p.Scripts[y.Sc-1], 1, true)
					}
					if y.Refuse && !m.IsLocal {
						err = fmt.Errorf("no;%d;%s;%s", j, name, m.Room)
					}
				}
				r.Ret = err
				return err
			}
		}
		out[name] = ev
	}
	return out
}

func (e *conc) nsName(n int) string { return e.p.NS[mod(n, len(e.p.NS))] }
func (e *conc) roomName(r int) string {
	if r <= 0 || len(e.p.Rooms) == 0 {
		return ""
	}
	return e.p.Rooms[mod(r-1, len(e.p.Rooms))]
}

func (e *conc) start(r *opRec) {
	e.mu.Lock()
	defer e.mu.Unlock()
	r.S0 = e.seq.Add(1)
	r.T0 = time.Now()
	e.ops = append(e.ops, r)
}

func (e *conc) finish(r *opRec) {
	e.mu.Lock()
	defer e.mu.Unlock()
	r.S1 = e.seq.Add(1)
	r.T1 = time.Now()
	r.Ended = true
	r.got = string(r.Got.Body)
}

// runOps runs operations one after the other, as side "server" of connection k.
func (e *conc) runOps(k int, server bool, ops []cop, depth int, inCb bool) {
	m := e.conns[k]
	side := server
	for i, o := range ops {
		server := side != o.X
		if o.D > 0 {
			time.Sleep(us(o.D))
		}
		if o.K == "sleep" {
			continue
		}
		c := m.cc
		if server {
			c = m.sc
		}
		ctx := context.Context(context.Background())
		cancel := func() {}
		switch i % 4 {
		case 1:
			ctx = context.TODO()
		case 2:
			ctx = nil // the same
		}
		if o.TO > 0 {
			ctx = context.Background()
			if o.Was > 0 && o.Can {
				var cf context.CancelFunc
				ctx, cf = context.WithCancel(ctx)
				cf()
			} else if o.Was > 0 {
				ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-us(o.Was)))
			} else if o.Can {
				var cf context.CancelFunc
				ctx, cf = context.WithCancel(ctx)
				tm := time.AfterFunc(us(o.TO), cf)
				cancel = func() { tm.Stop(); cf() }
			} else {
				ctx, cancel = context.WithTimeout(ctx, us(o.TO))
			}
		}
		r := &opRec{C: k, S: server, Op: o, InCb: inCb, NS0: e.nsName(o.N), Room0: e.roomName(o.R)}
		ns := c.Namespace(r.NS0)
		msg := func() neffos.Message {
			r.ID = int(e.ids.Add(1))
			return neffos.Message{Namespace: r.NS0, Room: r.Room0, Event: userEv, Body: concBody(r.ID, o, depth), SetBinary: o.Bin}
		}
		switch o.K {
		case "emit":
			x := msg()
			e.start(r)
			switch rm := ns.Room(r.Room0); {
			case rm != nil && !o.Bin:
				r.Ok = rm.Emit(x.Event, x.Body)
			case ns != nil && r.Room0 == "" && o.Bin:
				r.Ok = ns.EmitBinary(x.Event, x.Body)
			case ns != nil && r.Room0 == "":
				r.Ok = ns.Emit(x.Event, x.Body)
			default:
				r.Ok = c.Write(x)
			}
		case "ask":
			x := msg()
			e.start(r)
			if ns != nil && r.Room0 == "" && !o.Bin && r.ID%2 == 0 {
				r.Got, r.Err = ns.Ask(ctx, x.Event, x.Body)
			} else {
				r.Got, r.Err = c.Ask(ctx, x)
			}
		case "connect":
			e.start(r)
			if r.NSC, r.Err = c.Connect(ctx, r.NS0); (r.NSC == nil) == (r.Err == nil) {
				e.mu.Lock()
				e.miss("conc", "Connect returned %v and the error %v: %s", r.NSC != nil, r.Err, r)
				e.mu.Unlock()
			}
		case "disconnect":
			if ns == nil {
				cancel()
				continue
			}
			e.start(r)
			r.NSC = ns
			r.Err = ns.Disconnect(ctx)
		case "disconnectall":
			e.start(r)
			r.Err = c.DisconnectAll(ctx)
		case "join":
			if ns == nil || r.Room0 == "" {
				cancel()
				continue
			}
			e.start(r)
			r.NSC = ns
			if r.Room, r.Err = ns.JoinRoom(ctx, r.Room0); (r.Room == nil) == (r.Err == nil) {
				e.mu.Lock()
				e.miss("conc", "JoinRoom returned %v and the error %v: %s", r.Room != nil, r.Err, r)
				e.mu.Unlock()
			}
		case "leave":
			rm := ns.Room(r.Room0)
			if rm == nil {
				cancel()
				continue
			}
			e.start(r)
			r.NSC, r.Room = ns, rm
			r.Err = rm.Leave(ctx)
		case "leaveall":
			if ns == nil {
				cancel()
				continue
			}
			e.start(r)
			r.NSC = ns
			r.Err = ns.LeaveAll(ctx)
		case "close":
			e.start(r)
			e.noteEnd(k)
			if !server && o.N%2 == 1 && m.cli != nil {
				m.cli.Close()
			} else {
				c.Close()
			}
		case "look":
			e.start(r)
			if ns != nil {
				for _, x := range ns.Rooms() {
					_ = x.String()
				}
				_ = ns.String()
				_ = ns.Room("r")
			}
			_ = c.IsClosed()
			_ = c.String()
			_ = c.ID()
			_ = c.IsClient()
			_ = c.Namespace(ctlNS)
			_ = c.WasReconnected()
			_ = c.Is("x")
			c.Set("k", 1)
			_ = c.Get("k")
			_ = c.Increment("n")
			_ = c.Decrement("n")
			if server {
				e.look(int(r.S0), inCb)
			}
		case "reg":
			e.start(r)
			e.look(o.M, inCb)
		case "dial":
			e.start(r)
			r.Err = e.dial(o)
		case "do":
			e.start(r)
			e.do(k, o, depth)
		case "bc":
			if !server {
				cancel()
				continue
			}
			var msgs []neffos.Message
			for i := 0; i < o.M || i == 0; i++ {
				x := msg()
				r.IDs = append(r.IDs, r.ID)
				if o.To > 0 {
					x.To = e.conns[mod(o.To-1, len(e.conns))].sc.ID()
				}
				msgs = append(msgs, x)
			}
			srv := e.w.S
			if r.ID%2 == 0 {
				srv = c.Server()
			}
			e.start(r)
			switch {
			case o.Ex > 0 && o.Ex-1 == k:
				if ns != nil {
					ns.BroadcastOthers(msgs...)
				} else {
					srv.Broadcast(c, msgs...)
				}
			case o.Ex > 0:
				srv.Broadcast(e.conns[mod(o.Ex-1, len(e.conns))].sc, msgs...)
			default:
				srv.Broadcast(nil, msgs...)
			}
			for i := range msgs { // the slice is the caller's again
				msgs[i] = neffos.Message{Namespace: r.NS0, Event: userEv, Body: []byte("reused")}
			}
		case "sask":
			if !server {
				cancel()
				continue
			}
			x := msg()
			if o.To > 0 {
				x.To = e.conns[mod(o.To-1, len(e.conns))].sc.ID()
			}
			e.start(r)
			r.Got, r.Err = e.w.S.Ask(ctx, x)
		default:
			cancel()
			continue
		}
		e.finish(r)
		if e.p.Part {
			r.After = [2]nsState{stateOf(m.cc.Namespace(r.NS0)), stateOf(m.sc.Namespace(r.NS0))}
		}
		cancel()
	}
}

// do runs a function for the connections by Server.Do: it may use, close and
// look at connections, and broadcast, but not wait for the server itself.
func (e *conc) do(k int, o cop, depth int) {
	e.w.S.Do(func(c *neffos.Conn) {
		e.mu.Lock()
		i, ok := e.srvConn[c]
		e.mu.Unlock()
		if !ok || o.To > 0 && mod(o.To-1, len(e.conns)) != i {
			return
		}
		x := o
		x.D, x.TO, x.To, x.Sc = 0, 0, 0, 0
		x.K = [...]string{"close", "emit", "bc", "look"}[mod(o.M, 4)]
		x.M = 1
		e.runOps(i, true, []cop{x}, depth, true)
	}, o.Bin)
}

func (e *conc) noteEnd(k int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.conns[k].noteEnd(e.seq.Add(1))
}

func (m *cconn) noteEnd(seq int64) {
	if !m.endedBy {
		m.endedBy = true
		m.endT = time.Now()
		m.endSeq = seq
	}
}

// dial makes a connection of its own, uses it, and ends it again (how: 0 not
// at all, 1 by the client, 2 by the server, 3 the link, 4 refused).
func (e *conc) dial(o cop) (err error) {
	how := mod(o.M, 5)
	m := &cconn{extra: true, refuse: how == 4, link: sim.NewLink(sim.Dir{Lat: []int{o.R * 300}}, sim.Dir{Lat: []int{o.N * 500}}, false)}
	e.mu.Lock()
	i := len(e.extras)
	e.extras = append(e.extras, m)
	m.id = fmt.Sprint("x", i)
	m.started = e.seq.Add(1)
	e.mu.Unlock()
	cli, err := neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
		e.w.acceptWith(m.link, m.id, http.Header{"X-K": []string{fmt.Sprint(1000 + i)}})
		return m.link.A, nil
	}, "sim", neffos.Namespaces{ctlNS: neffos.Events{}})
	e.mu.Lock()
	m.cli, m.err = cli, err
	if err == nil {
		m.dialed, m.dialedT = e.seq.Add(1), time.Now()
	}
	e.mu.Unlock()
	if err != nil {
		return err
	}
	e.w.mu.Lock()
	e.w.clis = append(e.w.clis, cli)
	e.w.mu.Unlock()
	if o.Bin {
		ns, err := cli.Connect(context.Background(), ctlNS)
		if err != nil {
			return err
		}
		got, err := ns.Ask(context.Background(), probeEv, []byte("x"))
		if err != nil {
			return err
		}
		if string(got.Body) != "pong x" {
			return fmt.Errorf("got %q", got.Body)
		}
	}
	time.Sleep(us(o.RD))
	if how == 0 {
		return nil
	}
	e.mu.Lock()
	m.noteEnd(e.seq.Add(1))
	sc := m.sc
	e.mu.Unlock()
	switch how {
	case 1:
		cli.Close()
	case 2:
		if sc != nil {
			sc.Close()
		}
	case 3:
		m.link.Cut()
	}
	return nil
}

// look records what the server reports of its connections.
func (e *conc) look(kind int, inCb bool) {
	kinds := 4
	if inCb && (e.p.Sync || e.loops) {
		// a sync broadcast that fails closes the connection, and so fires its
		// callbacks, on the server's loop: it can not wait for itself in Do
		kinds = 3
	}
	r := &regRec{kind: mod(kind, kinds), S0: e.seq.Add(1), T0: time.Now(), conns: map[*neffos.Conn]int{}}
	switch r.kind {
	case 0:
		r.total = e.w.S.GetTotalConnections()
	case 1:
		r.keys = e.w.S.GetConnections()
	case 2:
		r.keys = map[string]*neffos.Conn{}
		for id, ns := range e.w.S.GetConnectionsByNamespace(ctlNS) {
			r.keys[id] = ns.Conn
		}
	case 3:
		e.w.S.Do(func(c *neffos.Conn) { r.conns[c]++ }, false)
	}
	r.S1 = e.seq.Add(1)
	e.mu.Lock()
	e.regs = append(e.regs, r)
	e.mu.Unlock()
}

func (e *conc) end(x concEnd) {
	k := mod(x.C, len(e.conns))
	m := e.conns[k]
	time.Sleep(us(x.At))
	how := mod(x.How, 6)
	if how == 5 {
		for i := range e.conns {
			e.noteEnd(i)
		}
		e.mu.Lock()
		if e.closedS == 0 {
			e.closedS = e.seq.Add(1)
		}
		for _, m := range e.extras {
			m.noteEnd(e.closedS)
		}
		e.mu.Unlock()
	} else {
		e.noteEnd(k)
	}
	r := &opRec{C: k, S: how == 1, Op: cop{K: "end" + fmt.Sprint(how)}}
	e.start(r)
	switch how {
	case 0:
		m.cli.Close()
	case 1:
		m.sc.Close()
	case 2:
		m.link.Cut()
	case 3:
		m.link.CutAfter()
	case 4:
		m.cc.Close()
	case 5:
		e.w.S.Close()
	}
	e.finish(r)
}

// setup dials and connects; all of it is sequential and must succeed.
func (e *conc) setup() bool {
	e.srvConn = map[*neffos.Conn]int{}
	e.sysUsed = map[int]int{}
	e.w = NewWorld(e.handlers(true, -1))
	e.w.S.SyncBroadcaster = e.p.Sync
	e.w.S.FireDisconnectAlways = e.p.FireAll
	e.w.S.OnConnect = func(c *neffos.Conn) error {
		r := c.Socket().Request()
		k, _ := strconv.Atoi(r.Header.Get("X-K"))
		e.mu.Lock()
		defer e.mu.Unlock()
		if k >= 1000 {
			m := e.extras[k-1000]
			m.sc = c
			m.connectCnt++
			if m.refuse {
				return errors.New("refused")
			}
			return nil
		}
		e.srvConn[c] = k
		e.conns[k].sc = c
		e.conns[k].connectCnt++
		return nil
	}
	e.w.S.OnDisconnect = func(c *neffos.Conn) {
		e.mu.Lock()
		k, ok := e.srvConn[c]
		if ok {
			e.conns[k].discs = append(e.conns[k].discs, e.seq.Add(1))
		}
		for _, m := range e.extras {
			if m.sc == c {
				m.discs = append(m.discs, e.seq.Add(1))
			}
		}
		e.discs++
		run := e.discs <= 2
		e.mu.Unlock()
		if ok && run && len(e.conns) > 1 && e.phase.Load() == 1 {
			e.runOps(mod(k+1, len(e.conns)), true, e.p.Disc, 2, true)
		}
	}
	for range e.p.Conns {
		e.conns = append(e.conns, &cconn{})
	}
	for k, cd := range e.p.Conns {
		m := e.conns[k]
		m.id = cd.ID
		l := sim.NewLink(cd.Up, cd.Down, false)
		m.link = l
		ok := call(opLimit, func() {
			cli, err := neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
				e.w.acceptWith(l, cd.ID, http.Header{"X-K": []string{fmt.Sprint(k)}})
				return l.A, nil
			}, "sim", e.handlers(false, k))
			if err != nil {
				e.miss("setup", "Dial: %v", err)
				return
			}
			m.cli = cli
			ns, err := cli.Connect(context.Background(), ctlNS)
			if err != nil {
				e.miss("setup", "Connect: %v", err)
				return
			}
			m.cc = ns.Conn
			m.dialed, m.dialedT = e.seq.Add(1), time.Now()
			for _, n := range cd.On {
				if ns, err = m.cc.Connect(context.Background(), e.nsName(n)); err != nil {
					e.miss("setup", "Connect: %v", err)
					return
				}
			}
			for _, j := range cd.Joined {
				ns := m.cc.Namespace(e.nsName(j / 100))
				if ns == nil {
					continue
				}
				if _, err = ns.JoinRoom(context.Background(), e.roomName(j%100+1)); err != nil {
					e.miss("setup", "JoinRoom: %v", err)
					return
				}
			}
		})
		if !ok {
			e.miss("hang:setup", "the set-up did not finish")
		}
		if len(e.bad) > 0 {
			return false
		}
		Settle(time.Second)
		m.notifySeq = 0
		go func() {
			<-m.cli.NotifyClose
			e.mu.Lock()
			m.notifySeq = e.seq.Add(1)
			e.mu.Unlock()
		}()
	}
	return true
}

// run executes the plan; check runs while the world is still up.
func (e *conc) run(check func()) {
	e.p.NS = append([]string(nil), e.p.NS...)
	e.loops = len(e.p.Disc) > 0
	for _, a := range e.p.Actors {
		for _, o := range a.Ops {
			e.loops = e.loops || o.K == "do"
		}
	}
	if !e.setup() {
		e.cutAll()
		return
	}
	e.phase.Store(1)
	done := make(chan struct{})
	var wg sync.WaitGroup
	for _, a := range e.p.Actors {
		a := a
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.runOps(mod(a.C, len(e.conns)), a.S, a.Ops, 0, false)
		}()
	}
	for _, x := range e.p.Ends {
		x := x
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.end(x)
		}()
	}
	go func() {
		wg.Wait()
		close(done)
	}()
	tm := time.NewTimer(24 * time.Hour)
	select {
	case <-done:
	case <-tm.C:
		e.miss("hang:actors", "not every operation returned:\n%s", e.pending())
	}
	tm.Stop()
	if len(e.bad) == 0 {
		Settle(24 * time.Hour)
		synctest.Wait()
		if s := e.pending(); s != "" {
			e.miss("hang:callback", "operations inside callbacks have not returned:\n%s", s)
		}
	}
	e.phase.Store(2)
	if len(e.bad) == 0 {
		check()
	}
	for _, m := range e.conns {
		if m.link.Stormy() {
			e.miss("hang:storm", "endless message loop on a link")
		}
	}
	if len(e.bad) > 0 {
		e.cutAll()
		return
	}
	e.w.Shutdown()
}

func (e *conc) cutAll() {
	for _, m := range e.conns {
		if m.link != nil {
			m.link.Cut()
		}
	}
	e.w.mu.Lock()
	for _, l := range e.w.links {
		l.Cut()
	}
	e.w.mu.Unlock()
	time.Sleep(time.Hour)
}

func (e *conc) pending() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	var s []string
	for _, r := range e.ops {
		if !r.Ended {
			s = append(s, r.String())
		}
	}
	for _, r := range e.cbs {
		if r.S1 == 0 {
			s = append(s, "still running: "+r.String())
		}
	}
	return strings.Join(s, "\n")
}

func sideName(s bool) string {
	if s {
		return "server"
	}
	return "client"
}

func (r *opRec) String() string {
	return fmt.Sprintf("%s#%d %s ns=%q room=%q id=%d to=%dus incb=%v [%d,%d] ok=%v err=%v", sideName(r.S), r.C, r.Op.K, r.NS0, r.Room0, r.ID, r.Op.TO, r.InCb, r.S0, r.S1, r.Ok, r.Err)
}

func (r *cbRec) String() string {
	if len(r.Body) > 200 {
		c := *r
		c.Body = fmt.Sprintf("%s... (%d bytes)", r.Body[:60], len(r.Body))
		return c.String()
	}
	return fmt.Sprintf("%s#%d callback %s %q/%q body=%q local=%v forced=%v err=%v [%d,%d]", sideName(r.S), r.C, r.Event, r.MNS, r.Room, r.Body, r.Local, r.Force, r.Err, r.S0, r.S1)
}

// alive reports whether nothing in the plan ended the connection.
func (e *conc) alive(k int) bool { return !e.conns[k].endedBy }

// probe checks that a connection nothing has ended still serves both ways.
func (e *conc) probe(tag string) {
	for k, m := range e.conns {
		if !e.alive(k) {
			continue
		}
		if m.cc.IsClosed() || m.sc.IsClosed() {
			e.miss(tag, "connection #%d is closed (client %v, server %v) although nothing ended it", k, m.cc.IsClosed(), m.sc.IsClosed())
			continue
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			ns := c.Namespace(ctlNS)
			if ns == nil {
				// disconnectall may have taken it
				if !call(opLimit, func() { ns, _ = c.Connect(context.Background(), ctlNS) }) || ns == nil {
					e.miss(tag, "connection #%d: the %s can not connect any more", k, sideName(s == 1))
					continue
				}
			}
			var got neffos.Message
			var err error
			want := fmt.Sprintf("p%d.%d", k, s)
			if !call(opLimit, func() { got, err = ns.Ask(context.Background(), probeEv, []byte(want)) }) {
				e.miss(tag, "connection #%d: an Ask of the %s is not answered any more", k, sideName(s == 1))
				continue
			}
			if err != nil || string(got.Body) != "pong "+want {
				e.miss(tag, "connection #%d: an Ask of the %s returned %q, %v", k, sideName(s == 1), got.Body, err)
			}
			e.probes++
		}
	}
}

// checkKept: what was received does not change later.
func (e *conc) checkKept(tag string) {
	for _, r := range e.cbs {
		if string(r.kept) != r.Body {
			e.miss(tag, "the body of a received message was %q, later it is %q: %s", r.Body, r.kept, r)
		}
	}
	for _, r := range e.ops {
		if string(r.Got.Body) != r.got {
			e.miss(tag, "the body that an Ask returned was %q, later it is %q: %s", r.got, r.Got.Body, r)
		}
	}
}
