package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// The sequential engine: a history of operations on one server and a few
// clients, each run to completion, compared after every step with a model of
// what the public API promises: return values, both sides' state, every
// callback that ran on either side, bytes on the wire, the server's registry.

const ctlNS = "~ctl"

type seqPlan struct {
	Sync    bool
	Spaces  []seqSpace
	Rooms   []string
	Conns   []seqConn
	Ops     []seqOp
	CbDelay []int `json:",omitempty"` // µs, cyclic per connection side
	FireAll bool  // FireDisconnectAlways
}

type seqSpace struct {
	Name     string
	Srv, Cli bool
	SrvEv    int // bit i: user event i declared; bit 8: OnAnyEvent; bits 9..15: system events
	CliEv    int
}

type seqConn struct {
	ID       string
	Up, Down sim.Dir
	Refuse   bool
}

type seqOp struct {
	K    string
	C    int     // connection
	S    bool    // server side initiates
	N    int     // namespace
	R    int     // room
	E    int     // event
	B    []byte  `json:",omitempty"`
	Bin  bool    `json:",omitempty"`
	Via  int     `json:",omitempty"`
	X    int     `json:",omitempty"`
	Msgs []bcMsg `json:",omitempty"`
}

type bcMsg struct {
	N, R, E int
	To      int // 0: nobody in particular; else connection To-1's ID
	B       []byte
	Bin     bool
}

var userEvents = []string{"e", "e2", "e;x", "E", "undeclared"}
var sysEvents = []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft}

var (
	nsPool   = []string{"a", "", "b", "a;b", "A", "a ", "default", "日本"}
	roomPool = []string{"r", "r;1", "R", "a", "r1", "ρ", "r "}
	idPool   = []string{"u1", "u2", "u;3", "", "U1"}
)

// ---- recorded callbacks ----

type cbEvent struct {
	Conn   int
	Server bool
	NS     string // namespace whose callback ran
	Any    bool   // the any-event callback
	MNS    string
	Room   string
	Event  string
	Body   string
	Err    string
	Bin    bool
	Local  bool
	Forced bool
}

func (e cbEvent) String() string {
	s := "client"
	if e.Server {
		s = "server"
	}
	x := fmt.Sprintf("%s#%d %q/%q %s body=%q", s, e.Conn, e.MNS, e.Room, e.Event, e.Body)
	if e.NS != e.MNS {
		x += fmt.Sprintf(" (callback of namespace %q)", e.NS)
	}
	if e.Any {
		x += " any"
	}
	if e.Err != "" {
		x += " err=" + e.Err
	}
	if e.Bin {
		x += " bin"
	}
	if e.Local {
		x += " local"
	}
	if e.Forced {
		x += " forced"
	}
	return x
}

// pat is an expected part of a log: one event, a sequence, or parts in any order.
type pat struct {
	ev      *cbEvent
	anyMark bool // the local mark is not checked
	seq     []pat
	perm    []pat
}

func one(e cbEvent) pat { return pat{ev: &e} }

func (p pat) match(log []cbEvent, i int, k func(int) bool) bool {
	switch {
	case p.ev != nil:
		if i >= len(log) {
			return false
		}
		e := log[i]
		if p.anyMark {
			e.Local = p.ev.Local
		}
		return e == *p.ev && k(i+1)
	case p.perm != nil:
		used := make([]bool, len(p.perm))
		var rec func(left, i int) bool
		rec = func(left, i int) bool {
			if left == 0 {
				return k(i)
			}
			for j := range p.perm {
				if !used[j] {
					used[j] = true
					if p.perm[j].match(log, i, func(n int) bool { return rec(left-1, n) }) {
						return true
					}
					used[j] = false
				}
			}
			return false
		}
		return rec(len(p.perm), i)
	default:
		var rec func(j, i int) bool
		rec = func(j, i int) bool {
			if j == len(p.seq) {
				return k(i)
			}
			return p.seq[j].match(log, i, func(n int) bool { return rec(j+1, n) })
		}
		return rec(0, i)
	}
}

func (p pat) String() string {
	switch {
	case p.ev != nil:
		return p.ev.String()
	case p.perm != nil:
		var s []string
		for _, x := range p.perm {
			s = append(s, x.String())
		}
		return "{" + strings.Join(s, " | ") + "}"
	default:
		var s []string
		for _, x := range p.seq {
			s = append(s, x.String())
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
}

func (p pat) empty() bool { return p.ev == nil && len(p.seq) == 0 && len(p.perm) == 0 }

// ---- engine ----

type mns struct {
	on    bool
	rooms [2]map[string]bool // [0] client, [1] server
}

type mconn struct {
	dialed, alive, refused bool
	id                     string
	ns                     map[string]*mns
	cli                    *neffos.Client
	cc, sc                 *neffos.Conn // the two ends
	link                   *sim.Link
	stale                  [2]map[string]*neffos.NSConn
	staleRoom              [2]map[string]*neffos.Room
	onDisc                 int
	wantDisc               int
}

type refusal struct {
	on   bool
	kind int // which error
}

type engine struct {
	p          seqPlan
	w          *World
	conns      []*mconn
	mu         sync.Mutex
	log        []cbEvent
	cb         map[[2]int]int
	ref        map[string]refusal // side|ns|event|room
	bad        []mismatch
	opIdx      int
	srvClosed  bool
	extraDisc  []string
	labels     map[string]bool
	nontrivial int
	now        string // both sides' state when the last call returned
	kept       []keptBody
}

type keptBody struct {
	b []byte
	x cbEvent
}

// snapshot is what both sides of all live connections say they are connected and joined to.
func (e *engine) snapshot() string {
	var out []string
	for k, m := range e.conns {
		if !m.dialed || m.refused || !m.alive || m.cc == nil || m.sc == nil {
			continue
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			for _, sp := range e.p.Spaces {
				if h := c.Namespace(sp.Name); h != nil {
					got := map[string]bool{}
					for _, r := range h.Rooms() {
						got[r.Name] = true
					}
					out = append(out, fmt.Sprintf("%s#%d %q%q", []string{"client", "server"}[s], k, sp.Name, keys(got)))
				}
			}
		}
	}
	return "state: " + strings.Join(out, " ")
}

// model is the snapshot that the model expects.
func (e *engine) model() string {
	var out []string
	for k, m := range e.conns {
		if !m.dialed || m.refused || !m.alive || m.cc == nil || m.sc == nil {
			continue
		}
		for s := range 2 {
			for _, sp := range e.p.Spaces {
				if n := m.ns[sp.Name]; n.on {
					out = append(out, fmt.Sprintf("%s#%d %q%q", []string{"client", "server"}[s], k, sp.Name, keys(n.rooms[s])))
				}
			}
		}
	}
	return "state: " + strings.Join(out, " ")
}

type mismatch struct{ tag, msg string }

func (e *engine) miss(tag, format string, args ...any) {
	e.bad = append(e.bad, mismatch{tag, fmt.Sprintf("op %d: ", e.opIdx) + fmt.Sprintf(format, args...)})
}

func sideIdx(server bool) int {
	if server {
		return 1
	}
	return 0
}

func refErr(kind int, who string) error {
	switch kind % 5 {
	case 1:
		return errKnownA
	case 2:
		return errEmpty
	case 3:
		return neffos.ErrBadRoom
	case 4:
		return neffos.ErrBadNamespace
	default:
		x, _ := refErrs.LoadOrStore(who, errors.New("no; said "+who))
		return x.(error)
	}
}

// the same error value is used for the same refusal
var (
	refErrs  sync.Map
	errEmpty = errors.New("")
)

func refKey(server bool, ns, event, room string) string {
	return fmt.Sprintf("%v|%q|%s|%q", server, ns, event, room)
}

// refused returns the error the callback of that side must return, or nil.
func (e *engine) refused(server bool, ns, event, room string) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.ref[refKey(server, ns, event, room)]
	if !r.on {
		return nil
	}
	return refErr(r.kind, fmt.Sprintf("%v %s", server, event))
}

func (e *engine) declared(server bool, sp seqSpace, event string) (sys, ok bool) {
	m := sp.CliEv
	if server {
		m = sp.SrvEv
	}
	for i, s := range sysEvents {
		if s == event {
			return true, m&(1<<(9+i)) != 0
		}
	}
	for i, s := range userEvents {
		if s == event {
			return false, m&(1<<i) != 0
		}
	}
	return false, false
}

func (sp seqSpace) hasAny(server bool) bool {
	if server {
		return sp.SrvEv&(1<<8) != 0
	}
	return sp.CliEv&(1<<8) != 0
}

// reply is what a user callback answers to a body (by its first byte).
func reply(server bool, conn int, body string) error {
	if body == "" {
		return nil
	}
	switch body[0] {
	case 'R':
		return neffos.Reply([]byte(fmt.Sprintf("re;%v;%d;%s", server, conn, body)))
	case 'E':
		return fmt.Errorf("err;%v;%d;%s", server, conn, body)
	case 'K':
		return errKnownB
	}
	return nil
}

func (e *engine) handlers(server bool, connOf func(*neffos.NSConn) int) neffos.Namespaces {
	out := neffos.Namespaces{ctlNS: neffos.Events{}}
	for _, sp := range e.p.Spaces {
		sp := sp
		if server && !sp.Srv || !server && !sp.Cli {
			continue
		}
		ev := neffos.Events{}
		record := func(any bool) neffos.MessageHandlerFunc {
			return func(c *neffos.NSConn, m neffos.Message) error {
				sys := neffos.IsSystemEvent(m.Event)
				if any && sys {
					return nil
				}
				k := connOf(c)
				x := cbEvent{Conn: k, Server: server, NS: sp.Name, Any: any, MNS: m.Namespace, Room: m.Room, Event: m.Event, Body: string(m.Body), Bin: m.SetBinary, Local: m.IsLocal, Forced: m.IsForced}
				if m.Err != nil {
					x.Err = "!" + m.Err.Error()
				}
				if sys {
					x.Bin = false
				}
				e.mu.Lock()
				e.log = append(e.log, x)
				e.kept = append(e.kept, keptBody{m.Body, x})
				key := [2]int{k, sideIdx(server)}
				n := e.cb[key]
				e.cb[key]++
				e.mu.Unlock()
				if len(e.p.CbDelay) > 0 {
					if d := e.p.CbDelay[n%len(e.p.CbDelay)]; d > 0 {
						time.Sleep(time.Duration(d) * time.Microsecond)
					}
				}
				if sys {
					if m.IsForced {
						return nil
					}
					return e.refused(server, sp.Name, m.Event, m.Room)
				}
				return reply(server, k, string(m.Body))
			}
		}
		for _, s := range append(append([]string(nil), sysEvents...), userEvents...) {
			if _, ok := e.declared(server, sp, s); ok {
				ev[s] = record(false)
			}
		}
		if sp.hasAny(server) {
			ev[neffos.OnAnyEvent] = record(true)
		}
		out[sp.Name] = ev
	}
	return out
}

// sys is the expected record of a system callback, if it is declared.
func (e *engine) sys(k int, server bool, sp seqSpace, event, room string, local, forced bool) pat {
	if _, ok := e.declared(server, sp, event); !ok {
		return pat{}
	}
	return one(cbEvent{Conn: k, Server: server, NS: sp.Name, MNS: sp.Name, Room: room, Event: event, Local: local, Forced: forced})
}

// user is the expected record of a user event, if anything is declared for it.
func (e *engine) user(k int, server bool, sp seqSpace, room, event, body, err string, bin bool) pat {
	x := cbEvent{Conn: k, Server: server, NS: sp.Name, MNS: sp.Name, Room: room, Event: event, Body: body, Err: err, Bin: bin}
	if _, ok := e.declared(server, sp, event); ok {
		return one(x)
	}
	if sp.hasAny(server) {
		x.Any = true
		return one(x)
	}
	return pat{}
}

func (e *engine) handles(server bool, sp seqSpace, event string) bool {
	_, ok := e.declared(server, sp, event)
	return ok || sp.hasAny(server)
}

// sysErr is the error the callback of that side returns for a request, nil if it accepts or is not declared.
func (e *engine) sysErr(server bool, sp seqSpace, event, room string) error {
	if _, ok := e.declared(server, sp, event); !ok {
		return nil
	}
	return e.refused(server, sp.Name, event, room)
}

type sideLog struct{ pats [2][]pat }

// expectLogs compares what was recorded since the last call.
func (e *engine) expectLogs(tag string, want map[int]*sideLog) {
	e.mu.Lock()
	log := e.log
	e.log = nil
	e.mu.Unlock()
	for k := -1; k < len(e.conns); k++ {
		for s := 0; s < 2; s++ {
			var got []cbEvent
			for _, x := range log {
				if x.Conn == k && sideIdx(x.Server) == s {
					got = append(got, x)
				}
			}
			w := pat{}
			if k >= 0 && want[k] != nil {
				w.seq = want[k].pats[s]
			}
			if !w.match(got, 0, func(n int) bool { return n == len(got) }) {
				var g []string
				for _, x := range got {
					g = append(g, x.String())
				}
				sysDiff := false
				for _, x := range got {
					if neffos.IsSystemEvent(x.Event) {
						sysDiff = true
					}
				}
				if strings.Contains(w.String(), "_On") {
					sysDiff = true
				}
				kind := "user"
				if sysDiff {
					kind = "sys"
				}
				e.miss("log."+kind+":"+tag, "callbacks that ran:\n  %s\nexpected:\n  %s", strings.Join(g, "\n  "), w)
			}
		}
	}
}

func (e *engine) fresh(m *mconn) {
	m.ns = map[string]*mns{}
	for _, sp := range e.p.Spaces {
		m.ns[sp.Name] = &mns{rooms: [2]map[string]bool{{}, {}}}
	}
	m.stale = [2]map[string]*neffos.NSConn{{}, {}}
	m.staleRoom = [2]map[string]*neffos.Room{{}, {}}
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// forcedLeaves is the expected forced leave of every room of one side.
func (e *engine) forcedLeaves(k int, server bool, sp seqSpace, local bool, anyMark bool) pat {
	var ps []pat
	for _, r := range keys(e.conns[k].ns[sp.Name].rooms[sideIdx(server)]) {
		s := pat{}
		for _, ev := range []string{neffos.OnRoomLeave, neffos.OnRoomLeft} {
			x := e.sys(k, server, sp, ev, r, local, true)
			if !x.empty() {
				x.anyMark = anyMark
				s.seq = append(s.seq, x)
			}
		}
		if len(s.seq) > 0 {
			ps = append(ps, s)
		}
	}
	if len(ps) == 0 {
		return pat{}
	}
	return pat{perm: ps}
}

func seqOf(ps ...pat) []pat {
	var out []pat
	for _, p := range ps {
		if !p.empty() {
			out = append(out, p)
		}
	}
	return out
}

// ended is what both sides' callbacks are when the connection ends; it also clears the model.
func (e *engine) ended(k int) *sideLog {
	l := &sideLog{}
	m := e.conns[k]
	for s := 0; s < 2; s++ {
		var ps []pat
		for _, sp := range e.p.Spaces {
			if !m.ns[sp.Name].on {
				continue
			}
			d := e.sys(k, s == 1, sp, neffos.OnNamespaceDisconnect, "", true, true)
			if !d.empty() {
				d.anyMark = true
			}
			x := pat{seq: seqOf(e.forcedLeaves(k, s == 1, sp, true, true), d)}
			if len(x.seq) > 0 {
				ps = append(ps, x)
			}
		}
		if len(ps) > 0 {
			l.pats[s] = []pat{{perm: ps}}
		}
	}
	return l
}

func (e *engine) kill(k int) {
	m := e.conns[k]
	m.alive = false
	m.wantDisc++
	for _, n := range m.ns {
		n.on = false
		n.rooms = [2]map[string]bool{{}, {}}
	}
}

const opLimit = time.Hour

// do runs f and reports a hang.
func (e *engine) do(what string, f func()) bool {
	e.now = ""
	if !call(opLimit, func() { f(); e.now = e.snapshot() }) {
		e.miss("hang:"+what, "%s did not return (simulated time limit %v)", what, opLimit)
		return false
	}
	Settle(3 * time.Second)
	return true
}

func sameError(got, want error, viaWire bool) bool {
	if (got == nil) != (want == nil) {
		return false
	}
	if want == nil {
		return true
	}
	if !viaWire {
		return got == want
	}
	if k := refResolve(want.Error()); k != nil {
		return got == k
	}
	return got.Error() == want.Error()
}

func (e *engine) end(m *mconn, server bool) *neffos.Conn {
	if server {
		return m.sc
	}
	return m.cc
}

func (e *engine) noteHandles(m *mconn) {
	for s, c := range []*neffos.Conn{m.cc, m.sc} {
		for _, sp := range e.p.Spaces {
			if n := c.Namespace(sp.Name); n != nil {
				m.stale[s][sp.Name] = n
				for _, r := range n.Rooms() {
					m.staleRoom[s][sp.Name+"\x00"+r.Name] = r
				}
			}
		}
	}
}

func (e *engine) run() {
	p := e.p
	e.cb = map[[2]int]int{}
	e.ref = map[string]refusal{}
	e.labels = map[string]bool{}
	byConn := func(c *neffos.NSConn) int {
		for i, m := range e.conns {
			if m.sc == c.Conn || m.cc == c.Conn {
				return i
			}
		}
		return -1
	}
	e.w = NewWorld(e.handlers(true, func(c *neffos.NSConn) int {
		e.mu.Lock()
		defer e.mu.Unlock()
		return byConn(c)
	}))
	e.w.S.SyncBroadcaster = p.Sync
	e.w.S.FireDisconnectAlways = p.FireAll
	var onConn []*neffos.Conn
	e.w.S.OnConnect = func(c *neffos.Conn) error {
		e.mu.Lock()
		defer e.mu.Unlock()
		onConn = append(onConn, c)
		r := c.Socket().Request()
		var k int
		fmt.Sscan(r.Header.Get("X-K"), &k)
		e.conns[k].sc = c
		if e.conns[k].refused {
			return errors.New("go;away")
		}
		return nil
	}
	e.w.S.OnDisconnect = func(c *neffos.Conn) {
		e.mu.Lock()
		defer e.mu.Unlock()
		for _, m := range e.conns {
			if m.sc == c {
				m.onDisc++
				return
			}
		}
		e.extraDisc = append(e.extraDisc, c.ID())
	}
	for range p.Conns {
		m := &mconn{}
		e.fresh(m)
		e.conns = append(e.conns, m)
	}
	for i, o := range p.Ops {
		e.opIdx = i
		e.now = ""
		e.step(o)
		if len(e.bad) == 0 {
			e.checkState()
		}
		switch o.K {
		case "connect", "disconnect", "disconnectall", "join", "leave", "leaveall":
			if w := e.model(); len(e.bad) == 0 && e.now != "" && e.now != w {
				tag := "state:room"
				if strings.Contains(o.K, "connect") {
					tag = "state:ns"
				}
				e.miss(tag, "when the call returned the state was\n  %s\nwant\n  %s", e.now, w)
			}
		}
		if len(e.bad) > 0 {
			break
		}
	}
	for _, x := range e.kept {
		if string(x.b) != x.x.Body {
			e.miss("log.user:kept", "a received body changed later to %q: %s", x.b, x.x)
		}
	}
	for _, m := range e.conns {
		if m.link != nil && (m.link.Stormy()) {
			e.miss("hang:storm", "endless message loop on a link")
		}
	}
	if len(e.bad) == 0 || !strings.HasPrefix(e.bad[0].tag, "hang") {
		e.w.Shutdown()
	} else {
		for _, m := range e.conns {
			if m.link != nil {
				m.link.Cut()
			}
		}
	}
}

func (e *engine) space(i int) seqSpace { return e.p.Spaces[mod(i, len(e.p.Spaces))] }
func (e *engine) room(i int) string    { return e.p.Rooms[mod(i, len(e.p.Rooms))] }
func mod(i, n int) int {
	i %= n
	if i < 0 {
		i += n
	}
	return i
}
func userEvent(i int) string { return userEvents[mod(i, len(userEvents))] }

func (e *engine) ctxFor(o seqOp) context.Context {
	switch mod(o.X, 4) {
	case 0:
		return nil
	case 1:
		return context.TODO()
	case 2:
		return context.Background()
	default:
		c, cancel := context.WithTimeout(context.Background(), opLimit/2)
		_ = cancel
		return c
	}
}

func (e *engine) step(o seqOp) {
	k := mod(o.C, len(e.conns))
	m := e.conns[k]
	switch o.K {
	case "dial":
		e.opDial(k, m, o)
		return
	case "refuse":
		sp := e.space(o.N)
		ev := []string{neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomLeave}[mod(o.E, 4)]
		room := ""
		if mod(o.E, 4) >= 2 {
			room = e.room(o.R)
		}
		e.mu.Lock()
		key := refKey(o.S, sp.Name, ev, room)
		if r := e.ref[key]; r.on {
			e.ref[key] = refusal{}
		} else {
			e.ref[key] = refusal{true, o.X}
		}
		e.mu.Unlock()
		return
	case "broadcast":
		e.opBroadcast(o)
		return
	case "serverask":
		e.opServerAsk(o)
		return
	case "serverclose":
		e.opServerClose()
		return
	}
	if !m.dialed || m.refused {
		return
	}
	e.noteHandles(m)
	if !m.alive {
		e.opDead(k, m, o)
		return
	}
	switch o.K {
	case "close":
		e.opClose(k, m, o)
	case "connect":
		e.opConnect(k, m, o)
	case "disconnect":
		e.opDisconnect(k, m, o)
	case "disconnectall":
		e.opDisconnectAll(k, m, o)
	case "join":
		e.opJoin(k, m, o)
	case "leave":
		e.opLeave(k, m, o)
	case "leaveall":
		e.opLeaveAll(k, m, o)
	case "emit":
		e.opEmit(k, m, o)
	case "ask":
		e.opAsk(k, m, o)
	}
}

// ---- operations ----

func (e *engine) opDial(k int, m *mconn, o seqOp) {
	if m.dialed {
		return
	}
	cd := e.p.Conns[k]
	m.refused = cd.Refuse
	m.dialed = true
	var err error
	var cli *neffos.Client
	connOf := func(*neffos.NSConn) int { return k }
	l := sim.NewLink(cd.Up, cd.Down, true)
	m.link = l
	var acc <-chan acceptResult
	if !e.do("Dial", func() {
		cli, err = neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
			acc = e.w.acceptWith(l, cd.ID, http.Header{"X-K": []string{fmt.Sprint(k)}})
			return l.A, nil
		}, "sim", e.handlers(false, connOf))
	}) {
		return
	}
	if e.srvClosed {
		if err == nil {
			e.miss("reg:dial", "Dial succeeded on a closed server")
		}
		m.refused = true
		return
	}
	e.labels["dial"] = true
	if cd.Refuse {
		if err == nil || err.Error() != "go;away" {
			e.miss("ret:dial", "Dial of a refused connection returned %v, want go;away", err)
		}
		e.expectLogs("dial", nil)
		if e.p.FireAll {
			m.wantDisc++
		}
		e.labels["dial-refused"] = true
		return
	}
	if err != nil {
		e.miss("ret:dial", "Dial: %v", err)
		return
	}
	select {
	case a := <-acc:
		if a.err != nil || a.c == nil || a.c != m.sc {
			e.miss("ret:dial", "Upgrade returned %v, %v", a.c, a.err)
			return
		}
	default:
		e.miss("hang:Upgrade", "Upgrade has not returned")
		return
	}
	m.cli = cli
	m.alive = true
	m.id = m.sc.ID()
	if cd.ID != "" && m.id != cd.ID {
		e.miss("ret:dial", "server-side ID is %q, generator said %q", m.id, cd.ID)
	}
	if cli.ID != m.id {
		e.miss("ret:dial", "client ID %q, server-side ID %q", cli.ID, m.id)
	}
	var ns *neffos.NSConn
	if !e.do("Connect", func() { ns, err = cli.Connect(context.Background(), ctlNS) }) {
		return
	}
	if err != nil || ns == nil {
		e.miss("ret:connect", "Connect to a declared namespace: %v", err)
		return
	}
	m.cc = ns.Conn
	if m.cc.ID() != m.id {
		e.miss("ret:dial", "client Conn.ID %q, server-side %q", m.cc.ID(), m.id)
	}
	e.expectLogs("dial", nil)
}

func (e *engine) opClose(k int, m *mconn, o seqOp) {
	want := map[int]*sideLog{k: e.ended(k)}
	f := func() {}
	how := mod(o.X, 5)
	switch how {
	case 0:
		f = m.cli.Close
	case 1:
		f = m.sc.Close
	case 2:
		f = m.link.Cut
	case 3:
		f = m.link.CutAfter
	case 4:
		f = m.cc.Close
	}
	e.labels[fmt.Sprintf("close%d", how)] = true
	if !e.do("Close", f) {
		return
	}
	e.kill(k)
	e.expectLogs("close", want)
	e.afterEnd(m)
	e.nontrivial++
}

func (e *engine) afterEnd(m *mconn) {
	select {
	case <-m.cli.NotifyClose:
	default:
		e.miss("close:notify", "the client's NotifyClose has not fired after the connection ended")
	}
	if !m.cc.IsClosed() || !m.sc.IsClosed() {
		e.miss("close:closed", "IsClosed is %v on the client and %v on the server after the connection ended", m.cc.IsClosed(), m.sc.IsClosed())
	}
}

func (e *engine) opServerClose() {
	if e.srvClosed {
		return
	}
	want := map[int]*sideLog{}
	for k, m := range e.conns {
		if m.alive {
			want[k] = e.ended(k)
		}
	}
	if !e.do("Server.Close", func() { e.w.S.Close() }) {
		return
	}
	e.srvClosed = true
	e.labels["serverclose"] = true
	for k, m := range e.conns {
		if m.alive {
			e.kill(k)
			e.afterEnd(m)
		}
	}
	e.expectLogs("close", want)
}

// opDead: operations on an ended connection fail and have no effect.
func (e *engine) opDead(k int, m *mconn, o seqOp) {
	c := e.end(m, o.S)
	sp := e.space(o.N)
	switch o.K {
	case "close":
		if !e.do("Close", c.Close) {
			return
		}
	case "emit":
		var ok bool
		if !e.do("Write", func() {
			ok = c.Write(neffos.Message{Namespace: sp.Name, Event: userEvent(o.E), Body: o.B})
			if n := m.stale[sideIdx(o.S)][sp.Name]; n != nil && mod(o.Via, 2) == 1 {
				ok = ok || n.Emit(userEvent(o.E), o.B)
			}
		}) {
			return
		}
		if ok {
			e.miss("close:write", "a write on a closed connection reported success")
		}
	case "ask":
		var err error
		if !e.do("Ask", func() {
			_, err = c.Ask(e.ctxFor(o), neffos.Message{Namespace: sp.Name, Event: userEvent(o.E), Body: o.B})
		}) {
			return
		}
		if err == nil {
			e.miss("close:ask", "an Ask on a closed connection returned no error")
		}
	case "connect":
		if o.S {
			return // server-side Connect waits for an acknowledgement of the closed connection
		}
		declared := o.S && sp.Srv || !o.S && sp.Cli
		var err error
		var n *neffos.NSConn
		if !e.do("Connect", func() { n, err = c.Connect(e.ctxFor(o), sp.Name) }) {
			return
		}
		if err == nil || n != nil {
			e.miss("close:connect", "Connect on a closed connection returned %v, %v", n, err)
		}
		if declared {
			// the local connect callback may have run; nothing else
			e.mu.Lock()
			var rest []cbEvent
			for _, x := range e.log {
				if x.Event == neffos.OnNamespaceConnect && x.Conn == k && !x.Server {
					continue
				}
				rest = append(rest, x)
			}
			e.log = rest
			e.mu.Unlock()
		}
	case "join":
		n := m.stale[sideIdx(o.S)][sp.Name]
		if n == nil {
			return
		}
		var err error
		if !e.do("JoinRoom", func() { _, err = n.JoinRoom(e.ctxFor(o), e.room(o.R)) }) {
			return
		}
		if err == nil {
			e.miss("close:join", "JoinRoom on a closed connection returned no error")
		}
	default:
		return
	}
	e.labels["dead-"+o.K] = true
	e.expectLogs("close", nil)
}

func (e *engine) opConnect(k int, m *mconn, o seqOp) {
	sp := e.space(o.N)
	c := e.end(m, o.S)
	n := m.ns[sp.Name]
	l := &sideLog{}
	var want error
	wire := false
	iDecl, rDecl := sp.Cli, sp.Srv
	if o.S {
		iDecl, rDecl = sp.Srv, sp.Cli
	}
	I, R := sideIdx(o.S), sideIdx(!o.S)
	was := n.on
	if !was {
		if !iDecl {
			want = neffos.ErrBadNamespace
		} else {
			l.pats[I] = append(l.pats[I], seqOf(e.sys(k, o.S, sp, neffos.OnNamespaceConnect, "", true, false))...)
			if err := e.sysErr(o.S, sp, neffos.OnNamespaceConnect, ""); err != nil {
				want = err
			} else if !rDecl {
				want, wire = neffos.ErrBadNamespace, true
			} else {
				l.pats[R] = append(l.pats[R], seqOf(e.sys(k, !o.S, sp, neffos.OnNamespaceConnect, "", false, false))...)
				if err := e.sysErr(!o.S, sp, neffos.OnNamespaceConnect, ""); err != nil {
					want, wire = err, true
				} else {
					l.pats[R] = append(l.pats[R], seqOf(e.sys(k, !o.S, sp, neffos.OnNamespaceConnected, "", false, false))...)
					l.pats[I] = append(l.pats[I], seqOf(e.sys(k, o.S, sp, neffos.OnNamespaceConnected, "", true, false))...)
				}
			}
		}
	}
	var got *neffos.NSConn
	var err error
	before := c.Namespace(sp.Name)
	if !e.do("Connect", func() {
		if !o.S && mod(o.Via, 2) == 1 {
			got, err = m.cli.Connect(e.ctxFor(o), sp.Name)
		} else {
			got, err = c.Connect(e.ctxFor(o), sp.Name)
		}
	}) {
		return
	}
	if !sameError(err, want, wire) {
		e.miss("ret:connect", "Connect(%q) by server=%v returned error %v, want %v", sp.Name, o.S, err, want)
	}
	if want == nil && (got == nil || got != c.Namespace(sp.Name) || got.Conn != c || was && got != before) {
		e.miss("ret:connect", "Connect(%q) returned %p, connected before: %p, now: %p", sp.Name, got, before, c.Namespace(sp.Name))
	}
	if want != nil && got != nil {
		e.miss("ret:connect", "refused Connect(%q) returned a namespace connection", sp.Name)
	}
	if want == nil {
		n.on = true
		if !was {
			e.labels["connect"] = true
			e.nontrivial++
			if o.S {
				e.labels["connect-by-server"] = true
			}
			var w *neffos.NSConn
			if e.do("WaitConnect", func() { w, err = e.end(m, !o.S).WaitConnect(e.ctxFor(o), sp.Name) }) && (err != nil || w == nil || w != e.end(m, !o.S).Namespace(sp.Name)) {
				e.miss("ret:connect", "WaitConnect on the other side returned %v, %v", w, err)
			}
		} else {
			e.labels["connect-again"] = true
		}
	} else {
		e.labels["connect-refused"] = true
		e.nontrivial++
	}
	e.expectLogs("connect", map[int]*sideLog{k: l})
}

func (e *engine) opDisconnect(k int, m *mconn, o seqOp) {
	sp := e.space(o.N)
	c := e.end(m, o.S)
	n := m.ns[sp.Name]
	h := c.Namespace(sp.Name)
	var want error
	l := &sideLog{}
	wire := false
	if h == nil {
		h = m.stale[sideIdx(o.S)][sp.Name]
		if h == nil {
			return
		}
		want = neffos.ErrBadNamespace
		e.labels["disconnect-stale"] = true
	}
	I, R := sideIdx(o.S), sideIdx(!o.S)
	if n.on {
		if !o.S {
			l.pats[1] = seqOf(e.sys(k, true, sp, neffos.OnNamespaceDisconnect, "", false, false))
			if err := e.sysErr(true, sp, neffos.OnNamespaceDisconnect, ""); err != nil {
				want, wire = err, true
			} else {
				l.pats[1] = append(l.pats[1], seqOf(e.forcedLeaves(k, true, sp, false, false))...)
			}
		} else {
			l.pats[R] = seqOf(e.forcedLeaves(k, false, sp, false, false), e.sys(k, false, sp, neffos.OnNamespaceDisconnect, "", false, false))
		}
		if want == nil {
			l.pats[I] = seqOf(e.forcedLeaves(k, o.S, sp, true, false), e.sys(k, o.S, sp, neffos.OnNamespaceDisconnect, "", true, false))
		}
	}
	var err error
	if !e.do("Disconnect", func() { err = h.Disconnect(e.ctxFor(o)) }) {
		return
	}
	if !sameError(err, want, wire) {
		e.miss("ret:disconnect", "Disconnect(%q) by server=%v returned %v, want %v", sp.Name, o.S, err, want)
	}
	if n.on {
		e.nontrivial++
		if want == nil {
			e.labels["disconnect"] = true
			if len(n.rooms[0])+len(n.rooms[1]) > 0 {
				e.labels["disconnect-with-rooms"] = true
			}
			n.on = false
			n.rooms = [2]map[string]bool{{}, {}}
		} else {
			e.labels["disconnect-refused"] = true
		}
	}
	e.expectLogs("disconnect", map[int]*sideLog{k: l})
}

func (e *engine) opDisconnectAll(k int, m *mconn, o seqOp) {
	c := e.end(m, o.S)
	I, R := sideIdx(o.S), sideIdx(!o.S)
	var refusing []string
	var pi, pr []pat
	for _, sp := range e.p.Spaces {
		if !m.ns[sp.Name].on {
			continue
		}
		if !o.S && e.sysErr(true, sp, neffos.OnNamespaceDisconnect, "") != nil {
			refusing = append(refusing, sp.Name)
		}
		x := pat{seq: seqOf(e.forcedLeaves(k, o.S, sp, true, false), e.sys(k, o.S, sp, neffos.OnNamespaceDisconnect, "", true, false))}
		if len(x.seq) > 0 {
			pi = append(pi, x)
		}
		var y pat
		d := e.sys(k, !o.S, sp, neffos.OnNamespaceDisconnect, "", false, false)
		f := e.forcedLeaves(k, !o.S, sp, false, false)
		if o.S {
			y.seq = seqOf(f, d)
		} else {
			y.seq = seqOf(d, f)
		}
		if len(y.seq) > 0 {
			pr = append(pr, y)
		}
	}
	var err error
	if !e.do("DisconnectAll", func() { err = c.DisconnectAll(e.ctxFor(o)) }) {
		return
	}
	e.labels["disconnectall"] = true
	e.nontrivial++
	if len(refusing) > 0 {
		e.labels["disconnectall-refused"] = true
		if err == nil {
			e.miss("ret:disconnectall", "DisconnectAll returned nil although the server refuses to let go of %q", refusing)
		}
		for _, r := range refusing {
			if m.cc.Namespace(r) == nil || m.sc.Namespace(r) == nil {
				e.miss("state:ns", "namespace %q was disconnected although the server refused", r)
			}
		}
		// which of the others are gone is up to the order; both sides must agree
		for _, sp := range e.p.Spaces {
			a, b := m.cc.Namespace(sp.Name) != nil, m.sc.Namespace(sp.Name) != nil
			if a != b {
				e.miss("state:ns", "after DisconnectAll namespace %q is connected on the client: %v, on the server: %v", sp.Name, a, b)
			}
			if !a && m.ns[sp.Name].on {
				m.ns[sp.Name].on = false
				m.ns[sp.Name].rooms = [2]map[string]bool{{}, {}}
			}
		}
		e.mu.Lock()
		e.log = nil
		e.mu.Unlock()
		return
	}
	if err != nil {
		e.miss("ret:disconnectall", "DisconnectAll returned %v", err)
	}
	l := &sideLog{}
	if len(pi) > 0 {
		l.pats[I] = []pat{{perm: pi}}
	}
	if len(pr) > 0 {
		l.pats[R] = []pat{{perm: pr}}
	}
	for _, n := range m.ns {
		n.on = false
		n.rooms = [2]map[string]bool{{}, {}}
	}
	e.expectLogs("disconnect", map[int]*sideLog{k: l})
}

func (e *engine) opJoin(k int, m *mconn, o seqOp) {
	sp, room := e.space(o.N), e.room(o.R)
	c := e.end(m, o.S)
	n := m.ns[sp.Name]
	h := c.Namespace(sp.Name)
	I, R := sideIdx(o.S), sideIdx(!o.S)
	l := &sideLog{}
	var want error
	wire := false
	tainted := n.rooms[0][room] != n.rooms[1][room]
	if tainted {
		return
	}
	was := n.rooms[I][room]
	switch {
	case h == nil:
		h = m.stale[I][sp.Name]
		if h == nil {
			want = neffos.ErrWrite // a nil namespace connection
		} else {
			want = neffos.ErrBadNamespace
			e.labels["join-stale"] = true
		}
	case was:
	default:
		l.pats[R] = seqOf(e.sys(k, !o.S, sp, neffos.OnRoomJoin, room, false, false))
		if err := e.sysErr(!o.S, sp, neffos.OnRoomJoin, room); err != nil {
			want, wire = err, true
		} else {
			l.pats[R] = append(l.pats[R], seqOf(e.sys(k, !o.S, sp, neffos.OnRoomJoined, room, false, false))...)
			l.pats[I] = seqOf(e.sys(k, o.S, sp, neffos.OnRoomJoin, room, true, false))
			if err := e.sysErr(o.S, sp, neffos.OnRoomJoin, room); err != nil {
				want = err
				n.rooms[R][room] = true
			} else {
				l.pats[I] = append(l.pats[I], seqOf(e.sys(k, o.S, sp, neffos.OnRoomJoined, room, true, false))...)
				n.rooms[0][room], n.rooms[1][room] = true, true
			}
		}
	}
	var got *neffos.Room
	var err error
	var before *neffos.Room
	if was {
		before = h.Room(room)
	}
	if !e.do("JoinRoom", func() { got, err = h.JoinRoom(e.ctxFor(o), room) }) {
		return
	}
	if !sameError(err, want, wire) && !(!wire && want != nil && want == neffos.ErrBadNamespace && err != nil) {
		e.miss("ret:join", "JoinRoom(%q,%q) by server=%v returned %v, want %v", sp.Name, room, o.S, err, want)
	}
	if want == nil {
		if got == nil || got.Name != room || got.NSConn != h || was && got != before {
			e.miss("ret:join", "JoinRoom(%q) returned %+v", room, got)
		}
		if was {
			e.labels["join-again"] = true
		} else {
			e.labels["join"] = true
			e.nontrivial++
		}
	} else {
		if got != nil {
			e.miss("ret:join", "refused JoinRoom(%q) returned a room", room)
		}
		e.labels["join-refused"] = true
	}
	e.expectLogs("join", map[int]*sideLog{k: l})
}

func (e *engine) leavePats(k int, server bool, sp seqSpace, room string) (I, R []pat, want error, wire bool, rLeft, iLeft bool) {
	R = seqOf(e.sys(k, !server, sp, neffos.OnRoomLeave, room, false, false))
	if !server {
		if err := e.sysErr(true, sp, neffos.OnRoomLeave, room); err != nil {
			return nil, R, err, true, false, false
		}
	}
	R = append(R, seqOf(e.sys(k, !server, sp, neffos.OnRoomLeft, room, false, false))...)
	rLeft = true
	I = seqOf(e.sys(k, server, sp, neffos.OnRoomLeave, room, true, false))
	if err := e.sysErr(server, sp, neffos.OnRoomLeave, room); err != nil {
		return I, R, err, false, true, false
	}
	I = append(I, seqOf(e.sys(k, server, sp, neffos.OnRoomLeft, room, true, false))...)
	return I, R, nil, false, true, true
}

func (e *engine) opLeave(k int, m *mconn, o seqOp) {
	sp, room := e.space(o.N), e.room(o.R)
	c := e.end(m, o.S)
	n := m.ns[sp.Name]
	if n.rooms[0][room] != n.rooms[1][room] {
		return
	}
	I, R := sideIdx(o.S), sideIdx(!o.S)
	l := &sideLog{}
	h := c.Namespace(sp.Name).Room(room)
	var want error
	wire := false
	if h == nil {
		h = m.staleRoom[I][sp.Name+"\x00"+room]
		if h == nil {
			return
		}
		want = neffos.ErrBadRoom
		e.labels["leave-notjoined"] = true
		if h.NSConn != c.Namespace(sp.Name) {
			// a room of an ended namespace connection
			e.labels["leave-stale"] = true
		}
	} else {
		var rLeft, iLeft bool
		l.pats[I], l.pats[R], want, wire, rLeft, iLeft = e.leavePats(k, o.S, sp, room)
		if rLeft {
			delete(n.rooms[R], room)
		}
		if iLeft {
			delete(n.rooms[I], room)
		}
		e.nontrivial++
		if want == nil {
			e.labels["leave"] = true
		} else {
			e.labels["leave-refused"] = true
		}
	}
	var err error
	if !e.do("Leave", func() { err = h.Leave(e.ctxFor(o)) }) {
		return
	}
	if !sameError(err, want, wire) {
		e.miss("ret:leave", "Leave(%q,%q) by server=%v returned %v, want %v", sp.Name, room, o.S, err, want)
	}
	e.expectLogs("leave", map[int]*sideLog{k: l})
}

func (e *engine) opLeaveAll(k int, m *mconn, o seqOp) {
	sp := e.space(o.N)
	c := e.end(m, o.S)
	n := m.ns[sp.Name]
	I, R := sideIdx(o.S), sideIdx(!o.S)
	h := c.Namespace(sp.Name)
	if h == nil {
		return
	}
	for _, r := range e.p.Rooms {
		if n.rooms[0][r] != n.rooms[1][r] {
			return
		}
	}
	var pi, pr []pat
	refusing := false
	var vetoed []string
	for _, r := range keys(n.rooms[I]) {
		a, b, want, wire, _, _ := e.leavePats(k, o.S, sp, r)
		if want != nil {
			refusing = true
			if wire {
				vetoed = append(vetoed, r)
			}
		}
		if len(a) > 0 {
			pi = append(pi, pat{seq: a})
		}
		if len(b) > 0 {
			pr = append(pr, pat{seq: b})
		}
	}
	var err error
	if !e.do("LeaveAll", func() { err = h.LeaveAll(e.ctxFor(o)) }) {
		return
	}
	e.labels["leaveall"] = true
	if len(n.rooms[I]) > 1 {
		e.labels["leaveall-many"] = true
		e.nontrivial++
	}
	if refusing {
		e.labels["leaveall-refused"] = true
		if err == nil {
			e.miss("ret:leaveall", "LeaveAll returned nil although a leave callback refuses")
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			x := c.Namespace(sp.Name)
			for r := range n.rooms[s] {
				if x.Room(r) == nil {
					delete(n.rooms[s], r)
				}
			}
		}
		for _, r := range vetoed {
			if !n.rooms[0][r] || !n.rooms[1][r] {
				e.miss("state:room", "room %q was left although the server refused", r)
			}
		}
		e.mu.Lock()
		e.log = nil
		e.mu.Unlock()
		return
	}
	if err != nil {
		e.miss("ret:leaveall", "LeaveAll returned %v", err)
	}
	n.rooms = [2]map[string]bool{{}, {}}
	l := &sideLog{}
	if len(pi) > 0 {
		l.pats[I] = []pat{{perm: pi}}
	}
	if len(pr) > 0 {
		l.pats[R] = []pat{{perm: pr}}
	}
	e.expectLogs("leave", map[int]*sideLog{k: l})
}

func replyOf(err error) (body string, text string) {
	if err == nil {
		return "", ""
	}
	m := neffos.Message{Err: err}
	b := m.Serialize()
	p := bytes.SplitN(b, []byte(";"), 7)
	if string(p[4]) == "1" {
		return "", "!" + string(p[6])
	}
	return string(p[6]), ""
}

// answer is the expected event back on the emitter when the receiver's callback answers an emit.
func (e *engine) answer(k int, server bool, sp seqSpace, room, event, body string, bin bool) pat {
	if !e.handles(!server, sp, event) {
		return pat{}
	}
	err := reply(!server, k, body)
	if err == nil {
		return pat{}
	}
	b, text := replyOf(err)
	return e.user(k, server, sp, room, event, b, text, bin)
}

func (e *engine) opEmit(k int, m *mconn, o seqOp) {
	sp := e.space(o.N)
	c := e.end(m, o.S)
	I, R := sideIdx(o.S), sideIdx(!o.S)
	n := m.ns[sp.Name]
	event := userEvent(o.E)
	via := mod(o.Via, 4)
	room := ""
	var f func() bool
	body := append([]byte(nil), o.B...)
	bin := o.Bin
	h := c.Namespace(sp.Name)
	if h == nil && via != 3 {
		h = m.stale[I][sp.Name]
	}
	switch via {
	case 0:
		if bin {
			f = func() bool { return h.EmitBinary(event, body) }
		} else {
			f = func() bool { return h.Emit(event, body) }
		}
	case 1:
		room = e.room(o.R)
		r := h.Room(room)
		if r == nil {
			r = m.staleRoom[I][sp.Name+"\x00"+room]
		}
		if r == nil {
			return
		}
		bin = false
		f = func() bool { return r.Emit(event, body) }
	default:
		if o.R%2 == 1 {
			room = e.room(o.R / 2)
		}
		msg := neffos.Message{Namespace: sp.Name, Room: room, Event: event, Body: body, SetBinary: bin}
		if o.Bin && (!n.on || room != "" && !n.rooms[I][room]) {
			msg.IsNative = true
		}
		f = func() bool { return c.Write(msg) }
	}
	if room != "" && n.rooms[0][room] != n.rooms[1][room] {
		return
	}
	open := n.on && (room == "" || n.rooms[I][room])
	ends := []*sim.End{m.link.A, m.link.B}
	sent := ends[I].SentCount()
	var ok bool
	if !e.do("Emit", func() { ok = f() }) {
		return
	}
	if ok != open {
		tag := "ret:emit"
		if !open {
			tag = "gate:emit"
		}
		e.miss(tag, "emit to (%q,%q) by server=%v returned %v; connected %v, joined %v", sp.Name, room, o.S, ok, n.on, n.rooms[I][room])
	}
	l := &sideLog{}
	if open {
		e.labels["emit"] = true
		e.nontrivial++
		if room != "" {
			e.labels["emit-room"] = true
		}
		l.pats[R] = seqOf(e.user(k, !o.S, sp, room, event, string(o.B), "", bin))
		l.pats[I] = seqOf(e.answer(k, o.S, sp, room, event, string(o.B), bin))
		if len(l.pats[I]) > 0 {
			e.labels["emit-answered"] = true
		}
		if !e.handles(!o.S, sp, event) {
			e.labels["emit-undeclared"] = true
		}
	} else {
		e.labels["emit-closed-gate"] = true
		e.nontrivial++
		if x := ends[I].SentCount(); x != sent {
			e.miss("gate:wire", "a refused emit put %d frame(s) on the wire", x-sent)
		}
	}
	tag := "emit"
	if !open {
		tag = "gate"
	}
	if !bytes.Equal(body, o.B) {
		e.miss("ret:emit", "emit changed the caller's body")
	}
	e.expectLogs(tag, map[int]*sideLog{k: l})
}

func (e *engine) opAsk(k int, m *mconn, o seqOp) {
	sp := e.space(o.N)
	c := e.end(m, o.S)
	I, R := sideIdx(o.S), sideIdx(!o.S)
	n := m.ns[sp.Name]
	event := userEvent(o.E)
	room := ""
	if mod(o.Via, 3) == 2 {
		room = e.room(o.R)
	}
	if room != "" && n.rooms[0][room] != n.rooms[1][room] {
		return
	}
	open := n.on && (room == "" || n.rooms[I][room])
	answers := open && e.handles(!o.S, sp, event) && reply(!o.S, k, string(o.B)) != nil
	ctx := e.ctxFor(o)
	if open && !answers {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
	}
	ends := []*sim.End{m.link.A, m.link.B}
	sent := ends[I].SentCount()
	var got neffos.Message
	var err error
	h := c.Namespace(sp.Name)
	if !e.do("Ask", func() {
		if room == "" && mod(o.Via, 3) == 1 {
			if h == nil {
				h = m.stale[I][sp.Name]
			}
			got, err = h.Ask(ctx, event, o.B)
		} else {
			got, err = c.Ask(ctx, neffos.Message{Namespace: sp.Name, Room: room, Event: event, Body: o.B, SetBinary: o.Bin})
		}
	}) {
		return
	}
	l := &sideLog{}
	bin := o.Bin && !(room == "" && mod(o.Via, 3) == 1)
	switch {
	case !open:
		e.labels["ask-closed-gate"] = true
		if err == nil {
			e.miss("gate:ask", "Ask to (%q,%q) succeeded; connected %v, joined %v", sp.Name, room, n.on, n.rooms[I][room])
		}
		if x := ends[I].SentCount(); x != sent {
			e.miss("gate:wire", "a refused Ask put %d frame(s) on the wire", x-sent)
		}
	case !answers:
		e.labels["ask-unanswered"] = true
		if err != context.DeadlineExceeded {
			e.miss("ret:ask", "unanswered Ask returned %v, %v, want the context's error", got, err)
		}
	default:
		e.labels["ask"] = true
		e.nontrivial++
		rerr := reply(!o.S, k, string(o.B))
		b, text := replyOf(rerr)
		if text == "" {
			if err != nil || string(got.Body) != b || got.Namespace != sp.Name || got.Room != room || got.Event != event || got.Err != nil {
				e.miss("ret:ask", "Ask returned %+v, %v; the reply was %q", got, err, b)
			}
		} else if !sameError(err, rerr, true) {
			e.miss("ret:ask", "Ask returned error %v, the remote callback returned %v", err, rerr)
		}
	}
	if open {
		l.pats[R] = seqOf(e.user(k, !o.S, sp, room, event, string(o.B), "", bin))
	}
	e.expectLogs("ask", map[int]*sideLog{k: l})
}

// audience reports whether connection k is addressed by the message.
func (e *engine) audience(k int, sp seqSpace, room, to string, exclConn int, exclID string) bool {
	m := e.conns[k]
	if !m.alive || !m.ns[sp.Name].on {
		return false
	}
	if room != "" && !m.ns[sp.Name].rooms[1][room] {
		return false
	}
	if to != "" && to != m.id {
		return false
	}
	if k == exclConn || exclID != "" && m.id == exclID {
		return false
	}
	return true
}

func (e *engine) toID(i int) string {
	if i <= 0 {
		return ""
	}
	m := e.conns[mod(i-1, len(e.conns))]
	if m.id == "" {
		return "nobody"
	}
	return m.id
}

func (e *engine) opBroadcast(o seqOp) {
	if e.srvClosed || len(o.Msgs) == 0 {
		return
	}
	k := mod(o.C, len(e.conns))
	m := e.conns[k]
	var except fmt.Stringer
	exclConn, exclID := -1, ""
	var viaNS *neffos.NSConn
	others := false
	sp0 := e.space(o.N)
	x := mod(o.X, 7)
	live := m.alive
	switch {
	case x == 1 && live:
		except, exclConn = m.sc, k
	case x == 2 && live && m.sc.Namespace(sp0.Name) != nil:
		except, exclConn = m.sc.Namespace(sp0.Name), k
	case x == 3 && live && m.sc.Namespace(sp0.Name).Room(e.room(o.R)) != nil:
		except, exclID = m.sc.Namespace(sp0.Name).Room(e.room(o.R)), m.id
	case x == 4:
		id := m.id
		if id == "" {
			id = "nobody"
		}
		except, exclID = neffos.Exclude(id), id
	case x == 5 && live && m.sc.Namespace(sp0.Name) != nil:
		viaNS = m.sc.Namespace(sp0.Name)
	case x == 6 && live && m.sc.Namespace(sp0.Name) != nil:
		viaNS, others, exclConn = m.sc.Namespace(sp0.Name), true, k
	}
	e.labels[fmt.Sprintf("bc-except%d", x)] = true
	if len(o.Msgs) > 1 {
		e.labels["bc-multi"] = true
	}
	var msgs, keep []neffos.Message
	want := map[int]*sideLog{}
	for i := range e.conns {
		want[i] = &sideLog{}
	}
	reached := 0
	for _, bm := range o.Msgs {
		sp := e.space(bm.N)
		room := ""
		if bm.R%2 == 1 {
			room = e.room(bm.R / 2)
		}
		to := e.toID(bm.To)
		event := userEvent(bm.E)
		b := append([]byte(nil), bm.B...)
		msgs = append(msgs, neffos.Message{Namespace: sp.Name, Room: room, To: to, Event: event, Body: b, SetBinary: bm.Bin})
		if room != "" {
			e.labels["bc-room"] = true
		}
		if to != "" {
			e.labels["bc-to"] = true
		}
		for i, m := range e.conns {
			if e.audience(i, sp, room, to, exclConn, exclID) {
				if room != "" && !m.ns[sp.Name].rooms[0][room] {
					// the client never took part in this join; it gets the message all the same
					e.labels["bc-tainted"] = true
				}
				reached++
				want[i].pats[0] = append(want[i].pats[0], seqOf(e.user(i, false, sp, room, event, string(bm.B), "", bm.Bin))...)
				if room == "" || m.ns[sp.Name].rooms[0][room] {
					want[i].pats[1] = append(want[i].pats[1], seqOf(e.answer(i, true, sp, room, event, string(bm.B), bm.Bin))...)
				}
			}
		}
	}
	if reached > 0 {
		e.labels["bc-reached"] = true
	}
	nAlive := 0
	for _, m := range e.conns {
		if m.alive {
			nAlive++
		}
	}
	if reached > 0 && reached < nAlive*len(o.Msgs) {
		e.labels["bc-partial"] = true
		e.nontrivial++
	}
	keep = append(keep, msgs...)
	same := func() {
		for i := range msgs {
			if fmt.Sprintf("%+v", msgs[i]) != fmt.Sprintf("%+v", keep[i]) || string(msgs[i].Body) != string(o.Msgs[i].B) {
				e.miss("log.user:broadcast", "Broadcast changed the caller's message %d from %+v to %+v", i, keep[i], msgs[i])
			}
		}
	}
	reuse := len(o.Msgs[0].B)%2 == 0
	if !e.do("Broadcast", func() {
		switch {
		case viaNS != nil && others:
			viaNS.BroadcastOthers(msgs...)
		case viaNS != nil:
			viaNS.Broadcast(msgs...)
		default:
			s := e.w.S
			if live && len(msgs)%2 == 0 {
				if s = m.sc.Server(); s != e.w.S || m.cc.Server() != nil {
					e.miss("log.user:broadcast", "Server returned %p, %p for the connections of the server %p", s, m.cc.Server(), e.w.S)
				}
			}
			s.Broadcast(except, msgs...)
		}
		same()
		for i := 0; reuse && i < len(msgs); i++ {
			// the slice is the caller's again
			msgs[i] = neffos.Message{Namespace: sp0.Name, Event: userEvent(o.E), Body: []byte("reused")}
		}
	}) {
		return
	}
	if !reuse {
		same()
	}
	e.expectLogs("broadcast", want)
}

func (e *engine) opServerAsk(o seqOp) {
	if e.srvClosed {
		return
	}
	sp := e.space(o.N)
	room := ""
	if o.R%2 == 1 {
		room = e.room(o.R / 2)
	}
	to := ""
	if mod(o.X, 2) == 1 {
		to = e.toID(o.C + 1)
	}
	event := userEvent(o.E)
	want := map[int]*sideLog{}
	type ans struct{ body, text string }
	var answers []ans
	for i, m := range e.conns {
		want[i] = &sideLog{}
		if !e.audience(i, sp, room, to, -1, "") {
			continue
		}
		want[i].pats[0] = seqOf(e.user(i, false, sp, room, event, string(o.B), "", o.Bin))
		if e.handles(false, sp, event) && (room == "" || m.ns[sp.Name].rooms[0][room]) {
			if err := reply(false, i, string(o.B)); err != nil {
				b, t := replyOf(err)
				answers = append(answers, ans{b, t})
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var got neffos.Message
	var err error
	if !e.do("Server.Ask", func() {
		got, err = e.w.S.Ask(ctx, neffos.Message{Namespace: sp.Name, Room: room, To: to, Event: event, Body: append([]byte(nil), o.B...), SetBinary: o.Bin})
	}) {
		return
	}
	if len(answers) == 0 {
		e.labels["sask-unanswered"] = true
		if err != context.DeadlineExceeded {
			e.miss("ret:serverask", "Server.Ask that nobody answers returned %+v, %v", got, err)
		}
	} else {
		e.labels["sask"] = true
		e.nontrivial++
		if len(answers) > 1 {
			e.labels["sask-many"] = true
		}
		ok := false
		for _, a := range answers {
			if a.text == "" && err == nil && string(got.Body) == a.body && got.Namespace == sp.Name && got.Event == event && got.Room == room {
				ok = true
			}
			if a.text != "" && err != nil && sameError(err, errors.New(a.text[1:]), true) {
				ok = true
			}
		}
		if !ok {
			e.miss("ret:serverask", "Server.Ask returned %+v, %v; the addressed connections answered %v", got, err, answers)
		}
	}
	e.expectLogs("serverask", want)
}

// ---- state ----

func (e *engine) checkState() {
	alive := 0
	ids := map[string]bool{}
	liveSrv := map[*neffos.Conn]bool{}
	for k, m := range e.conns {
		if !m.dialed || m.refused {
			continue
		}
		if m.alive {
			alive++
			ids[m.id] = true
			liveSrv[m.sc] = true
			if m.cc.IsClosed() || m.sc.IsClosed() {
				e.miss("close:spurious", "connection #%d is closed (client %v, server %v) although nothing ended it", k, m.cc.IsClosed(), m.sc.IsClosed())
				return
			}
			if m.link.A.TwoReads.Load() || m.link.B.TwoReads.Load() {
				e.miss("log.user:emit", "two goroutines read connection #%d's socket at the same time", k)
			}
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			side := []string{"client", "server"}[s]
			for _, sp := range e.p.Spaces {
				n := m.ns[sp.Name]
				h := c.Namespace(sp.Name)
				if (h != nil) != n.on {
					tag := "state:ns"
					if !m.alive {
						tag = "close:state"
					}
					e.miss(tag, "connection #%d %s: namespace %q connected=%v, want %v", k, side, sp.Name, h != nil, n.on)
					continue
				}
				if h == nil {
					if st := m.stale[s][sp.Name]; st != nil && len(st.Rooms()) != 0 {
						tag := "state:room"
						if !m.alive {
							tag = "close:state"
						}
						e.miss(tag, "connection #%d %s: the ended namespace connection %q still has rooms", k, side, sp.Name)
					}
					continue
				}
				got := map[string]bool{}
				for _, r := range h.Rooms() {
					if got[r.Name] {
						e.miss("state:room", "room %q is listed twice", r.Name)
					}
					got[r.Name] = true
					if r.NSConn != h {
						e.miss("state:room", "room %q belongs to another namespace connection", r.Name)
					}
				}
				if fmt.Sprint(keys(got)) != fmt.Sprint(keys(n.rooms[s])) {
					e.miss("state:room", "connection #%d %s: rooms of %q are %q, want %q", k, side, sp.Name, keys(got), keys(n.rooms[s]))
				}
				for _, r := range e.p.Rooms {
					x := h.Room(r)
					if (x != nil) != n.rooms[s][r] || x != nil && x.Name != r {
						e.miss("state:room", "connection #%d %s: Room(%q) of %q is %v, want joined=%v", k, side, r, sp.Name, x, n.rooms[s][r])
					}
				}
			}
		}
	}
	e.mu.Lock()
	for k, m := range e.conns {
		if m.onDisc != m.wantDisc {
			e.miss("reg:ondisconnect", "OnDisconnect ran %d times for connection #%d, want %d", m.onDisc, k, m.wantDisc)
		}
	}
	if len(e.extraDisc) > 0 {
		e.miss("reg:ondisconnect", "OnDisconnect ran for unknown connections %q", e.extraDisc)
	}
	e.mu.Unlock()
	if g := e.w.S.GetTotalConnections(); g != uint64(alive) {
		e.miss("reg:total", "GetTotalConnections is %d, %d connections are live", g, alive)
	}
	gc := e.w.S.GetConnections()
	if len(gc) != len(ids) {
		e.miss("reg:get", "GetConnections has %d IDs, want %d", len(gc), len(ids))
	}
	for id, c := range gc {
		if !ids[id] || !liveSrv[c] || c.ID() != id {
			e.miss("reg:get", "GetConnections has %q which is not live", id)
		}
	}
	for _, sp := range e.p.Spaces {
		want := map[string]bool{}
		for _, m := range e.conns {
			if m.alive && m.ns[sp.Name].on {
				want[m.id] = true
			}
		}
		got := map[string]bool{}
		for id, n := range e.w.S.GetConnectionsByNamespace(sp.Name) {
			got[id] = true
			if n == nil || n.Conn.ID() != id || n.Conn.Namespace(sp.Name) != n {
				e.miss("reg:getns", "GetConnectionsByNamespace(%q)[%q] is a wrong connection", sp.Name, id)
			}
		}
		if fmt.Sprint(keys(got)) != fmt.Sprint(keys(want)) {
			e.miss("reg:getns", "GetConnectionsByNamespace(%q) has %q, want %q", sp.Name, keys(got), keys(want))
		}
	}
	seen := map[*neffos.Conn]int{}
	async := e.opIdx%2 == 0
	if !call(opLimit, func() {
		e.w.S.Do(func(c *neffos.Conn) {
			e.mu.Lock()
			seen[c]++
			e.mu.Unlock()
		}, async)
	}) {
		e.miss("hang:Do", "Server.Do did not return")
		return
	}
	synctest.Wait()
	e.mu.Lock()
	defer e.mu.Unlock()
	for c, n := range seen {
		if n != 1 || !liveSrv[c] {
			e.miss("reg:do", "Do visited a connection %d times (live: %v)", n, liveSrv[c])
		}
	}
	if len(seen) != len(liveSrv) {
		e.miss("reg:do", "Do visited %d connections, %d are live", len(seen), len(liveSrv))
	}
}

// ---- generation ----

var seqTags = map[string][]string{
	"C03": {"log.user:emit", "ret:emit", "log.user:kept"},
	"C04": {"ret:ask", "log.user:ask", "log.sys:ask", "log.user:kept"},
	"C06": {"ret:connect", "ret:disconnect", "ret:disconnectall", "state:ns"},
	"C07": {"ret:join", "ret:leave", "ret:leaveall", "state:room"},
	"C08": {"log.sys:"},
	"C09": {"gate:", "log.user:gate", "log.sys:gate", "log.user:emit"},
	"C10": {"close:", "log.sys:close", "log.user:close", "reg:ondisconnect"},
	"C11": {"log.user:broadcast", "log.sys:broadcast"},
	"C12": {"reg:"},
	"C14": {"ret:serverask", "log.user:serverask", "log.sys:serverask"},
	"C20": {"log.user:emit", "log.user:ask", "log.user:broadcast"},
}

var seqWeights = map[string]map[string]int{
	"C03": {"dial": 2, "connect": 5, "join": 3, "emit": 16, "disconnect": 1, "leave": 1, "ask": 1, "close": 1},
	"C04": {"dial": 2, "connect": 5, "join": 3, "ask": 16, "emit": 2, "disconnect": 1, "leave": 1},
	"C06": {"dial": 3, "connect": 12, "disconnect": 8, "disconnectall": 3, "refuse": 5, "join": 2, "close": 1},
	"C07": {"dial": 2, "connect": 6, "join": 12, "leave": 8, "leaveall": 3, "refuse": 4, "disconnect": 2, "disconnectall": 1},
	"C08": {"dial": 2, "connect": 7, "join": 7, "leave": 4, "leaveall": 2, "disconnect": 4, "disconnectall": 2, "refuse": 3, "close": 2, "serverclose": 1},
	"C09": {"dial": 2, "connect": 5, "join": 4, "emit": 12, "ask": 5, "disconnect": 3, "leave": 3},
	"C10": {"dial": 5, "connect": 8, "join": 7, "close": 7, "emit": 2, "ask": 2, "disconnect": 1, "serverclose": 1},
	"C11": {"dial": 5, "connect": 9, "join": 6, "broadcast": 12, "close": 1, "leave": 1, "disconnect": 1},
	"C12": {"dial": 8, "connect": 6, "close": 6, "disconnect": 2, "serverclose": 1},
	"C14": {"dial": 5, "connect": 9, "join": 4, "serverask": 10, "broadcast": 1, "emit": 1, "close": 1},
	"C20": {"dial": 2, "connect": 5, "emit": 12, "ask": 4, "broadcast": 4, "join": 1},
}

var latPool = []int{0, 0, 100, 1000, 50000}

func genDir(t *rapid.T, name string) sim.Dir {
	return sim.Dir{
		Lat:       rapid.SliceOfN(rapid.SampledFrom(latPool), 0, 3).Draw(t, name+"lat"),
		WriteHold: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 10, 2000}), 0, 2).Draw(t, name+"hold"),

		WriteAfter: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 500, 60000}), 0, 2).Draw(t, name+"after"),
	}
}

func genBody(t *rapid.T) []byte {
	kind := rapid.SampledFrom([]string{"N", "N", "R", "R", "E", "K", ""}).Draw(t, "bk")
	if kind == "" {
		return nil
	}
	rest := rapid.SampledFrom([]string{"", "x", ";", "a;b;0;1;", "é", "\x00\xff", "0", "1"}).Draw(t, "br")
	return []byte(kind + rest)
}

func genSeq(prop string) func(*rapid.T) seqPlan {
	if prop == kit.RaceProp {
		prop = "C12"
	}
	weights := seqWeights[prop]
	var kinds []string
	var names []string
	for k := range weights {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for i := 0; i < weights[k]; i++ {
			kinds = append(kinds, k)
		}
	}
	lens := []int{1, 2, 4, 8, 12, 16, 20, 24}
	if kit.Thorough {
		lens = append(lens, 32, 48)
	}
	// how often namespaces and rooms are already connected at the start, of 10
	pre := 6
	switch prop {
	case "C06", "C12":
		pre = 2
	case "C07", "C08":
		pre = 4
	}
	return func(t *rapid.T) seqPlan {
		var p seqPlan
		p.Sync = rapid.Bool().Draw(t, "sync")
		p.FireAll = rapid.IntRange(0, 4).Draw(t, "fireall") == 0
		nNS := rapid.IntRange(1, 3).Draw(t, "nns")
		used := map[string]bool{}
		for i := 0; i < nNS; i++ {
			s := seqSpace{Name: rapid.SampledFrom(nsPool).Draw(t, "ns"), Srv: true, Cli: true, SrvEv: -1, CliEv: -1}
			if used[s.Name] {
				continue
			}
			used[s.Name] = true
			switch rapid.IntRange(0, 7).Draw(t, "decl") {
			case 0:
				s.Srv = false
			case 1:
				s.Cli = false
			}
			if prop == "C20" || rapid.IntRange(0, 3).Draw(t, "sparse") == 0 {
				s.SrvEv = rapid.IntRange(0, 1<<16-1).Draw(t, "sev")
				s.CliEv = rapid.IntRange(0, 1<<16-1).Draw(t, "cev")
			}
			// "undeclared" is never declared
			s.SrvEv &= (1<<16 - 1) &^ (1 << 4)
			s.CliEv &= (1<<16 - 1) &^ (1 << 4)
			if rapid.Bool().Draw(t, "noany") {
				s.SrvEv &^= 1 << 8
			}
			if rapid.Bool().Draw(t, "noanyc") {
				s.CliEv &^= 1 << 8
			}
			p.Spaces = append(p.Spaces, s)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nr"); i < n; i++ {
			r := rapid.SampledFrom(roomPool).Draw(t, "room")
			dup := false
			for _, x := range p.Rooms {
				dup = dup || x == r
			}
			if !dup {
				p.Rooms = append(p.Rooms, r)
			}
		}
		minC, maxC := 1, 2
		switch prop {
		case "C11", "C12", "C14":
			minC, maxC = 1, 4
		case "C10":
			maxC = 3
		}
		for i, n := 0, rapid.IntRange(minC, maxC).Draw(t, "nc"); i < n; i++ {
			c := seqConn{ID: rapid.SampledFrom(idPool).Draw(t, "id"), Up: genDir(t, "up"), Down: genDir(t, "down")}
			if prop == "C12" || prop == "C10" {
				c.Refuse = rapid.IntRange(0, 5).Draw(t, "refuse") == 0
			}
			p.Conns = append(p.Conns, c)
		}
		p.CbDelay = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 50, 3000}), 0, 3).Draw(t, "cb")
		gop := rapid.Custom(func(t *rapid.T) seqOp {
			o := seqOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), C: rapid.IntRange(0, 3).Draw(t, "c"), S: rapid.Bool().Draw(t, "s"), N: rapid.IntRange(0, 2).Draw(t, "n")}
			switch o.K {
			case "join", "leave":
				o.R = rapid.IntRange(0, 2).Draw(t, "r")
				o.X = rapid.IntRange(0, 3).Draw(t, "x")
			case "refuse":
				o.R = rapid.IntRange(0, 2).Draw(t, "r")
				o.E = rapid.IntRange(0, 3).Draw(t, "e")
				o.X = rapid.IntRange(0, 9).Draw(t, "x")
			case "emit", "ask":
				o.R = rapid.IntRange(0, 5).Draw(t, "r")
				o.E = rapid.IntRange(0, 4).Draw(t, "e")
				o.B = genBody(t)
				o.Bin = rapid.Bool().Draw(t, "bin")
				o.Via = rapid.IntRange(0, 3).Draw(t, "via")
				o.X = rapid.IntRange(0, 3).Draw(t, "x")
			case "broadcast":
				o.R = rapid.IntRange(0, 2).Draw(t, "r")
				o.X = rapid.IntRange(0, 6).Draw(t, "x")
				for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nm"); i < n; i++ {
					o.Msgs = append(o.Msgs, bcMsg{N: rapid.IntRange(0, 2).Draw(t, "n"), R: rapid.IntRange(0, 5).Draw(t, "r"), E: rapid.IntRange(0, 4).Draw(t, "e"), To: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "to"), B: genBody(t), Bin: rapid.Bool().Draw(t, "bin")})
				}
			case "serverask":
				o.R = rapid.SampledFrom([]int{0, 0, 1, 3, 5}).Draw(t, "r")
				o.E = rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "e")
				o.B = genBody(t)
				o.Bin = rapid.Bool().Draw(t, "bin")
				o.X = rapid.IntRange(0, 1).Draw(t, "x")
			default:
				o.Via = rapid.IntRange(0, 1).Draw(t, "via")
				o.X = rapid.IntRange(0, 4).Draw(t, "x")
			}
			return o
		})
		// everything starts from some dials
		for i := range p.Conns {
			if rapid.IntRange(0, 7).Draw(t, "pre") > 0 {
				p.Ops = append(p.Ops, seqOp{K: "dial", C: i})
			}
		}
		for i := range p.Conns {
			for j := range p.Spaces {
				if rapid.IntRange(0, 9).Draw(t, "prens") < pre {
					p.Ops = append(p.Ops, seqOp{K: "connect", C: i, N: j, S: rapid.IntRange(0, 3).Draw(t, "presrv") == 0})
					if rapid.IntRange(0, 9).Draw(t, "prejoin") < pre {
						p.Ops = append(p.Ops, seqOp{K: "join", C: i, N: j, R: rapid.IntRange(0, 2).Draw(t, "preroom"), S: rapid.IntRange(0, 3).Draw(t, "prejsrv") == 0})
					}
				}
			}
		}
		if rapid.IntRange(0, 59).Draw(t, "manyrooms") == 0 {
			c, n, s := rapid.IntRange(0, len(p.Conns)-1).Draw(t, "mc"), rapid.IntRange(0, 2).Draw(t, "mn"), rapid.Bool().Draw(t, "ms")
			p.Ops = append(p.Ops, seqOp{K: "connect", C: c, N: n, S: s})
			for i, k := 0, rapid.SampledFrom([]int{5, 20, 40}).Draw(t, "mr"); i < k; i++ {
				p.Ops = append(p.Ops, seqOp{K: "join", C: c, N: n, R: len(p.Rooms), S: s})
				p.Rooms = append(p.Rooms, fmt.Sprint("room", i))
			}
		}
		n := rapid.SampledFrom(lens).Draw(t, "nops")
		p.Ops = append(p.Ops, rapid.SliceOfN(gop, n, n).Draw(t, "ops")...)
		return p
	}
}

func tagMatches(prop, tag string) bool {
	if strings.HasPrefix(tag, "hang") {
		return true
	}
	for _, t := range seqTags[prop] {
		if strings.HasPrefix(tag, t) {
			return true
		}
	}
	return false
}
