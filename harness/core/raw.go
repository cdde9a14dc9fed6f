package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// Raw peers: the check itself sits at the other end of a link and speaks (or
// violates) the wire format: wait;namespace;room;event;isError;isNoOp;body.

const (
	sepText = "@%!semicolon@%!"
	evCon   = "_OnNamespaceConnect"
	evDis   = "_OnNamespaceDisconnect"
	evJoin  = "_OnRoomJoin"
	evLeave = "_OnRoomLeave"
)

func esc(s string) string   { return strings.ReplaceAll(s, ";", sepText) }
func unesc(s string) string { return strings.ReplaceAll(s, sepText, ";") }

func wire(wait, ns, room, event, body string) []byte {
	return []byte(wait + ";" + esc(ns) + ";" + esc(room) + ";" + esc(event) + ";0;0;" + body)
}

// fields splits a wire message, nil if it is not one.
func fields(b []byte) []string {
	f := strings.SplitN(string(b), ";", 7)
	if len(f) != 7 {
		return nil
	}
	for i := 1; i <= 3; i++ {
		f[i] = unesc(f[i])
	}
	return f
}

type rawPeer struct {
	end *sim.End
	mu  sync.Mutex
	in  []sim.Frame
	err error
	// auto, if set, answers a received frame.
	auto func(f []string) []byte
}

func newRaw(e *sim.End) *rawPeer {
	r := &rawPeer{end: e}
	go func() {
		for {
			b, typ, err := e.ReadData(0)
			r.mu.Lock()
			if err != nil {
				r.err = err
				r.mu.Unlock()
				return
			}
			r.in = append(r.in, sim.Frame{Typ: typ, Data: b})
			auto := r.auto
			r.mu.Unlock()
			if auto != nil {
				if f := fields(b); f != nil {
					if out := auto(f); out != nil {
						e.WriteText(out, 0)
					}
				}
			}
		}
	}()
	return r
}

func (r *rawPeer) send(b []byte, bin bool) error {
	if bin {
		return r.end.WriteBinary(b, 0)
	}
	return r.end.WriteText(b, 0)
}

func (r *rawPeer) frames() []sim.Frame {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]sim.Frame(nil), r.in...)
}

func (r *rawPeer) ended() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.err != nil
}

// replies returns the frames with that wait token.
func (r *rawPeer) replies(wait string) (out []string) {
	for _, f := range r.frames() {
		if x := fields(f.Data); x != nil && x[0] == wait {
			out = append(out, string(f.Data))
		}
	}
	return
}

type rawFrame struct {
	D    int    `json:",omitempty"` // µs before it
	Data []byte `json:",omitempty"`
	Bin  bool   `json:",omitempty"`
}

// ---- C02 ----

type c02Plan struct {
	Client  bool // the victim is the Go client
	Native  bool // native messages are allowed in the empty namespace
	ID      string
	ConnD   int
	Refuse  bool
	Ack     int // position of the acknowledgement in the script, -1: at the end
	Script  []rawFrame
	Up      sim.Dir
	Witness int // asks of the witness while the script runs
}

var c02NS = []string{"", "a", "a;b", "b"}

func genHostile(client bool) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		waits := []string{"", "", "$1", "$", "#1", "#", "1", "1-1", "!", "$!1", "#!1", "1!1", "neffos(0x1)", "neffos(0x", "\x00", "$v1"}
		nss := []string{"", "a", "a;b", "b", "A", "zz", "a@%!semicolon@%!b", "a ", "\xff"}
		rooms := []string{"", "", "r", "r;1", "\x00"}
		evs := []string{"u", "u", evCon, evCon, evCon, evDis, evJoin, evLeave, "_OnNamespaceConnected", "_OnRoomJoined", "_OnRoomLeft", "_OnAnyEvent", "_OnNativeMessage", "nope", ""}
		flags := []string{"0", "0", "0", "1", "2", "", "x", "00"}
		bodies := []string{"", "b", ";;;;;;;", "M", "A9", "Hno", "bad namespace", "\x00\xff", strings.Repeat("z", 3000)}
		pick := func(l []string, n string) string { return rapid.SampledFrom(l).Draw(t, n) }
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0:
			return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		case 1:
			return []byte(pick([]string{"M", "A", "H", "Aforged", "Hforged", "M;;;;;;", "A;;;;;;", "MM", "AM", "\x00"}, "ack"))
		case 2: // any number of fields
			n := rapid.IntRange(0, 9).Draw(t, "n")
			var f []string
			for i := 0; i < n; i++ {
				f = append(f, pick([]string{"", "a", "u", "0", "1", evCon, "$1", "x"}, "f"))
			}
			return []byte(strings.Join(f, ";"))
		case 3: // a mutated valid message
			b := []byte(pick(waits, "w") + ";" + esc(pick(nss, "ns")) + ";" + pick(rooms, "r") + ";" + pick(evs, "e") + ";0;0;" + pick(bodies, "b"))
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "muts"); i < n && len(b) > 0; i++ {
				at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "mut") {
				case 0:
					b[at] = rapid.SampledFrom([]byte(";01$#!M_a\x00\xff")).Draw(t, "c")
				case 1:
					b = append(b[:at:at], b[at+1:]...)
				case 2:
					b = b[:at]
				}
			}
			return b
		case 4, 5: // plausible requests
			w := "$h" + fmt.Sprint(rapid.IntRange(0, 5).Draw(t, "w"))
			if client {
				w = w[1:]
			}
			return wire(w, pick([]string{"", "a", "a;b", "b", "zz"}, "ns"), pick(rooms, "r"), pick([]string{evCon, evCon, evCon, evDis, evJoin, evLeave, "u", "nope"}, "e"), pick(bodies, "b"))
		default:
			return []byte(pick(waits, "w") + ";" + esc(pick(nss, "ns")) + ";" + esc(pick(rooms, "r")) + ";" + esc(pick(evs, "e")) + ";" + pick(flags, "ie") + ";" + pick(flags, "no") + ";" + pick(bodies, "b"))
		}
	})
}

func genC02(t *rapid.T) c02Plan {
	p := c02Plan{
		Client: rapid.IntRange(0, 2).Draw(t, "victim") == 0,
		Native: rapid.Bool().Draw(t, "native"),
		ID:     rapid.SampledFrom([]string{"real", "u;1", "forged"}).Draw(t, "id"),
		ConnD:  rapid.SampledFrom([]int{0, 0, 1000, 20000}).Draw(t, "cd"),
		Refuse: rapid.IntRange(0, 7).Draw(t, "refuse") == 0,
		Up:     genDir(t, "up"),
	}
	n := rapid.SampledFrom([]int{1, 2, 4, 8, 16, 40}).Draw(t, "n")
	g := genHostile(p.Client)
	for i := 0; i < n; i++ {
		p.Script = append(p.Script, rawFrame{D: rapid.SampledFrom([]int{0, 0, 0, 500, 5000}).Draw(t, "d"), Data: g.Draw(t, "f"), Bin: rapid.Bool().Draw(t, "bin")})
	}
	p.Ack = rapid.SampledFrom([]int{0, 0, n / 2, n, -1}).Draw(t, "ack")
	p.Witness = rapid.IntRange(0, 3).Draw(t, "wit")
	return p
}

// c02Log records the callbacks of the attacked side.
type c02Log struct {
	mu       sync.Mutex
	accepted bool
	connSent map[string]bool // namespaces a connect request was sent for
	sent     map[string]bool // the messages that were sent, see msgKey
	raw      map[string]bool // the payloads that were sent, with native messages allowed
	bad      []string
	users    []string
	count    int
}

func (l *c02Log) badf(format string, args ...any) {
	if len(l.bad) < 10 {
		l.bad = append(l.bad, fmt.Sprintf(format, args...))
	}
}

func (l *c02Log) handlers(native bool, mine func(*neffos.NSConn) bool) neffos.Namespaces {
	out := neffos.Namespaces{}
	for _, name := range c02NS {
		name := name
		ev := neffos.Events{}
		h := func(c *neffos.NSConn, m neffos.Message) error {
			l.mu.Lock()
			defer l.mu.Unlock()
			if mine(c) {
				l.count++
				if !l.accepted {
					l.badf("a callback ran before the connection was accepted: %s in %q, body %q", m.Event, name, m.Body)
				}
				if !l.connSent[name] {
					l.badf("a callback ran for namespace %q although its peer never asked to connect to it: %s, body %q", name, m.Event, m.Body)
				}
				if m.Namespace != name {
					l.badf("a message for namespace %q was given to %q", m.Namespace, name)
				}
				switch m.Event {
				case neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect:
				default:
					if c.Conn.Namespace(name) != c && !m.IsForced {
						l.badf("a callback ran while namespace %q is not connected: %s", name, m.Event)
					}
				}
				if !isSys(m.Event) {
					ok := l.sent[msgKey(name, m.Room, m.Event, string(m.Body))] && (native || !m.IsNative)
					if !ok && m.IsNative && native {
						ok = m.Room == "" && l.raw[string(m.Body)]
					}
					if !ok {
						l.badf("a callback ran for what is not a message its peer sent: event %q, namespace %q, room %q, body %q", m.Event, name, m.Room, m.Body)
					}
				}
			}
			if m.Event == "u" {
				if mine(c) {
					l.users = append(l.users, name+"|"+m.Room+"|"+string(m.Body))
				}
				return neffos.Reply(append([]byte("re:"), m.Body...))
			}
			return nil
		}
		for _, s := range sysEvents {
			ev[s] = h
		}
		ev["u"] = h
		if name != "b" {
			ev[neffos.OnAnyEvent] = func(c *neffos.NSConn, m neffos.Message) error { h(c, m); return nil }
		}
		if name == "" && native {
			ev[neffos.OnNativeMessage] = func(c *neffos.NSConn, m neffos.Message) error { h(c, m); return nil }
		}
		out[name] = ev
	}
	return out
}

func (l *c02Log) note(b []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.sent == nil {
		l.sent, l.raw = map[string]bool{}, map[string]bool{}
	}
	f := fields(b)
	if f == nil {
		l.raw[string(b)] = true
		return
	}
	if f[3] == evCon {
		l.connSent[f[1]] = true
	}
	if f[4] == "1" {
		f[6] = ""
	}
	l.sent[msgKey(f[1], f[2], f[3], f[6])] = true
}

func msgKey(ns, room, event, body string) string {
	return fmt.Sprintf("%q %q %q %q", ns, room, event, body)
}

func isSys(event string) bool {
	for _, s := range sysEvents {
		if s == event {
			return true
		}
	}
	return false
}

func runC02(p c02Plan, res *kit.Result) {
	if p.Client {
		runC02Client(p, res)
		return
	}
	log := &c02Log{connSent: map[string]bool{}}
	var conn *neffos.Conn
	mine := func(c *neffos.NSConn) bool { return c.Conn.ID() != "witness" }
	w := NewWorld(log.handlers(p.Native, mine))
	returned := false
	w.S.OnConnect = func(c *neffos.Conn) error {
		if c.ID() == "witness" {
			return nil
		}
		log.mu.Lock()
		conn = c
		log.mu.Unlock()
		time.Sleep(us(p.ConnD))
		log.mu.Lock()
		defer log.mu.Unlock()
		returned = true
		if p.Refuse {
			return errors.New("no entry")
		}
		log.accepted = true
		return nil
	}
	// the witness
	var wit *neffos.NSConn
	if !call(opLimit, func() {
		cli, _, _, err := w.Dial("witness", neffos.Namespaces{"a": neffos.Events{}}, sim.Dir{}, sim.Dir{})
		if err == nil {
			wit, err = cli.Connect(context.Background(), "a")
		}
		if err != nil {
			res.Violatef("the witness can not connect: %v", err)
		}
	}) || wit == nil {
		return
	}
	asks := 0
	ask := func() {
		asks++
		body := fmt.Sprint("w", asks)
		var m neffos.Message
		var err error
		if !call(opLimit, func() { m, err = wit.Ask(context.Background(), "u", []byte(body)) }) {
			res.Violatef("an Ask of another connection is not answered")
		} else if err != nil || string(m.Body) != "re:"+body {
			res.Violatef("an Ask of another connection returned %q, %v", m.Body, err)
		}
	}
	l := sim.NewLink(p.Up, sim.Dir{}, false)
	r := newRaw(l.A)
	acc := w.Accept(l, p.ID)
	acked, handled := false, 0
	sendAck := func() {
		if !acked {
			acked = true
			r.send([]byte("M"), false)
		}
	}
	for i, f := range p.Script {
		if i == p.Ack {
			sendAck()
		}
		if f.D > 0 {
			time.Sleep(us(f.D))
		}
		log.note(f.Data)
		if len(f.Data) > 0 && f.Data[0] == 'M' {
			acked = true
		}
		r.send(f.Data, f.Bin)
		if p.Witness > 0 && i == len(p.Script)/2 {
			ask()
		}
		handled++
	}
	sendAck()
	Settle(time.Minute)
	select {
	case <-acc:
	default:
		res.Violatef("Upgrade has not returned")
		l.Cut()
		return
	}
	if p.Refuse {
		if !returned {
			res.Violatef("OnConnect has not run")
		}
		if got := r.frames(); len(got) != 1 || string(got[0].Data) != "Hno entry" {
			res.Violatef("the refused peer received %d frames, first %q", len(got), first(got))
		}
		if !r.ended() {
			res.Violatef("the refused connection is still open")
		}
		if n := w.S.GetTotalConnections(); n != 1 {
			res.Violatef("%d connections are registered, want the witness only", n)
		}
	} else {
		log.note(wire("$v1", "a", "", evCon, ""))
		log.note(wire("$v2", "a", "", "u", "ping;0;1;"))
		log.note(wire("", "a", "", "u", "last"))
		r.send(wire("$v1", "a", "", evCon, ""), false)
		r.send(wire("$v2", "a", "", "u", "ping;0;1;"), true)
		r.send(wire("", "a", "", "u", "last"), false)
		Settle(time.Minute)
		if r.ended() || conn.IsClosed() {
			res.Violatef("the connection was closed because of what the peer sent")
		}
		if conn.ID() != p.ID {
			res.Violatef("the peer changed its connection ID from %q to %q", p.ID, conn.ID())
		}
		got := r.frames()
		if len(got) == 0 || string(got[0].Data) != "A"+p.ID {
			res.Violatef("the first frame of the server is %q, want the acknowledgement with ID %q", first(got), p.ID)
		}
		if x := r.replies("$v1"); len(x) == 0 || fields([]byte(x[len(x)-1]))[4] == "1" {
			res.Violatef("a valid connect request was answered with %q", x)
		}
		if x := r.replies("$v2"); len(x) != 1 || x[0] != string(wire("$v2", "a", "", "u", "re:ping;0;1;")) {
			res.Violatef("a valid ask was answered with %q", x)
		}
		log.mu.Lock()
		if n := len(log.users); n == 0 || log.users[n-1] != "a||last" {
			res.Violatef("a valid message was not handled last: %q", log.users)
		}
		log.mu.Unlock()
		if n := w.S.GetTotalConnections(); n != 2 {
			res.Violatef("%d connections are registered, want 2", n)
		}
	}
	for i := 0; i < p.Witness; i++ {
		ask()
	}
	log.mu.Lock()
	for _, b := range log.bad {
		res.Violatef("%s", b)
	}
	res.NonTrivial = handled > 1 && (log.count > 3 || p.ConnD > 0)
	log.mu.Unlock()
	w.Shutdown()
}

func first(l []sim.Frame) string {
	if len(l) == 0 {
		return ""
	}
	return string(l[0].Data)
}

func runC02Client(p c02Plan, res *kit.Result) {
	log := &c02Log{connSent: map[string]bool{}, accepted: true}
	l := sim.NewLink(sim.Dir{}, p.Up, false)
	r := newRaw(l.B)
	var cli *neffos.Client
	var derr error
	done := make(chan struct{})
	go func() {
		defer close(done)
		cli, derr = neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) { return l.A, nil }, "sim",
			log.handlers(p.Native, func(*neffos.NSConn) bool { return true }))
	}()
	verdict := ""
	emit := func(f rawFrame) {
		log.note(f.Data)
		if verdict == "" && len(f.Data) > 0 && (f.Data[0] == 'A' || f.Data[0] == 'H') {
			verdict = string(f.Data)
		}
		r.send(f.Data, f.Bin)
	}
	for i, f := range p.Script {
		if i == p.Ack && verdict == "" {
			emit(rawFrame{Data: []byte("A" + p.ID)})
		}
		if f.D > 0 {
			time.Sleep(us(f.D))
		}
		emit(f)
	}
	if verdict == "" {
		emit(rawFrame{Data: []byte("A" + p.ID)})
	}
	Settle(time.Minute)
	select {
	case <-done:
	default:
		res.Violatef("Dial has not returned after the verdict %q", verdict)
		l.Cut()
		return
	}
	if verdict[0] == 'H' {
		// (the hostile server may refuse before the client has introduced itself:
		// then the client's write may find the connection closed)
		if derr == nil || (derr.Error() != verdict[1:] && derr != neffos.ErrWrite) {
			res.Violatef("Dial returned %v, the server refused with %q", derr, verdict[1:])
		}
		l.Cut()
		return
	}
	if derr != nil || cli.ID != verdict[1:] {
		res.Violatef("Dial returned %v, ID %q; the server accepted with ID %q", derr, idOf(cli), verdict[1:])
		l.Cut()
		return
	}
	r.mu.Lock()
	r.auto = func(f []string) []byte {
		if strings.HasPrefix(f[0], "$") {
			return []byte(f[0] + ";;;;;;")
		}
		return nil
	}
	r.mu.Unlock()
	log.note(wire("$", "a", "", evCon, "")) // the client's own request
	var ns *neffos.NSConn
	var err error
	if !call(opLimit, func() { ns, err = cli.Connect(context.Background(), "a") }) || err != nil || ns == nil {
		res.Violatef("a Connect after the hostile messages failed: %v", err)
		l.Cut()
		return
	}
	log.note(wire("", "a", "", "u", "last"))
	log.note(wire("v2", "a", "", "u", "ping"))
	r.send(wire("", "a", "", "u", "last"), false)
	r.send(wire("v2", "a", "", "u", "ping"), false)
	Settle(time.Minute)
	log.mu.Lock()
	if n := len(log.users); n < 2 || log.users[n-2] != "a||last" || log.users[n-1] != "a||ping" {
		res.Violatef("valid messages were not handled last: %q", log.users)
	}
	if x := r.replies("v2"); len(x) != 1 || x[0] != string(wire("v2", "a", "", "u", "re:ping")) {
		res.Violatef("a valid ask was answered with %q", x)
	}
	if ns.Conn.ID() != verdict[1:] {
		res.Violatef("the client's ID is %q, want %q", ns.Conn.ID(), verdict[1:])
	}
	for _, b := range log.bad {
		res.Violatef("%s", b)
	}
	res.NonTrivial = len(p.Script) > 1 && log.count > 4
	log.mu.Unlock()
	cli.Close()
	l.Cut()
	time.Sleep(time.Second)
}

func idOf(c *neffos.Client) string {
	if c == nil {
		return "(no client)"
	}
	return c.ID
}

// ---- C13 ----

type c13Plan struct {
	Go     bool // a Go client, else a raw peer
	ID     string
	ConnD  int
	Refuse bool
	Text   string
	Act    int   // what OnConnect does: 0 nothing, 1 connects the client to "a", 2 also emits into it, 3 tries to connect it within ActTO, and refuses
	ActTO  int   `json:",omitempty"` // µs
	Bc     []int // broadcasts made by others at these times (µs)
	Early  []c13Msg
	AckAt  int    // raw: position of the acknowledgement among the early messages
	Fault  int    `json:",omitempty"` // Go client: 1 the dialer fails, 2 the client has no handler, 3 the link breaks after CutAt, 4 OnConnect closes the connection
	CutAt  int    `json:",omitempty"` // µs
	URL    string `json:",omitempty"`
	Up     sim.Dir
	Down   sim.Dir
	Sync   bool
}

type c13Msg struct {
	D  int `json:",omitempty"`
	K  int // 0 connect, 1 emit, 2 ask, 3 garbage, 4 another acknowledgement
	NS int
	B  int
}

var c13NS = []string{"a", "b;c", ""}

func genC13(t *rapid.T) c13Plan {
	p := c13Plan{
		Go:     rapid.Bool().Draw(t, "go"),
		ID:     rapid.SampledFrom([]string{"u1", "id;0;1", "A", "H", "M", "neffos(0x1)", "日本", " ", "$1"}).Draw(t, "id"),
		ConnD:  rapid.SampledFrom([]int{0, 100, 5000, 50000, 3000000, 0, 100, 5000, 50000, 25000000}).Draw(t, "cd"),
		Refuse: rapid.IntRange(0, 2).Draw(t, "refuse") == 0,
		Text:   rapid.SampledFrom([]string{"no", "no;entry;0;1;", "M", "bad namespace", " ", "日本", "A1"}).Draw(t, "text"),
		Up:     genDir(t, "up"), Down: genDir(t, "down"),
		Sync: rapid.Bool().Draw(t, "sync"),
	}
	if p.Go {
		if p.Act = rapid.IntRange(0, 3).Draw(t, "act"); p.Act == 3 {
			p.Refuse, p.ActTO = true, rapid.SampledFrom([]int{1, 100, 3000, 30000}).Draw(t, "actto")
		}
		if p.Fault = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 3, 4}).Draw(t, "fault"); p.Fault > 0 {
			p.CutAt = rapid.SampledFrom([]int{0, 50, 1000, 6000, 60000, 3000000}).Draw(t, "cut")
			p.URL = rapid.SampledFrom([]string{"sim", "ws://sim", "wss://sim:1/x?y=1", "localhost:80/ws://", ""}).Draw(t, "url")
		}
	}
	p.Bc = rapid.SliceOfN(rapid.SampledFrom([]int{0, 50, 1000, 4000, 40000}), 0, 2).Draw(t, "bc")
	if !p.Go {
		n := rapid.SampledFrom([]int{0, 1, 3, 6, 12, 0, 1, 3, 6, 12, 0, 1, 3, 6, 12, 0, 1, 3, 6, 12, 0, 1, 3, 6, 12, 0, 1, 3, 6, 12, 150}).Draw(t, "n")
		for i := 0; i < n; i++ {
			p.Early = append(p.Early, c13Msg{D: rapid.SampledFrom([]int{0, 0, 0, 1000, 30000}).Draw(t, "d"), K: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "k"), NS: rapid.IntRange(0, 2).Draw(t, "ns"), B: i})
		}
		p.AckAt = rapid.IntRange(0, n).Draw(t, "ackat")
		for i := 0; i < p.AckAt; i++ { // before the acknowledgement there is no other one
			if p.Early[i].K == 4 {
				p.Early[i].K = 1
			}
		}
	}
	return p
}

// runC13Fault: a Dial that something goes wrong with returns, with an error
// unless the server has accepted it, and leaves nothing behind.
func runC13Fault(p c13Plan, res *kit.Result) {
	var mu sync.Mutex
	accepted, fired := false, ""
	refusal := errors.New(p.Text)
	bad := errors.New("can not reach " + p.Text)
	handler := func(side string) neffos.Namespaces {
		h := func(c *neffos.NSConn, m neffos.Message) error {
			mu.Lock()
			defer mu.Unlock()
			if !accepted && c.Conn.ID() != "other" {
				fired = side + " " + m.Event
			}
			return nil
		}
		return neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceConnect: h, neffos.OnNamespaceConnected: h, neffos.OnNamespaceDisconnect: h, neffos.OnAnyEvent: h}}
	}
	w := NewWorld(handler("server"))
	w.S.SyncBroadcaster = p.Sync
	var sconn *neffos.Conn
	w.S.OnConnect = func(c *neffos.Conn) error {
		if c.ID() == "other" {
			return nil
		}
		mu.Lock()
		sconn = c
		mu.Unlock()
		time.Sleep(us(p.ConnD))
		if p.Fault == 4 {
			c.Close()
		}
		mu.Lock()
		defer mu.Unlock()
		if p.Refuse {
			return refusal
		}
		accepted = true
		return nil
	}
	l := sim.NewLink(p.Up, p.Down, false)
	var h neffos.ConnHandler = handler("client")
	if p.Fault == 2 {
		h = nil
	}
	url := ""
	var cli *neffos.Client
	var err error
	if !call(opLimit, func() {
		cli, err = neffos.Dial(nil, func(ctx context.Context, u string) (neffos.Socket, error) {
			url = u
			if ctx == nil {
				res.Violatef("the dialer got no context")
			}
			if p.Fault == 1 {
				return nil, bad
			}
			w.Accept(l, p.ID)
			if p.Fault == 3 {
				time.AfterFunc(us(p.CutAt), l.Cut)
			}
			return l.A, nil
		}, p.URL, h)
	}) {
		res.Violatef("Dial does not return")
		l.Cut()
		Settle(time.Minute)
		w.Shutdown()
		return
	}
	res.NonTrivial = true
	if want := p.URL; url != want && url != "ws://"+want || !strings.HasPrefix(url, "ws://") && !strings.HasPrefix(url, "wss://") {
		res.Violatef("the dialer was given %q for %q", url, p.URL)
	}
	mu.Lock()
	acc := accepted
	mu.Unlock()
	if (err == nil) != (cli != nil) {
		res.Violatef("Dial returned %v and the error %v", cli, err)
	}
	if err == nil && !acc {
		res.Violatef("Dial returned a client that was not accepted")
	}
	switch p.Fault {
	case 1:
		if err != bad {
			res.Violatef("Dial returned the error %v, the dialer %v", err, bad)
		}
	case 2:
		if p.Refuse && (err == nil || err.Error() != p.Text) || !p.Refuse && err != nil {
			res.Violatef("Dial of a client without handlers returned %v", err)
		}
		if cli != nil {
			if cli.ID != p.ID {
				res.Violatef("the client's ID is %q, want %q", cli.ID, p.ID)
			}
			if !call(opLimit, func() { _, err = cli.Connect(context.Background(), "a") }) || err != neffos.ErrBadNamespace {
				res.Violatef("a client without handlers connects: %v", err)
			}
			Settle(time.Minute)
			if n := w.S.GetTotalConnections(); n != 1 {
				res.Violatef("%d connections, want 1", n)
			}
			cli.Close()
		}
	}
	Settle(time.Minute)
	if cli != nil {
		select {
		case <-cli.NotifyClose:
		default:
			res.Violatef("the client was not told that its connection has ended")
		}
	}
	if p.Fault != 1 && (sconn == nil || !sconn.IsClosed() || !l.A.IsClosed() || !l.B.IsClosed()) {
		res.Violatef("the connection was not closed on both sides")
	}
	mu.Lock()
	if fired != "" {
		res.Violatef("a callback ran for a connection that was not accepted: %s", fired)
	}
	mu.Unlock()
	if n := w.S.GetTotalConnections(); n != 0 {
		res.Violatef("%d connections, want 0", n)
	}
	// others are not affected
	if !call(opLimit, func() {
		var c *neffos.Client
		if c, _, _, err = w.Dial("other", handler("client"), sim.Dir{}, sim.Dir{}); err == nil {
			_, err = c.Connect(context.Background(), "a")
		}
	}) || err != nil {
		res.Violatef("another client can not connect: %v", err)
	}
	w.Shutdown()
}

func runC13(p c13Plan, res *kit.Result) {
	if p.Go && p.Fault > 0 {
		runC13Fault(p, res)
		return
	}
	var mu sync.Mutex
	var log []string
	accepted, returned := false, false
	var sconn *neffos.Conn
	early := ""
	handler := func(side string) neffos.Namespaces {
		out := neffos.Namespaces{}
		for _, ns := range c13NS {
			ns := ns
			ev := neffos.Events{}
			h := func(c *neffos.NSConn, m neffos.Message) error {
				if c.Conn.ID() == "other" {
					return nil
				}
				mu.Lock()
				defer mu.Unlock()
				if !accepted {
					early = fmt.Sprintf("%s %s in %q", side, m.Event, ns)
				}
				if c.Conn.ID() != p.ID {
					early = fmt.Sprintf("%s has ID %q", side, c.Conn.ID())
				}
				log = append(log, fmt.Sprintf("%s %s %s %s", side, m.Event, m.Namespace, m.Body))
				if m.Event == "u" && side == "server" {
					return neffos.Reply(append([]byte("re:"), m.Body...))
				}
				return nil
			}
			for _, e := range []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, "u", neffos.OnAnyEvent} {
				ev[e] = h
			}
			out[ns] = ev
		}
		return out
	}
	w := NewWorld(handler("server"))
	w.S.SyncBroadcaster = p.Sync
	w.S.OnConnect = func(c *neffos.Conn) error {
		if c.ID() == "other" {
			return nil
		}
		mu.Lock()
		sconn = c
		if p.Act > 0 {
			accepted = true
		}
		mu.Unlock()
		if c.ID() != p.ID {
			res.Violatef("the server's ID is %q, the generator produced %q", c.ID(), p.ID)
		}
		time.Sleep(us(p.ConnD))
		if p.Act == 3 {
			ctx, cancel := context.WithTimeout(context.Background(), us(p.ActTO))
			c.Connect(ctx, "a")
			cancel()
		} else if p.Act > 0 {
			ns, err := c.Connect(nil, "a")
			if err != nil || ns == nil {
				res.Violatef("Connect inside of OnConnect failed: %v", err)
			} else if p.Act == 2 && !ns.Emit("u", []byte("hello")) {
				res.Violatef("an Emit inside of OnConnect failed")
			}
		}
		mu.Lock()
		defer mu.Unlock()
		returned = true
		if p.Refuse {
			return errors.New(p.Text)
		}
		accepted = true
		return nil
	}
	for _, at := range p.Bc {
		at := at
		go func() {
			time.Sleep(us(at))
			w.S.Broadcast(nil, neffos.Message{Namespace: "a", Event: "bc", Body: []byte("x")})
		}()
	}
	finish := func() {
		mu.Lock()
		if early != "" {
			res.Violatef("before acceptance: %s", early)
		}
		mu.Unlock()
		if len(res.Violations) > 0 {
			w.mu.Lock()
			for _, l := range w.links {
				l.Cut()
			}
			w.mu.Unlock()
		}
		w.Shutdown()
	}
	total := func(n uint64) {
		if g := w.S.GetTotalConnections(); g != n {
			res.Violatef("%d connections are registered, want %d", g, n)
		}
	}
	res.NonTrivial = p.ConnD > 0 || p.Refuse || len(p.Early) > 2
	if p.Go {
		var cli *neffos.Client
		var err error
		var l *sim.Link
		var acc <-chan acceptResult
		before := false
		if !call(opLimit, func() {
			cli, l, acc, err = w.Dial(p.ID, handler("client"), p.Up, p.Down)
			mu.Lock()
			before = p.Act == 0 && !returned
			mu.Unlock()
		}) {
			res.Violatef("Dial does not return")
			finish()
			return
		}
		if before {
			res.Violatef("Dial returned (error: %v) before OnConnect did", err)
		}
		Settle(time.Minute)
		select {
		case r := <-acc:
			if (r.err != nil) != p.Refuse || r.err != nil && (r.err.Error() != p.Text || r.c != nil) || r.err == nil && r.c != sconn {
				res.Violatef("Upgrade returned %v, %v (refused with %q: %v)", r.c, r.err, p.Text, p.Refuse)
			}
		default:
			res.Violatef("Upgrade has not returned")
		}
		if p.Refuse && p.Act > 0 {
			// OnConnect used the connection, then refused it: what Dial returned
			// depends on the timing, but the connection does not live on.
			Settle(time.Minute)
			if sconn == nil || !sconn.IsClosed() || !l.A.IsClosed() || !l.B.IsClosed() {
				res.Violatef("the connection that OnConnect used and then refused was not closed on both sides")
			}
			if cli != nil {
				var aerr error
				if !call(opLimit, func() { _, aerr = cli.Connect(context.Background(), "a") }) {
					res.Violatef("Connect of the refused client does not return")
				} else if aerr == nil {
					res.Violatef("the refused client can connect to a namespace")
				}
			}
			total(0)
			finish()
			return
		}
		if p.Refuse {
			Settle(time.Minute)
			if err == nil || err.Error() != p.Text {
				res.Violatef("Dial returned %v, OnConnect refused with %q", err, p.Text)
			}
			if cli != nil {
				res.Violatef("Dial returned a client although OnConnect refused")
			}
			if sconn == nil || !sconn.IsClosed() || !l.A.IsClosed() || !l.B.IsClosed() {
				res.Violatef("the refused connection was not closed on both sides")
			}
			mu.Lock()
			if len(log) > 0 {
				res.Violatef("callbacks ran for the refused connection: %q", log)
			}
			mu.Unlock()
			total(0)
			finish()
			return
		}
		if err != nil || cli == nil {
			res.Violatef("Dial failed although OnConnect accepted: %v", err)
			finish()
			return
		}
		if cli.ID != p.ID || sconn.ID() != p.ID {
			res.Violatef("client ID %q, server ID %q, generated %q", cli.ID, sconn.ID(), p.ID)
		}
		var ns *neffos.NSConn
		var m neffos.Message
		if !call(opLimit, func() {
			if p.Act > 0 {
				if ns, err = cli.WaitServerConnect(context.Background(), "a"); err != nil {
					return
				}
			} else if ns, err = cli.Connect(context.Background(), "a"); err != nil {
				return
			}
			m, err = ns.Ask(context.Background(), "u", []byte("q"))
		}) {
			res.Violatef("the accepted client can not be used")
		} else if err != nil || string(m.Body) != "re:q" {
			res.Violatef("the accepted client's Ask returned %q, %v", m.Body, err)
		}
		Settle(time.Minute)
		if p.Act == 2 {
			mu.Lock()
			n := 0
			for _, x := range log {
				if x == "client u a hello" {
					n++
				}
			}
			if n != 1 {
				res.Violatef("the message emitted inside of OnConnect arrived %d times: %q", n, log)
			}
			mu.Unlock()
		}
		total(1)
		finish()
		return
	}
	// raw peer
	l := sim.NewLink(p.Up, p.Down, false)
	r := newRaw(l.A)
	w.Accept(l, p.ID)
	var want, replies []string
	on := map[string]bool{}
	ack := func() { r.send([]byte("M"), false) }
	for i, e := range p.Early {
		if i == p.AckAt {
			ack()
		}
		if e.D > 0 {
			time.Sleep(us(e.D))
		}
		ns := c13NS[mod(e.NS, len(c13NS))]
		tok, body := fmt.Sprint("$t", i), fmt.Sprint("b", e.B)
		switch e.K {
		case 0:
			r.send(wire(tok, ns, "", evCon, ""), false)
			if !on[ns] {
				on[ns] = true
				want = append(want, "server _OnNamespaceConnect "+ns+" ", "server _OnNamespaceConnected "+ns+" ")
			}
			replies = append(replies, tok+";;;;;;")
		case 1:
			r.send(wire("", ns, "", "u", body), true)
			if on[ns] {
				want = append(want, "server u "+ns+" "+body)
				replies = append(replies, string(wire("", ns, "", "u", "re:"+body)))
			}
		case 2:
			r.send(wire(tok, ns, "", "u", body), false)
			if on[ns] {
				want = append(want, "server u "+ns+" "+body)
				replies = append(replies, string(wire(tok, ns, "", "u", "re:"+body)))
			} else {
				x := wire(tok, ns, "", "u", neffos.ErrBadNamespace.Error())
				replies = append(replies, strings.Replace(string(x), ";0;0;", ";1;0;", 1))
			}
		case 3:
			r.send([]byte("garbage;;"), false)
		case 4:
			r.send([]byte("M"), false)
		}
	}
	if p.AckAt >= len(p.Early) {
		ack()
	}
	Settle(time.Minute)
	synctest.Wait()
	var got []string
	for _, f := range r.frames() {
		if !bytes.HasPrefix(f.Data, []byte(";a;;bc;")) {
			got = append(got, string(f.Data))
		}
	}
	mu.Lock()
	if p.Refuse {
		if len(log) > 0 {
			res.Violatef("callbacks ran for the refused connection: %q", log)
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", []string{"H" + p.Text}) {
			res.Violatef("the refused peer received %q, want the refusal %q only", got, p.Text)
		}
		if !r.ended() || sconn == nil || !sconn.IsClosed() {
			res.Violatef("the refused connection was not closed")
		}
		total(0)
	} else {
		if fmt.Sprintf("%q", log) != fmt.Sprintf("%q", want) {
			res.Violatef("callbacks for the early messages:\n got %q\nwant %q", log, want)
		}
		replies = append([]string{"A" + p.ID}, replies...)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", replies) {
			res.Violatef("frames sent to the peer:\n got %q\nwant %q", got, replies)
		}
		total(1)
	}
	mu.Unlock()
	finish()
}

// ---- C15 ----

type c15Plan struct {
	Srv, Cli int // 0 native only, 1 native and others, 2 no native callback, 3 (client) raw peer, 4 native only, next to another namespace
	Ops      []c15Op
	Up, Down sim.Dir
	Sync     bool
}

type c15Op struct {
	S    bool // from the server
	K    int  // 0 native, 1 ordinary event, 2 native broadcast, 3 disconnect from or connect to the namespace
	Body []byte
	Bin  bool `json:",omitempty"`
	D    int  `json:",omitempty"`
	// ordinary events are sent in the namespace "other"
	Other bool `json:",omitempty"`
}

func genC15(t *rapid.T) c15Plan {
	p := c15Plan{Sync: rapid.Bool().Draw(t, "sync"), Up: genDir(t, "up"), Down: genDir(t, "down")}
	m := rapid.SampledFrom([][2]int{{0, 0}, {0, 3}, {1, 1}, {1, 3}, {1, 2}, {2, 3}, {2, 1}, {4, 4}, {4, 3}, {4, 1}, {1, 4}}).Draw(t, "modes")
	p.Srv, p.Cli = m[0], m[1]
	only := p.Srv == 0
	n := rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := c15Op{S: rapid.Bool().Draw(t, "s"), K: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "k"), Bin: rapid.Bool().Draw(t, "bin"), D: rapid.SampledFrom([]int{0, 0, 1000}).Draw(t, "d")}
		switch rapid.IntRange(0, 3).Draw(t, "bk") {
		case 0:
			o.Body = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "body")
		case 1:
			o.Body = []byte(rapid.SampledFrom([]string{"M", "A1", "Hx", "hello", ";", ";;;;;", "{\"a\":1}", "\x00", "_OnNativeMessage", " "}).Draw(t, "body"))
		case 2:
			o.Body = []byte(rapid.SampledFrom([]string{";;;;;;", "$1;;;u;0;0;x", ";;;_OnNamespaceConnect;0;0;", "1;a;b;c;1;1;;;;", ";;;u;0;0;abc", "neffos(0x1);;;u;0;0;z"}).Draw(t, "body"))
		case 3:
			o.Body = bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "c"))}, rapid.SampledFrom([]int{1, 125, 126, 5000}).Draw(t, "len"))
		}
		if !only && bytes.Count(o.Body, []byte(";")) >= 6 && o.K != 1 && o.K != 3 {
			o.K = 1 // it is in neffos format: not a native message
		}
		if only && (o.K == 1 || o.K == 3) {
			o.K = 0
		}
		if (p.Srv == 4 || p.Cli == 4) && o.K == 1 {
			o.Other = true
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runC15(p c15Plan, res *kit.Result) {
	var mu sync.Mutex
	logs := map[string][]string{}
	other := p.Srv == 4 || p.Cli == 4
	entry := func(native bool, body []byte, bin bool) string {
		return fmt.Sprintf("native=%v bin=%v %q", native, bin, body)
	}
	handler := func(side string, mode int) neffos.Namespaces {
		h := func(c *neffos.NSConn, m neffos.Message) error {
			mu.Lock()
			defer mu.Unlock()
			logs[side] = append(logs[side], entry(m.IsNative, m.Body, m.SetBinary))
			if m.IsNative != (m.Event == neffos.OnNativeMessage) || m.Namespace != "" && (m.IsNative || m.Namespace != "other" || !other) || m.Room != "" || m.Err != nil || m.IsLocal || m.IsForced {
				logs[side] = append(logs[side], fmt.Sprintf("strange message %#v", m))
			}
			return nil
		}
		ev := neffos.Events{}
		if mode != 2 {
			ev[neffos.OnNativeMessage] = h
		}
		if mode == 4 {
			return neffos.Namespaces{"": ev, "other": neffos.Events{"u": h}}
		}
		if mode != 0 {
			ev["u"] = h
			ev[neffos.OnNamespaceConnected] = func(c *neffos.NSConn, m neffos.Message) error {
				mu.Lock()
				defer mu.Unlock()
				return nil
			}
		}
		if other {
			return neffos.Namespaces{"": ev, "other": neffos.Events{"u": h}}
		}
		return neffos.Namespaces{"": ev}
	}
	w := NewWorld(handler("server", p.Srv))
	w.S.SyncBroadcaster = p.Sync
	var sconn *neffos.Conn
	w.S.OnConnect = func(c *neffos.Conn) error {
		mu.Lock()
		sconn = c
		mu.Unlock()
		return nil
	}
	var raw *rawPeer
	var cc *neffos.Conn
	abort := func(format string, args ...any) {
		res.Violatef(format, args...)
		w.mu.Lock()
		for _, l := range w.links {
			l.Cut()
		}
		w.mu.Unlock()
		time.Sleep(time.Minute)
	}
	if p.Cli == 3 {
		l := sim.NewLink(p.Up, p.Down, false)
		raw = newRaw(l.A)
		w.Accept(l, "u1")
		Settle(time.Second)
		if p.Srv != 0 {
			raw.send([]byte("M"), false)
			raw.send(wire("$1", "", "", evCon, ""), false)
		}
		Settle(time.Minute)
		if other {
			raw.send(wire("$2", "other", "", evCon, ""), false)
			Settle(time.Minute)
			if x := raw.replies("$2"); len(x) != 1 || x[0] != "$2;;;;;;" {
				abort("the raw peer can not connect to the other namespace: %q", x)
				return
			}
			raw.mu.Lock()
			raw.in = raw.in[:len(raw.in)-1]
			raw.mu.Unlock()
		}
		if p.Srv != 0 {
			if x := raw.frames(); len(x) != 2 || string(x[0].Data) != "Au1" || string(x[1].Data) != "$1;;;;;;" {
				abort("the raw peer can not connect: %q", x)
				return
			}
			raw.mu.Lock()
			raw.in = nil
			raw.mu.Unlock()
		}
	} else {
		var err error
		if !call(opLimit, func() {
			var cli *neffos.Client
			if cli, _, _, err = w.Dial("u1", handler("client", p.Cli), p.Up, p.Down); err == nil {
				var ns *neffos.NSConn
				if ns, err = cli.Connect(context.Background(), ""); err == nil {
					cc = ns.Conn
					if other {
						_, err = cli.Connect(context.Background(), "other")
					}
				}
			}
		}) || err != nil {
			abort("the client can not connect: %v", err)
			return
		}
		Settle(time.Minute)
	}
	mu.Lock()
	ok := sconn != nil
	mu.Unlock()
	if !ok {
		abort("OnConnect has not run")
		return
	}
	want := map[string][]string{}
	natives := 0
	on, dropped := true, 0
	for i, o := range p.Ops {
		if o.D > 0 {
			time.Sleep(us(o.D))
		}
		if o.K == 3 {
			Settle(time.Minute)
			var err error
			switch {
			case raw != nil:
				ev := evCon
				if on {
					ev = evDis
				}
				tok := fmt.Sprint("$t", i)
				raw.send(wire(tok, "", "", ev, ""), false)
				Settle(time.Minute)
				if x := raw.replies(tok); len(x) != 1 || x[0] != tok+";;;;;;" {
					abort("a request of the raw peer was answered with %q", x)
					return
				}
				raw.mu.Lock()
				raw.in = raw.in[:len(raw.in)-1]
				raw.mu.Unlock()
			case !call(opLimit, func() {
				c := cc
				if o.S {
					c = sconn
				}
				if !on {
					_, err = c.Connect(context.Background(), "")
				} else {
					err = c.Namespace("").Disconnect(context.Background())
				}
			}):
				abort("a Connect or Disconnect does not return")
				return
			case err != nil:
				abort("a Connect or Disconnect failed: %v", err)
				return
			}
			Settle(time.Minute)
			on = !on
			continue
		}
		msg := neffos.Message{Event: "u", Body: o.Body, SetBinary: o.Bin}
		pre, on := ";;;u;0;0;", on
		if o.Other {
			msg.Namespace, pre, on = "other", ";other;;u;0;0;", true
		}
		from, to := "client", "server"
		mode := p.Srv
		if o.S {
			from, to, mode = to, from, p.Cli
		}
		body := append([]byte(nil), o.Body...)
		if o.K != 1 {
			msg.Event, msg.IsNative = neffos.OnNativeMessage, true
			natives++
		}
		if !on {
			// not connected: nothing is sent, or it is ignored
			dropped++
		} else if o.K != 1 {
			if mode != 2 {
				want[to] = append(want[to], entry(true, body, o.Bin))
			}
		} else if mode == 3 {
			want[to] = append(want[to], entry(true, append([]byte(pre), body...), o.Bin))
		} else {
			want[to] = append(want[to], entry(false, body, o.Bin))
		}
		switch {
		case from == "client" && raw != nil:
			b := o.Body
			if o.K == 1 {
				b = append([]byte(pre), body...)
			}
			raw.send(b, o.Bin)
		case from == "client":
			if cc.Write(msg) != on {
				res.Violatef("the client's write of %q returned %v", o.Body, !on)
			}
		case o.K == 2:
			w.S.Broadcast(nil, msg)
			Settle(time.Second) // broadcasts and writes are not ordered with each other
		default:
			if sconn.Write(msg) != on {
				res.Violatef("the server's write of %q returned %v", o.Body, !on)
			}
		}
	}
	Settle(time.Minute)
	if raw != nil {
		for _, f := range raw.frames() {
			logs["client"] = append(logs["client"], entry(true, f.Data, f.Typ == neffos.BinaryMessage))
		}
	}
	mu.Lock()
	for _, side := range []string{"client", "server"} {
		if a, b := strings.Join(logs[side], "\n"), strings.Join(want[side], "\n"); a != b {
			res.Violatef("the %s got\n%s\nwant\n%s", side, a, b)
		}
	}
	mu.Unlock()
	if sconn.IsClosed() {
		res.Violatef("the connection was closed")
	}
	res.NonTrivial = natives > 0 && len(p.Ops) > 1
	if dropped > 0 {
		res.Label("not-connected")
	}
	if len(res.Violations) > 0 {
		abort("(end)")
		return
	}
	w.Shutdown()
}
