package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"time"
	"weak"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ------------------------------------------------ C28: nothing is left behind

type c28Op struct {
	K   int // see run
	Srv bool
	N   int // namespace, room or size
}

type c28Conn struct {
	Ops []c28Op
	End int // 0 client closes 1 server closes 2 link is cut 3 both close 4 a callback closes it
	Acc int // 0 accepted 1 refused 2 refused after it was used 3 the client never acknowledges
	Lat int
}

type c28Plan struct {
	Conns    []c28Conn
	Resident []c28Op // operations on a connection that stays, in every round
	Sync     bool
	Together bool // the connections of a round at the same time
	Exchange bool
	Broker   string // "redis" or "nats": the real exchange
}

const (
	c28Connect = iota
	c28Disconnect
	c28Join
	c28Leave
	c28Emit
	c28Ask
	c28AskNone    // not answered, times out
	c28AskLate    // answered after the timeout
	c28AskEnded   // with an ended context
	c28ServerAsk  // answered
	c28ServerNone // not answered by anyone
	c28ServerLate
	c28Broadcast
	c28Store
	c28Refused
	c28WaitConnect
	c28Bad
	c28AskNot    // can not be sent: its namespace or room is not joined
	c28FreshRoom // joined and left, a different one in each round
	c28Kinds
)

func genC28(t *rapid.T) c28Plan {
	ops := func(l string, max int) []c28Op {
		var o []c28Op
		if rapid.IntRange(0, 3).Draw(t, l+"pre") > 0 {
			o = append(o, c28Op{K: c28Connect})
		}
		for n := rapid.IntRange(0, max).Draw(t, l+"n"); n > 0; n-- {
			o = append(o, c28Op{K: rapid.IntRange(0, c28Kinds-1).Draw(t, l+"k"), Srv: rapid.Bool().Draw(t, l+"s"), N: rapid.IntRange(0, 2).Draw(t, l+"i")})
		}
		return o
	}
	p := c28Plan{Sync: rapid.IntRange(0, 3).Draw(t, "sync") == 0, Together: rapid.Bool().Draw(t, "together"), Exchange: rapid.IntRange(0, 4).Draw(t, "exc") == 0}
	if !p.Exchange && rapid.IntRange(0, 9).Draw(t, "real") == 0 {
		p.Broker = rapid.SampledFrom([]string{"redis", "nats"}).Draw(t, "broker")
	}
	for n := rapid.IntRange(0, 3).Draw(t, "conns"); n > 0; n-- {
		p.Conns = append(p.Conns, c28Conn{
			Ops: ops("o", 6),
			End: rapid.IntRange(0, 4).Draw(t, "end"),
			Acc: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3}).Draw(t, "acc"),
			Lat: rapid.SampledFrom([]int{0, 0, 100, 5000}).Draw(t, "lat"),
		})
	}
	if len(p.Conns) == 0 || rapid.Bool().Draw(t, "res") {
		p.Resident = ops("r", 8)
	}
	return p
}

// c28Exc is an exchange that delivers to the connections of its server.
type c28Exc struct {
	mu   sync.Mutex
	subs map[*neffos.Conn]map[string]bool
	asks map[string]chan neffos.Message
}

func (e *c28Exc) OnConnect(c *neffos.Conn) error {
	e.mu.Lock()
	e.subs[c] = map[string]bool{}
	e.mu.Unlock()
	return nil
}
func (e *c28Exc) OnDisconnect(c *neffos.Conn) { e.mu.Lock(); delete(e.subs, c); e.mu.Unlock() }
func (e *c28Exc) Subscribe(c *neffos.Conn, ns string) {
	e.mu.Lock()
	if e.subs[c] != nil {
		e.subs[c][ns] = true
	}
	e.mu.Unlock()
}
func (e *c28Exc) Unsubscribe(c *neffos.Conn, ns string) {
	e.mu.Lock()
	delete(e.subs[c], ns)
	e.mu.Unlock()
}
func (e *c28Exc) Publish(msgs []neffos.Message) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for c, s := range e.subs {
		for _, m := range msgs {
			if s[m.Namespace] && (m.To == "" || m.To == c.ID()) {
				m.FromStackExchange = true
				go c.Write(m)
			}
		}
	}
	return true
}
func (e *c28Exc) Ask(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
	ch := make(chan neffos.Message, 8)
	e.mu.Lock()
	e.asks[token] = ch
	e.mu.Unlock()
	defer func() { e.mu.Lock(); delete(e.asks, token); e.mu.Unlock() }()
	e.Publish([]neffos.Message{m})
	select {
	case r := <-ch:
		return r, r.Err
	case <-ctx.Done():
		return neffos.Message{}, ctx.Err()
	}
}
func (e *c28Exc) NotifyAsk(m neffos.Message, token string) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	select {
	case e.asks[token] <- m:
	default:
	}
	return nil
}

type c28World struct {
	p      c28Plan
	s      *neffos.Server
	srvH   neffos.Namespaces
	cliH   neffos.Namespaces
	hung   string
	mu     sync.Mutex
	weak   []weak.Pointer[neffos.Conn]
	round  int
	refuse map[string]int
	br     *broker
}

// held is what the broker holds for the server.
func (w *c28World) held() int {
	if w.br == nil {
		return 0
	}
	return w.br.subscriptions() + w.br.count()
}

func (w *c28World) note(c *neffos.Conn) {
	if c != nil {
		w.mu.Lock()
		w.weak = append(w.weak, weak.Make(c))
		w.mu.Unlock()
	}
}

// alive is the number of ended connections that are still reachable.
func (w *c28World) alive() (n, all int) {
	for _, p := range w.weak {
		if p.Value() != nil {
			n++
		}
	}
	return n, len(w.weak)
}

func (w *c28World) guard(what string, f func()) {
	if !call(5*time.Minute, f) {
		w.mu.Lock()
		w.hung = what
		w.mu.Unlock()
	}
}

func (w *c28World) op(cli *neffos.Client, sc *neffos.Conn, o c28Op) {
	ns := []string{"a", "b", ""}[o.N%3]
	room := fmt.Sprint("r", o.N)
	get := func() *neffos.NSConn {
		if o.Srv {
			return sc.Namespace(ns)
		}
		c, cancel := context.WithTimeout(context.Background(), time.Nanosecond)
		defer cancel()
		n, _ := cli.WaitServerConnect(c, ns) // the namespace if it is connected
		if n == nil {
			time.Sleep(time.Millisecond)
		}
		return n
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	short, cancel2 := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel2()
	switch o.K {
	case c28Connect:
		if o.Srv {
			sc.Connect(ctx, ns)
		} else {
			cli.Connect(ctx, ns)
		}
	case c28Disconnect:
		if n := get(); n != nil {
			n.Disconnect(ctx)
		}
	case c28Join:
		if n := get(); n != nil {
			n.JoinRoom(ctx, room)
		}
	case c28Leave:
		if n := get(); n != nil {
			if r := n.Room(room); r != nil {
				r.Leave(ctx)
			}
		}
	case c28Emit:
		if n := get(); n != nil {
			n.Emit("E", bytes.Repeat([]byte("x"), o.N*300))
		}
	case c28Ask:
		if n := get(); n != nil {
			n.Ask(ctx, "Q", []byte("q"))
		}
	case c28AskNone:
		if n := get(); n != nil {
			n.Ask(short, "E", []byte("q"))
		}
	case c28AskLate:
		if n := get(); n != nil {
			n.Ask(short, "L", []byte("q"))
		}
	case c28AskEnded:
		c, cancel := context.WithCancel(context.Background())
		cancel()
		if n := get(); n != nil {
			n.Ask(c, "Q", []byte("q"))
		}
	case c28AskNot:
		c := sc
		if n := get(); n != nil {
			c = n.Conn
		}
		c.Ask(ctx, neffos.Message{Namespace: ns, Room: "not joined", Event: "Q"})
		c.Ask(ctx, neffos.Message{Namespace: "not connected", Event: "Q"})
	case c28ServerAsk:
		w.s.Ask(short, neffos.Message{Namespace: ns, Event: "Q", To: cli.ID})
	case c28ServerNone:
		w.s.Ask(short, neffos.Message{Namespace: ns, Event: "E"})
	case c28ServerLate:
		w.s.Ask(short, neffos.Message{Namespace: ns, Event: "L"})
	case c28Broadcast:
		m := neffos.Message{Namespace: ns, Event: "E", Body: bytes.Repeat([]byte("y"), o.N*300)}
		if o.Srv {
			w.s.Broadcast(sc, m)
		} else {
			w.s.Broadcast(nil, m)
		}
	case c28Store:
		sc.Set(fmt.Sprint("k", o.N), ns)
		sc.Increment("n")
	case c28Refused:
		if o.Srv {
			sc.Connect(ctx, "no")
		} else {
			cli.Connect(ctx, "no")
		}
	case c28WaitConnect:
		cli.WaitServerConnect(short, "never")
	case c28FreshRoom:
		if n := get(); n != nil {
			if r, _ := n.JoinRoom(ctx, fmt.Sprint("f", w.round)); r != nil {
				r.Leave(ctx)
			}
		}
	case c28Bad:
		if o.Srv {
			sc.Connect(ctx, "undeclared")
		} else {
			cli.Connect(ctx, "undeclared")
		}
	}
}

var errC28 = errors.New("refused")

// dial returns nil if the connection was refused.
func (w *c28World) dial(id string, acc, lat int) (*neffos.Client, *neffos.Conn, *sim.Link) {
	d := sim.Dir{}
	if lat > 0 {
		d.Lat = []int{lat}
	}
	l := sim.NewLink(d, d, false)
	w.mu.Lock()
	w.refuse[id] = acc
	w.mu.Unlock()
	ch := make(chan *neffos.Conn, 1)
	accept := func() {
		c, _ := w.s.Upgrade(httptest.NewRecorder(), wsRequest(l.B), nil, constID(id))
		w.mu.Lock()
		delete(w.refuse, id)
		w.mu.Unlock()
		ch <- c
	}
	if acc == 3 { // it never acknowledges
		go accept()
		sc := <-ch
		return nil, sc, l
	}
	cli, err := neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
		go accept()
		return l.A, nil
	}, "sim", w.cliH)
	sc := <-ch
	if err != nil {
		l.Cut()
		return nil, nil, l
	}
	return cli, sc, l
}

func (w *c28World) conn(i int, c c28Conn) {
	cli, sc, l := w.dial(fmt.Sprintf("c%d-%d", w.round, i), c.Acc, c.Lat)
	w.note(sc)
	if cli != nil && sc != nil {
		for _, o := range c.Ops {
			w.op(cli, sc, o)
		}
	}
	switch {
	case c.End == 0 && cli != nil:
		cli.Close()
	case c.End == 1 && sc != nil:
		sc.Close()
	case c.End == 3 && cli != nil && sc != nil:
		go sc.Close()
		cli.Close()
	case c.End == 4 && cli != nil:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		if n, _ := cli.Connect(ctx, "a"); n != nil {
			n.Ask(ctx, "C", nil)
		}
		cancel()
		cli.Close()
	default:
		l.Cut()
	}
}

// runRound is one repetition of the plan.
func (w *c28World) runRound(rc *neffos.Client, rs *neffos.Conn) {
	w.round++
	var wg sync.WaitGroup
	do := func(what string, f func()) {
		if !w.p.Together {
			w.guard(what, f)
			return
		}
		wg.Add(1)
		go func() { defer wg.Done(); w.guard(what, f) }()
	}
	for i, c := range w.p.Conns {
		do(fmt.Sprint("connection ", i), func() { w.conn(i, c) })
	}
	if rc != nil {
		do("the resident connection", func() {
			for _, o := range w.p.Resident {
				w.op(rc, rs, o)
			}
		})
	}
	wg.Wait()
	Settle(30 * time.Second)
}

// c28Goroutines are the stacks of the goroutines inside of the library.
func c28Goroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/kataras/neffos.") || strings.Contains(g, "github.com/kataras/neffos/") {
			out = append(out, g)
		}
	}
	return out
}

// c28Heap is the memory in use that was allocated by the library, or by others
// on its behalf; TestC28 has every allocation recorded.
func c28Heap() (int64, map[[32]uintptr]int64) {
	runtime.GC()
	runtime.GC()
	n, _ := runtime.MemProfile(nil, false)
	for {
		rec := make([]runtime.MemProfileRecord, n+50)
		var ok bool
		if n, ok = runtime.MemProfile(rec, false); !ok {
			continue
		}
		var sum int64
		per := map[[32]uintptr]int64{}
		for _, r := range rec[:n] {
			if b := r.InUseBytes(); b > 0 && c28Ours(r.Stack0) {
				sum += b
				per[r.Stack0] += b
			}
		}
		return sum, per
	}
}

// c28Most names the allocation that grew most.
func c28Most(a, b map[[32]uintptr]int64) string {
	var best int64
	var at string
	for pc, n := range b {
		if n -= a[pc]; n > best {
			best = n
			r := runtime.MemProfileRecord{Stack0: pc}
			fs := runtime.CallersFrames(r.Stack())
			var l []string
			for {
				f, more := fs.Next()
				l = append(l, fmt.Sprintf("%s:%d", f.Function, f.Line))
				if !more {
					break
				}
			}
			at = strings.Join(l, " < ")
		}
	}
	return fmt.Sprintf("%d bytes at %s", best, at)
}

var c28Seen = map[[32]uintptr]bool{}

func c28Ours(pc [32]uintptr) bool {
	ours, ok := c28Seen[pc]
	if ok {
		return ours
	}
	r := runtime.MemProfileRecord{Stack0: pc}
	fs := runtime.CallersFrames(r.Stack())
	for {
		f, more := fs.Next()
		switch {
		case f.Function == "runtime.acquireSudog", f.Function == "runtime.newproc", f.Function == "runtime.malg":
			c28Seen[pc] = false
			return false // kept and used again by the runtime
		case strings.HasPrefix(f.Function, "verif/sim."):
			c28Seen[pc] = false
			return false // the link records what passes
		case strings.HasPrefix(f.Function, "github.com/kataras/neffos."), strings.HasPrefix(f.Function, "github.com/kataras/neffos/"):
			ours = true
		}
		if !more {
			break
		}
	}
	c28Seen[pc] = ours
	return ours
}

func runC28(p c28Plan, res *kit.Result) {
	events := func() neffos.Events {
		return neffos.Events{
			"E": func(*neffos.NSConn, neffos.Message) error { return nil },
			"Q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) },
			"L": func(c *neffos.NSConn, m neffos.Message) error {
				time.Sleep(60 * time.Millisecond)
				return neffos.Reply(m.Body)
			},
			"C": func(c *neffos.NSConn, m neffos.Message) error { c.Conn.Close(); return nil },
		}
	}
	nss := func(refuse bool) neffos.Namespaces {
		n := neffos.Namespaces{"a": events(), "b": events(), "": events(), "no": events()}
		if refuse {
			n["no"][neffos.OnNamespaceConnect] = func(*neffos.NSConn, neffos.Message) error { return errC28 }
		}
		return n
	}
	w := &c28World{p: p, srvH: nss(true), cliH: nss(false), refuse: map[string]int{}}
	w.s = neffos.New(simUpgrader, w.srvH)
	w.s.SyncBroadcaster = p.Sync
	if p.Exchange {
		w.s.UseStackExchange(&c28Exc{subs: map[*neffos.Conn]map[string]bool{}, asks: map[string]chan neffos.Message{}})
		res.Label("exchange")
	}
	if p.Broker == "redis" || p.Broker == "nats" {
		w.br = newBroker(p.Broker, brokerCfg{Channel: "ch", Max: 2})
		defer func() {
			w.br.close()
			Settle(time.Minute)
		}()
		var x neffos.StackExchange
		var err error
		if !call(30*time.Second, func() { x, err = w.br.exchange() }) || err != nil {
			res.Violatef("the exchange cannot be made: %v", err)
			return
		}
		w.s.UseStackExchange(x)
		res.Label(p.Broker)
	}
	w.s.OnConnect = func(c *neffos.Conn) error {
		w.mu.Lock()
		k := w.refuse[c.ID()]
		w.mu.Unlock()
		switch k {
		case 1:
			w.note(c)
			return errC28
		case 2:
			w.note(c)
			ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
			defer cancel()
			c.Connect(ctx, "a")
			return errC28
		}
		return nil
	}
	var rc *neffos.Client
	var rs *neffos.Conn
	var rl *sim.Link
	if len(p.Resident) > 0 {
		rc, rs, rl = w.dial("resident", 0, 0)
		if rc == nil {
			res.Label("no resident")
			return
		}
	}
	rounds := func(n int) bool {
		for ; n > 0 && w.hung == ""; n-- {
			w.runRound(rc, rs)
			if len(res.Violations) > 0 {
				return false
			}
		}
		return w.hung == ""
	}
	finish := func() {
		if rl != nil {
			rl.Cut()
		}
		Settle(30 * time.Second)
		w.s.StackExchange = nil
		w.s.OnConnect = func(*neffos.Conn) error { return nil }
		w.s.FireDisconnectAlways = true
		w.s.OnDisconnect = func(*neffos.Conn) { goexit() }
		l := sim.NewLink(sim.Dir{}, sim.Dir{}, false)
		go w.s.Upgrade(httptest.NewRecorder(), wsRequest(l.B), nil, constID("end"))
		time.Sleep(time.Second)
		l.Cut()
		time.Sleep(time.Second)
	}
	defer finish()
	const warm, block = 4, 16
	if !rounds(warm) {
		res.Label("hung") // termination is C05's
		return
	}
	g0 := c28Goroutines()
	h0, _ := c28Heap()
	a0, n0 := w.alive()
	b0 := w.held()
	if !rounds(block) {
		res.Label("hung")
		return
	}
	g1 := c28Goroutines()
	h1, per := c28Heap()
	a1, n1 := w.alive()
	if n := w.held() - b0; n >= block/2 {
		res.Violatef("%d rounds left %d more subscriptions and connections at the broker", block, n)
	}
	if n := len(g1) - len(g0); n >= block/2 {
		res.Violatef("%d rounds left %d more goroutines behind, e.g.\n%s", block, n, g1[len(g1)-1])
	}
	if n := a1 - a0; n >= block/2 {
		res.Violatef("%d of %d ended connections of %d rounds are still held by a running server", n, n1-n0, block)
	}
	// memory: every block of rounds has to grow by at least so much per round
	const least = 64
	if len(res.Violations) == 0 && h1-h0 >= block*least {
		grown := true
		most := ""
		h, n := h1, block
		for i := 0; i < 4 && grown; i++ {
			n *= 2
			w.mu.Lock()
			w.weak = make([]weak.Pointer[neffos.Conn], 0, 4096)
			w.mu.Unlock()
			if !rounds(n) {
				res.Label("hung")
				return
			}
			x, now := c28Heap()
			most = c28Most(per, now)
			grown = x-h >= int64(n)*least
			h = x
		}
		if grown {
			res.Violatef("the memory in use keeps growing, by %d bytes per round in the last %d rounds; most of it: %s", (h-h1)/int64(n*2-2*block), n, most)
		}
		res.Label("memory looked at again")
	}
	for _, c := range p.Conns {
		if len(c.Ops) > 0 {
			res.NonTrivial = true
		}
	}
	if len(p.Resident) > 1 {
		res.NonTrivial = true
	}
}
