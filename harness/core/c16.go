package core

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// C16: servers that share an in-memory exchange, stacked with exchanges that
// only record what they are told.

type c16Plan struct {
	Servers int
	Before  int // recording exchanges added before the one that delivers
	After   int // and after it
	Sick    int `json:",omitempty"` // bits: the exchange's Publish reports a failure
	Init    int `json:",omitempty"` // bits: the exchange has an Init method
	BadInit int `json:",omitempty"` // position+1 at which one whose Init fails is offered
	IDs     []string
	Sync    bool
	BusLat  []int // delivery latencies of the exchange (us)
	Up      sim.Dir
	Down    sim.Dir
	NS      []string  // namespaces
	Kind    string    `json:",omitempty"` // "redis", "nats"; otherwise the in-memory exchange
	Broker  brokerCfg `json:",omitzero"`
	Unreach bool      `json:",omitempty"` // the exchanges are made at a second attempt
	EndKick int       `json:",omitempty"` // the broker's connections break so many us (-1) before the last connections end
	Steps   []c16Step
}

// One step: operations that run at the same time; then everything settles.
type c16Step struct {
	Ops []c16Op
}

type c16Op struct {
	K    int // see the c16* constants
	C    int // client
	S    int // server
	NS   int
	Room int
	Srv  bool // made by the server side
	How  int  // close: 0 client, 1 server, 2 cut; dial: 0 fine, 1 refused by OnConnect, 2 refused by exchange X, 3 the broker cannot be reached, 4 it denies the subscription
	X    int
	Exc  int // exclusion: 0 none 1 Conn 2 NSConn 3 Room 4 Exclude(id)
	ExC  int // excluded client
	M    []c16Msg
	D    int  // start delay (us)
	Now  bool // connect and join: broadcast as soon as it returns
}

type c16Msg struct {
	NS, Room int // Room -1: none
	To       int // -1: nobody in particular; -2: an unknown ID
	Body     string
	Twice    bool `json:",omitempty"` // the same message two times
	Big      int  `json:",omitempty"` // so many bytes more
}

const (
	c16Dial = iota
	c16Connect
	c16Disconnect
	c16Join
	c16Leave
	c16Close
	c16Broadcast
	c16Ask
	c16Refused // connect to a namespace whose connect is refused by the server
	c16Kick    // all connections to the broker break
	c16Kinds
)

var c16Rooms = []string{"r", "r;2"}

const c16MaxClients = 5

func genC16(t *rapid.T) c16Plan { return genExchange(t, "") }
func genC17(t *rapid.T) c16Plan { return genExchange(t, "redis") }
func genC18(t *rapid.T) c16Plan { return genExchange(t, "nats") }

var exchangeNames = []string{"a", "a", "a;b", "b", "*", ">", "a.b", "a b", "?", "[ab]", "\\a", "a.", ".", ".a", "a.*", "a.>", "%61", "%", "*a", "ab", "a\nb", "\u00e4", "neffos", "x!", "_", "A", " a", "a ", "+", "a+b", "%2E", "\u00c4", "a/b", "a:b", "a..b"}

// similar gives a name that is nearly the same.
func similar(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 7).Draw(t, "similar") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return " " + s
	case 3:
		return s + " "
	case 4:
		return s + "."
	case 5:
		return s + s
	case 6:
		return "." + s
	}
	return url.QueryEscape(s)
}

func genExchange(t *rapid.T, kind string) c16Plan {
	us := func(l string) []int {
		return rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 10, 100, 3000}), 0, 3).Draw(t, l)
	}
	p := c16Plan{
		Servers: rapid.IntRange(1, 3).Draw(t, "servers"),
		Before:  rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "before"),
		After:   rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "after"),
		Sick:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 7}).Draw(t, "sick"),
		Init:    rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "init"),
		BadInit: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "badinit"),
		Sync:    rapid.IntRange(0, 3).Draw(t, "sync") == 0,
		BusLat:  us("bus"),
		Up:      sim.Dir{Lat: us("up")},
		Down:    sim.Dir{Lat: us("down"), WriteHold: rapid.SampledFrom([][]int{nil, nil, {10}, {0, 200}, {3000}}).Draw(t, "hold")},
	}
	p.Unreach = kind != "" && rapid.IntRange(0, 5).Draw(t, "unreach") == 0
	p.NS = []string{""}
	taken := map[string]bool{"": true}
	last := map[string]string{}
	name := func(l string, pool []string) string {
		s := strings.Replace(rapid.SampledFrom(pool).Draw(t, l), "%d", fmt.Sprint(len(p.IDs)), 1)
		if last[l] != "" && rapid.IntRange(0, 2).Draw(t, l+"near") == 0 {
			s = similar(t, last[l])
		}
		for taken[l+s] {
			s += "1"
		}
		taken[l+s] = true
		last[l] = s
		return s
	}
	for len(p.NS) < 3 {
		p.NS = append(p.NS, name("ns", exchangeNames))
	}
	ids := append([]string{"u%d", "u%d", "u%d", "user %d", "u;%d", "neffos%d", "x!%d", "0x%d", "*%d", "%d.*", "?%d"}, exchangeNames...)
	for i := 0; i < c16MaxClients; i++ {
		p.IDs = append(p.IDs, name("id", ids))
	}
	if kind != "" {
		p.Kind = kind
		p.Broker = brokerCfg{
			Up:      sim.StreamDir{Chunk: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 7, 100}), 0, 3).Draw(t, "upchunk"), Yield: rapid.IntRange(0, 2).Draw(t, "upyield")},
			Down:    sim.StreamDir{Chunk: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 7, 100}), 0, 3).Draw(t, "downchunk"), Yield: rapid.IntRange(0, 2).Draw(t, "downyield")},
			Lat:     us("broker"),
			Pass:    rapid.SampledFrom([]string{"", "", "secret"}).Draw(t, "pass"),
			Max:     rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "max"),
			Channel: rapid.SampledFrom([]string{"neffos", "ch", "a"}).Draw(t, "channel"),
		}
		if kind == "nats" {
			p.Broker.Opts = rapid.IntRange(0, 5).Draw(t, "opts")
		}

		if kind == "redis" {
			p.Broker.Cluster = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "cluster")
		} else {
			p.Broker.Up.Lat = rapid.SampledFrom([]int{0, 0, 10, 1000}).Draw(t, "uplat")
			p.Broker.Down.Lat = rapid.SampledFrom([]int{0, 0, 10, 1000}).Draw(t, "downlat")
		}
		p.Before = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "before")
		p.After = 0
		p.EndKick = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 1001, 1000001, 3000001}).Draw(t, "endkick")
		if p.EndKick > 0 {
			p.Broker.Up.Lat, p.Broker.Down.Lat = 0, 0 // the NATS client reconnects under a lock
		}
	}
	n := rapid.IntRange(6, 24).Draw(t, "steps")
	// what the generator thinks, so that most operations are meaningful
	live := map[int]bool{}
	conn := map[[2]int]bool{}
	dialed := 0
	pick := func(l string) int {
		var xs []int
		for i := range live {
			if live[i] {
				xs = append(xs, i)
			}
		}
		sort.Ints(xs)
		if len(xs) == 0 {
			return 0
		}
		return rapid.SampledFrom(xs).Draw(t, l)
	}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "width")
		var st c16Step
		used := map[int]bool{}
		if kind != "" && i > 5 && rapid.IntRange(0, 39).Draw(t, "kick") == 0 {
			p.Steps = append(p.Steps, c16Step{Ops: []c16Op{{K: c16Kick}}})
			continue
		}
		for j := 0; j < k; j++ {
			o := c16Op{K: rapid.SampledFrom([]int{c16Dial, c16Connect, c16Connect, c16Connect, c16Disconnect, c16Join, c16Join, c16Leave, c16Close, c16Broadcast, c16Broadcast, c16Broadcast, c16Broadcast, c16Ask, c16Ask, c16Refused}).Draw(t, "k")}
			if i < 3 && j == 0 {
				o.K = c16Dial
			}
			if i >= 3 && i < 6 && j == 0 {
				o.K = c16Connect
			}
			if o.K == c16Dial && dialed >= c16MaxClients {
				o.K = c16Connect
			}
			o.S = rapid.IntRange(0, p.Servers-1).Draw(t, "s")
			o.D = rapid.SampledFrom([]int{0, 0, 0, 5, 50, 500}).Draw(t, "d")
			switch o.K {
			case c16Dial:
				o.C = dialed
				dialed++
				o.How = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2}).Draw(t, "how")
				o.X = rapid.IntRange(0, p.Before+p.After).Draw(t, "x")
				if kind == "nats" && k == 1 && rapid.IntRange(0, 5).Draw(t, "brokerdown") == 0 {
					o.How = rapid.IntRange(3, 4).Draw(t, "brokerhow")
				}
				live[o.C] = o.How == 0
				used[o.C] = true
			case c16Broadcast, c16Ask:
				m := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "m")
				if o.K == c16Ask {
					m = 1
				}
				for x := 0; x < m; x++ {
					mm := c16Msg{NS: rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "ns"), Room: -1, To: -1}
					if mm.NS != 0 && rapid.Bool().Draw(t, "inroom") {
						mm.Room = rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "room")
					}
					switch rapid.IntRange(0, 5).Draw(t, "to") {
					case 0, 1:
						mm.To = pick("toid")
					case 2:
						mm.To = -2
						if o.K == c16Ask {
							mm.To = -1
						}
					}
					mm.Body = rapid.SampledFrom([]string{"", ";", "x;y;1", "\x00", "e;0;0;"}).Draw(t, "body")
					if o.K == c16Broadcast {
						mm.Twice = rapid.IntRange(0, 7).Draw(t, "twice") == 0
					}
					if rapid.IntRange(0, 23).Draw(t, "isbig") == 0 {
						mm.Big = rapid.SampledFrom([]int{1000, 5000, 5000, 70000}).Draw(t, "big")
					}
					o.M = append(o.M, mm)
				}
				if o.K == c16Broadcast && rapid.IntRange(0, 39).Draw(t, "many") == 0 {
					for n := rapid.SampledFrom([]int{30, 120}).Draw(t, "nmany"); len(o.M) < n; {
						mm := o.M[len(o.M)%m]
						mm.Big = 0
						o.M = append(o.M, mm)
					}
				}
				if o.K == c16Broadcast {
					o.Exc = rapid.IntRange(0, 4).Draw(t, "exc")
					o.ExC = pick("excl")
				} else {
					o.How = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "answer") // 0 reply 1 error 2 nothing
				}
			default:
				o.C = pick("c")
				if used[o.C] {
					continue
				}
				used[o.C] = true
				o.NS = rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "ns")
				o.Room = rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "room")
				o.Srv = rapid.IntRange(0, 2).Draw(t, "srv") == 0
				o.Now = (o.K == c16Connect || o.K == c16Join) && rapid.IntRange(0, 2).Draw(t, "now") == 0
				switch o.K {
				case c16Connect:
					conn[[2]int{o.C, o.NS}] = true
				case c16Close:
					o.How = rapid.IntRange(0, 2).Draw(t, "how")
					live[o.C] = false
				case c16Join, c16Leave, c16Disconnect:
					if !conn[[2]int{o.C, o.NS}] {
						for x := range p.NS {
							if conn[[2]int{o.C, x}] {
								o.NS = x
							}
						}
					}
				}
			}
			st.Ops = append(st.Ops, o)
		}
		p.Steps = append(p.Steps, st)
	}
	return p
}

var errBroker = errors.New("the broker fails")

var errNotMine = errors.New("this exchange does not deliver")

// excLog is what one exchange of one server was told.
type excLog struct {
	mu   sync.Mutex
	conn map[*neffos.Conn][]string
	pub  []string
	fail map[string]error // OnConnect errors by connection ID
	// published messages, in order
	bad []string
	// its Publish reports a failure
	sick bool
}

// initExc has an Init method.
type initExc struct {
	neffos.StackExchange
	err error
	got []neffos.Namespaces
}

func (x *initExc) Init(ns neffos.Namespaces) error {
	x.got = append(x.got, ns)
	return x.err
}

func newExcLog() *excLog {
	return &excLog{conn: map[*neffos.Conn][]string{}, fail: map[string]error{}}
}

func (x *excLog) add(c *neffos.Conn, s string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.conn[c] = append(x.conn[c], s)
}
func (x *excLog) OnConnect(c *neffos.Conn) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	if err := x.fail[c.ID()]; err != nil {
		x.conn[c] = append(x.conn[c], "fail")
		return err
	}
	x.conn[c] = append(x.conn[c], "connect")
	return nil
}
func (x *excLog) OnDisconnect(c *neffos.Conn)           { x.add(c, "disconnect") }
func (x *excLog) Subscribe(c *neffos.Conn, ns string)   { x.add(c, "sub:"+ns) }
func (x *excLog) Unsubscribe(c *neffos.Conn, ns string) { x.add(c, "unsub:"+ns) }
func (x *excLog) Publish(msgs []neffos.Message) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, m := range msgs {
		x.pub = append(x.pub, fmt.Sprintf("%q %q %q %q to %q", m.Namespace, m.Room, m.Event, m.Body, m.To))
	}
	return !x.sick
}
func (x *excLog) Ask(ctx context.Context, msg neffos.Message, token string) (neffos.Message, error) {
	return neffos.Message{}, errNotMine
}
func (x *excLog) NotifyAsk(neffos.Message, string) error { return errNotMine }

// bus is the shared medium: what redis or NATS is to the real exchanges.
type bus struct {
	mu   sync.Mutex
	lat  []int
	n    int
	subs map[string]map[*busSub]bool
	asks map[string]chan []byte
}

type busSub struct {
	c    *neffos.Conn
	mu   sync.Mutex
	q    [][]byte
	sig  chan struct{}
	stop chan struct{}
	chs  map[string]bool
}

func newBus(lat []int) *bus {
	return &bus{lat: lat, subs: map[string]map[*busSub]bool{}, asks: map[string]chan []byte{}}
}

func (b *bus) publish(ch string, data []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for s := range b.subs[ch] {
		s.mu.Lock()
		s.q = append(s.q, append([]byte(nil), data...))
		s.mu.Unlock()
		select {
		case s.sig <- struct{}{}:
		default:
		}
	}
}

func (b *bus) delay() {
	b.mu.Lock()
	d := 0
	if len(b.lat) > 0 {
		d = b.lat[b.n%len(b.lat)]
		b.n++
	}
	b.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func (b *bus) sub(s *busSub, ch string, on bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if on {
		if b.subs[ch] == nil {
			b.subs[ch] = map[*busSub]bool{}
		}
		b.subs[ch][s] = true
		s.chs[ch] = true
	} else {
		delete(b.subs[ch], s)
		delete(s.chs, ch)
	}
}

// memExc is one server's exchange on the bus.
type memExc struct {
	*excLog
	b    *bus
	smu  sync.Mutex
	subs map[*neffos.Conn]*busSub
}

func (x *memExc) OnConnect(c *neffos.Conn) error {
	if err := x.excLog.OnConnect(c); err != nil {
		return err
	}
	s := &busSub{c: c, sig: make(chan struct{}, 1), stop: make(chan struct{}), chs: map[string]bool{}}
	go func() {
		for {
			s.mu.Lock()
			var d []byte
			if len(s.q) > 0 {
				d, s.q = s.q[0], s.q[1:]
			}
			s.mu.Unlock()
			if d == nil {
				select {
				case <-s.sig:
				case <-s.stop:
					return
				}
				continue
			}
			x.b.delay()
			msg := c.DeserializeMessage(neffos.TextMessage, d)
			msg.FromStackExchange = true
			c.Write(msg)
		}
	}()
	x.smu.Lock()
	x.subs[c] = s
	x.smu.Unlock()
	x.b.sub(s, "id:"+c.ID(), true)
	return nil
}

func (x *memExc) get(c *neffos.Conn) *busSub {
	x.smu.Lock()
	defer x.smu.Unlock()
	return x.subs[c]
}

func (x *memExc) OnDisconnect(c *neffos.Conn) {
	x.excLog.OnDisconnect(c)
	if s := x.get(c); s != nil {
		x.b.mu.Lock()
		for ch := range s.chs {
			delete(x.b.subs[ch], s)
		}
		x.b.mu.Unlock()
		x.smu.Lock()
		delete(x.subs, c)
		x.smu.Unlock()
		close(s.stop)
	}
}

func (x *memExc) Subscribe(c *neffos.Conn, ns string) {
	x.excLog.Subscribe(c, ns)
	if s := x.get(c); s != nil {
		x.b.sub(s, "ns:"+ns, true)
	}
}

func (x *memExc) Unsubscribe(c *neffos.Conn, ns string) {
	x.excLog.Unsubscribe(c, ns)
	if s := x.get(c); s != nil {
		x.b.sub(s, "ns:"+ns, false)
	}
}

func (x *memExc) Publish(msgs []neffos.Message) bool {
	x.excLog.Publish(msgs)
	for _, m := range msgs {
		x.out(m)
	}
	return true
}

func (x *memExc) out(m neffos.Message) {
	if m.To != "" {
		x.b.publish("id:"+m.To, m.Serialize())
		return
	}
	x.b.publish("ns:"+m.Namespace, m.Serialize())
}

func (x *memExc) Ask(ctx context.Context, msg neffos.Message, token string) (neffos.Message, error) {
	ch := make(chan []byte, 1)
	x.b.mu.Lock()
	if x.b.asks[token] != nil {
		x.excLog.bad = append(x.excLog.bad, fmt.Sprintf("the token %q was used for two asks at the same time", token))
	}
	x.b.asks[token] = ch
	x.b.mu.Unlock()
	defer func() {
		x.b.mu.Lock()
		delete(x.b.asks, token)
		x.b.mu.Unlock()
	}()
	x.out(msg)
	select {
	case <-ctx.Done():
		return neffos.Message{}, ctx.Err()
	case d := <-ch:
		r := neffos.DeserializeMessage(neffos.TextMessage, d, false, false)
		return r, r.Err
	}
}

func (x *memExc) NotifyAsk(msg neffos.Message, token string) error {
	msg.ClearWait()
	d := msg.Serialize()
	x.b.mu.Lock()
	ch := x.b.asks[token]
	x.b.mu.Unlock()
	if ch == nil {
		return errNotMine // nobody waits for it (any more)
	}
	select {
	case ch <- d:
	default:
	}
	return nil
}

type c16Client struct {
	i        int
	srv      int
	id       string
	cli      *neffos.Client
	link     *sim.Link
	sc       *neffos.Conn
	alive    bool
	ns       map[int]bool
	room     map[[2]int]bool
	nSub     map[int]int
	nUnsub   map[int]int
	mayUnsub map[int]int
}

func (c *c16Client) in(m c16Msg) bool {
	if c == nil || !c.alive || !c.ns[m.NS] {
		return false
	}
	return m.Room < 0 || c.room[[2]int{m.NS, m.Room}]
}

type c16World struct {
	p      c16Plan
	ws     []*World
	excs   [][]*excLog // by server, in the order they were added
	mu     sync.Mutex
	log    map[int][]string // by client
	clis   [c16MaxClients]*c16Client
	ref    map[string]bool // IDs that OnConnect refuses
	scs    map[string]*neffos.Conn
	disc   map[string]int
	n      int
	br     *broker
	subsOf map[string]int // subscriptions by memberships
	res    *kit.Result
}

func (w *c16World) id(i int) string { return w.p.IDs[i] }

func runC16(p c16Plan, res *kit.Result) {
	if p.Servers < 1 || p.Servers > 3 || len(p.IDs) != c16MaxClients || len(p.NS) != 3 {
		return
	}
	w := &c16World{p: p, log: map[int][]string{}, ref: map[string]bool{}, scs: map[string]*neffos.Conn{}, disc: map[string]int{}, subsOf: map[string]int{}, res: res}
	b := newBus(p.BusLat)
	if p.Kind != "" {
		w.br = newBroker(p.Kind, p.Broker)
	}
	var nevers []*excLog
	for s := 0; s < p.Servers; s++ {
		ev := neffos.Namespaces{}
		for _, ns := range p.NS {
			ev[ns] = neffos.Events{"e": func(*neffos.NSConn, neffos.Message) error { return nil }}
		}
		ev["no"] = neffos.Events{neffos.OnNamespaceConnect: func(*neffos.NSConn, neffos.Message) error { return errors.New("refused") }}
		x := NewWorld(ev)
		x.S.SyncBroadcaster = p.Sync
		x.S.OnConnect = func(c *neffos.Conn) error {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.scs[c.ID()] = c
			if w.ref[c.ID()] {
				return errors.New("no " + c.ID())
			}
			return nil
		}
		x.S.OnDisconnect = func(c *neffos.Conn) {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.disc[c.ID()]++
		}
		var logs []*excLog
		never := newExcLog()
		nevers = append(nevers, never)
		for i := 0; i <= p.Before+p.After; i++ {
			l := newExcLog()
			l.sick = p.Sick>>i&1 == 1
			logs = append(logs, l)
			var err error
			if i == 0 {
				if err := x.S.UseStackExchange(nil); err != nil {
					res.Violatef("UseStackExchange(nil): %v", err)
				}
			}
			use := func(y neffos.StackExchange) error {
				if p.Init>>i&1 == 0 {
					return x.S.UseStackExchange(y)
				}
				z := &initExc{StackExchange: y}
				err := x.S.UseStackExchange(z)
				if len(z.got) != 1 || len(z.got[0]) != len(ev) {
					res.Violatef("Init of an exchange was called %d times, with %v", len(z.got), z.got)
				}
				return err
			}
			if p.BadInit == i+1 {
				z := &initExc{StackExchange: never, err: errors.New("no exchange")}
				if err := x.S.UseStackExchange(z); err != z.err {
					res.Violatef("UseStackExchange returned %v, Init %v", err, z.err)
				}
			}
			if i == p.Before && w.br != nil {
				var y neffos.StackExchange
				if p.Unreach {
					// first while the broker cannot be reached
					w.br.fault(true, false)
					var z neffos.StackExchange
					if !call(5*time.Minute, func() { z, err = w.br.exchange() }) || err == nil {
						res.Violatef("an exchange whose broker cannot be reached: NewStackExchange returned %v, %v", z, err)
						w.br.close()
						return
					}
					w.br.fault(false, false)
					res.Label("unreachable")
				}
				if !call(30*time.Second, func() { y, err = w.br.exchange() }) || err != nil {
					res.Violatef("the exchange is not created: %v", err)
					w.br.close()
					return
				}
				err = use(&realExc{excLog: l, x: y})
			} else if i == p.Before {
				err = use(&memExc{excLog: l, b: b, subs: map[*neffos.Conn]*busSub{}})
			} else {
				err = use(l)
			}
			if err != nil {
				res.Violatef("UseStackExchange: %v", err)
			}
		}
		w.excs = append(w.excs, logs)
		w.ws = append(w.ws, x)
	}
	defer func() {
		for _, x := range nevers {
			x.mu.Lock()
			if len(x.conn)+len(x.pub)+len(x.bad) > 0 {
				res.Violatef("an exchange whose Init failed was used")
			}
			x.mu.Unlock()
		}
	}()
	for si, st := range p.Steps {
		w.step(si, st)
		if len(res.Violations) > 0 {
			break
		}
	}
	if len(res.Violations) == 0 {
		w.checkExchanges()
		// close all that is left, and look again
		if w.br != nil && p.EndKick > 0 {
			w.br.kick()
			time.Sleep(time.Duration(p.EndKick-1) * time.Microsecond)
			res.Label("end-kick")
		}
		for _, c := range w.clis {
			if c != nil && c.alive {
				c.link.Cut()
				w.closed(c)
			}
		}
		Settle(2 * time.Second)
		if p.EndKick > 0 {
			time.Sleep(15 * time.Second)
		}
		w.checkExchanges()
	}
	for _, x := range w.ws {
		x.Shutdown()
	}
	if w.br != nil {
		if n := w.br.subscriptions(); n != 0 && len(res.Violations) == 0 {
			res.Violatef("%d subscriptions are left when all connections are closed", n)
		}
		if n := w.br.count(); w.br.kind == "nats" && n > p.Servers && len(res.Violations) == 0 {
			res.Violatef("%d servers without connections have %d connections to the broker", p.Servers, n)
		}
		w.br.mu.Lock()
		if len(w.br.errs) > 0 && len(res.Violations) == 0 {
			res.Violatef("the broker complains: %q", w.br.errs)
		}
		w.br.mu.Unlock()
		w.br.close()
		Settle(time.Minute)
	}
}

func (w *c16World) closed(c *c16Client) {
	c.alive = false
	for ns := range c.ns {
		c.mayUnsub[ns] = 1 // OnDisconnect ends all subscriptions
	}
	c.ns, c.room = map[int]bool{}, map[[2]int]bool{}
}

func (w *c16World) handler(i int) neffos.Namespaces {
	ev := neffos.Namespaces{}
	rec := func(c *neffos.NSConn, m neffos.Message) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.log[i] = append(w.log[i], fmt.Sprintf("%q %q %q %q", m.Namespace, m.Room, m.Event, m.Body))
		if m.FromExplicit != "" || m.To != "" {
			w.log[i] = append(w.log[i], fmt.Sprintf("routing data reached the client: %#v", m))
		}
	}
	for _, ns := range append([]string{"no"}, w.p.NS...) {
		ev[ns] = neffos.Events{
			"e": func(c *neffos.NSConn, m neffos.Message) error { rec(c, m); return nil },
			"q0": func(c *neffos.NSConn, m neffos.Message) error {
				rec(c, m)
				return neffos.Reply([]byte("re:" + w.id(i) + ":" + string(m.Body)))
			},
			"q1": func(c *neffos.NSConn, m neffos.Message) error {
				rec(c, m)
				return errors.New("er:" + w.id(i) + ":" + string(m.Body))
			},
			"q2": func(c *neffos.NSConn, m neffos.Message) error { rec(c, m); return nil },
		}
	}
	return ev
}

func (w *c16World) step(si int, st c16Step) {
	before := map[int]int{}
	w.mu.Lock()
	for i := range w.clis {
		before[i] = len(w.log[i])
	}
	w.mu.Unlock()
	pubBefore := map[int]int{}
	for s := range w.excs {
		pubBefore[s] = len(w.excs[s][0].pub)
	}
	// which clients change in this step
	changes := map[int]bool{}
	seen := map[int]bool{}
	for _, o := range st.Ops {
		if o.K != c16Broadcast && o.K != c16Ask && o.K != c16Kick {
			if seen[o.C] {
				return // not a plan of the generator
			}
			seen[o.C] = true
			changes[o.C] = true
		}
	}
	type expect struct {
		line   string
		n      int // how many times it is sent, 0: once
		must   map[int]bool
		may    map[int]bool
		seqKey string
		path   string // messages that take the same way keep their order
	}
	var exp []expect
	pubs := map[int][]string{} // expected publications by server
	concurrentPubs := map[int]int{}
	var wg sync.WaitGroup
	var after, begin []func()
	for oi := range st.Ops {
		o := st.Ops[oi]
		run := func(f func()) {
			wg.Add(1)
			begin = append(begin, func() {
				defer wg.Done()
				if o.D > 0 {
					time.Sleep(time.Duration(o.D) * time.Microsecond)
				}
				if !call(30*time.Second, f) {
					w.res.Violatef("step %d: operation %+v did not return", si, o)
				}
			})
		}
		ctx := func(d time.Duration) context.Context {
			c, cancel := context.WithTimeout(context.Background(), d)
			_ = cancel
			return c
		}
		// now broadcasts to a client as soon as its connect or join returned.
		now := func(c *c16Client) func(err error) {
			if !o.Now {
				return func(error) {}
			}
			w.n++
			mm := neffos.Message{Namespace: w.p.NS[o.NS], Event: "e", Body: []byte(fmt.Sprintf("%d:now", w.n))}
			if o.K == c16Join {
				mm.Room = c16Rooms[o.Room]
			}
			mm.To = c.id
			e := expect{line: fmt.Sprintf("%q %q %q %q", mm.Namespace, mm.Room, mm.Event, mm.Body), must: map[int]bool{o.C: true}, may: map[int]bool{o.C: true}, seqKey: fmt.Sprint(oi)}
			if w.n%2 == 0 {
				// to all, others may have it too
				mm.To = ""
				w.audience(c16Msg{NS: o.NS, Room: map[bool]int{true: o.Room, false: -1}[o.K == c16Join], To: -1}, -1, changes, st, e.must, e.may)
			}
			exp = append(exp, e)
			pubs[o.S] = append(pubs[o.S], fmt.Sprintf("%q %q %q %q to %q", mm.Namespace, mm.Room, mm.Event, mm.Body, mm.To))
			concurrentPubs[o.S]++
			w.res.Label("now")
			return func(err error) {
				w.ws[o.S].S.Broadcast(nil, mm)
			}
		}
		switch o.K {
		case c16Kick:
			if w.br != nil {
				w.br.kick()
				w.res.Label("kick")
				time.Sleep(15 * time.Second)
			}
		case c16Dial:
			if w.clis[o.C] != nil {
				continue
			}
			c := &c16Client{i: o.C, srv: o.S, id: w.id(o.C), ns: map[int]bool{}, room: map[[2]int]bool{}, nSub: map[int]int{}, nUnsub: map[int]int{}, mayUnsub: map[int]int{}}
			w.clis[o.C] = c
			want := ""
			switch o.How {
			case 1:
				w.mu.Lock()
				w.ref[c.id] = true
				w.mu.Unlock()
				want = "no " + c.id
			case 2:
				x := w.excs[o.S][o.X]
				x.mu.Lock()
				x.fail[c.id] = errors.New("exchange says no to " + c.id)
				x.mu.Unlock()
				want = "exchange says no to " + c.id
			case 3, 4:
				if len(st.Ops) > 1 || w.br == nil || w.br.kind != "nats" {
					continue
				}
				x := w.excs[o.S][w.p.Before]
				x.mu.Lock()
				x.fail[c.id] = errBroker
				x.mu.Unlock()
				w.br.fault(o.How == 3, o.How == 4)
				after = append(after, func() { w.br.fault(false, false) })
				w.res.Label(fmt.Sprint("broker fault ", o.How))
				run(func() {
					_, link, acc, err := w.ws[o.S].Dial(c.id, w.handler(o.C), w.p.Up, w.p.Down)
					c.link = link
					r := <-acc
					if err == nil || err.Error() == "" || r.c != nil || r.err == nil {
						w.res.Violatef("step %d: the exchange cannot subscribe for %q: Dial returned %v, Upgrade %v, %v", si, c.id, err, r.c != nil, r.err)
					}
				})
				continue
			}
			run(func() {
				cli, link, acc, err := w.ws[o.S].Dial(c.id, w.handler(o.C), w.p.Up, w.p.Down)
				c.link = link
				if (err != nil) != (want != "") || (err != nil && err.Error() != want) {
					w.res.Violatef("step %d: Dial of %q returned %v, expected %q", si, c.id, err, want)
				}
				if err != nil {
					if r := <-acc; r.c != nil || r.err == nil || r.err.Error() != want {
						w.res.Violatef("step %d: Upgrade of %q returned %v, %v, expected %q", si, c.id, r.c, r.err, want)
					}
				}
				if err == nil {
					r := <-acc
					c.cli, c.sc = cli, r.c
					c.alive = true
					if r.c == nil || cli.ID != c.id {
						w.res.Violatef("step %d: Dial of %q: server connection %v, client ID %q", si, c.id, r.c, cli.ID)
					}
				}
			})
		case c16Connect:
			c := w.clis[o.C]
			if c == nil || !c.alive {
				continue
			}
			was := c.ns[o.NS]
			then := now(c)
			run(func() {
				var err error
				if o.Srv {
					_, err = c.sc.Connect(ctx(20*time.Second), w.p.NS[o.NS])
				} else {
					_, err = c.cli.Connect(ctx(20*time.Second), w.p.NS[o.NS])
				}
				if err != nil {
					w.res.Violatef("step %d: connect of %q to %q: %v", si, c.id, w.p.NS[o.NS], err)
				}
				then(err)
			})
			after = append(after, func() {
				c.ns[o.NS] = true
				if !was {
					c.nSub[o.NS]++
				}
			})
		case c16Refused:
			c := w.clis[o.C]
			if c == nil || !c.alive {
				continue
			}
			run(func() {
				var err error
				if o.Srv {
					_, err = c.sc.Connect(ctx(20*time.Second), "no")
				} else {
					_, err = c.cli.Connect(ctx(20*time.Second), "no")
				}
				if err == nil {
					w.res.Violatef("step %d: a refused connect succeeded", si)
				}
			})
		case c16Disconnect, c16Join, c16Leave:
			c := w.clis[o.C]
			if c == nil || !c.alive || !c.ns[o.NS] {
				continue
			}
			key := [2]int{o.NS, o.Room}
			if o.K != c16Disconnect && o.NS == 0 {
				continue
			}
			if o.K == c16Leave && !c.room[key] {
				continue
			}
			o.Now = o.Now && o.K == c16Join
			then := now(c)
			run(func() {
				var ns *neffos.NSConn
				if o.Srv {
					ns = c.sc.Namespace(w.p.NS[o.NS])
				} else if ns = c.nsc(w.p.NS[o.NS]); ns == nil {
				}
				if ns == nil {
					w.res.Violatef("step %d: %q is not connected to %q (server side: %v)", si, c.id, w.p.NS[o.NS], o.Srv)
					return
				}
				var err error
				switch o.K {
				case c16Disconnect:
					err = ns.Disconnect(ctx(20 * time.Second))
				case c16Join:
					_, err = ns.JoinRoom(ctx(20*time.Second), c16Rooms[o.Room])
				case c16Leave:
					r := ns.Room(c16Rooms[o.Room])
					if r == nil {
						w.res.Violatef("step %d: %q is not joined to %q", si, c.id, c16Rooms[o.Room])
						return
					}
					err = r.Leave(ctx(20 * time.Second))
				}
				if err != nil {
					w.res.Violatef("step %d: %+v of %q: %v", si, o, c.id, err)
				}
				then(err)
			})
			after = append(after, func() {
				switch o.K {
				case c16Disconnect:
					delete(c.ns, o.NS)
					for k := range c.room {
						if k[0] == o.NS {
							delete(c.room, k)
						}
					}
					c.nUnsub[o.NS]++
				case c16Join:
					c.room[key] = true
				case c16Leave:
					delete(c.room, key)
				}
			})
		case c16Close:
			c := w.clis[o.C]
			if c == nil || !c.alive {
				continue
			}
			run(func() {
				switch o.How {
				case 0:
					c.cli.Close()
				case 1:
					c.sc.Close()
				default:
					c.link.Cut()
				}
			})
			after = append(after, func() { w.closed(c) })
		case c16Broadcast:
			var exc fmt.Stringer
			ex := -1
			if c := w.clis[o.ExC]; c != nil && c.alive && o.Exc > 0 {
				ex = o.ExC
				switch o.Exc {
				case 1:
					exc = c.sc
				case 2, 3:
					var any *neffos.NSConn
					var rm *neffos.Room
					for i, n := range w.p.NS {
						if c.ns[i] {
							any = c.sc.Namespace(n)
							for j, r := range c16Rooms {
								if any != nil && c.room[[2]int{i, j}] {
									rm = any.Room(r)
								}
							}
						}
					}
					if o.Exc == 2 && any != nil {
						exc = any
					} else if o.Exc == 3 && rm != nil {
						exc = rm
					} else {
						exc = c.sc
					}
				case 4:
					exc = neffos.Exclude(c.id)
				}
			}
			var msgs []neffos.Message
			for _, m := range o.M {
				w.n++
				body := fmt.Sprintf("%d:%s%s", w.n, m.Body, strings.Repeat(";b", m.Big/2))
				mm := neffos.Message{Namespace: w.p.NS[m.NS], Event: "e", Body: []byte(body)}
				if m.Room >= 0 {
					mm.Room = c16Rooms[m.Room]
				}
				switch {
				case m.To >= 0:
					mm.To = w.id(m.To)
				case m.To == -2:
					mm.To = "nobody"
				}
				n := 1
				if m.Twice {
					n = 2
					w.res.Label("twice")
				}
				for j := 0; j < n; j++ {
					msgs = append(msgs, mm)
					pubs[o.S] = append(pubs[o.S], fmt.Sprintf("%q %q %q %q to %q", mm.Namespace, mm.Room, mm.Event, mm.Body, mm.To))
				}
				e := expect{n: n, line: fmt.Sprintf("%q %q %q %q", mm.Namespace, mm.Room, mm.Event, mm.Body), must: map[int]bool{}, may: map[int]bool{}, seqKey: fmt.Sprint(oi)}
				if w.p.Kind == "nats" {
					// NATS orders the messages of a subject
					e.path = "ns " + mm.Namespace
					if mm.To != "" {
						e.path = "to " + mm.To
					}
				}
				w.audience(m, ex, changes, st, e.must, e.may)
				exp = append(exp, e)
			}
			concurrentPubs[o.S]++
			saved := fmt.Sprintf("%#v", msgs)
			run(func() {
				w.ws[o.S].S.Broadcast(exc, msgs...)
				if fmt.Sprintf("%#v", msgs) != saved {
					w.res.Violatef("step %d: Broadcast modified its caller's messages", si)
				}
			})
			w.res.Label("broadcast")
			if ex >= 0 {
				w.res.Label("excluded")
			}
		case c16Ask:
			m := o.M[0]
			w.n++
			body := fmt.Sprintf("%d:%s%s", w.n, m.Body, strings.Repeat(";b", m.Big/2))
			mm := neffos.Message{Namespace: w.p.NS[m.NS], Event: fmt.Sprintf("q%d", o.How), Body: []byte(body)}
			if m.Room >= 0 {
				mm.Room = c16Rooms[m.Room]
			}
			if m.To >= 0 {
				mm.To = w.id(m.To)
			}
			e := expect{line: fmt.Sprintf("%q %q %q %q", mm.Namespace, mm.Room, mm.Event, mm.Body), must: map[int]bool{}, may: map[int]bool{}, seqKey: fmt.Sprint(oi)}
			w.audience(m, -1, changes, st, e.must, e.may)
			exp = append(exp, e)
			run(func() {
				t0 := time.Now()
				reply, err := w.ws[o.S].S.Ask(ctx(3*time.Second), mm)
				el := time.Since(t0)
				// the possible answers
				ok := map[string]bool{}
				for i := range w.clis {
					if e.may[i] {
						ok["re:"+w.id(i)+":"+body] = true
						ok["er:"+w.id(i)+":"+body] = true
					}
				}
				switch {
				case len(e.may) > len(e.must) && err != nil && (err.Error() == neffos.ErrBadNamespace.Error() || (err == errNotMine && w.p.After > 0)):
					// a connection that disconnects from the namespace meanwhile was the first one
				case len(e.must) > 0 && o.How == 0:
					if err != nil {
						w.res.Violatef("step %d: Server.Ask %s with %d responders returned error %v after %v", si, e.line, len(e.must), err, el)
					} else if !ok[string(reply.Body)] {
						w.res.Violatef("step %d: Server.Ask %s returned %q", si, e.line, reply.Body)
					}
					w.res.Label("ask-replied")
				case len(e.must) > 0 && o.How == 1:
					if err == nil {
						w.res.Violatef("step %d: Server.Ask %s returned %q instead of the responder's error", si, e.line, reply.Body)
					} else if w.p.After == 0 && !ok[err.Error()] {
						w.res.Violatef("step %d: Server.Ask %s returned error %q", si, e.line, err)
					}
					w.res.Label("ask-error")
				case len(e.may) == 0 || o.How == 2:
					if err == nil {
						w.res.Violatef("step %d: Server.Ask %s returned %q although nobody answers", si, e.line, reply.Body)
					} else if w.p.After == 0 && !errors.Is(err, context.DeadlineExceeded) {
						w.res.Violatef("step %d: Server.Ask %s returned error %q instead of the context's", si, e.line, err)
					}
				default:
					if err == nil && !ok[string(reply.Body)] {
						w.res.Violatef("step %d: Server.Ask %s returned %q", si, e.line, reply.Body)
					}
				}
				if el > 4*time.Second {
					w.res.Violatef("step %d: Server.Ask %s took %v", si, e.line, el)
				}
			})
		}
	}
	for _, f := range begin {
		go f()
	}
	wg.Wait()
	Settle(2 * time.Second)
	for _, f := range after {
		f()
	}
	if len(w.res.Violations) > 0 {
		return
	}
	// the same memberships have the same number of subscriptions, whatever was before
	if w.br != nil {
		var key []string
		for i, c := range w.clis {
			if c != nil && c.alive {
				for ni := range w.p.NS {
					if c.ns[ni] {
						key = append(key, fmt.Sprint(i, " ", ni))
					}
				}
				key = append(key, fmt.Sprint(i))
			}
		}
		sort.Strings(key)
		k, n := strings.Join(key, ","), w.br.subscriptions()
		if x, ok := w.subsOf[k]; !ok {
			w.subsOf[k] = n
		} else if x != n {
			w.res.Violatef("step %d: the broker has %d subscriptions, it had %d when the same connections were connected to the same namespaces", si, n, x)
		}
	}
	// the deliveries
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := range w.clis {
		got := w.log[i][before[i]:]
		cnt := map[string]int{}
		for _, g := range got {
			cnt[g]++
		}
		known := map[string]bool{}
		for _, e := range exp {
			known[e.line] = true
			n := max(e.n, 1)
			switch {
			case cnt[e.line] == 0 && e.must[i]:
				w.res.Violatef("step %d: %q did not receive %s (received %q)", si, w.id(i), e.line, got)
			case cnt[e.line] > n || cnt[e.line] < n && e.must[i]:
				w.res.Violatef("step %d: %q received %s %d times, it was sent %d times", si, w.id(i), e.line, cnt[e.line], n)
			case cnt[e.line] > 0 && !e.may[i]:
				w.res.Violatef("step %d: %q received %s but is not in its audience", si, w.id(i), e.line)
			}
		}
		for _, g := range got {
			if !known[g] {
				w.res.Violatef("step %d: %q received %s which nobody sent", si, w.id(i), g)
			}
		}
		// the messages of one call arrive in their order
		pos := map[string]int{}
		for j, g := range got {
			pos[g] = j
		}
		for a := range exp {
			for _, y := range exp[a+1:] {
				x := exp[a]
				if x.seqKey == y.seqKey && x.path == y.path && cnt[x.line] == 1 && cnt[y.line] == 1 && pos[x.line] > pos[y.line] {
					w.res.Violatef("step %d: %q received %s before %s, although they were broadcasted the other way round", si, w.id(i), y.line, x.line)
				}
			}
		}
	}
	// the publications: every exchange, each message once, in order per call
	for s := range w.excs {
		for xi, x := range w.excs[s] {
			x.mu.Lock()
			got := x.pub[pubBefore[s]:]
			for _, b := range x.bad {
				w.res.Violatef("step %d: %s", si, b)
			}
			x.mu.Unlock()
			want := pubs[s]
			if concurrentPubs[s] > 1 {
				got, want = append([]string(nil), got...), append([]string(nil), want...)
				sort.Strings(got)
				sort.Strings(want)
			}
			if strings.Join(got, "|") != strings.Join(want, "|") {
				w.res.Violatef("step %d: exchange %d of server %d published %q, expected %q", si, xi, s, got, want)
			}
		}
	}
}

func (c *c16Client) nsc(n string) *neffos.NSConn { return clientNS(c.cli, n) }

// clientNS is the client's namespace connection.
func clientNS(cli *neffos.Client, n string) *neffos.NSConn {
	ns, err := cli.Connect(context.Background(), n)
	if err != nil {
		return nil
	}
	return ns
}

// audience of a message: clients that must and that may receive it, given what
// else happens in the step.
func (w *c16World) audience(m c16Msg, ex int, changes map[int]bool, st c16Step, must, may map[int]bool) {
	for i, c := range w.clis {
		if i == ex || m.To == -2 || (m.To >= 0 && m.To != i) {
			continue
		}
		if changes[i] {
			may[i] = true
			continue
		}
		if c.in(m) {
			must[i], may[i] = true, true
		}
	}
	if len(must) > 0 {
		w.res.NonTrivial = true
	}
}

// checkExchanges compares what the exchanges were told with the model.
func (w *c16World) checkExchanges() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, c := range w.clis {
		if c == nil {
			continue
		}
		for xi, x := range w.excs[c.srv] {
			x.mu.Lock()
			var calls []string
			n := 0
			for sc, l := range x.conn {
				if sc.ID() == c.id {
					calls = append([]string(nil), l...)
					n++
				}
			}
			x.mu.Unlock()
			if n > 1 {
				w.res.Violatef("exchange %d was told about %d connections with ID %q", xi, n, c.id)
				continue
			}
			failAt := -1
			for yi, y := range w.excs[c.srv] {
				if y.fail[c.id] != nil {
					failAt = yi
				}
			}
			var want []string
			switch {
			case failAt >= 0 && xi > failAt:
				// not reached: at most told that it ended
				if len(calls) > 1 || (len(calls) == 1 && calls[0] != "disconnect") {
					w.res.Violatef("exchange %d after the failing one was told %q about %q", xi, calls, c.id)
				}
				continue
			case failAt == xi:
				if len(calls) == 0 || calls[0] != "fail" || len(calls) > 2 || (len(calls) == 2 && calls[1] != "disconnect") {
					w.res.Violatef("the failing exchange %d was told %q about %q", xi, calls, c.id)
				}
				continue
			case failAt >= 0 || w.ref[c.id]:
				want = []string{"connect", "disconnect"}
			}
			if want != nil {
				if strings.Join(calls, "|") != strings.Join(want, "|") {
					w.res.Violatef("exchange %d was told %q about the refused %q, expected %q", xi, calls, c.id, want)
				}
				w.res.Label("refused")
				continue
			}
			// shape
			if len(calls) == 0 || calls[0] != "connect" {
				w.res.Violatef("exchange %d was told %q about %q: it does not begin with OnConnect", xi, calls, c.id)
				continue
			}
			on := map[string]bool{}
			cnt := map[string]int{}
			for j, k := range calls {
				cnt[k]++
				switch {
				case k == "disconnect" && j != len(calls)-1:
					w.res.Violatef("exchange %d was told %q about %q: OnDisconnect is not the last one", xi, calls, c.id)
				case strings.HasPrefix(k, "sub:"):
					if on[k[4:]] {
						w.res.Violatef("exchange %d was told %q about %q: subscribed twice", xi, calls, c.id)
					}
					on[k[4:]] = true
				case strings.HasPrefix(k, "unsub:"):
					if !on[k[6:]] {
						w.res.Violatef("exchange %d was told %q about %q: unsubscribed without a subscription", xi, calls, c.id)
					}
					on[k[6:]] = false
				}
			}
			if cnt["connect"] != 1 || cnt["disconnect"] != b2i(!c.alive) {
				w.res.Violatef("exchange %d was told %q about %q (alive: %v)", xi, calls, c.id, c.alive)
			}
			for ni, n := range w.p.NS {
				if cnt["sub:"+n] != c.nSub[ni] || cnt["unsub:"+n] < c.nUnsub[ni] || cnt["unsub:"+n] > c.nUnsub[ni]+c.mayUnsub[ni] {
					w.res.Violatef("exchange %d was told %q about %q: expected %d subscriptions to and %d unsubscriptions from %q", xi, calls, c.id, c.nSub[ni], c.nUnsub[ni], n)
				}
			}
			if cnt["sub:no"] != 0 {
				w.res.Violatef("exchange %d was told %q about %q: subscribed to a refused namespace", xi, calls, c.id)
			}
			_ = i
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
