package core

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/sim"

	"github.com/kataras/neffos"
	natsx "github.com/kataras/neffos/stackexchange/nats"
	redisx "github.com/kataras/neffos/stackexchange/redis"
	"github.com/mediocregopher/radix/v3"
	"github.com/nats-io/nats.go"
)

// C17 and C18 run the histories of C16 with the real redis and NATS exchanges.
// Their client libraries talk to the brokers below over in-memory streams.

// realExc logs what an exchange is told and passes it on.
type realExc struct {
	*excLog
	x neffos.StackExchange
}

func (r *realExc) OnConnect(c *neffos.Conn) error {
	if err := r.excLog.OnConnect(c); err != nil && err != errBroker {
		return err
	}
	return r.x.OnConnect(c)
}
func (r *realExc) OnDisconnect(c *neffos.Conn) {
	r.excLog.OnDisconnect(c)
	r.x.OnDisconnect(c)
}
func (r *realExc) Subscribe(c *neffos.Conn, ns string) {
	r.excLog.Subscribe(c, ns)
	r.x.Subscribe(c, ns)
}
func (r *realExc) Unsubscribe(c *neffos.Conn, ns string) {
	r.excLog.Unsubscribe(c, ns)
	r.x.Unsubscribe(c, ns)
}
func (r *realExc) Publish(msgs []neffos.Message) bool {
	r.excLog.Publish(msgs)
	if !r.x.Publish(msgs) {
		r.excLog.mu.Lock()
		r.excLog.bad = append(r.excLog.bad, "Publish failed")
		r.excLog.mu.Unlock()
		return false
	}
	return true
}
func (r *realExc) Ask(ctx context.Context, msg neffos.Message, token string) (neffos.Message, error) {
	return r.x.Ask(ctx, msg, token)
}
func (r *realExc) NotifyAsk(msg neffos.Message, token string) error { return r.x.NotifyAsk(msg, token) }

// brokerCfg is the generated part of a broker.
type brokerCfg struct {
	Up, Down sim.StreamDir
	Lat      []int // processing latency of successive publications (us)
	Pass     string
	Cluster  int // redis cluster nodes; 0: no cluster
	Max      int // redis pool size
	Channel  string
	Opts     int `json:",omitempty"` // how nats is configured
}

type bconn struct {
	b      *broker
	s      *sim.Stream
	subs   map[string]string // redis: channel to channel; nats: sid to subject
	psubs  map[string]bool
	noEcho bool
	queue  map[string]string // nats: sid to queue group
	max    map[string]int    // nats: sid to the last message of an UNSUB
	sent   map[string]int    // nats: messages by sid
}

// broker is a redis or NATS server.
type broker struct {
	kind  string
	cfg   brokerCfg
	mu    sync.Mutex
	conns map[*bconn]bool
	pools []interface{ Close() error }
	n     int
	dead  bool
	down  bool     // refuses new connections
	deny  bool     // denies subscriptions
	errs  []string // protocol errors it had to report
}

func newBroker(kind string, cfg brokerCfg) *broker {
	b := &broker{kind: kind, cfg: cfg, conns: map[*bconn]bool{}}
	if kind == "redis" {
		radix.VerifDial = b.Dial
		radix.VerifPool = func(p interface{ Close() error }) {
			b.mu.Lock()
			b.pools = append(b.pools, p)
			b.mu.Unlock()
		}
	}
	return b
}

// exchange is a new exchange on the broker.
func (b *broker) exchange() (neffos.StackExchange, error) {
	if b.kind == "redis" {
		cfg := redisx.Config{MaxActive: b.cfg.Max, Password: b.cfg.Pass}
		for i := 0; i < b.cfg.Cluster; i++ {
			cfg.Clusters = append(cfg.Clusters, fmt.Sprintf("127.0.0.1:%d", 7000+i))
		}
		return redisx.NewStackExchange(cfg, b.cfg.Channel)
	}
	opts := []nats.Option{nats.SetCustomDialer(b), nats.MaxReconnects(20), nats.NoCallbacksAfterClientClose()}
	if b.cfg.Pass != "" {
		opts = append(opts, nats.Token(b.cfg.Pass))
	}
	url := "nats://127.0.0.1:4222"
	switch b.cfg.Opts {
	case 1: // all options in one structure
		o := nats.GetDefaultOptions()
		o.Url = url
		for _, f := range opts {
			f(&o)
		}
		opts = []nats.Option{nil, natsx.With(o)}
	case 2:
		url = " nats://127.0.0.1:4222 , nats://127.0.0.1:4223"
	case 3:
		url = ""
	case 5: // only servers
		o := nats.GetDefaultOptions()
		o.Servers = []string{"nats://127.0.0.1:4223", "nats://127.0.0.1:4224"}
		for _, f := range opts {
			f(&o)
		}
		opts = []nats.Option{natsx.With(o)}
	case 4:
		bad := errors.New("a wrong option")
		if x, err := natsx.NewStackExchange(url, append(opts[:len(opts):len(opts)], func(*nats.Options) error { return bad })...); err != bad || x != nil {
			return nil, fmt.Errorf("NewStackExchange with a failing option: %v", err)
		}
	}
	x, err := natsx.NewStackExchange(url, opts...)
	if err == nil && b.cfg.Channel != "" {
		x.SubjectPrefix = b.cfg.Channel
	}
	return x, err
}

// Dial is the network of the client libraries.
func (b *broker) Dial(network, addr string) (net.Conn, error) {
	b.mu.Lock()
	dead := b.dead
	b.mu.Unlock()
	if dead {
		if b.kind == "redis" {
			runtime.Goexit() // it would try for ever
		}
		return nil, errors.New("broker: gone")
	}
	if !b.known(addr) {
		b.mu.Lock()
		b.errs = append(b.errs, fmt.Sprintf("%q is dialed, it is not configured", addr))
		b.mu.Unlock()
		return nil, streamRefused
	}
	b.mu.Lock()
	down := b.down
	b.mu.Unlock()
	if down {
		return nil, streamRefused
	}
	x, y := sim.NewStream(b.cfg.Up, b.cfg.Down)
	c := &bconn{b: b, s: y, subs: map[string]string{}, psubs: map[string]bool{}, queue: map[string]string{}, max: map[string]int{}, sent: map[string]int{}}
	b.mu.Lock()
	b.conns[c] = true
	b.mu.Unlock()
	go func() {
		if b.kind == "redis" {
			c.redis()
		} else {
			c.nats()
		}
		b.mu.Lock()
		delete(b.conns, c)
		b.mu.Unlock()
		y.Close()
	}()
	return x, nil
}

// known reports whether the address is one of the configured ones.
func (b *broker) known(addr string) bool {
	if b.kind == "redis" {
		return true
	}
	switch addr {
	case "127.0.0.1:4222":
		return b.cfg.Opts != 5
	case "127.0.0.1:4223":
		return b.cfg.Opts == 2 || b.cfg.Opts == 5
	case "127.0.0.1:4224":
		return b.cfg.Opts == 5
	}
	return false
}

var streamRefused = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}

// fault makes the broker refuse connections or subscriptions.
func (b *broker) fault(down, deny bool) {
	b.mu.Lock()
	b.down, b.deny = down, deny
	b.mu.Unlock()
}

// kick breaks all connections to the broker.
func (b *broker) kick() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		c.s.Reset()
	}
}

func (b *broker) close() {
	b.mu.Lock()
	b.dead = true
	pools := b.pools
	b.mu.Unlock()
	for i := len(pools) - 1; i >= 0; i-- {
		go pools[i].Close()
	}
	b.kick()
}

// subscriptions is the number of subscriptions that the broker holds.
func (b *broker) subscriptions() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for c := range b.conns {
		n += len(c.subs) + len(c.psubs)
	}
	return n
}

// count is the number of connections to the broker.
func (b *broker) count() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.conns)
}

func (b *broker) delay() {
	b.mu.Lock()
	d := 0
	if len(b.cfg.Lat) > 0 {
		d = b.cfg.Lat[b.n%len(b.cfg.Lat)]
		b.n++
	}
	b.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func bulk(xs ...string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "*%d\r\n", len(xs))
	for _, x := range xs {
		fmt.Fprintf(&sb, "$%d\r\n%s\r\n", len(x), x)
	}
	return sb.String()
}

func readLine(br *bufio.Reader) (string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(l, "\r\n"), nil
}

func (c *bconn) redis() {
	b := c.b
	br := bufio.NewReader(c.s)
	authed := b.cfg.Pass == ""
	out := func(s string) { c.s.Write([]byte(s)) }
	for {
		l, err := readLine(br)
		if err != nil {
			return
		}
		if l == "" || l[0] != '*' {
			out("-ERR Protocol error\r\n")
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var a []string
		for i := 0; i < n; i++ {
			l, err := readLine(br)
			if err != nil || l == "" || l[0] != '$' {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			d := make([]byte, k+2)
			if _, err := io.ReadFull(br, d); err != nil {
				return
			}
			a = append(a, string(d[:k]))
		}
		if len(a) == 0 {
			continue
		}
		cmd := strings.ToUpper(a[0])
		if cmd == "PUBLISH" || strings.HasSuffix(cmd, "SUBSCRIBE") {
			b.delay()
		}
		b.mu.Lock()
		subscribed := len(c.subs)+len(c.psubs) > 0
		switch {
		case cmd == "AUTH":
			if a[len(a)-1] == b.cfg.Pass {
				authed = true
				out("+OK\r\n")
			} else {
				out("-WRONGPASS invalid username-password pair\r\n")
			}
		case !authed:
			out("-NOAUTH Authentication required.\r\n")
		case cmd == "PING" && subscribed:
			out(bulk("pong", ""))
		case cmd == "PING":
			out("+PONG\r\n")
		case cmd == "CLUSTER" && b.cfg.Cluster > 0:
			s := fmt.Sprintf("*%d\r\n", b.cfg.Cluster)
			per := 16384 / b.cfg.Cluster
			for i := 0; i < b.cfg.Cluster; i++ {
				hi := (i+1)*per - 1
				if i == b.cfg.Cluster-1 {
					hi = 16383
				}
				s += fmt.Sprintf("*3\r\n:%d\r\n:%d\r\n*3\r\n$9\r\n127.0.0.1\r\n:%d\r\n$4\r\nid%02d\r\n", i*per, hi, 7000+i, i)
			}
			out(s)
		case (cmd == "SUBSCRIBE" || cmd == "PSUBSCRIBE" || cmd == "UNSUBSCRIBE" || cmd == "PUNSUBSCRIBE") && len(a) > 1:
			for _, ch := range a[1:] {
				switch cmd {
				case "SUBSCRIBE":
					c.subs[ch] = ch
				case "PSUBSCRIBE":
					c.psubs[ch] = true
				case "UNSUBSCRIBE":
					delete(c.subs, ch)
				default:
					delete(c.psubs, ch)
				}
				out(fmt.Sprintf("*3\r\n$%d\r\n%s\r\n$%d\r\n%s\r\n:%d\r\n", len(cmd), strings.ToLower(cmd), len(ch), ch, len(c.subs)+len(c.psubs)))
			}
		case subscribed:
			out("-ERR Can't execute '" + strings.ToLower(cmd) + "' in this context\r\n")
		case cmd == "PUBLISH" && len(a) == 3:
			k := 0
			for x := range b.conns {
				if _, ok := x.subs[a[1]]; ok {
					k++
					x.s.Write([]byte(bulk("message", a[1], a[2])))
				}
				for p := range x.psubs {
					if globMatch(p, a[1]) {
						k++
						x.s.Write([]byte(bulk("pmessage", p, a[1], a[2])))
					}
				}
			}
			out(fmt.Sprintf(":%d\r\n", k))
		default:
			out("-ERR unknown command\r\n")
			b.errs = append(b.errs, "redis: "+cmd)
		}
		b.mu.Unlock()
	}
}

// globMatch is redis' pattern matching.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			s = s[1:]
		case '[':
			if s == "" {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if match == not {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return s == ""
			}
		default:
			if p[0] == '\\' && len(p) >= 2 {
				p = p[1:]
			}
			if s == "" || s[0] != p[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return s == ""
}

func (c *bconn) nats() {
	b := c.b
	br := bufio.NewReader(c.s)
	out := func(s string) { c.s.Write([]byte(s)) }
	out(fmt.Sprintf(`INFO {"server_id":"S","server_name":"s","version":"2.10.0","proto":1,"headers":true,"max_payload":1048576,"auth_required":%v,"client_id":1}`+"\r\n", b.cfg.Pass != ""))
	fail := func(s string) {
		b.mu.Lock()
		b.errs = append(b.errs, "nats: "+s)
		b.mu.Unlock()
		out("-ERR '" + s + "'\r\n")
	}
	authed := b.cfg.Pass == ""
	for {
		l, err := readLine(br)
		if err != nil {
			return
		}
		f := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '\t' })
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				Echo  *bool  `json:"echo"`
				Token string `json:"auth_token"`
			}
			json.Unmarshal([]byte(strings.TrimSpace(l[7:])), &o)
			c.noEcho = o.Echo != nil && !*o.Echo
			if b.cfg.Pass != "" && o.Token != b.cfg.Pass {
				fail("Authorization Violation")
				return
			}
			authed = true
		case "PING":
			out("PONG\r\n")
		case "PONG":
		case "SUB":
			if !authed {
				return
			}
			if len(f) != 3 && len(f) != 4 {
				fail("Unknown Protocol Operation")
				return
			}
			if !validSubject(f[1]) {
				fail("Invalid Subject")
				continue
			}
			b.mu.Lock()
			if b.deny {
				b.mu.Unlock()
				out(fmt.Sprintf("-ERR 'Permissions Violation for Subscription to \"%s\"'\r\n", f[1]))
				continue
			}
			sid := f[len(f)-1]
			c.subs[sid] = f[1]
			delete(c.queue, sid)
			if len(f) == 4 {
				c.queue[sid] = f[2]
			}
			delete(c.max, sid)
			c.sent[sid] = 0
			b.mu.Unlock()
		case "UNSUB":
			if len(f) < 2 {
				return
			}
			b.mu.Lock()
			n := 0
			if len(f) > 2 {
				n, _ = strconv.Atoi(f[2])
			}
			if n > c.sent[f[1]] {
				c.max[f[1]] = n // after so many messages
			} else {
				delete(c.subs, f[1])
			}
			b.mu.Unlock()
		case "PUB":
			if !authed {
				return
			}
			if len(f) != 3 && len(f) != 4 {
				fail("Unknown Protocol Operation")
				return
			}
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil || n < 0 || n > 1<<20 {
				fail("Parser Error")
				return
			}
			d := make([]byte, n+2)
			if _, err := io.ReadFull(br, d); err != nil || string(d[n:]) != "\r\n" {
				return
			}
			b.delay()
			b.mu.Lock()
			served := map[string]bool{}
			for x := range b.conns {
				if x == c && c.noEcho {
					continue
				}
				for sid, subj := range x.subs {
					if !subjectMatch(subj, f[1]) {
						continue
					}
					if q := x.queue[sid]; q != "" {
						if served[q+" "+subj] {
							continue // one of its members has it
						}
						served[q+" "+subj] = true
					}
					x.s.Write([]byte(fmt.Sprintf("MSG %s %s %d\r\n%s\r\n", f[1], sid, n, d[:n])))
					x.sent[sid]++
					if m := x.max[sid]; m > 0 && x.sent[sid] >= m {
						delete(x.subs, sid)
					}
				}
			}
			b.mu.Unlock()
		default:
			fail("Unknown Protocol Operation")
			return
		}
	}
}

func validSubject(s string) bool {
	ts := strings.Split(s, ".")
	for i, t := range ts {
		if t == "" || (t == ">" && i != len(ts)-1) {
			return false
		}
	}
	return true
}

func subjectMatch(pat, s string) bool {
	p, t := strings.Split(pat, "."), strings.Split(s, ".")
	for i, x := range p {
		if x == ">" {
			return len(t) > i
		}
		if i >= len(t) || (x != "*" && x != t[i]) {
			return false
		}
	}
	return len(p) == len(t)
}
