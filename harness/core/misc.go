package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C21: store

type storeOp struct {
	K   int // 0 get 1 set 2 increment 3 decrement
	Key int
	V   storeVal
	D   int // delay before it (us)
}

// storeVal is a value to set.
type storeVal struct {
	T int // 0 int 1 string 2 int64 3 nil 4 float64 5 bool 6 uint 7 struct pointer
	N int
}

var storePtrs = [4]*int{new(int), new(int), new(int), new(int)}

func (v storeVal) value() any {
	switch v.T {
	case 0:
		return v.N
	case 1:
		return strconv.Itoa(v.N)
	case 2:
		return int64(v.N)
	case 3:
		return nil
	case 4:
		return float64(v.N)
	case 5:
		return v.N%2 == 0
	case 6:
		return uint(v.N)
	}
	return storePtrs[(v.N%4+4)%4]
}

type c21Plan struct {
	Side  []int // connection of each goroutine: 0,1 server side of link 0,1; 2,3 client side (in callbacks)
	G     [][]storeOp
	Keys  int
	Heavy []int // per goroutine: number of increments (positive) or decrements (negative) of one shared key
	Sets  int   // concurrent Set calls on other keys meanwhile
}

func genC21(t *rapid.T) c21Plan {
	p := c21Plan{Keys: rapid.IntRange(1, 3).Draw(t, "keys")}
	n := rapid.IntRange(1, 4).Draw(t, "goroutines")
	heavy := rapid.IntRange(0, 3).Draw(t, "heavy") == 0
	for i := 0; i < n; i++ {
		p.Side = append(p.Side, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "side"))
		var ops []storeOp
		m := rapid.IntRange(1, 6).Draw(t, "ops")
		if n == 1 {
			m = rapid.IntRange(1, 25).Draw(t, "ops1")
		}
		for j := 0; j < m; j++ {
			ops = append(ops, storeOp{
				K:   rapid.SampledFrom([]int{0, 0, 1, 2, 2, 2, 3, 3}).Draw(t, "k"),
				Key: rapid.IntRange(0, p.Keys-1).Draw(t, "key"),
				V:   storeVal{rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "t"), rapid.SampledFrom([]int{0, 1, -1, 5, 41, 1 << 40}).Draw(t, "n")},
				D:   rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "d"),
			})
		}
		p.G = append(p.G, ops)
		if heavy {
			p.Heavy = append(p.Heavy, rapid.SampledFrom([]int{0, 50, 200, -50, -200, 400}).Draw(t, "h"))
		}
	}
	if heavy {
		p.Sets = rapid.SampledFrom([]int{0, 50, 200}).Draw(t, "sets")
	}
	return p
}

type storeRec struct {
	op   storeOp
	a, b int64
	got  any
}

func runC21(p c21Plan, res *kit.Result) {
	if len(p.Side) < len(p.G) {
		return
	}
	w := NewWorld(neffos.Namespaces{"a": neffos.Events{}})
	var conns [3]*neffos.Conn
	var clis [2]*neffos.Client
	for i := 0; i < 2; i++ {
		cli, _, acc, err := w.Dial(fmt.Sprint("u", i), neffos.Namespaces{"a": neffos.Events{}}, sim.Dir{}, sim.Dir{})
		if err != nil {
			res.Label("setup-failed")
			return
		}
		clis[i] = cli
		conns[i] = (<-acc).c
	}
	ns, err := clis[0].Connect(context.Background(), "a")
	if err != nil {
		res.Label("setup-failed")
		return
	}
	conns[2] = ns.Conn
	var clock atomic.Int64
	recs := make([][]storeRec, len(p.G))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range p.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := conns[p.Side[i]]
			<-start
			for _, o := range p.G[i] {
				if o.D > 0 {
					time.Sleep(time.Duration(o.D) * time.Microsecond)
				}
				r := storeRec{op: o}
				key := fmt.Sprint("k", o.Key)
				r.a = clock.Add(1)
				switch o.K {
				case 0:
					r.got = c.Get(key)
				case 1:
					c.Set(key, o.V.value())
				case 2:
					r.got = c.Increment(key)
				case 3:
					r.got = c.Decrement(key)
				}
				r.b = clock.Add(1)
				recs[i] = append(recs[i], r)
			}
		}()
	}
	close(start)
	wg.Wait()
	for side := 0; side < 3; side++ {
		for k := 0; k < p.Keys; k++ {
			var h []storeRec
			for i := range p.G {
				if p.Side[i] != side {
					continue
				}
				for _, r := range recs[i] {
					if r.op.Key == k {
						h = append(h, r)
					}
				}
			}
			// the final value, as a read after everything else
			fin := storeRec{op: storeOp{K: 0, Key: k}, a: clock.Add(1), got: conns[side].Get(fmt.Sprint("k", k))}
			fin.b = clock.Add(1)
			h = append(h, fin)
			if len(h) > 1 {
				res.NonTrivial = true
			}
			if !linearizable(h) {
				res.Violatef("no one-at-a-time execution explains the history of key k%d of connection %d: %s", k, side, histString(h))
			}
		}
	}
	if len(p.Heavy) > 0 {
		want := 0
		start := make(chan struct{})
		var wg sync.WaitGroup
		c := conns[0]
		c.Set("heavy", "not a number")
		for g, n := range p.Heavy {
			want += n
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < n; j++ {
					c.Increment("heavy")
				}
				for j := 0; j > n; j-- {
					c.Decrement("heavy")
				}
			}()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < p.Sets; j++ {
					k := fmt.Sprint("own", g)
					c.Set(k, j)
					if v := c.Get(k); v != j {
						res.Violatef("Get returned %v right after Set of %d, which no other goroutine changes", v, j)
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		total := 0
		for _, n := range p.Heavy {
			if n != 0 {
				total++
			}
		}
		got := c.Get("heavy")
		if total == 0 {
			if got != "not a number" {
				res.Violatef("an untouched value changed to %v", got)
			}
		} else if total > 0 && got != want {
			res.Violatef("%v increments/decrements by %d goroutines from a non-integer gave %v, expected %d", p.Heavy, len(p.Heavy), got, want)
		}
		if v := conns[1].Get("heavy"); v != nil {
			res.Violatef("the store of another connection changed: %v", v)
		}
		if total > 1 {
			res.NonTrivial = true
			res.Label("heavy")
		}
	}
	if len(p.G) > 1 {
		res.Label("concurrent")
	}
	w.Shutdown()
}

func histString(h []storeRec) string {
	sort.Slice(h, func(i, j int) bool { return h[i].a < h[j].a })
	var b strings.Builder
	for _, r := range h {
		fmt.Fprintf(&b, "[%d,%d] ", r.a, r.b)
		switch r.op.K {
		case 0:
			fmt.Fprintf(&b, "Get=%#v; ", r.got)
		case 1:
			fmt.Fprintf(&b, "Set(%#v); ", r.op.V.value())
		case 2:
			fmt.Fprintf(&b, "Increment=%v; ", r.got)
		case 3:
			fmt.Fprintf(&b, "Decrement=%v; ", r.got)
		}
	}
	return b.String()
}

// linearizable searches for an order of the operations on one key that explains
// their results and respects real time.
func linearizable(h []storeRec) bool {
	sort.Slice(h, func(i, j int) bool { return h[i].a < h[j].a })
	n := len(h)
	if n > 62 {
		return true
	}
	type st struct {
		done uint64
		val  string
	}
	seen := map[st]bool{}
	var rec func(done uint64, val any) bool
	rec = func(done uint64, val any) bool {
		if done == 1<<n-1 {
			return true
		}
		k := st{done, fmt.Sprintf("%T %v", val, val)}
		if seen[k] {
			return false
		}
		seen[k] = true
		minEnd := int64(1 << 62)
		for i := range h {
			if done&(1<<i) == 0 && h[i].b < minEnd {
				minEnd = h[i].b
			}
		}
		for i := range h {
			if done&(1<<i) != 0 || h[i].a > minEnd {
				continue
			}
			nv := val
			switch h[i].op.K {
			case 0:
				if h[i].got != val {
					continue
				}
			case 1:
				nv = h[i].op.V.value()
			case 2, 3:
				x, _ := val.(int)
				if h[i].op.K == 2 {
					x++
				} else {
					x--
				}
				if h[i].got != x {
					continue
				}
				nv = x
			}
			if rec(done|1<<i, nv) {
				return true
			}
		}
		return false
	}
	return rec(0, nil)
}

// ------------------------------------------------------- C22: HTTP entry point

type c22Req struct {
	Method string
	Query  [][2]string
	RawQ   string // appended as it is
	Header [][2]string
	NilHdr bool
	Recon  string
	ViaURL bool // the reconnect value comes as a URL parameter
	Fail   bool // the upgrader fails
	Wrap   bool
	IDGen  bool
	ID     string
	Serve  bool // ServeHTTP instead of Upgrade
	Close  bool // the server is closed before this request
}

type c22Plan struct {
	OnErr bool
	Reqs  []c22Req
}

func genC22(t *rapid.T) c22Plan {
	p := c22Plan{OnErr: rapid.Bool().Draw(t, "onerr")}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	names := []string{"X-Websocket-Header-", "x-websocket-header-", "X-WebSocket-Header-", "X-Websocket-Heade", "X-Websocket-Headers-", "Y-X-Websocket-Header-", "", "X-"}
	rest := []string{"Authorization", "a", "X-Foo", "x-foo", "foo-bar", "X-Websocket-Header-A", "1", "", "-", "Cookie"}
	vals := []string{"", "1", "a b", "x;y", "é", "=&", "v1", "v2"}
	for i := 0; i < n; i++ {
		r := c22Req{
			Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "PATCH", "TRACE", "get", "Get", "BREW", "GETX", "head"}).Draw(t, "method"),
			NilHdr: rapid.IntRange(0, 9).Draw(t, "nilhdr") == 0,
			Fail:   rapid.IntRange(0, 4).Draw(t, "fail") == 0,
			Wrap:   rapid.Bool().Draw(t, "wrap"),
			IDGen:  rapid.Bool().Draw(t, "idgen"),
			ID:     rapid.SampledFrom([]string{"", "id", "x;y", "neffos(0x1)", "日本"}).Draw(t, "id"),
			Serve:  rapid.IntRange(0, 3).Draw(t, "serve") == 0,
			Close:  rapid.IntRange(0, 9).Draw(t, "close") == 0,
		}
		for j := rapid.IntRange(0, 5).Draw(t, "q"); j > 0; j-- {
			r.Query = append(r.Query, [2]string{rapid.SampledFrom(names).Draw(t, "name") + rapid.SampledFrom(rest).Draw(t, "rest"), rapid.SampledFrom(vals).Draw(t, "val")})
		}
		for j := rapid.IntRange(0, 2).Draw(t, "h"); j > 0; j-- {
			r.Header = append(r.Header, [2]string{rapid.SampledFrom([]string{"Authorization", "X-Foo", "Foo", "Foo-Bar"}).Draw(t, "hname"), rapid.SampledFrom(vals).Draw(t, "hval")})
		}
		switch rapid.IntRange(0, 3).Draw(t, "rc") {
		case 0:
			r.Recon = rapid.SampledFrom([]string{"0", "1", "2", "17", "1000000", "-3", "010", "0007", "x", "0x1f", "1_0", "1.5"}).Draw(t, "recon")
			r.ViaURL = rapid.Bool().Draw(t, "viaurl")
		case 1:
			r.Recon = strconv.Itoa(rapid.IntRange(0, 1<<31-1).Draw(t, "reconn"))
		}
		p.Reqs = append(p.Reqs, r)
	}
	return p
}

var goexit func()

type wrapSock struct{ neffos.Socket }

func runC22(p c22Plan, res *kit.Result) {
	var up []*http.Request
	var upHdr http.Header // as the upgrader saw it
	var fail error
	var onErr []error
	var link *sim.Link
	upgrader := func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		up = append(up, r)
		upHdr = r.Header.Clone()
		if fail != nil {
			return nil, fail
		}
		link.B.SetRequest(r)
		return link.B, nil
	}
	s := neffos.New(upgrader, neffos.Namespaces{"a": neffos.Events{}})
	if p.OnErr {
		s.OnUpgradeError = func(err error) { onErr = append(onErr, err) }
	}
	connects := 0
	var onConn *neffos.Conn
	s.OnConnect = func(c *neffos.Conn) error { connects++; onConn = c; return nil }
	closed := false
	live := 0
	var links []*sim.Link
	for i, q := range p.Reqs {
		if q.Close && !closed {
			if !call(time.Minute, s.Close) {
				res.Violatef("Server.Close did not return")
				return
			}
			time.Sleep(time.Second)
			closed, live = true, 0
		}
		link = sim.NewLink(sim.Dir{}, sim.Dir{}, true)
		links = append(links, link)
		up, onErr, fail, connects, onConn = nil, nil, nil, 0, nil
		if q.Fail {
			fail = fmt.Errorf("upgrade %d failed", i)
		}
		uv := url.Values{}
		var query []string
		for _, kv := range q.Query {
			query = append(query, url.QueryEscape(kv[0])+"="+url.QueryEscape(kv[1]))
			uv.Add(kv[0], kv[1])
		}
		if q.ViaURL && q.Recon != "" {
			k := "X-Websocket-Header-X-Websocket-Reconnect"
			query = append(query, url.QueryEscape(k)+"="+url.QueryEscape(q.Recon))
			uv.Add(k, q.Recon)
		}
		r := httptest.NewRequest(http.MethodGet, "http://sim/ws?"+strings.Join(query, "&"), nil)
		r.Method = q.Method
		want := http.Header{}
		for _, kv := range q.Header {
			r.Header.Add(kv[0], kv[1])
		}
		if q.Recon != "" && !q.ViaURL {
			r.Header.Set("X-Websocket-Reconnect", q.Recon)
		}
		if q.NilHdr && q.Recon == "" {
			r.Header = nil
		}
		for k, v := range r.Header {
			want[k] = append([]string(nil), v...)
		}
		for k, v := range uv {
			ck := http.CanonicalHeaderKey(k)
			const pre = "X-Websocket-Header-"
			if strings.HasPrefix(ck, pre) && len(ck) > len(pre) {
				name := http.CanonicalHeaderKey(ck[len(pre):])
				want[name] = append(want[name], v...)
				res.NonTrivial = true
			}
		}
		rec := httptest.NewRecorder()
		idCalls := 0
		gen := func(w http.ResponseWriter, rr *http.Request) string {
			idCalls++
			if rr != r || w == nil {
				res.Violatef("request %d: the ID generator was called with another request", i)
			}
			return fmt.Sprint(q.ID, "-", i)
		}
		var cust, def neffos.IDGenerator
		other := func(http.ResponseWriter, *http.Request) string { return "other" }
		if q.IDGen && !q.Serve {
			cust, def = gen, other
		} else {
			def = gen
		}
		s.IDGenerator = def
		var wrap func(neffos.Socket) neffos.Socket
		var wrapped neffos.Socket
		if q.Wrap && !q.Serve {
			wrap = func(x neffos.Socket) neffos.Socket {
				if x != neffos.Socket(link.B) {
					res.Violatef("request %d: the socket wrapper got another socket", i)
				}
				wrapped = &wrapSock{x}
				return wrapped
			}
		}
		var c *neffos.Conn
		var err error
		if !call(time.Minute, func() {
			if q.Serve {
				s.ServeHTTP(rec, r)
				c = onConn
			} else {
				c, err = s.Upgrade(rec, r, wrap, cust)
			}
		}) {
			res.Violatef("request %d: Upgrade did not return", i)
			return
		}
		time.Sleep(time.Second)
		rejected := func(code int, name string, ok func(error) bool) {
			if rec.Code != code {
				res.Violatef("request %d (%s): status %d, expected %d", i, name, rec.Code, code)
			}
			if !q.Serve && (err == nil || c != nil || !ok(err)) {
				res.Violatef("request %d (%s): returned %v, %v", i, name, c, err)
			}
			if len(up) != 0 || connects != 0 || idCalls != 0 || len(onErr) != 0 {
				res.Violatef("request %d (%s): upgrader calls %d, OnConnect calls %d, ID generator calls %d, OnUpgradeError calls %d", i, name, len(up), connects, idCalls, len(onErr))
			}
		}
		switch {
		case closed:
			rejected(500, "closed server", func(err error) bool { return !neffos.IsTryingToReconnect(err) })
			res.NonTrivial = true
			res.Label("closed")
		case q.Method == http.MethodHead:
			rejected(http.StatusFound, "HEAD", neffos.IsTryingToReconnect)
			res.NonTrivial = true
			res.Label("head")
		case q.Method != http.MethodGet:
			rejected(405, "method "+q.Method, func(err error) bool { return !neffos.IsTryingToReconnect(err) })
			if a := rec.Header()["Allow"]; len(a) != 1 || a[0] != "GET" {
				res.Violatef("request %d: Allow header %q", i, a)
			}
			res.NonTrivial = true
			res.Label("method")
		default:
			if len(up) != 1 || up[0] != r {
				res.Violatef("request %d: the upgrader was called %d times", i, len(up))
				break
			}
			checkHeader(res, i, want, upHdr)
			checkHeader(res, i, want, up[0].Header)
			if q.Fail {
				if !q.Serve && (err != fail || c != nil) {
					res.Violatef("request %d: failed upgrade returned %v, %v", i, c, err)
				}
				if p.OnErr && (len(onErr) != 1 || onErr[0] != fail) {
					res.Violatef("request %d: OnUpgradeError got %v", i, onErr)
				}
				if connects != 0 {
					res.Violatef("request %d: OnConnect was called for a failed upgrade", i)
				}
				res.NonTrivial = true
				res.Label("upgrade-error")
				break
			}
			live++
			if err != nil || c == nil {
				res.Violatef("request %d: upgrade returned %v, %v", i, c, err)
				break
			}
			if connects != 1 || len(onErr) != 0 || onConn != c {
				res.Violatef("request %d: OnConnect ran %d times, OnUpgradeError %d times", i, connects, len(onErr))
			}
			if idCalls != 1 || c.ID() != fmt.Sprint(q.ID, "-", i) {
				res.Violatef("request %d: connection ID %q after %d calls of the selected ID generator", i, c.ID(), idCalls)
			}
			sock := neffos.Socket(link.B)
			if wrap != nil {
				sock = wrapped
			}
			if c.Socket() != sock {
				res.Violatef("request %d: the connection's socket is not the (wrapped) one", i)
			}
			tries := 0
			if v := want["X-Websocket-Reconnect"]; len(v) > 0 {
				tries, _ = strconv.Atoi(v[0])
				res.NonTrivial = true
			}
			if c.ReconnectTries != tries || c.WasReconnected() != (tries > 0) {
				res.Violatef("request %d: ReconnectTries %d (WasReconnected %v), expected %d", i, c.ReconnectTries, c.WasReconnected(), tries)
			}
			res.Label("upgraded")
		}
		if n := s.GetTotalConnections(); n != uint64(live) {
			res.Violatef("request %d: %d connections are registered, expected %d", i, n, live)
		}
	}
	s.OnConnect = func(*neffos.Conn) error { return nil }
	s.IDGenerator = func(http.ResponseWriter, *http.Request) string { return "shutdown" }
	link = sim.NewLink(sim.Dir{}, sim.Dir{}, false)
	fail = nil
	for _, l := range links {
		l.Cut()
	}
	time.Sleep(time.Second)
	if kit.Race {
		return
	}
	s.FireDisconnectAlways = true
	s.OnDisconnect = func(*neffos.Conn) { goexit() }
	s.Upgrade(httptest.NewRecorder(), httptest.NewRequest(http.MethodGet, "http://sim/ws", nil), nil, nil)
	link.Cut()
	time.Sleep(time.Second)
}

func checkHeader(res *kit.Result, i int, want, got http.Header) {
	for k, v := range want {
		g := append([]string(nil), got[k]...)
		x := append([]string(nil), v...)
		sort.Strings(g)
		sort.Strings(x)
		if strings.Join(g, "\x00") != strings.Join(x, "\x00") || len(g) != len(x) {
			res.Violatef("request %d: header %q has the values %q, expected %q", i, k, got[k], v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			res.Violatef("request %d: unexpected header %q: %q", i, k, got[k])
		}
	}
}

// --------------------------------------------------------------- C25: timeouts

type c25Plan struct {
	Srv, Cli  c25Side
	CliStruct bool
	Struct    bool // server configured through a Struct
	Lat       int
	Steps     []c25Step
	FailSide  int // 0: nobody's write fails, 1 server's, 2 client's
	FailKind  int
	Namespace bool
}

type c25Side struct {
	R, W int // milliseconds; 0 none
	Mode int // 0 WithTimeout+Namespaces 1 WithTimeout+Events 2 plain (no timeouts)
}

type c25Step struct {
	Gap int // per mille of the smallest read timeout (or ms if there is none)
	K   int // 0 client emits, 1 server emits, 2 both, 3 client asks, 4 server asks, 5 client joins a room, 6 raw binary
}

func genC25(t *rapid.T) c25Plan {
	side := func(l string) c25Side {
		return c25Side{
			R:    rapid.SampledFrom([]int{0, 0, 50, 1000, 30000, 3600000}).Draw(t, l+"r"),
			W:    rapid.SampledFrom([]int{0, 10, 700, 20000}).Draw(t, l+"w"),
			Mode: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, l+"mode"),
		}
	}
	p := c25Plan{Srv: side("s"), Cli: side("c"), Struct: rapid.IntRange(0, 4).Draw(t, "struct") == 0, CliStruct: rapid.IntRange(0, 4).Draw(t, "cstruct") == 0, Lat: rapid.SampledFrom([]int{0, 10, 100}).Draw(t, "lat")}
	p.Cli.Mode, p.Srv.Mode = modeFix(p.Cli.Mode, p.Srv.Mode)
	for n := rapid.IntRange(0, 12).Draw(t, "n"); n > 0; n-- {
		p.Steps = append(p.Steps, c25Step{
			Gap: rapid.SampledFrom([]int{0, 10, 300, 500, 900, 950, 1050, 1100, 2000, 5000}).Draw(t, "gap"),
			K:   rapid.IntRange(0, 6).Draw(t, "k"),
		})
	}
	if rapid.IntRange(0, 2).Draw(t, "f") == 0 {
		p.FailSide = rapid.IntRange(1, 2).Draw(t, "fs")
		p.FailKind = rapid.IntRange(0, len(c25Errs)-1).Draw(t, "fk")
	}
	return p
}

func modeFix(a, b int) (int, int) {
	// both sides use the same namespace: "" with Events, "a" otherwise
	if (a == 1) != (b == 1) {
		if a == 1 {
			a = 0
		} else {
			b = 0
		}
	}
	return a, b
}

// errors of a write after which the connection is gone
var c25Errs = []error{
	io.EOF,
	io.ErrUnexpectedEOF,
	&net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded},
}

type c25Struct struct{}

func (*c25Struct) E(*neffos.NSConn, neffos.Message) error { return nil }
func (*c25Struct) Q(c *neffos.NSConn, m neffos.Message) error {
	return neffos.Reply(m.Body)
}
func (*c25Struct) Namespace() string { return "a" }

func runC25(p c25Plan, res *kit.Result) {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	handler := func(s c25Side) neffos.ConnHandler {
		ev := neffos.Events{"E": func(*neffos.NSConn, neffos.Message) error { return nil }, "Q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }}
		switch s.Mode {
		case 0:
			return neffos.WithTimeout{ReadTimeout: ms(s.R), WriteTimeout: ms(s.W), Namespaces: neffos.Namespaces{"a": ev}}
		case 1:
			return neffos.WithTimeout{ReadTimeout: ms(s.R), WriteTimeout: ms(s.W), Events: ev}
		}
		return neffos.Namespaces{"a": ev}
	}
	// what is expected
	eff := func(s c25Side) (r, w time.Duration) {
		if s.Mode == 2 {
			return 0, 0
		}
		return ms(s.R), ms(s.W)
	}
	sh := handler(p.Srv)
	if p.Struct && p.Srv.Mode == 0 {
		sh = neffos.NewStruct(&c25Struct{}).SetTimeouts(ms(p.Srv.R), ms(p.Srv.W))
		res.Label("struct")
	}
	sr, sw := eff(p.Srv)
	cr, cw := eff(p.Cli)
	small := sr
	if small == 0 || (cr != 0 && cr < small) {
		small = cr
	}
	unit := time.Millisecond * 1000
	if small > 0 {
		unit = small
	}
	lat := time.Duration(p.Lat) * time.Microsecond
	nsName := "a"
	if p.Srv.Mode == 1 {
		nsName = ""
	}
	w := NewWorld(sh)
	var disc []time.Time
	var mu sync.Mutex
	w.S.OnDisconnect = func(*neffos.Conn) {
		mu.Lock()
		disc = append(disc, time.Now())
		mu.Unlock()
	}
	dir := sim.Dir{}
	if p.Lat > 0 {
		dir.Lat = []int{p.Lat}
	}
	ch := handler(p.Cli)
	if p.CliStruct && p.Cli.Mode == 0 {
		ch = neffos.NewStruct(&c25Struct{}).SetTimeouts(ms(p.Cli.R), ms(p.Cli.W))
		res.Label("client-struct")
	}
	cli, link, acc, err := w.Dial("u", ch, dir, dir)
	if err != nil {
		res.Violatef("Dial failed: %v", err)
		return
	}
	sc := (<-acc).c
	ns, err := cli.Connect(context.Background(), nsName)
	if err != nil {
		res.Violatef("Connect failed: %v", err)
		return
	}
	time.Sleep(4 * lat)
	sns := sc.Namespace(nsName)
	if sns == nil {
		res.Violatef("the server side is not connected")
		return
	}
	// When the last frame reached each side; [0] server, [1] client.
	// A side is closed at last+timeout.
	slack := 20*lat + 5*time.Millisecond/10
	sent := func(e *sim.End, n *int, at *time.Time) {
		if c := e.SentCount(); c != *n {
			*n = c
			*at = time.Now()
		}
	}
	var an, bn int
	var lastToSrv, lastToCli time.Time
	track := func() { sent(link.A, &an, &lastToSrv); sent(link.B, &bn, &lastToCli) }
	track()
	lastToSrv, lastToCli = time.Now(), time.Now()
	closedBy := func() (bool, bool) { return sc.IsClosed(), link.A.IsClosed() }
	deadline := func() time.Time {
		d := time.Time{}
		if sr > 0 {
			d = lastToSrv.Add(sr)
		}
		if cr > 0 && (d.IsZero() || lastToCli.Add(cr).Before(d)) {
			d = lastToCli.Add(cr)
		}
		return d
	}
	ended := false
	for i, st := range p.Steps {
		gap := unit * time.Duration(st.Gap) / 1000
		at := time.Now().Add(gap)
		dl := deadline()
		if !dl.IsZero() && at.After(dl.Add(-slack)) {
			if at.Before(dl.Add(slack)) {
				continue // too close to tell
			}
			// not closed before the deadline, closed after it
			if d := dl.Add(-slack).Sub(time.Now()); d > 0 {
				time.Sleep(d)
				if a, b := closedBy(); a || b {
					res.Violatef("step %d: closed (server %v, client %v) %v before the read timeout", i, a, b, dl.Sub(time.Now()))
					return
				}
			}
			time.Sleep(dl.Add(slack).Sub(time.Now()))
			if a, b := closedBy(); !a || !b {
				res.Violatef("step %d: not closed (server closed %v, client closed %v) although the peer was silent for longer than the read timeout (server %v, client %v)", i, a, b, sr, cr)
			}
			res.NonTrivial = true
			res.Label("timed-out")
			ended = true
			break
		}
		time.Sleep(gap)
		if a, b := closedBy(); a || b {
			res.Violatef("step %d: closed (server %v, client %v) although the peer was not silent for the read timeout (server %v, client %v)", i, a, b, sr, cr)
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		switch st.K {
		case 0:
			ns.Emit("E", []byte("x"))
		case 1:
			sns.Emit("E", []byte("x"))
		case 2:
			ns.Emit("E", []byte("x"))
			sns.EmitBinary("E", []byte("x"))
		case 3:
			ns.Ask(ctx, "Q", []byte("q"))
		case 4:
			sns.Ask(ctx, "Q", []byte("q"))
		case 5:
			ns.JoinRoom(ctx, fmt.Sprint("r", i))
		case 6:
			ns.EmitBinary("E", []byte("x"))
		}
		cancel()
		track()
		if small > 0 && st.Gap >= 300 {
			res.NonTrivial = true
		}
	}
	if !ended && p.FailSide > 0 {
		e, c, x := link.B, sc, sns
		if p.FailSide == 2 {
			e, c, x = link.A, ns.Conn, ns
		}
		ferr := c25Errs[p.FailKind%len(c25Errs)]
		e.FailWrite(0, ferr)
		if x.Emit("E", []byte("lost")) {
			res.Violatef("a write that failed with %v was reported as successful", ferr)
		}
		time.Sleep(10*lat + time.Millisecond)
		if !c.IsClosed() {
			res.Violatef("the connection is not closed after a write failed with %v", ferr)
		}
		res.NonTrivial = true
		res.Label("write-failed")
		ended = true
	}
	if !ended && small == 0 {
		time.Sleep(100 * time.Hour)
		if a, b := closedBy(); a || b {
			res.Violatef("an idle connection without read timeouts was closed (server %v, client %v)", a, b)
		}
		if !ns.Emit("E", nil) || !sns.Emit("E", nil) {
			res.Violatef("an idle connection without read timeouts stopped to work")
		}
		res.NonTrivial = true
		res.Label("idle")
	}
	time.Sleep(time.Second)
	rs, ws := link.B.Timeouts()
	checkTO(res, "server read", rs, sr)
	checkTO(res, "server write", ws, sw)
	rs, ws = link.A.Timeouts()
	checkTO(res, "client read", rs, cr)
	checkTO(res, "client write", ws, cw)
	w.Shutdown()
}

func checkTO(res *kit.Result, name string, got []time.Duration, want time.Duration) {
	if len(got) == 0 {
		res.Violatef("no %s at all", name)
	}
	for i, g := range got {
		if g != want {
			res.Violatef("%s #%d was given the timeout %v, configured %v", name, i, g, want)
			return
		}
	}
}

// ------------------------------------------------- C20: composition of handlers

type joinNode struct {
	K    int // 0 Events 1 Namespaces 2 WithTimeout 3 join of the children 4 nil Events 5 nil Namespaces 6 struct
	E    []joinEv
	Sub  []joinNode
	Nil  []string // namespaces with nil events
	Tag  int
	With int // WithTimeout: 0 both, 1 namespaces only, 2 events only
}

type joinEv struct{ NS, Ev int }

type c20Plan struct {
	Root []joinNode // joined in this order
	// the joined handler in use
	Live   bool
	Server bool // on the server, otherwise on the client
	Pass   int  // 0 the joined one, 1 inside of a WithTimeout, 2 the first one alone, 3 a Struct
	R, W   int  // timeouts, ms
	Emit   []joinEmit
}

type joinEmit struct {
	NS  int
	Ev  string
	Ask bool
}

var liveEvs = []string{"x", "y", "X", "Y", "", " x", "x ", "x1", "z", "OnAnyEvent", "OnNamespaceConnect", "_x", "_OnNamespaceConnected", "_OnRoomJoined", "_OnAnyEvent", "_OnNativeMessage"}

var joinNSs = []string{"", "a", "b", "Ns"}
var joinEvs = []string{"x", "y", neffos.OnAnyEvent, neffos.OnNamespaceConnect, neffos.OnNativeMessage, "", "X"}

func genJoinNode(t *rapid.T, depth int, tag *int) joinNode {
	n := joinNode{K: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6}).Draw(t, "k")}
	if depth == 0 && n.K == 3 {
		n.K = 1
	}
	*tag++
	n.Tag = *tag
	n.With = rapid.IntRange(0, 2).Draw(t, "with")
	if n.K == 3 {
		for m := rapid.IntRange(0, 3).Draw(t, "m"); m > 0; m-- {
			n.Sub = append(n.Sub, genJoinNode(t, depth-1, tag))
		}
		return n
	}
	for m := rapid.IntRange(0, 5).Draw(t, "e"); m > 0; m-- {
		n.E = append(n.E, joinEv{rapid.IntRange(0, len(joinNSs)-1).Draw(t, "ns"), rapid.IntRange(0, len(joinEvs)-1).Draw(t, "ev")})
	}
	if rapid.IntRange(0, 3).Draw(t, "nil") == 0 {
		n.Nil = append(n.Nil, joinNSs[rapid.IntRange(0, len(joinNSs)-1).Draw(t, "nilns")])
	}
	return n
}

func genC20(t *rapid.T) c20Plan {
	tag := 0
	var p c20Plan
	for m := rapid.IntRange(1, 5).Draw(t, "m"); m > 0; m-- {
		p.Root = append(p.Root, genJoinNode(t, 2, &tag))
	}
	if rapid.IntRange(0, 1).Draw(t, "live") == 0 {
		p.Live = true
		p.Server = rapid.Bool().Draw(t, "server")
		p.Pass = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "pass")
		p.R = rapid.SampledFrom([]int{0, 60000, 90000, 100000}).Draw(t, "r")
		p.W = rapid.SampledFrom([]int{0, 60000, 80000, 100000}).Draw(t, "w")
		for m := rapid.IntRange(1, 8).Draw(t, "m"); m > 0; m-- {
			p.Emit = append(p.Emit, joinEmit{NS: rapid.IntRange(0, len(joinNSs)-1).Draw(t, "ns"), Ev: rapid.SampledFrom(liveEvs).Draw(t, "ev"), Ask: rapid.IntRange(0, 3).Draw(t, "ask") == 0})
		}
	}
	return p
}

// joinModel: namespace -> event -> tag
type joinModel map[string]map[string]string

func (m joinModel) put(ns, ev, tag string) {
	if m[ns] == nil {
		m[ns] = map[string]string{}
	}
	m[ns][ev] = tag
}

type c20Struct struct{ Namespace string }

func (*c20Struct) X(c *neffos.NSConn, m neffos.Message) error { return joinCalled(c, m, "struct X") }
func (*c20Struct) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return joinCalled(c, m, "struct connect")
}

var joinLog struct {
	mu sync.Mutex
	l  []string
}

// joinCalled identifies the callback: with an error when it is called by the
// check, in the log when it is called by neffos.
func joinCalled(c *neffos.NSConn, m neffos.Message, tag string) error {
	if c == nil {
		return errors.New(tag)
	}
	joinLog.mu.Lock()
	defer joinLog.mu.Unlock()
	joinLog.l = append(joinLog.l, fmt.Sprintf("%q %q: %s", m.Namespace, m.Event, tag))
	if len(m.Body) > 0 {
		return neffos.Reply([]byte(tag))
	}
	return nil
}

type joinLeaf struct {
	h     neffos.ConnHandler
	model joinModel
	name  string
}

// build makes the handler, its model, and remembers the leaves.
func (n joinNode) build(leaves *[]joinLeaf) (neffos.ConnHandler, joinModel) {
	m := joinModel{}
	h := func(ns, ev string) neffos.MessageHandlerFunc {
		tag := fmt.Sprintf("%d %q %q", n.Tag, ns, ev)
		return func(c *neffos.NSConn, m neffos.Message) error { return joinCalled(c, m, tag) }
	}
	tag := func(ns, ev string) string { return fmt.Sprintf("%d %q %q", n.Tag, ns, ev) }
	var out neffos.ConnHandler
	switch n.K {
	case 0:
		e := neffos.Events{}
		m[""] = map[string]string{}
		for _, x := range n.E {
			e.On(joinEvs[x.Ev], h("", joinEvs[x.Ev]))
			m.put("", joinEvs[x.Ev], tag("", joinEvs[x.Ev]))
		}
		out = e
	case 1, 2:
		nss := neffos.Namespaces{}
		var ev neffos.Events
		for i, x := range n.E {
			ns, name := joinNSs[x.NS], joinEvs[x.Ev]
			if n.K == 2 && (n.With == 2 || (n.With == 0 && ns == "" && i%2 == 0)) {
				if ev == nil {
					ev = neffos.Events{}
				}
				tag := "events:" + tag("", name)
				ev[name] = func(c *neffos.NSConn, m neffos.Message) error { return joinCalled(c, m, tag) }
				m.put("", name, tag)
				continue
			}
			nss.On(ns, name, h(ns, name))
			if !strings.HasPrefix(m[ns][name], "events:") { // the Events are joined after the Namespaces
				m.put(ns, name, tag(ns, name))
			}
		}
		for _, ns := range n.Nil {
			if _, ok := nss[ns]; !ok && n.K == 1 {
				nss[ns] = nil
			}
		}
		if n.K == 1 {
			out = nss
		} else {
			wt := neffos.WithTimeout{ReadTimeout: time.Second, Events: ev, Namespaces: nss}
			if n.With == 2 {
				wt.Namespaces = nil
			}
			out = wt
		}
	case 3:
		var hs []neffos.ConnHandler
		for _, s := range n.Sub {
			sh, sm := s.build(leaves)
			hs = append(hs, sh)
			m.merge(sm)
		}
		out = neffos.JoinConnHandlers(hs...)
	case 4:
		out = neffos.Events(nil)
	case 5:
		out = neffos.Namespaces(nil)
	default:
		ns := joinNSs[n.Tag%len(joinNSs)]
		out = neffos.NewStruct(&c20Struct{Namespace: ns})
		m.put(ns, "X", "struct X")
		m.put(ns, neffos.OnNamespaceConnect, "struct connect")
	}
	*leaves = append(*leaves, joinLeaf{out, m.clone(), fmt.Sprint("handler ", n.Tag)})
	return out, m
}

func (m joinModel) clone() joinModel {
	c := joinModel{}
	for ns, evs := range m {
		c[ns] = map[string]string{}
		for e, t := range evs {
			c[ns][e] = t
		}
	}
	return c
}

func (m joinModel) merge(o joinModel) {
	for ns, evs := range o {
		if m[ns] == nil {
			m[ns] = map[string]string{}
		}
		for e, t := range evs {
			m[ns][e] = t
		}
	}
}

// compare a handler's namespaces with the model. Namespaces without events that
// were given as nil do not count.
func (m joinModel) compare(h neffos.ConnHandler) string {
	got := h.GetNamespaces()
	for ns, evs := range m {
		if got[ns] == nil {
			return fmt.Sprintf("namespace %q (%d events) is missing", ns, len(evs))
		}
		if len(got[ns]) != len(evs) {
			return fmt.Sprintf("namespace %q has %d events, expected %d: %v", ns, len(got[ns]), len(evs), evs)
		}
		for e, tag := range evs {
			cb := got[ns][e]
			if cb == nil {
				return fmt.Sprintf("namespace %q has no event %q", ns, e)
			}
			if err := cb(nil, neffos.Message{}); err == nil || err.Error() != tag {
				return fmt.Sprintf("event %q of namespace %q is handled by %v, expected %s", e, ns, err, tag)
			}
		}
	}
	for ns, evs := range got {
		if len(evs) > 0 && len(m[ns]) == 0 {
			return fmt.Sprintf("namespace %q should not have events: %d", ns, len(evs))
		}
	}
	return ""
}

// runC20Live uses the handler: every event is handled by its own callback, else by
// the any-event one, else by none.
func runC20Live(p c20Plan, res *kit.Result) {
	var leaves []joinLeaf
	var hs []neffos.ConnHandler
	m := joinModel{}
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	if len(p.Root) == 0 {
		return
	}
	var rt, wt time.Duration
	for i, n := range p.Root {
		if i > 0 && p.Pass == 2 {
			break
		}
		if p.Pass == 2 && n.K == 2 {
			rt = time.Second // see build
		}
		h, hm := n.build(&leaves)
		hs = append(hs, h)
		m.merge(hm)
	}
	var h neffos.ConnHandler
	switch p.Pass {
	case 2:
		h = hs[0]
	case 1:
		h = neffos.WithTimeout{ReadTimeout: ms(p.R), WriteTimeout: ms(p.W), Namespaces: neffos.JoinConnHandlers(hs...).GetNamespaces()}
		rt, wt = ms(p.R), ms(p.W)
	case 3:
		h = neffos.NewStruct(&c20Struct{}).SetNamespace("b").SetTimeouts(ms(p.R), ms(p.W))
		rt, wt = ms(p.R), ms(p.W)
		m = joinModel{}
		m.put("b", "X", "struct X")
		m.put("b", neffos.OnNamespaceConnect, "struct connect")
	default:
		h = neffos.JoinConnHandlers(hs...)
	}
	if m[""][neffos.OnNativeMessage] != "" {
		return // C15
	}
	for ns := range h.GetNamespaces() {
		if m[ns] == nil {
			m[ns] = map[string]string{} // given with nil events
		}
	}
	other := neffos.Namespaces{}
	for _, ns := range joinNSs {
		other[ns] = neffos.Events{}
	}
	var sh, ch neffos.ConnHandler = h, other
	if !p.Server {
		sh, ch = other, h
	}
	joinLog.mu.Lock()
	joinLog.l = nil
	joinLog.mu.Unlock()
	w := NewWorld(sh)
	defer w.Shutdown()
	cli, link, _, err := w.Dial("u", ch, sim.Dir{}, sim.Dir{})
	if err != nil {
		res.Violatef("Dial failed: %v", err)
		return
	}
	var want []string
	disp := func(ns, ev string) string {
		t := m[ns][ev]
		if t == "" {
			t = m[ns][neffos.OnAnyEvent]
		}
		if t != "" {
			want = append(want, fmt.Sprintf("%q %q: %s", ns, ev, t))
		}
		return t
	}
	got := func() string {
		synctest.Wait()
		joinLog.mu.Lock()
		defer joinLog.mu.Unlock()
		return strings.Join(joinLog.l, " | ")
	}
	conns := map[string]*neffos.NSConn{}
	from := map[string]*neffos.NSConn{}
	for i, ns := range joinNSs {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
		nc, err := cli.Connect(ctx, ns)
		cancel()
		if (err == nil) != (m[ns] != nil) {
			res.Violatef("Connect(%q) returned %v; declared: %v", ns, err, m[ns] != nil)
			return
		}
		if err != nil {
			continue
		}
		disp(ns, neffos.OnNamespaceConnect)
		disp(ns, neffos.OnNamespaceConnected)
		synctest.Wait()
		conns[ns], from[ns] = nc, nc
		if !p.Server {
			from[ns] = w.S.GetConnectionsByNamespace(ns)["u"]
		}
		if a, b := got(), strings.Join(want, " | "); a != b {
			res.Violatef("connect %d to %q: called %s, expected %s", i, ns, a, b)
			return
		}
	}
	for i, e := range p.Emit {
		ns := joinNSs[mod(e.NS, len(joinNSs))]
		nc := from[ns]
		if nc == nil || neffos.IsSystemEvent(e.Ev) && e.Ev != neffos.OnNamespaceConnected && e.Ev != neffos.OnRoomJoined {
			continue
		}
		t := disp(ns, e.Ev)
		if e.Ask && t != "" {
			ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
			r, err := nc.Ask(ctx, e.Ev, []byte("ask"))
			cancel()
			if err != nil || string(r.Body) != t {
				res.Violatef("operation %d: Ask %q %q returned %q, %v, expected %q", i, ns, e.Ev, r.Body, err, t)
			}
		} else if !nc.Emit(e.Ev, nil) {
			res.Violatef("operation %d: Emit %q %q failed", i, ns, e.Ev)
		}
		if a, b := got(), strings.Join(want, " | "); a != b {
			res.Violatef("operation %d: %q %q: called %s, expected %s", i, ns, e.Ev, a, b)
			return
		}
		if t != "" && m[ns][e.Ev] == "" {
			res.Label("any-event")
		}
	}
	end := link.B
	if !p.Server {
		end = link.A
	}
	rs, ws := end.Timeouts()
	checkTO(res, "read", rs, rt)
	if len(ws) > 0 {
		checkTO(res, "write", ws, wt)
	}
	res.Label("live")
}

func runC20(p c20Plan) *kit.Result {
	res := &kit.Result{}
	var leaves []joinLeaf
	var hs []neffos.ConnHandler
	m := joinModel{}
	overlap := false
	for _, n := range p.Root {
		h, hm := n.build(&leaves)
		hs = append(hs, h)
		for ns, evs := range hm {
			for e := range evs {
				if _, ok := m[ns][e]; ok {
					overlap = true
				}
			}
		}
		m.merge(hm)
	}
	joined := neffos.JoinConnHandlers(hs...)
	if s := m.compare(joined); s != "" {
		res.Violatef("joined: %s", s)
	}
	for _, l := range leaves {
		if s := l.model.compare(l.h); s != "" {
			res.Violatef("%s was modified by joining it: %s", l.name, s)
		}
	}
	// changing the result does not change the joined handlers, nor the other way round
	jn := joined.GetNamespaces()
	jn.On("a", "x", func(*neffos.NSConn, neffos.Message) error { return errors.New("changed") })
	jn.On("", "new", func(*neffos.NSConn, neffos.Message) error { return errors.New("changed") })
	for _, l := range leaves {
		if s := l.model.compare(l.h); s != "" {
			res.Violatef("%s was modified by a change of the joined result: %s", l.name, s)
		}
	}
	// joining once more gives the same again
	if s := m.compare(neffos.JoinConnHandlers(hs...)); s != "" {
		res.Violatef("joined again: %s", s)
	}
	if overlap {
		res.NonTrivial = true
		res.Label("overlap")
	}
	if len(leaves) > len(p.Root) {
		res.Label("nested")
	}
	return res
}
