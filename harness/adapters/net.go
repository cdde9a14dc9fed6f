package adapters

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ------------------------------- C23: neffos on both ends, over both adapters

type netMsg struct {
	Size  int
	Seed  int
	Bin   bool
	Ask   bool
	Delay int
}

type netG struct {
	Srv  bool // the server's end of the connection
	Conn int
	Msgs []netMsg
}

type c23NetPlan struct {
	Srv    int   // adapter of the server
	Cli    []int // adapter of each client
	Up, Dn sim.StreamDir
	G      []netG
	End    int // 0 client closes, 1 server closes, 2 the stream breaks
	WTO    int // write timeout (ms)
}

func genC23Net(t *rapid.T) c23NetPlan {
	p := c23NetPlan{Srv: rapid.IntRange(0, 1).Draw(t, "srv"), Up: genDir(t), Dn: genDir(t), End: rapid.IntRange(0, 2).Draw(t, "end"), WTO: rapid.SampledFrom([]int{0, 0, 1, 1000}).Draw(t, "wto")}
	for n := rapid.IntRange(1, 2).Draw(t, "clients"); n > 0; n-- {
		p.Cli = append(p.Cli, rapid.IntRange(0, 1).Draw(t, "cli"))
	}
	for n := rapid.IntRange(1, 4).Draw(t, "gs"); n > 0; n-- {
		g := netG{Srv: rapid.Bool().Draw(t, "gsrv"), Conn: rapid.IntRange(0, len(p.Cli)-1).Draw(t, "gconn")}
		for k := rapid.IntRange(1, 6).Draw(t, "k"); k > 0; k-- {
			m := netMsg{Size: rapid.SampledFrom(sizes).Draw(t, "size"), Seed: rapid.IntRange(0, 30).Draw(t, "seed"), Bin: rapid.Bool().Draw(t, "bin"), Ask: rapid.IntRange(0, 3).Draw(t, "ask") == 0, Delay: rapid.SampledFrom([]int{0, 0, 0, 1, 50}).Draw(t, "delay")}
			if rapid.IntRange(0, 14).Draw(t, "big") == 0 {
				m.Size = rapid.SampledFrom(bigSizes).Draw(t, "bigsize")
			}
			g.Msgs = append(g.Msgs, m)
		}
		p.G = append(p.G, g)
	}
	return p
}

type netRec struct {
	bin  bool
	body string
}

func runC23Net(p c23NetPlan, res *kit.Result) {
	var mu sync.Mutex
	// received messages, by [side 0 server 1 client][connection]
	recv := [2]map[string][]netRec{{}, {}}
	cb := func(side int, name func(c *neffos.NSConn) string) neffos.MessageHandlerFunc {
		return func(c *neffos.NSConn, m neffos.Message) error {
			mu.Lock()
			recv[side][name(c)] = append(recv[side][name(c)], netRec{m.SetBinary, string(m.Body)})
			mu.Unlock()
			if m.Event == "ask" {
				return neffos.Reply([]byte("re:" + string(m.Body)))
			}
			return nil
		}
	}
	sev := neffos.Events{"ev": cb(0, func(c *neffos.NSConn) string { return c.Conn.ID() }), "ask": cb(0, func(c *neffos.NSConn) string { return c.Conn.ID() })}
	wto := time.Duration(p.WTO) * time.Millisecond
	s := neffos.New(upgrader(p.Srv), neffos.WithTimeout{WriteTimeout: wto, Namespaces: neffos.Namespaces{"a": sev}})
	disc := 0
	s.OnDisconnect = func(*neffos.Conn) { mu.Lock(); disc++; mu.Unlock() }
	type pair struct {
		cli  *neffos.Client
		ns   *neffos.NSConn
		sns  *neffos.NSConn
		a, b *sim.Stream
	}
	var pairs []*pair
	up, dn := p.Up, p.Dn
	up.Buf, dn.Buf, up.Cut, dn.Cut = 0, 0, 0, 0
	defer func() {
		for _, x := range pairs {
			x.a.Reset()
		}
		if kit.Race {
			time.Sleep(20 * time.Second)
			return
		}
		s.OnDisconnect = func(*neffos.Conn) {}
		time.Sleep(20 * time.Second)
		s.FireDisconnectAlways = true
		s.OnDisconnect = func(*neffos.Conn) { goexit() }
		a, b := sim.NewStream(sim.StreamDir{}, sim.StreamDir{})
		go func() {
			br := bufio.NewReader(b)
			if r, err := http.ReadRequest(br); err == nil {
				s.Upgrade(&respWriter{conn: b, br: br, hdr: http.Header{}}, r, nil, nil)
			}
		}()
		a.Write([]byte(upgradeRequest))
		time.Sleep(time.Second)
		a.Close()
		time.Sleep(time.Second)
	}()
	for i, ad := range p.Cli {
		id := fmt.Sprint("u", i)
		a, b := sim.NewStream(up, dn)
		go func() {
			br := bufio.NewReader(b)
			r, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			s.Upgrade(&respWriter{conn: b, br: br, hdr: http.Header{}}, r, nil, func(http.ResponseWriter, *http.Request) string { return id })
		}()
		cev := neffos.Events{"ev": cb(1, func(*neffos.NSConn) string { return id }), "ask": cb(1, func(*neffos.NSConn) string { return id })}
		var cli *neffos.Client
		var err error
		if !within(time.Minute, func() {
			cli, err = neffos.Dial(context.Background(), dialer(ad, func() net.Conn { return a }), "ws://sim/ws", neffos.WithTimeout{WriteTimeout: wto, Namespaces: neffos.Namespaces{"a": cev}})
		}) || err != nil {
			res.Violatef("Dial: %v", err)
			return
		}
		x := &pair{cli: cli, a: a, b: b}
		pairs = append(pairs, x)
		if !within(time.Minute, func() { x.ns, err = cli.Connect(context.Background(), "a") }) || err != nil {
			res.Violatef("Connect: %v", err)
			return
		}
		if cli.ID != id {
			res.Violatef("the client's ID is %q", cli.ID)
		}
	}
	settle(time.Second)
	for i, x := range pairs {
		for _, c := range s.GetConnections() {
			if c.ID() == fmt.Sprint("u", i) {
				x.sns = c.Namespace("a")
			}
		}
		if x.sns == nil {
			res.Violatef("the server is not connected to client %d", i)
			return
		}
	}
	var wg sync.WaitGroup
	want := make([][]netRec, len(p.G))
	for gi, g := range p.G {
		if g.Conn >= len(pairs) {
			continue
		}
		wg.Add(1)
		x := pairs[g.Conn]
		n := x.ns
		if g.Srv {
			n = x.sns
		}
		for i, m := range g.Msgs {
			b := append([]byte(fmt.Sprintf("g%d:%d:", gi, i)), body(clampSize(m.Size), m.Seed, !m.Bin)...)
			want[gi] = append(want[gi], netRec{m.Bin && !m.Ask, string(b)})
			if m.Ask {
				b = append(b[:0], fmt.Sprintf("g%d:%d:", gi, i)...)
				b = append(b, body(clampSize(m.Size), m.Seed, true)...)
				want[gi][i].body = string(b)
			}
		}
		go func() {
			defer wg.Done()
			for i, m := range g.Msgs {
				if m.Delay > 0 {
					time.Sleep(time.Duration(m.Delay) * time.Microsecond)
				}
				b := []byte(want[gi][i].body)
				ok := true
				switch {
				case m.Ask:
					ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
					r, err := n.Ask(ctx, "ask", b)
					cancel()
					if err != nil || string(r.Body) != "re:"+string(b) {
						mu.Lock()
						res.Violatef("goroutine %d: ask %d was answered with %d bytes, %v", gi, i, len(r.Body), err)
						mu.Unlock()
					}
				case m.Bin:
					ok = n.EmitBinary("ev", b)
				default:
					ok = n.Emit("ev", b)
				}
				if !ok {
					mu.Lock()
					res.Violatef("goroutine %d: emit %d failed", gi, i)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	settle(time.Minute)
	mu.Lock()
	got := make([][]netRec, len(p.G))
	for side := range recv {
		for name, l := range recv[side] {
			for _, r := range l {
				var g, i int
				if n, _ := fmt.Sscanf(r.body, "g%d:%d:", &g, &i); n != 2 || g >= len(p.G) || p.G[g].Srv == (side == 0) || fmt.Sprint("u", p.G[g].Conn) != name {
					res.Violatef("side %d of %s received %.30q", side, name, r.body)
					continue
				}
				got[g] = append(got[g], r)
			}
		}
	}
	for g := range p.G {
		if len(got[g]) != len(want[g]) {
			res.Violatef("goroutine %d: %d messages were handled, expected %d", g, len(got[g]), len(want[g]))
			continue
		}
		for i := range got[g] {
			if got[g][i] != want[g][i] {
				res.Violatef("goroutine %d: message %d was handled as (binary %v, %d bytes), expected (binary %v, %d bytes)", g, i, got[g][i].bin, len(got[g][i].body), want[g][i].bin, len(want[g][i].body))
				break
			}
		}
	}
	mu.Unlock()
	x := pairs[0]
	switch p.End {
	case 0:
		x.cli.Close()
	case 1:
		x.sns.Conn.Close()
	case 2:
		x.a.Reset()
	}
	settle(30 * time.Second)
	select {
	case <-x.cli.NotifyClose:
	default:
		res.Violatef("the client was not notified of the end of its connection (%d)", p.End)
	}
	mu.Lock()
	if disc != 1 || s.GetTotalConnections() != uint64(len(pairs)-1) {
		res.Violatef("after the end (%d): OnDisconnect ran %d times, %d connections", p.End, disc, s.GetTotalConnections())
	}
	mu.Unlock()
	res.NonTrivial = len(p.G) > 1
	res.Label(fmt.Sprintf("server-%d", p.Srv))
}

var goexit func()

func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
		return false
	}
}

// ------------------------------------------------ C25: timeouts over adapters

type c25NetPlan struct {
	Adapter int
	Client  bool
	R, W    int // ms
	Gaps    []int
	Stall   bool
	Size    int
	Buf     int
	Bin     bool
}

func genC25Net(t *rapid.T) c25NetPlan {
	p := c25NetPlan{Adapter: rapid.IntRange(0, 1).Draw(t, "adapter"), Client: rapid.Bool().Draw(t, "client"),
		R: rapid.SampledFrom([]int{0, 20, 1000, 60000}).Draw(t, "r"), W: rapid.SampledFrom([]int{0, 20, 1000, 60000}).Draw(t, "w"),
		Stall: rapid.Bool().Draw(t, "stall"), Size: rapid.SampledFrom(sizes).Draw(t, "size"), Buf: rapid.SampledFrom([]int{1, 100, 5000, 20000}).Draw(t, "buf"), Bin: rapid.Bool().Draw(t, "bin")}
	for n := rapid.IntRange(0, 8).Draw(t, "gaps"); n > 0; n-- {
		p.Gaps = append(p.Gaps, rapid.SampledFrom([]int{0, 1, 300, 900, 990, 990, 1010, 3000}).Draw(t, "gap"))
	}
	return p
}

func runC25Net(p c25NetPlan, res *kit.Result) {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	fro := sim.StreamDir{}
	peer, ad := sim.NewStream(sim.StreamDir{}, fro)
	var mu sync.Mutex
	nrecv := 0
	ev := neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
		mu.Lock()
		nrecv++
		mu.Unlock()
		return nil
	}}
	h := neffos.WithTimeout{ReadTimeout: ms(p.R), WriteTimeout: ms(p.W), Events: ev}
	var conn *neffos.Conn
	var s *neffos.Server
	if p.Client {
		go func() {
			head, err := readHead(peer)
			if err != nil {
				return
			}
			r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(head)))
			if err != nil {
				return
			}
			peer.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acceptKey(r.Header.Get("Sec-WebSocket-Key")) + "\r\n\r\n"))
		}()
		cli, err := neffos.Dial(context.Background(), dialer(p.Adapter, func() net.Conn { return ad }), "ws://sim/ws", h)
		if err != nil {
			res.Violatef("Dial: %v", err)
			return
		}
		ns, err := cli.Connect(context.Background(), "")
		if err != nil {
			res.Violatef("Connect: %v", err)
			return
		}
		conn = ns.Conn
	} else {
		s = neffos.New(upgrader(p.Adapter), h)
		done := make(chan struct{})
		go func() {
			defer close(done)
			br := bufio.NewReader(ad)
			r, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			conn, _ = s.Upgrade(&respWriter{conn: ad, br: br, hdr: http.Header{}}, r, nil, nil)
		}()
		peer.Write([]byte(upgradeRequest))
		readHead(peer)
		<-done
		if conn == nil {
			res.Violatef("the upgrade failed")
			return
		}
	}
	defer func() {
		peer.Reset()
		time.Sleep(20 * time.Second)
		if s != nil && !kit.Race {
			s.FireDisconnectAlways = true
			s.OnDisconnect = func(*neffos.Conn) { goexit() }
			a, b := sim.NewStream(sim.StreamDir{}, sim.StreamDir{})
			go func() {
				br := bufio.NewReader(b)
				if r, err := http.ReadRequest(br); err == nil {
					s.Upgrade(&respWriter{conn: b, br: br, hdr: http.Header{}}, r, nil, nil)
				}
			}()
			a.Write([]byte(upgradeRequest))
			time.Sleep(time.Second)
			a.Close()
			time.Sleep(time.Second)
		}
	}()
	unit := time.Second
	if p.R > 0 {
		unit = ms(p.R)
	}
	// messages with gaps
	closed := false
	for i, g := range p.Gaps {
		d := unit * time.Duration(g) / 1000
		start := time.Now()
		if p.R > 0 && d > unit {
			// silent for too long: it ends at the timeout
			time.Sleep(unit * 999 / 1000)
			if conn.IsClosed() {
				res.Violatef("message %d: closed after a silence of %v, the read timeout is %v", i, time.Since(start), unit)
				return
			}
			settle(unit*2/1000 + time.Millisecond)
			if !conn.IsClosed() {
				res.Violatef("message %d: not closed after a silence of %v, the read timeout is %v", i, time.Since(start), unit)
				return
			}
			res.Label("read timeout")
			res.NonTrivial = true
			closed = true
			break
		}
		time.Sleep(d)
		if conn.IsClosed() {
			res.Violatef("message %d: closed although the peer was silent for %v only (read timeout %v)", i, d, ms(p.R))
			return
		}
		m := inMsg{Size: i, Seed: i, Text: i%2 == 0}
		peer.Write(m.frames(!p.Client, &[]string{}, false))
		settle(0)
		mu.Lock()
		if nrecv != i+1 && i > 0 { // an empty message is skipped
			if nrecv != i {
				res.Violatef("%d messages were handled, %d were sent", nrecv, i+1)
			}
		}
		mu.Unlock()
		res.NonTrivial = true
	}
	if closed {
		return
	}
	if p.Stall && p.W > 0 && (p.R == 0 || p.W < p.R) {
		ad.LimitWrites(p.Buf)
		data := body(p.Size+1, 1, true)
		// the peer reads nothing from now on
		start := time.Now()
		failed := false
		for i := 0; i < 30000; i++ {
			t0 := time.Now()
			if !conn.Write(neffos.Message{Body: data, IsNative: true, SetBinary: p.Bin}) {
				if d := time.Since(t0); d < ms(p.W) || d > ms(p.W)+time.Second {
					res.Violatef("the write to a stalled peer failed after %v, the write timeout is %v", d, ms(p.W))
				}
				failed = true
				break
			}
			if time.Since(start) > time.Hour {
				break
			}
		}
		if !failed {
			res.Violatef("no write to a stalled peer has failed")
			return
		}
		settle(time.Second)
		if !conn.IsClosed() {
			res.Violatef("the connection is open after a write timed out")
		}
		res.Label("write timeout")
		res.NonTrivial = true
		return
	}
	if p.R == 0 {
		time.Sleep(100 * time.Hour)
		if conn.IsClosed() {
			res.Violatef("closed without a read timeout")
		}
		res.Label("idle")
	}
}
