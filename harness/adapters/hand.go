package adapters

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"verif/kit"
	"verif/sim"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
	"pgregory.net/rapid"
)

// ------------------------------------------- C23: handshakes, also failing ones

const (
	handOK = iota
	handNetErr
	handStatus
	handNoUpgrade
	handNoConnection
	handBadAccept
	handNoAccept
	handCut
	handGarbage
	handSilent
	handLast
)

type c23HandPlan struct {
	Adapter int
	Client  bool
	Kind    int
	Status  int
	Cut     int // percent
	Reset   bool
	To, Fro sim.StreamDir
	Again   bool
}

func genC23Hand(t *rapid.T) c23HandPlan {
	return c23HandPlan{Adapter: rapid.IntRange(0, 1).Draw(t, "adapter"), Client: rapid.Bool().Draw(t, "client"),
		Kind: rapid.IntRange(0, handLast-1).Draw(t, "kind"), Status: rapid.SampledFrom([]int{200, 204, 301, 400, 401, 403, 404, 500, 503}).Draw(t, "status"),
		Cut: rapid.IntRange(0, 99).Draw(t, "cut"), Reset: rapid.Bool().Draw(t, "reset"), To: genDir(t), Fro: genDir(t), Again: rapid.Bool().Draw(t, "again")}
}

var errNetDial = errors.New("the network is unreachable")

func runC23Hand(p c23HandPlan, res *kit.Result) {
	p.To.Cut, p.Fro.Cut, p.To.Buf, p.Fro.Buf = 0, 0, 0, 0
	res.NonTrivial = p.Kind != handOK
	res.Label(fmt.Sprintf("client-%v adapter-%d kind-%d", p.Client, p.Adapter, p.Kind))
	if p.Client {
		handClient(p, res)
		return
	}
	handServer(p, res)
}

func handClient(p c23HandPlan, res *kit.Result) {
	peer, ad := sim.NewStream(p.To, p.Fro)
	nd := func(context.Context, string, string) (net.Conn, error) {
		if p.Kind == handNetErr {
			return nil, errNetDial
		}
		return ad, nil
	}
	d := gobwas.Dialer(gobwasws.Dialer{NetDial: nd})
	if p.Adapter == 0 {
		d = gorilla.Dialer(&gorillaws.Dialer{NetDialContext: nd}, nil)
	}
	go func() {
		head, err := readHead(peer)
		if err != nil {
			return
		}
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(head)))
		if err != nil {
			return
		}
		key := acceptKey(r.Header.Get("Sec-WebSocket-Key"))
		if p.Kind == handBadAccept {
			key = acceptKey("x" + key)
		}
		l := []string{"HTTP/1.1 101 Switching Protocols"}
		if p.Kind == handStatus {
			l[0] = fmt.Sprintf("HTTP/1.1 %d %s", p.Status, http.StatusText(p.Status))
		}
		if p.Kind != handNoUpgrade {
			l = append(l, "Upgrade: websocket")
		}
		if p.Kind != handNoConnection {
			l = append(l, "Connection: Upgrade")
		}
		if p.Kind != handNoAccept {
			l = append(l, "Sec-WebSocket-Accept: "+key)
		}
		if p.Kind == handStatus {
			l = append(l, "Content-Length: 0")
		}
		out := strings.Join(l, "\r\n") + "\r\n\r\n"
		switch p.Kind {
		case handCut:
			out = out[:len(out)*p.Cut/100]
		case handGarbage:
			out = string(body(len(out), p.Cut, false)) + "\r\n\r\n"
		case handSilent:
			return
		}
		peer.Write([]byte(out))
		if p.Kind != handOK {
			time.Sleep(time.Second)
			if p.Reset {
				peer.Reset()
			} else {
				peer.Close()
			}
			return
		}
		// the server's part of the acknowledgement
		br := bufio.NewReader(peer)
		if _, err := br.ReadByte(); err != nil {
			return
		}
		settle(time.Second)
		peer.Write(frame(true, 1, []byte("Athe-id"), false, 0))
	}()
	ctx := context.Background()
	if p.Kind == handSilent {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, 3*time.Second)
		defer cancel()
	}
	defer func() {
		peer.Reset()
		settle(20 * time.Second)
	}()
	var cli *neffos.Client
	var err error
	if !within(time.Minute, func() {
		cli, err = neffos.Dial(ctx, d, "ws://sim/ws", neffos.Namespaces{"a": neffos.Events{}})
	}) {
		res.Violatef("Dial does not return (the server's answer is of kind %d)", p.Kind)
		return
	}
	if p.Kind == handOK {
		if err != nil || cli == nil {
			res.Violatef("Dial failed: %v", err)
			return
		}
		if cli.ID != "the-id" {
			res.Violatef("the client's ID is %q", cli.ID)
		}
		return
	}
	if err == nil || cli != nil {
		res.Violatef("Dial returned (client %v, error %v) for a handshake that failed (kind %d)", cli != nil, err, p.Kind)
	}
	if p.Kind == handNetErr && !strings.Contains(fmt.Sprint(err), errNetDial.Error()) {
		res.Violatef("the network's error is reported as %v", err)
	}
}

type plainWriter struct {
	hdr  http.Header
	code int
}

func (w *plainWriter) Header() http.Header         { return w.hdr }
func (w *plainWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *plainWriter) WriteHeader(c int)           { w.code = c }

func handServer(p c23HandPlan, res *kit.Result) {
	events := 0
	uerr := []error{}
	s := neffos.New(upgrader(p.Adapter), neffos.Namespaces{"a": neffos.Events{}})
	s.OnConnect = func(*neffos.Conn) error { events++; return nil }
	s.OnUpgradeError = func(err error) { uerr = append(uerr, err) }
	fires := 0
	s.FireDisconnectAlways = true
	s.OnDisconnect = func(*neffos.Conn) { fires++ }
	attempt := func(kind int) {
		events, fires = 0, 0
		uerr = nil
		peer, ad := sim.NewStream(p.To, p.Fro)
		req := upgradeRequest
		switch kind {
		case handStatus: // another kind of request
			req = strings.Replace(req, "Sec-WebSocket-Version: 13", "Sec-WebSocket-Version: "+fmt.Sprint(p.Status%13), 1)
		case handNoUpgrade:
			req = strings.Replace(req, "Upgrade: websocket\r\n", "", 1)
		case handNoConnection:
			req = strings.Replace(req, "Connection: Upgrade\r\n", "", 1)
		case handBadAccept:
			req = strings.Replace(req, "dGhlIHNhbXBsZSBub25jZQ==", "", 1)
		case handNoAccept:
			req = strings.Replace(req, "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n", "", 1)
		case handGarbage:
			req = "GET / HTTP/1.1\r\nHost: sim\r\n\r\n"
		}
		go func() {
			peer.Write([]byte(req))
		}()
		br := bufio.NewReader(ad)
		r, err := http.ReadRequest(br)
		if err != nil {
			res.Violatef("harness: %v", err)
			return
		}
		rw := &respWriter{conn: ad, br: br, hdr: http.Header{}}
		var w http.ResponseWriter = rw
		pw := &plainWriter{hdr: http.Header{}}
		if kind == handNetErr {
			w = pw
		}
		if kind == handCut {
			peer.Reset()
		}
		var c *neffos.Conn
		if !within(time.Minute, func() { c, err = s.Upgrade(w, r, nil, nil) }) {
			res.Violatef("Upgrade does not return (request kind %d)", kind)
			return
		}
		settle(time.Second)
		out := string(ad.Written())
		if kind == handOK || kind == handSilent {
			if err != nil || c == nil || len(uerr) > 0 || !strings.HasPrefix(out, "HTTP/1.1 101") || s.GetTotalConnections() != 1 {
				res.Violatef("a correct handshake: Upgrade returned (%v, %v), %d upgrade errors, %d connections, response %.20q", c != nil, err, len(uerr), s.GetTotalConnections(), out)
			}
			peer.Reset()
			settle(time.Second)
			return
		}
		if err == nil || c != nil {
			res.Violatef("Upgrade returned (connection %v, error %v) for a handshake that failed (kind %d)", c != nil, err, kind)
		}
		if len(uerr) != 1 || uerr[0] != err {
			res.Violatef("OnUpgradeError ran with %v, Upgrade returned %v (kind %d)", uerr, err, kind)
		}
		if events+fires > 0 || s.GetTotalConnections() != 0 {
			res.Violatef("a failed handshake (kind %d): OnConnect ran %d times, OnDisconnect %d times, %d connections", kind, events, fires, s.GetTotalConnections())
		}
		if strings.Contains(out, " 101 ") {
			res.Violatef("a failed handshake (kind %d) was accepted: %.40q", kind, out)
		}
		if kind != handCut && kind != handNetErr {
			code := rw.code
			if code == 0 {
				fmt.Sscanf(out, "HTTP/1.1 %d", &code)
			}
			if code < 400 {
				res.Violatef("a failed handshake (kind %d) was answered with status %d (%.40q)", kind, code, out)
			}
		}
	}
	defer func() {
		if kit.Race {
			return
		}
		s.OnDisconnect = func(*neffos.Conn) { goexit() }
		a, b := sim.NewStream(sim.StreamDir{}, sim.StreamDir{})
		go func() {
			br := bufio.NewReader(b)
			if r, err := http.ReadRequest(br); err == nil {
				s.Upgrade(&respWriter{conn: b, br: br, hdr: http.Header{}}, r, nil, nil)
			}
		}()
		a.Write([]byte(upgradeRequest))
		time.Sleep(time.Second)
		a.Close()
		time.Sleep(time.Second)
	}()
	attempt(p.Kind)
	if p.Again {
		attempt(handOK)
	}
}
