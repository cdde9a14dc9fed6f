// Package adapters holds the checks of the gorilla and gobwas socket adapters:
// the real adapters and websocket libraries run over an in-memory byte stream,
// against a peer written from RFC 6455 or against each other.
package adapters

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"verif/kit"
	"verif/sim"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------ websocket frames

type ctrl struct {
	Op   int // 9 ping, 10 pong
	Size int
}

type inMsg struct {
	Size  int
	Seed  int
	Text  bool
	Frag  []int  // sizes of the first fragments, the last one has the rest
	Ctrl  []ctrl // control frames, one after each fragment (cyclically while there are any)
	Pre   []ctrl // control frames before it
	Delay int    // microseconds before it
	Split int    // write it in pieces of that size; 0: at once
}

type outMsg struct {
	Size  int
	Seed  int
	Text  bool
	Delay int
}

// body is deterministic content; text is valid UTF-8 (if cut at a rune).
func body(size, seed int, text bool) []byte {
	b := make([]byte, 0, size+4)
	x := uint32(seed*2654435761 + 12345)
	if !text {
		for len(b) < size {
			x = x*1664525 + 1013904223
			b = append(b, byte(x>>24))
		}
		return b
	}
	runes := []string{"a", "é", "日", "🎉", "\x00", ";", "z", "\u07ff", "\uffff", "\U0010ffff"}
	for len(b) < size {
		x = x*1664525 + 1013904223
		r := runes[int(x>>24)%len(runes)]
		if seed%3 == 0 {
			r = "x"
		}
		if len(b)+len(r) > size {
			r = "y"
		}
		b = append(b, r...)
	}
	return b
}

func frame(fin bool, op byte, p []byte, mask bool, key uint32) []byte {
	var b []byte
	h := op
	if fin {
		h |= 0x80
	}
	b = append(b, h)
	m := byte(0)
	if mask {
		m = 0x80
	}
	switch {
	case len(p) < 126:
		b = append(b, m|byte(len(p)))
	case len(p) < 65536:
		b = append(b, m|126, byte(len(p)>>8), byte(len(p)))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
	}
	if !mask {
		return append(b, p...)
	}
	var k [4]byte
	binary.BigEndian.PutUint32(k[:], key)
	b = append(b, k[:]...)
	for i, c := range p {
		b = append(b, c^k[i%4])
	}
	return b
}

func clampSize(n int) int {
	if n < 0 {
		return 0
	}
	if n > 1<<21 {
		return 1 << 21
	}
	return n
}

// frames encodes one message; the pings in it are appended to pings.
func (m inMsg) frames(mask bool, pings *[]string, trailing bool) []byte {
	var out []byte
	n := 0
	control := func(c ctrl) {
		size := c.Size
		if size < 0 || size > 125 {
			size = 125
		}
		op := byte(9)
		if c.Op == 10 {
			op = 10
		}
		p := body(size, m.Seed+n, false)
		n++
		out = append(out, frame(true, op, p, mask, uint32(m.Seed*7+n))...)
		if op == 9 {
			*pings = append(*pings, string(p))
		}
	}
	for _, c := range m.Pre {
		control(c)
	}
	b := body(clampSize(m.Size), m.Seed, m.Text)
	op := byte(2)
	if m.Text {
		op = 1
	}
	rest := b
	for i, f := range m.Frag {
		if f < 0 {
			f = 0
		}
		if f > len(rest) {
			f = len(rest)
		}
		out = append(out, frame(false, op, rest[:f], mask, uint32(m.Seed+i)*2654435761)...)
		rest = rest[f:]
		op = 0
		if len(m.Ctrl) > 0 {
			control(m.Ctrl[i%len(m.Ctrl)])
		}
	}
	out = append(out, frame(true, op, rest, mask, uint32(m.Seed)*40503)...)
	if trailing && len(m.Frag) == 0 && len(m.Ctrl) > 0 {
		control(m.Ctrl[0])
	}
	return out
}

type recvMsg struct {
	text bool
	data string
}

// parse decodes everything an endpoint has sent, strictly.
func parse(b []byte, masked bool) (msgs []recvMsg, pongs []string, closed bool, err error) {
	var cur []byte
	var curOp byte
	off := 0
	for len(b) > 0 {
		if len(b) < 2 {
			return msgs, pongs, closed, fmt.Errorf("at byte %d: truncated frame", off)
		}
		fin, rsv, op := b[0]&0x80 != 0, b[0]&0x70, b[0]&0x0f
		if rsv != 0 {
			return msgs, pongs, closed, fmt.Errorf("at byte %d: reserved bits set (%#x)", off, b[0])
		}
		if m := b[1]&0x80 != 0; m != masked {
			return msgs, pongs, closed, fmt.Errorf("at byte %d: mask bit is %v", off, m)
		}
		n := uint64(b[1] & 0x7f)
		h := 2
		switch n {
		case 126:
			if len(b) < 4 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: truncated frame", off)
			}
			n = uint64(binary.BigEndian.Uint16(b[2:]))
			h = 4
			if n < 126 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: overlong length", off)
			}
		case 127:
			if len(b) < 10 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: truncated frame", off)
			}
			n = binary.BigEndian.Uint64(b[2:])
			h = 10
			if n < 65536 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: overlong length", off)
			}
		}
		var k [4]byte
		if masked {
			if len(b) < h+4 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: truncated frame", off)
			}
			copy(k[:], b[h:])
			h += 4
		}
		if uint64(len(b)-h) < n {
			return msgs, pongs, closed, fmt.Errorf("at byte %d: truncated frame (op %d, %d of %d bytes)", off, op, len(b)-h, n)
		}
		p := append([]byte(nil), b[h:h+int(n)]...)
		if masked {
			for i := range p {
				p[i] ^= k[i%4]
			}
		}
		b = b[h+int(n):]
		off += h + int(n)
		switch op {
		case 0:
			if curOp == 0 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: continuation of nothing", off)
			}
			cur = append(cur, p...)
		case 1, 2:
			if curOp != 0 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: a message inside of another", off)
			}
			cur, curOp = p, op
		case 8:
			closed = true
			continue
		case 9:
			continue
		case 10:
			if !fin || n > 125 {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: bad control frame", off)
			}
			pongs = append(pongs, string(p))
			continue
		default:
			return msgs, pongs, closed, fmt.Errorf("at byte %d: opcode %d", off, op)
		}
		if fin {
			if curOp == 1 && !utf8.Valid(cur) {
				return msgs, pongs, closed, fmt.Errorf("at byte %d: text is not UTF-8", off)
			}
			msgs = append(msgs, recvMsg{curOp == 1, string(cur)})
			cur, curOp = nil, 0
		}
	}
	if curOp != 0 {
		return msgs, pongs, closed, errors.New("the last message is not finished")
	}
	return
}

// -------------------------------------------------------------------- sockets

// respWriter lets the upgraders hijack a stream.
type respWriter struct {
	conn net.Conn
	br   *bufio.Reader
	hdr  http.Header
	code int
}

func (w *respWriter) Header() http.Header         { return w.hdr }
func (w *respWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *respWriter) WriteHeader(c int)           { w.code = c }
func (w *respWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.conn, bufio.NewReadWriter(w.br, bufio.NewWriter(w.conn)), nil
}

func upgrader(adapter int) neffos.Upgrader {
	if adapter == 0 {
		return gorilla.DefaultUpgrader
	}
	return gobwas.DefaultUpgrader
}

func dialer(adapter int, conn func() net.Conn) neffos.Dialer {
	if adapter == 0 {
		return gorilla.Dialer(&gorillaws.Dialer{NetDialContext: func(context.Context, string, string) (net.Conn, error) { return conn(), nil }}, http.Header{"X-Hello": {"gorilla"}})
	}
	return gobwas.Dialer(gobwasws.Dialer{NetDial: func(context.Context, string, string) (net.Conn, error) { return conn(), nil }, Header: gobwasws.HandshakeHeaderHTTP(http.Header{"X-Hello": {"gobwas"}})})
}

const upgradeRequest = "GET /ws?x=1 HTTP/1.1\r\nHost: sim\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"

func acceptKey(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// readHead reads up to the empty line, byte by byte.
func readHead(c net.Conn) (string, error) {
	var b []byte
	one := make([]byte, 1)
	for !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
		if _, err := c.Read(one); err != nil {
			return string(b), err
		}
		b = append(b, one[0])
	}
	return string(b), nil
}

// serve upgrades the stream with the adapter.
func serve(adapter int, c net.Conn) (neffos.Socket, *http.Request, error) {
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		return nil, nil, err
	}
	s, err := upgrader(adapter)(&respWriter{conn: c, br: br, hdr: http.Header{}}, r)
	return s, r, err
}

// -------------------------------------------------------------- C23: raw peer

type c23Plan struct {
	Adapter int  // 0 gorilla 1 gobwas
	Client  bool // the adapter is the client
	Early   int  // messages that come together with the handshake's answer
	In      []inMsg
	Out     [][]outMsg
	To, Fro sim.StreamDir // to the adapter, from the adapter
	End     int
	CutAt   int
	WTO     int   // write timeout (ms); 0: none
	Last    inMsg // for the ends inside of a message
}

var sizes = []int{0, 1, 2, 5, 10, 50, 124, 125, 126, 127, 128, 500, 511, 512, 513, 1000, 4095, 4096, 4097, 10000}
var bigSizes = []int{32767, 65534, 65535, 65536, 65537, 70000, 200000}

func genIn(t *rapid.T) inMsg {
	m := inMsg{Size: rapid.SampledFrom(sizes).Draw(t, "size"), Seed: rapid.IntRange(0, 30).Draw(t, "seed"), Text: rapid.Bool().Draw(t, "text")}
	if rapid.IntRange(0, 14).Draw(t, "big") == 0 {
		m.Size = rapid.SampledFrom(bigSizes).Draw(t, "bigsize")
	}
	for n := rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "frags"); n > 0; n-- {
		m.Frag = append(m.Frag, rapid.SampledFrom([]int{0, 1, 2, 3, 7, 100, 126, 4096}).Draw(t, "frag"))
	}
	ctrls := func() (l []ctrl) {
		for n := rapid.SampledFrom([]int{0, 0, 1, 1, 3}).Draw(t, "ctrls"); n > 0; n-- {
			l = append(l, ctrl{rapid.SampledFrom([]int{9, 9, 9, 10}).Draw(t, "op"), rapid.SampledFrom([]int{0, 1, 4, 60, 124, 125}).Draw(t, "csize")})
		}
		return
	}
	m.Ctrl, m.Pre = ctrls(), ctrls()
	m.Delay = rapid.SampledFrom([]int{0, 0, 0, 1, 100, 5000}).Draw(t, "delay")
	m.Split = rapid.SampledFrom([]int{0, 0, 1, 3, 100, 5000}).Draw(t, "split")
	return m
}

func genDir(t *rapid.T) sim.StreamDir {
	var d sim.StreamDir
	for n := rapid.IntRange(0, 3).Draw(t, "chunks"); n > 0; n-- {
		d.Chunk = append(d.Chunk, rapid.SampledFrom([]int{0, 1, 2, 7, 100, 4096}).Draw(t, "chunk"))
	}
	d.Yield = rapid.SampledFrom([]int{0, 1, 5, 20}).Draw(t, "yield")
	d.Lat = rapid.SampledFrom([]int{0, 0, 10, 500}).Draw(t, "lat")
	return d
}

func genC23(t *rapid.T) c23Plan {
	p := c23Plan{Adapter: rapid.IntRange(0, 1).Draw(t, "adapter"), Client: rapid.Bool().Draw(t, "client"), To: genDir(t), Fro: genDir(t),
		End: rapid.IntRange(0, 7).Draw(t, "end"), CutAt: rapid.IntRange(0, 300).Draw(t, "cutat"), WTO: rapid.SampledFrom([]int{0, 1, 1000}).Draw(t, "wto")}
	for n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 6}).Draw(t, "in"); n > 0; n-- {
		p.In = append(p.In, genIn(t))
	}
	if p.Client {
		p.Early = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "early")
	}
	for n := rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(t, "writers"); n > 0; n-- {
		var l []outMsg
		for k := rapid.IntRange(1, 6).Draw(t, "k"); k > 0; k-- {
			o := outMsg{Size: rapid.SampledFrom(sizes).Draw(t, "osize"), Seed: rapid.IntRange(0, 30).Draw(t, "oseed"), Text: rapid.Bool().Draw(t, "otext"), Delay: rapid.SampledFrom([]int{0, 0, 0, 1, 50, 3000}).Draw(t, "odelay")}
			if rapid.IntRange(0, 14).Draw(t, "obig") == 0 {
				o.Size = rapid.SampledFrom(bigSizes).Draw(t, "obigsize")
			}
			l = append(l, o)
		}
		p.Out = append(p.Out, l)
	}
	p.Last = genIn(t)
	return p
}

func settle(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

func runC23(p c23Plan, res *kit.Result) {
	to, fro := p.To, p.Fro
	to.Cut, fro.Cut, fro.Buf, to.Buf = 0, 0, 0, 0
	peer, ad := sim.NewStream(to, fro)
	defer peer.Reset()
	var pings []string
	var want []recvMsg
	var early []byte
	in := p.In
	for _, m := range p.In {
		want = append(want, recvMsg{m.Text, string(body(clampSize(m.Size), m.Seed, m.Text))})
	}
	var payload [][]byte
	for i, m := range p.In {
		f := m.frames(!p.Client, &pings, true)
		if p.Client && i < p.Early {
			early = append(early, f...)
			in = in[1:]
			continue
		}
		payload = append(payload, f)
	}
	// handshake
	var sock neffos.Socket
	var req *http.Request
	var err error
	hs := make(chan struct{})
	head := 0 // bytes of the adapter's output that belong to the handshake
	if p.Client {
		go func() {
			defer close(hs)
			sock, err = dialer(p.Adapter, func() net.Conn { return ad })(context.Background(), "ws://sim/ws")
		}()
		h, e := readHead(peer)
		head = len(h)
		r, e2 := http.ReadRequest(bufio.NewReader(strings.NewReader(h)))
		if e != nil || e2 != nil {
			res.Violatef("the client's handshake is not a request: %v %v", e, e2)
			return
		}
		if want := []string{"gorilla", "gobwas"}[p.Adapter]; r.Header.Get("X-Hello") != want {
			res.Violatef("the dialer's header is missing: %v", r.Header)
		}
		peer.Write(append([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "+acceptKey(r.Header.Get("Sec-WebSocket-Key"))+"\r\n\r\n"), early...))
	} else {
		go func() {
			defer close(hs)
			sock, req, err = serve(p.Adapter, ad)
		}()
		peer.Write([]byte(upgradeRequest))
		h, e := readHead(peer)
		head = len(h)
		if e != nil || !strings.HasPrefix(h, "HTTP/1.1 101") || !strings.Contains(h, acceptKey("dGhlIHNhbXBsZSBub25jZQ==")) {
			res.Violatef("the upgrade was answered with %q, %v", h, e)
			return
		}
	}
	<-hs
	if err != nil {
		res.Violatef("the handshake failed: %v", err)
		return
	}
	if sock.NetConn() != net.Conn(ad) {
		res.Violatef("NetConn is %v, not the connection it was made from", sock.NetConn())
	}
	if sock.Request() != req {
		res.Violatef("Request is %v instead of %v", sock.Request(), req)
	}
	// the adapter reads
	var mu sync.Mutex
	var got []recvMsg
	var readErr error
	rdone := make(chan struct{})
	go func() {
		defer close(rdone)
		for {
			b, typ, err := sock.ReadData(0)
			mu.Lock()
			if err != nil {
				readErr = err
				if len(b) > 0 {
					res.Violatef("ReadData returned %d bytes together with the error %v", len(b), err)
				}
				mu.Unlock()
				return
			}
			if typ != neffos.TextMessage && typ != neffos.BinaryMessage {
				res.Violatef("ReadData returned the message type %v", typ)
			}
			got = append(got, recvMsg{typ == neffos.TextMessage, string(b)})
			mu.Unlock()
		}
	}()
	// the peer writes
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i, f := range payload {
			if d := in[i].Delay; d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			if s := in[i].Split; s > 0 && len(f)/s < 5000 {
				for len(f) > s {
					peer.Write(f[:s])
					f = f[s:]
				}
			}
			peer.Write(f)
		}
	}()
	// the adapter writes, from many goroutines
	expect := make([][]recvMsg, len(p.Out))
	for w, l := range p.Out {
		for i, o := range l {
			b := string(body(clampSize(o.Size), o.Seed, o.Text))
			expect[w] = append(expect[w], recvMsg{o.Text, fmt.Sprintf("w%d:%d:%s", w, i, b)})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range l {
				if o.Delay > 0 {
					time.Sleep(time.Duration(o.Delay) * time.Microsecond)
				}
				b := []byte(expect[w][i].data)
				var err error
				if o.Text {
					err = sock.WriteText(b, time.Duration(p.WTO)*time.Millisecond)
				} else {
					err = sock.WriteBinary(b, time.Duration(p.WTO)*time.Millisecond)
				}
				if err != nil {
					mu.Lock()
					res.Violatef("writer %d: message %d: %v", w, i, err)
					mu.Unlock()
					return
				}
				if string(b) != expect[w][i].data {
					mu.Lock()
					res.Violatef("writer %d: message %d: the caller's bytes were changed", w, i)
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	settle(time.Minute)
	mu.Lock()
	if readErr != nil {
		res.Violatef("reading failed: %v (%d of %d messages were received)", readErr, len(got), len(want))
	}
	compareMsgs(res, "received", got, want)
	mu.Unlock()
	// what the adapter has put on the wire
	msgs, pongs, _, err := parse(peer2(ad)[head:], p.Client)
	if err != nil {
		res.Violatef("what the adapter sent is not a stream of websocket frames: %v", err)
	} else {
		split := make([][]recvMsg, len(p.Out))
		for _, m := range msgs {
			var w, i int
			if n, _ := fmt.Sscanf(m.data, "w%d:%d:", &w, &i); n != 2 || w < 0 || w >= len(split) {
				res.Violatef("the adapter sent an unknown message %.40q", m.data)
				break
			}
			split[w] = append(split[w], m)
		}
		for w := range split {
			compareMsgs(res, fmt.Sprintf("writer %d", w), split[w], expect[w])
		}
		// every pong answers a ping, in order
		k := 0
		for _, pg := range pongs {
			for k < len(pings) && pings[k] != pg {
				k++
			}
			if k == len(pings) {
				res.Violatef("a pong answers no ping: %q", pg)
				break
			}
			k++
		}
		if len(pings) > 0 {
			res.Label("pings")
			if len(p.Out) == 0 && (len(pongs) == 0 || pongs[len(pongs)-1] != pings[len(pings)-1]) {
				res.Violatef("the last ping was not answered")
			}
			if len(p.Out) > 0 {
				res.Label("pings+writers")
			}
		}
	}
	if len(res.Violations) > 0 {
		return
	}
	// the end
	n := len(got)
	var ignore []string
	last := p.Last.frames(!p.Client, &ignore, false)
	cut := 0
	switch p.End {
	case 0:
		peer.Write(frame(true, 8, []byte{3, 232}, !p.Client, 77))
	case 1:
		peer.Write(frame(true, 8, append([]byte{3, 233}, "bye"...), !p.Client, 78))
		peer.CloseWrite()
	case 2:
		peer.CloseWrite()
	case 3:
		peer.Reset()
	case 4, 5:
		// in the middle of a message
		cut = 1 + p.CutAt%(len(last)-1)
		if p.CutAt > 250 {
			cut = len(last) - 1
		}
		peer.Write(last[:cut])
		settle(time.Second)
		if p.End == 4 {
			peer.CloseWrite()
		} else {
			peer.Reset()
		}
		res.Label("cut inside")
	case 6:
		// a close frame between two fragments
		var first []byte
		op := byte(2)
		if p.Last.Text {
			op = 1
		}
		first = frame(false, op, body(clampSize(p.Last.Size), p.Last.Seed, p.Last.Text), !p.Client, 79)
		peer.Write(append(first, frame(true, 8, []byte{3, 232}, !p.Client, 80)...))
		res.Label("close inside")
	case 7:
		sock.NetConn().Close()
	}
	settle(time.Minute)
	select {
	case <-rdone:
	default:
		res.Violatef("reading has not failed after the end of the connection (%d)", p.End)
	}
	mu.Lock()
	defer mu.Unlock()
	if len(got) != n {
		res.Violatef("a message of %d bytes was received from an unfinished one (end %d, %d of %d bytes)", len(got[n].data), p.End, cut, len(last))
	}
	if len(p.In)+len(p.Out) > 0 {
		res.NonTrivial = true
	}
	res.Label([]string{"gorilla", "gobwas"}[p.Adapter])
	if p.Early > 0 && len(p.In) > 0 {
		res.Label("early")
	}
}

func peer2(s *sim.Stream) []byte { return s.Written() }

func compareMsgs(res *kit.Result, what string, got, want []recvMsg) {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			d := 0
			for d < len(got[i].data) && d < len(want[i].data) && got[i].data[d] == want[i].data[d] {
				d++
			}
			res.Violatef("%s: message %d is (text %v, %d bytes), expected (text %v, %d bytes), first difference at %d", what, i, got[i].text, len(got[i].data), want[i].text, len(want[i].data), d)
			return
		}
	}
	if len(got) != len(want) {
		res.Violatef("%s: %d messages, expected %d", what, len(got), len(want))
	}
}
