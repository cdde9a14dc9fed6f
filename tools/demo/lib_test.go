package neffos_test

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
)

// An in-memory pair of sockets, enough to run a server and its clients.

type zzFrame struct {
	typ  neffos.MessageType
	data []byte
}

type zzQueue struct {
	mu     sync.Mutex
	frames []zzFrame
	ended  bool
	notify chan struct{}
}

func zzNewQueue() *zzQueue { return &zzQueue{notify: make(chan struct{}, 1)} }

func (q *zzQueue) wake() {
	select {
	case q.notify <- struct{}{}:
	default:
	}
}

type zzSock struct {
	in, out *zzQueue
	req     *http.Request
	once    sync.Once
	closed  chan struct{}
	wmu     sync.Mutex
	sent    []zzFrame
	onWrite func(n int, data []byte) error
}

func zzPair() (a, b *zzSock) {
	x, y := zzNewQueue(), zzNewQueue()
	a = &zzSock{in: y, out: x, closed: make(chan struct{})}
	b = &zzSock{in: x, out: y, closed: make(chan struct{})}
	return
}

func (s *zzSock) NetConn() net.Conn      { return zzNetConn{s} }
func (s *zzSock) Request() *http.Request { return s.req }

func (s *zzSock) Close() error {
	s.once.Do(func() {
		close(s.closed)
		s.out.mu.Lock()
		s.out.ended = true
		s.out.mu.Unlock()
		s.out.wake()
	})
	return nil
}

func (s *zzSock) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	var tc <-chan time.Time
	if timeout > 0 {
		tc = time.After(timeout)
	}
	for {
		s.in.mu.Lock()
		if len(s.in.frames) > 0 {
			f := s.in.frames[0]
			s.in.frames = s.in.frames[1:]
			s.in.mu.Unlock()
			return f.data, f.typ, nil
		}
		ended := s.in.ended
		s.in.mu.Unlock()
		if ended {
			return nil, 0, io.ErrUnexpectedEOF
		}
		select {
		case <-s.in.notify:
		case <-s.closed:
			return nil, 0, net.ErrClosed
		case <-tc:
			return nil, 0, errors.New("i/o timeout")
		}
	}
}

func (s *zzSock) write(typ neffos.MessageType, b []byte) error {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	select {
	case <-s.closed:
		return net.ErrClosed
	default:
	}
	data := append([]byte(nil), b...)
	if s.onWrite != nil {
		if err := s.onWrite(len(s.sent), data); err != nil {
			return err
		}
	}
	s.sent = append(s.sent, zzFrame{typ, data})
	s.out.mu.Lock()
	if s.out.ended {
		s.out.mu.Unlock()
		return io.ErrClosedPipe
	}
	s.out.frames = append(s.out.frames, zzFrame{typ, data})
	s.out.mu.Unlock()
	s.out.wake()
	return nil
}

func (s *zzSock) WriteBinary(b []byte, _ time.Duration) error {
	return s.write(neffos.BinaryMessage, b)
}
func (s *zzSock) WriteText(b []byte, _ time.Duration) error { return s.write(neffos.TextMessage, b) }

type zzAddr struct{}

func (zzAddr) Network() string { return "mem" }
func (zzAddr) String() string  { return "mem" }

type zzNetConn struct{ s *zzSock }

func (c zzNetConn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c zzNetConn) Write([]byte) (int, error)        { return 0, io.EOF }
func (c zzNetConn) Close() error                     { return c.s.Close() }
func (c zzNetConn) LocalAddr() net.Addr              { return zzAddr{} }
func (c zzNetConn) RemoteAddr() net.Addr             { return zzAddr{} }
func (c zzNetConn) SetDeadline(time.Time) error      { return nil }
func (c zzNetConn) SetReadDeadline(time.Time) error  { return nil }
func (c zzNetConn) SetWriteDeadline(time.Time) error { return nil }

type zzKey struct{}

func zzServer(h neffos.ConnHandler) *neffos.Server {
	return neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		s := r.Context().Value(zzKey{}).(*zzSock)
		s.req = r
		return s, nil
	}, h)
}

// zzAccept upgrades the socket on the server.
func zzAccept(s *neffos.Server, b *zzSock, id string) (*neffos.Conn, error) {
	r := httptest.NewRequest(http.MethodGet, "http://mem/", nil)
	r = r.WithContext(context.WithValue(r.Context(), zzKey{}, b))
	return s.Upgrade(httptest.NewRecorder(), r, nil, func(http.ResponseWriter, *http.Request) string { return id })
}

type zzPeer struct {
	cli  *neffos.Client
	a, b *zzSock
	srv  *neffos.Conn // the server's end
}

func zzDialErr(s *neffos.Server, id string, h neffos.ConnHandler) (*zzPeer, error) {
	p := &zzPeer{}
	p.a, p.b = zzPair()
	acc := make(chan *neffos.Conn, 1)
	var err error
	p.cli, err = neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
		go func() {
			c, _ := zzAccept(s, p.b, id)
			acc <- c
		}()
		return p.a, nil
	}, "mem", h)
	if err == nil {
		p.srv = <-acc
	}
	return p, err
}

func zzDial(t *testing.T, s *neffos.Server, id string, h neffos.ConnHandler) *zzPeer {
	t.Helper()
	p, err := zzDialErr(s, id, h)
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func zzConnect(t *testing.T, p *zzPeer, ns string) *neffos.NSConn {
	t.Helper()
	c, err := p.cli.Connect(zzCtx(), ns)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func zzCtx() context.Context {
	ctx, _ := context.WithTimeout(context.Background(), 20*time.Second)
	return ctx
}

// zzWithin reports whether f returned in time.
func zzWithin(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// zzEventually polls a condition.
func zzEventually(f func() bool) bool {
	for i := 0; i < 2000; i++ {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return f()
}

var _ = zzWithin
var _ = zzEventually
