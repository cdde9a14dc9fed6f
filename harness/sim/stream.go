package sim

import (
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// StreamDir configures one direction of a byte stream.
type StreamDir struct {
	Chunk []int `json:",omitempty"` // largest number of bytes of successive reads, used cyclically; 0: no limit
	Yield int   `json:",omitempty"` // scheduler yields after each write
	Lat   int   `json:",omitempty"` // latency in microseconds
	Buf   int   `json:",omitempty"` // a write blocks while this many bytes are not read yet; 0: no limit
	Cut   int   `json:",omitempty"` // the stream breaks after this many bytes; 0: never
}

type seg struct {
	b  []byte
	at time.Time
}

type half struct {
	mu     sync.Mutex
	wake   chan struct{} // closed and replaced on every change
	cfg    StreamDir
	q      []seg
	size   int // bytes in q
	total  int // bytes ever written
	reads  int
	eof    bool // no more writes
	rst    bool // broken
	closed bool // reader has closed
	Log    []byte
}

func (h *half) change() {
	close(h.wake)
	h.wake = make(chan struct{})
}

// Stream is one end of an in-memory full duplex byte stream, like a TCP connection.
type Stream struct {
	in, out *half
	mu      sync.Mutex
	rdl     time.Time
	wdl     time.Time
	dlWake  chan struct{}
	name    string
	closed  bool
}

// NewStream returns the two ends; up configures a to b.
func NewStream(up, down StreamDir) (a, b *Stream) {
	x := &half{wake: make(chan struct{}), cfg: up}
	y := &half{wake: make(chan struct{}), cfg: down}
	return &Stream{in: y, out: x, name: "a", dlWake: make(chan struct{})}, &Stream{in: x, out: y, name: "b", dlWake: make(chan struct{})}
}

func streamErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

// wait blocks until the half changes, the deadline is reached or changed.
func wait(ch, dlw chan struct{}, until ...time.Time) {
	var tc <-chan time.Time
	var min time.Time
	for _, t := range until {
		if !t.IsZero() && (min.IsZero() || t.Before(min)) {
			min = t
		}
	}
	if !min.IsZero() {
		tm := time.NewTimer(time.Until(min))
		defer tm.Stop()
		tc = tm.C
	}
	select {
	case <-ch:
	case <-dlw:
	case <-tc:
	}
}

func (s *Stream) deadlines() (r, w time.Time, ch chan struct{}, closed bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rdl, s.wdl, s.dlWake, s.closed
}

func (s *Stream) Read(p []byte) (int, error) {
	h := s.in
	for {
		rdl, _, dlw, closed := s.deadlines()
		if closed {
			return 0, streamErr("read", net.ErrClosed)
		}
		now := time.Now()
		if !rdl.IsZero() && !now.Before(rdl) {
			return 0, streamErr("read", os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		if h.rst {
			h.mu.Unlock()
			return 0, streamErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(p) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		var at time.Time
		if len(h.q) > 0 {
			if g := &h.q[0]; !g.at.After(now) {
				n := len(g.b)
				if len(h.cfg.Chunk) > 0 {
					if c := h.cfg.Chunk[h.reads%len(h.cfg.Chunk)]; c > 0 && c < n {
						n = c
					}
				}
				h.reads++
				n = copy(p, g.b[:n])
				if g.b = g.b[n:]; len(g.b) == 0 {
					h.q = h.q[1:]
				}
				h.size -= n
				h.change()
				h.mu.Unlock()
				return n, nil
			} else {
				at = g.at
			}
		} else if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		w := h.wake
		h.mu.Unlock()
		wait(w, dlw, rdl, at)
	}
}

func (s *Stream) Write(p []byte) (int, error) {
	h := s.out
	for {
		_, wdl, dlw, closed := s.deadlines()
		if closed {
			return 0, streamErr("write", net.ErrClosed)
		}
		if !wdl.IsZero() && !time.Now().Before(wdl) {
			return 0, streamErr("write", os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		if h.rst || h.closed || h.eof {
			h.mu.Unlock()
			return 0, streamErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if h.cfg.Buf == 0 || h.size < h.cfg.Buf {
			break
		}
		w := h.wake
		h.mu.Unlock()
		wait(w, dlw, wdl)
	}
	b := append([]byte(nil), p...)
	if h.cfg.Cut > 0 && h.total+len(b) >= h.cfg.Cut {
		b = b[:h.cfg.Cut-h.total]
		h.eof = true
	}
	if len(b) > 0 {
		h.q = append(h.q, seg{b, time.Now().Add(time.Duration(h.cfg.Lat) * time.Microsecond)})
		h.size += len(b)
		h.total += len(b)
		h.Log = append(h.Log, b...)
	}
	h.change()
	n := h.cfg.Yield
	h.mu.Unlock()
	for ; n > 0; n-- {
		runtime.Gosched()
	}
	return len(p), nil
}

// Written is everything this end has put on the wire so far.
func (s *Stream) Written() []byte {
	s.out.mu.Lock()
	defer s.out.mu.Unlock()
	return append([]byte(nil), s.out.Log...)
}

// CloseWrite ends this end's direction.
func (s *Stream) CloseWrite() {
	s.out.mu.Lock()
	s.out.eof = true
	s.out.change()
	s.out.mu.Unlock()
}

// Reset breaks the stream in both directions at once.
func (s *Stream) Reset() {
	for _, h := range []*half{s.in, s.out} {
		h.mu.Lock()
		h.rst = true
		h.change()
		h.mu.Unlock()
	}
}

func (s *Stream) Close() error {
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		return streamErr("close", net.ErrClosed)
	}
	s.closed = true
	close(s.dlWake)
	s.dlWake = make(chan struct{})
	s.mu.Unlock()
	s.out.mu.Lock()
	s.out.eof = true
	s.out.change()
	s.out.mu.Unlock()
	s.in.mu.Lock()
	s.in.closed = true
	s.in.change()
	s.in.mu.Unlock()
	return nil
}

type streamAddr string

func (a streamAddr) Network() string { return "sim" }
func (a streamAddr) String() string  { return string(a) }

func (s *Stream) LocalAddr() net.Addr  { return streamAddr(s.name) }
func (s *Stream) RemoteAddr() net.Addr { return streamAddr("peer of " + s.name) }
func (s *Stream) SetDeadline(t time.Time) error {
	return s.set(func() { s.rdl, s.wdl = t, t })
}
func (s *Stream) SetReadDeadline(t time.Time) error {
	return s.set(func() { s.rdl = t })
}
func (s *Stream) SetWriteDeadline(t time.Time) error {
	return s.set(func() { s.wdl = t })
}
func (s *Stream) set(f func()) error {
	s.mu.Lock()
	f()
	close(s.dlWake)
	s.dlWake = make(chan struct{})
	s.mu.Unlock()
	return nil
}

// LimitWrites makes this end's writes block while n bytes are not read yet.
func (s *Stream) LimitWrites(n int) {
	s.out.mu.Lock()
	s.out.cfg.Buf = n
	s.out.size = 0
	for _, g := range s.out.q {
		s.out.size += len(g.b)
	}
	s.out.change()
	s.out.mu.Unlock()
}
