// Package sim is the simulated transport: an in-memory pair of neffos.Sockets
// whose latencies and faults come from the plan and happen in simulated time.
package sim

import (
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

// Frame is one websocket message on the link.
type Frame struct {
	Typ  neffos.MessageType
	Data []byte
	at   time.Time
}

// Storm is the number of frames in one direction after which a link is
// considered to be in an endless message loop; it is cut then.
const Storm = 20000

// Config of one direction of a link.
type Dir struct {
	Lat []int `json:",omitempty"` // latencies in microseconds, used cyclically; order is preserved
	// WriteHold makes a write take this long (microseconds) before it is on the wire.
	WriteHold []int `json:",omitempty"`
	// WriteAfter makes a write return so much later (microseconds) than it is on the wire.
	WriteAfter []int `json:",omitempty"`
}

type pipe struct {
	mu      sync.Mutex
	q       []Frame
	cfg     Dir
	n       int
	last    time.Time
	eof     bool  // writer closed gracefully: EOF after the queue
	broken  error // link failed: reads fail at once
	notify  chan struct{}
	wsem    chan struct{}
	fault   map[int]error // write errors by write index
	stalled bool
	blocked chan struct{}
	Log     []Frame // everything that was put on the wire
	keep    bool
}

func newPipe(cfg Dir, keep bool) *pipe {
	return &pipe{cfg: cfg, notify: make(chan struct{}, 1), wsem: make(chan struct{}, 1), keep: keep}
}

func (p *pipe) wake() {
	select {
	case p.notify <- struct{}{}:
	default:
	}
}

// End is one side of a link; it is a neffos.Socket.
type End struct {
	l        *Link
	in, out  *pipe
	req      *http.Request
	closed   chan struct{}
	once     sync.Once
	readers  atomic.Int32
	Closes   atomic.Int32
	TwoReads atomic.Bool // two goroutines were reading at the same time
	tmu      sync.Mutex
	ReadTO   []time.Duration // timeout arguments seen
	WriteTO  []time.Duration
}

// Link connects two Ends.
type Link struct {
	A, B   *End
	stormy atomic.Bool
}

var _ neffos.Socket = (*End)(nil)

// NewLink makes a link. ab configures A->B, ba configures B->A.
func NewLink(ab, ba Dir, keepLog bool) *Link {
	p, q := newPipe(ab, keepLog), newPipe(ba, keepLog)
	l := &Link{}
	l.A = &End{l: l, in: q, out: p, closed: make(chan struct{})}
	l.B = &End{l: l, in: p, out: q, closed: make(chan struct{})}
	return l
}

// Stormy reports whether the link was cut because of an endless message loop.
func (l *Link) Stormy() bool { return l.stormy.Load() }

// Cut breaks the link: both sides' reads and writes fail from now on.
func (l *Link) Cut() {
	for _, p := range []*pipe{l.A.out, l.B.out} {
		p.mu.Lock()
		p.broken = io.ErrUnexpectedEOF
		p.mu.Unlock()
		p.wake()
	}
}

// CutAfter delivers what is already on the wire and then breaks the link.
func (l *Link) CutAfter() {
	for _, p := range []*pipe{l.A.out, l.B.out} {
		p.mu.Lock()
		p.eof = true
		p.mu.Unlock()
		p.wake()
	}
}

// Stall stops delivery in the direction away from e (frames stay queued).
func (e *End) Stall(on bool) {
	e.out.mu.Lock()
	e.out.stalled = on
	e.out.mu.Unlock()
	e.out.wake()
}

// Block makes the writes of e wait, as they do when the peer does not read,
// until Block(false), the end is closed or the write's timeout.
func (e *End) Block(on bool) {
	e.out.mu.Lock()
	defer e.out.mu.Unlock()
	if on && e.out.blocked == nil {
		e.out.blocked = make(chan struct{})
	} else if !on && e.out.blocked != nil {
		close(e.out.blocked)
		e.out.blocked = nil
	}
}

// FailWrite makes the n-th write from now (0 = next) of this end fail with err.
func (e *End) FailWrite(n int, err error) {
	e.out.mu.Lock()
	if e.out.fault == nil {
		e.out.fault = map[int]error{}
	}
	e.out.fault[e.out.n+n] = err
	e.out.mu.Unlock()
}

// Sent returns what this end has put on the wire so far (when logging is on).
func (e *End) Sent() []Frame {
	e.out.mu.Lock()
	defer e.out.mu.Unlock()
	return append([]Frame(nil), e.out.Log...)
}

// SentCount is the number of frames this end has put on the wire.
func (e *End) SentCount() int {
	e.out.mu.Lock()
	defer e.out.mu.Unlock()
	return len(e.out.Log)
}

// SetRequest sets the value returned by Request.
func (e *End) SetRequest(r *http.Request) { e.req = r }

// Request implements neffos.Socket.
func (e *End) Request() *http.Request { return e.req }

// NetConn implements neffos.Socket.
func (e *End) NetConn() net.Conn { return netConn{e} }

type addr struct{}

func (addr) Network() string { return "sim" }
func (addr) String() string  { return "sim" }

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "sim", Err: err} }

// Close closes this end; the other end sees EOF after what was sent.
func (e *End) Close() error {
	e.Closes.Add(1)
	e.once.Do(func() {
		close(e.closed)
		e.out.mu.Lock()
		e.out.eof = true
		e.out.mu.Unlock()
		e.out.wake()
	})
	return nil
}

// IsClosed reports whether this end was closed locally.
func (e *End) IsClosed() bool {
	select {
	case <-e.closed:
		return true
	default:
		return false
	}
}

// ReadData implements neffos.Socket.
func (e *End) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	if e.readers.Add(1) > 1 {
		e.TwoReads.Store(true)
	}
	defer e.readers.Add(-1)
	e.tmu.Lock()
	if len(e.ReadTO) < 4096 {
		e.ReadTO = append(e.ReadTO, timeout)
	}
	e.tmu.Unlock()
	var deadline time.Time
	if timeout > 0 {
		deadline = time.Now().Add(timeout)
	}
	p := e.in
	for {
		select {
		case <-e.closed:
			return nil, 0, opErr("read", net.ErrClosed)
		default:
		}
		now := time.Now()
		var wait time.Duration = -1
		p.mu.Lock()
		if p.broken != nil {
			err := p.broken
			p.mu.Unlock()
			p.wake()
			return nil, 0, err
		}
		if len(p.q) > 0 && !p.stalled {
			f := p.q[0]
			if !f.at.After(now) {
				p.q = p.q[1:]
				p.mu.Unlock()
				p.wake()
				return f.Data, f.Typ, nil
			}
			wait = f.at.Sub(now)
		} else if p.eof && len(p.q) == 0 {
			p.mu.Unlock()
			p.wake()
			return nil, 0, io.ErrUnexpectedEOF
		}
		p.mu.Unlock()
		var tc, dc <-chan time.Time
		if wait >= 0 {
			tm := time.NewTimer(wait)
			tc = tm.C
		}
		if timeout > 0 {
			d := deadline.Sub(now)
			if d <= 0 {
				return nil, 0, opErr("read", os.ErrDeadlineExceeded)
			}
			tm := time.NewTimer(d)
			dc = tm.C
		}
		select {
		case <-p.notify:
		case <-tc:
		case <-dc:
			// A frame that is due at the very same instant wins.
			p.mu.Lock()
			due := len(p.q) > 0 && !p.stalled && !p.q[0].at.After(time.Now())
			p.mu.Unlock()
			if !due {
				return nil, 0, opErr("read", os.ErrDeadlineExceeded)
			}
		case <-e.closed:
		}
	}
}

func (e *End) write(typ neffos.MessageType, body []byte, timeout time.Duration) error {
	n, err := e.put(typ, body, timeout)
	if l := e.out.cfg.WriteAfter; err == nil && len(l) > 0 && l[n%len(l)] > 0 {
		time.Sleep(time.Duration(l[n%len(l)]) * time.Microsecond)
	}
	return err
}

func (e *End) put(typ neffos.MessageType, body []byte, timeout time.Duration) (int, error) {
	data := append([]byte(nil), body...)
	e.tmu.Lock()
	if len(e.WriteTO) < 4096 {
		e.WriteTO = append(e.WriteTO, timeout)
	}
	e.tmu.Unlock()
	p := e.out
	select {
	case p.wsem <- struct{}{}:
	case <-e.closed:
		return 0, opErr("write", net.ErrClosed)
	}
	defer func() { <-p.wsem }()
	p.mu.Lock()
	blocked := p.blocked
	p.mu.Unlock()
	if blocked != nil {
		var tc <-chan time.Time
		if timeout > 0 {
			tm := time.NewTimer(timeout)
			defer tm.Stop()
			tc = tm.C
		}
		select {
		case <-blocked:
		case <-e.closed:
			return 0, opErr("write", net.ErrClosed)
		case <-tc:
			return 0, opErr("write", os.ErrDeadlineExceeded)
		}
	}
	p.mu.Lock()
	n := p.n
	p.n++
	hold := 0
	if len(p.cfg.WriteHold) > 0 {
		hold = p.cfg.WriteHold[n%len(p.cfg.WriteHold)]
	}
	p.mu.Unlock()
	if hold > 0 {
		time.Sleep(time.Duration(hold) * time.Microsecond)
	}
	select {
	case <-e.closed:
		return 0, opErr("write", net.ErrClosed)
	default:
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if err := p.fault[n]; err != nil {
		return 0, err
	}
	if p.broken != nil || p.eof {
		return 0, opErr("write", os.NewSyscallError("write", errors.New("broken pipe")))
	}
	lat := 0
	if len(p.cfg.Lat) > 0 {
		lat = p.cfg.Lat[n%len(p.cfg.Lat)]
	}
	at := time.Now().Add(time.Duration(lat) * time.Microsecond)
	if at.Before(p.last) {
		at = p.last
	}
	p.last = at
	f := Frame{Typ: typ, Data: data, at: at}
	p.q = append(p.q, f)
	if p.keep {
		p.Log = append(p.Log, Frame{Typ: typ, Data: append([]byte(nil), data...)})
	}
	if n > Storm {
		e.l.stormy.Store(true)
		p.broken = io.ErrUnexpectedEOF
	}
	p.wake()
	return n, nil
}

// WriteBinary implements neffos.Socket.
func (e *End) WriteBinary(body []byte, timeout time.Duration) error {
	return e.write(neffos.BinaryMessage, body, timeout)
}

// WriteText implements neffos.Socket.
func (e *End) WriteText(body []byte, timeout time.Duration) error {
	return e.write(neffos.TextMessage, body, timeout)
}

// Timeouts returns the timeout arguments the reads and writes were given.
func (e *End) Timeouts() (r, w []time.Duration) {
	e.tmu.Lock()
	defer e.tmu.Unlock()
	return append([]time.Duration(nil), e.ReadTO...), append([]time.Duration(nil), e.WriteTO...)
}

type netConn struct{ e *End }

func (c netConn) Read([]byte) (int, error)         { return 0, errors.New("sim: not a byte stream") }
func (c netConn) Write([]byte) (int, error)        { return 0, errors.New("sim: not a byte stream") }
func (c netConn) Close() error                     { return c.e.Close() }
func (c netConn) LocalAddr() net.Addr              { return addr{} }
func (c netConn) RemoteAddr() net.Addr             { return addr{} }
func (c netConn) SetDeadline(time.Time) error      { return nil }
func (c netConn) SetReadDeadline(time.Time) error  { return nil }
func (c netConn) SetWriteDeadline(time.Time) error { return nil }
