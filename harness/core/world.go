// Package core holds the checks that drive neffos over the simulated transport.
package core

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"verif/kit"
	"verif/sim"

	"github.com/kataras/neffos"
)

type endKey struct{}

// World is one server and its simulated clients.
type World struct {
	S     *neffos.Server
	mu    sync.Mutex
	links []*sim.Link
	clis  []*neffos.Client
	keep  bool
}

var errUpgrade = errors.New("sim: upgrade failed")

// simUpgrader takes the socket out of the request's context.
func simUpgrader(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
	e, ok := r.Context().Value(endKey{}).(*sim.End)
	if !ok {
		return nil, errUpgrade
	}
	e.SetRequest(r)
	return e, nil
}

// NewWorld must be called inside a bubble.
func NewWorld(h neffos.ConnHandler) *World {
	return &World{S: neffos.New(simUpgrader, h), keep: true}
}

// wsRequest is the upgrade request of a simulated client.
func wsRequest(e *sim.End) *http.Request {
	r := httptest.NewRequest(http.MethodGet, "http://sim/ws", nil)
	return r.WithContext(context.WithValue(r.Context(), endKey{}, e))
}

func constID(id string) neffos.IDGenerator {
	return func(http.ResponseWriter, *http.Request) string { return id }
}

// Accept upgrades the B end of the link on the server, in its own goroutine.
func (w *World) Accept(l *sim.Link, id string) <-chan acceptResult {
	return w.acceptWith(l, id, nil)
}

func (w *World) acceptWith(l *sim.Link, id string, h http.Header) <-chan acceptResult {
	w.mu.Lock()
	w.links = append(w.links, l)
	w.mu.Unlock()
	ch := make(chan acceptResult, 1)
	go func() {
		var gen neffos.IDGenerator
		if id != "" {
			gen = constID(id)
		}
		r := wsRequest(l.B)
		for k, v := range h {
			r.Header[k] = v
		}
		c, err := w.S.Upgrade(httptest.NewRecorder(), r, nil, gen)
		if err != nil && c == nil && !l.B.IsClosed() && errUpgradeRejected(err) {
			l.Cut() // the handler would have answered with an HTTP error
		}
		ch <- acceptResult{c, err}
	}()
	return ch
}

// errUpgradeRejected reports whether the upgrade did not happen at all.
func errUpgradeRejected(err error) bool { return err.Error() == "server closed" }

type acceptResult struct {
	c   *neffos.Conn
	err error
}

// Dial connects a Go client over a fresh link.
func (w *World) Dial(id string, h neffos.ConnHandler, up, down sim.Dir) (*neffos.Client, *sim.Link, <-chan acceptResult, error) {
	l := sim.NewLink(up, down, w.keep)
	var acc <-chan acceptResult
	cli, err := neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
		acc = w.Accept(l, id)
		return l.A, nil
	}, "sim", h)
	if cli != nil {
		w.mu.Lock()
		w.clis = append(w.clis, cli)
		w.mu.Unlock()
	}
	return cli, l, acc, err
}

// Settle lets everything in flight finish: all goroutines are blocked and d has passed.
func Settle(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// Shutdown ends the case: closes all links and stops the server's goroutine.
func (w *World) Shutdown() {
	w.mu.Lock()
	links, clis := w.links, w.clis
	w.mu.Unlock()
	if kit.Race {
		// The fields of the server are not changed: the loop stays blocked.
		for _, l := range links {
			l.Cut()
		}
		for _, c := range clis {
			go c.Close()
		}
		time.Sleep(22 * time.Second)
		return
	}
	// never nil: the server may be between its nil check and the call
	w.S.OnConnect = func(*neffos.Conn) error { return nil }
	w.S.OnDisconnect = func(*neffos.Conn) {}
	for _, l := range links {
		l.Cut()
	}
	for _, c := range clis {
		go c.Close()
	}
	time.Sleep(20 * time.Second)
	// One extra connection; Goexit in its OnDisconnect ends the server's loop.
	// If a future server calls it elsewhere the loop just stays blocked, which
	// Bubble tolerates.
	w.S.StackExchange = nil
	w.S.FireDisconnectAlways = true
	w.S.OnDisconnect = func(*neffos.Conn) { runtime.Goexit() }
	l := sim.NewLink(sim.Dir{}, sim.Dir{}, false)
	w.Accept(l, "shutdown")
	time.Sleep(time.Second)
	l.Cut()
	time.Sleep(time.Second)
}

// call runs f in its own goroutine and reports whether it returned within d of
// simulated time.
func call(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	default:
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
		return false
	}
}
