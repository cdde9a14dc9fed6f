package core

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/kit"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ---- oracles over the recorded history ----

// static reports whether the set-up connected the connection to the namespace (and room).
func (e *conc) static(k int, ns, room string) bool {
	on := false
	for _, n := range e.p.Conns[k].On {
		on = on || e.nsName(n) == ns
	}
	if !on || room == "" {
		return on
	}
	for _, j := range e.p.Conns[k].Joined {
		if e.nsName(j/100) == ns && e.roomName(j%100+1) == room {
			return true
		}
	}
	return false
}

func (e *conc) byID() map[int]*opRec {
	m := map[int]*opRec{}
	for _, r := range e.ops {
		if r.ID != 0 && len(r.IDs) == 0 {
			m[r.ID] = r
		}
		for _, id := range r.IDs {
			m[id] = r
		}
	}
	return m
}

func isUser(r *cbRec) bool { return !neffos.IsSystemEvent(r.Event) }

// expectedAt reports whether the message of the operation may be handled there.
func (e *conc) expectedAt(r *opRec, k int, server bool) bool {
	switch r.Op.K {
	case "emit", "ask":
		return k == r.C && server != r.S
	case "bc", "sask":
		if server {
			return false
		}
		if r.Op.To > 0 && e.conns[mod(r.Op.To-1, len(e.conns))].sc.ID() != e.conns[k].sc.ID() {
			return false
		}
		if r.Op.K == "bc" && r.Op.Ex > 0 && mod(r.Op.Ex-1, len(e.conns)) == k {
			return false
		}
		return true
	}
	return false
}

// checkContent: every user callback handles a message somebody sent to that
// side, unchanged, at most once per receiver.
func (e *conc) checkContent(tag string) map[[2]int][]*cbRec {
	ids := e.byID()
	got := map[[2]int][]*cbRec{} // id, receiver (conn*2+side)
	for _, r := range e.cbs {
		if !isUser(r) {
			continue
		}
		o := ids[r.ID]
		if o == nil {
			e.miss(tag, "a callback ran for a message that nobody sent: %s", r)
			continue
		}
		if r.C < 0 || !e.expectedAt(o, r.C, r.S) {
			e.miss(tag, "a callback ran on a side the message was not sent to: %s for %s", r, o)
			continue
		}
		if r.NS != o.NS0 || r.MNS != o.NS0 || r.Room != o.Room0 || r.Event != userEv || r.Bin != o.Op.Bin || r.Local || r.Force || r.Err != nil || !strings.HasSuffix(r.Body, o.Op.tail()) {
			e.miss(tag, "a message arrived altered: sent %s, handled %s", o, r)
		}
		key := [2]int{r.ID, r.C*2 + sideIdx(r.S)}
		got[key] = append(got[key], r)
		if len(got[key]) > 1 {
			e.miss(tag, "a message was handled %d times: %s", len(got[key]), r)
		}
	}
	return got
}

// checkOrder: messages that were sent one after the other are handled in that order.
func (e *conc) checkOrder(tag string, across func(*opRec) bool) {
	ids := e.byID()
	for k := range e.conns {
		for _, s := range []bool{false, true} {
			var seq []*cbRec
			for _, r := range e.cbs { // recorded in S0 order
				if isUser(r) && r.C == k && r.S == s && ids[r.ID] != nil && across(ids[r.ID]) {
					seq = append(seq, r)
				}
			}
			// no message handled later was completely sent before one handled earlier
			for i := 1; i < len(seq); i++ {
				for j := i - 1; j >= 0; j-- {
					a, b := ids[seq[j].ID], ids[seq[i].ID]
					if a == b {
						if indexOf(a.IDs, seq[i].ID) < indexOf(a.IDs, seq[j].ID) {
							e.miss(tag, "messages of one broadcast arrived in the wrong order: %s before %s", seq[j], seq[i])
						}
						continue
					}
					if b.Ended && b.S1 < a.S0 {
						e.miss(tag, "messages were handled in the wrong order: %s was handled before %s, sent as %s then %s", seq[j], seq[i], b, a)
						return
					}
				}
			}
		}
	}
}

func indexOf(l []int, x int) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

// checkOverlap: callbacks for received messages never run at the same time.
func (e *conc) checkOverlap(tag string) {
	for k, m := range e.conns {
		for _, s := range []bool{false, true} {
			var last *cbRec
			for _, r := range e.cbs {
				if r.C != k || r.S != s || !isUser(r) {
					continue
				}
				if last != nil && (last.S1 == 0 || r.S0 < last.S1) {
					e.miss(tag, "two callbacks of one connection ran at the same time: %s and %s", last, r)
				}
				last = r
			}
		}
		if m.link.A.TwoReads.Load() || m.link.B.TwoReads.Load() {
			e.miss(tag, "two goroutines read connection #%d's socket at the same time", k)
		}
	}
}

func (e *conc) peer(r *opRec) int { return r.C*2 + sideIdx(!r.S) }

// checkStatic: with unchanging membership every send succeeds exactly if it is
// allowed and is handled exactly once by the other side.
func (e *conc) checkStatic(tag string) {
	got := e.checkContent(tag)
	for _, r := range e.ops {
		want := e.static(r.C, r.NS0, r.Room0)
		switch r.Op.K {
		case "emit":
			if r.Ok != want {
				e.miss(tag, "emit reported %v, want %v: %s", r.Ok, want, r)
			}
			if n := len(got[[2]int{r.ID, e.peer(r)}]); want && n != 1 || !want && n != 0 {
				e.miss(tag, "an emitted message was handled %d times: %s", n, r)
			}
		case "ask":
			if n := len(got[[2]int{r.ID, e.peer(r)}]); want && n != 1 && (n != 0 || r.Op.Was == 0) || !want && n != 0 {
				e.miss(tag, "a request was handled %d times: %s", n, r)
			}
		case "bc":
			for _, id := range r.IDs {
				for k := range e.conns {
					n := len(got[[2]int{id, k * 2}])
					aud := e.expectedAt(r, k, false) && e.static(k, r.NS0, r.Room0)
					if aud && n != 1 || !aud && n != 0 {
						e.miss(tag, "broadcast message %d was handled %d times by client #%d (audience: %v): %s", id, n, k, aud, r)
					}
				}
			}
		case "sask":
			for k := range e.conns {
				n := len(got[[2]int{r.ID, k * 2}])
				aud := e.expectedAt(r, k, false) && e.static(k, r.NS0, r.Room0)
				if aud && n != 1 || !aud && n != 0 {
					e.miss(tag, "the message of Server.Ask was handled %d times by client #%d (audience: %v): %s", n, k, aud, r)
				}
			}
		}
	}
}

func wantReply(id, k int, server bool, rep string) (body, text string) {
	switch rep {
	case "R":
		return fmt.Sprintf("re;%d;%d;%v", id, k, server), ""
	case "E":
		return "", fmt.Sprintf("er;%d;%d;%v", id, k, server)
	case "K":
		return "", errKnownB.Error()
	}
	return "", ""
}

func replyMatches(r *opRec, k int, server bool) bool {
	body, text := wantReply(r.ID, k, server, r.Op.Rep)
	switch r.Op.Rep {
	case "R":
		return r.Err == nil && string(r.Got.Body) == body && r.Got.Namespace == r.NS0 && r.Got.Room == r.Room0 && r.Got.Event == userEv
	case "E":
		return r.Err != nil && r.Err.Error() == text
	case "K":
		return r.Err == errKnownB
	}
	return false
}

func ctxError(o cop) error {
	if o.Can {
		return context.Canceled
	}
	return context.DeadlineExceeded
}

// checkAsks: what asks return. strict: nothing ends connections or memberships.
func (e *conc) checkAsks(tag string, strict bool) {
	for _, r := range e.ops {
		if r.Op.K != "ask" {
			continue
		}
		timedOut := r.Op.TO > 0 && r.Err == ctxError(r.Op)
		switch {
		case replyMatches(r, r.C, !r.S):
		case timedOut && (r.Op.Was > 0 || r.T1.Sub(r.T0) >= us(r.Op.TO)):
		case r.Err == nil:
			e.miss(tag, "an Ask returned %q which is not the answer to it: %s", r.Got.Body, r)
		case strict && e.static(r.C, r.NS0, r.Room0):
			e.miss(tag, "an Ask failed without reason: %s", r)
		case strict && !strictErr(r.Err):
			e.miss(tag, "an Ask to a not connected namespace or room returned a strange error: %s", r)
		case strings.HasPrefix(r.Err.Error(), "er;"):
			e.miss(tag, "an Ask returned another one's error: %s", r)
		}
	}
}

func strictErr(err error) bool {
	return err == neffos.ErrWrite || err == neffos.ErrBadNamespace || err == neffos.ErrBadRoom
}

const slack = 2 * time.Second

// checkEnds: every call returns in time.
func (e *conc) checkEnds(tag string) {
	for _, r := range e.ops {
		switch r.Op.K {
		case "ask", "connect", "disconnect", "join", "leave", "leaveall", "disconnectall", "sask":
		default:
			continue
		}
		if r.Err == context.Canceled || r.Err == context.DeadlineExceeded {
			if r.Op.TO == 0 || r.Err != ctxError(r.Op) || r.Op.Was == 0 && r.T1.Sub(r.T0) < us(r.Op.TO) {
				e.miss(tag, "a call ended with the error of a context that had not ended: %s", r)
			}
		}
		limit := time.Time{}
		why := ""
		if r.Op.TO > 0 && r.Op.K != "leaveall" && r.Op.K != "disconnectall" {
			limit, why = r.T0.Add(us(r.Op.TO)), "its context ended"
		}
		if m := e.conns[r.C]; m.endedBy && r.Op.K != "sask" {
			t := m.endT
			if t.Before(r.T0) {
				t = r.T0
			}
			if r.S && r.Op.K == "connect" {
				// a server-side Connect looks for the acknowledgement of a
				// closed connection for a documented 5 to 10 seconds
				t = t.Add(10 * time.Second)
			}
			if limit.IsZero() || t.Before(limit) {
				limit, why = t, "the connection ended"
			}
		}
		if !limit.IsZero() && r.T1.After(limit.Add(slack)) {
			e.miss(tag, "a call returned %v after %s: %s", r.T1.Sub(limit), why, r)
		}
	}
}

// checkSpans: the lifecycle callbacks of each namespace connection and room add up.
func (e *conc) checkSpans(tag string) {
	by := map[*neffos.NSConn][]*cbRec{}
	var order []*neffos.NSConn
	for _, r := range e.cbs {
		if isUser(r) {
			continue
		}
		if by[r.NSC] == nil {
			order = append(order, r.NSC)
		}
		by[r.NSC] = append(by[r.NSC], r)
	}
	for _, n := range order {
		l := by[n]
		k, s, name := l[0].C, l[0].S, l[0].NS
		if k < 0 {
			continue
		}
		c := e.conns[k].cc
		if s {
			c = e.conns[k].sc
		}
		now := c.Namespace(name) == n
		cnt := map[string]int{}
		rooms := map[string]map[string]int{}
		dump := func() string {
			var x []string
			for _, r := range l {
				x = append(x, r.String())
			}
			return strings.Join(x, "\n  ")
		}
		for _, r := range l {
			if r.Room == "" {
				cnt[r.Event]++
			} else {
				if rooms[r.Room] == nil {
					rooms[r.Room] = map[string]int{}
				}
				rooms[r.Room][r.Event]++
			}
			if r.MNS != name || r.NS != name {
				e.miss(tag, "a callback names the wrong namespace: %s", r)
			}
		}
		who := fmt.Sprintf("%s#%d namespace %q", sideName(s), k, name)
		// A server that is asked to disconnect fires its callback to decide; if
		// the namespace ends otherwise meanwhile that one may be an extra.
		if s && cnt[neffos.OnNamespaceDisconnect] == 2 {
			var q, d *cbRec
			for _, r := range l {
				if r.Event == neffos.OnNamespaceDisconnect {
					if !r.Local && !r.Force {
						q = r
					} else {
						d = r
					}
				}
			}
			for _, a := range e.ops {
				// the request was not over when the other one ran
				if q != nil && d != nil && a.C == k && !a.S && (a.Op.K == "disconnect" && a.NS0 == name || a.Op.K == "disconnectall") &&
					a.S0 < q.S0 && (!a.Ended || a.Err != nil || a.S1 > d.S0) {
					cnt[neffos.OnNamespaceDisconnect]--
					break
				}
			}
		}
		conn, disc := cnt[neffos.OnNamespaceConnected], cnt[neffos.OnNamespaceDisconnect]
		if cnt[neffos.OnNamespaceConnect] != 1 || conn > 1 {
			e.miss(tag, "%s: %d connect and %d connected callbacks for one namespace connection:\n  %s", who, cnt[neffos.OnNamespaceConnect], conn, dump())
		}
		switch {
		case now && conn != 1:
			e.miss(tag, "%s is connected but its connected callback ran %d times:\n  %s", who, conn, dump())
		case now && disc != 0:
			e.miss(tag, "%s is connected but its disconnect callback ran:\n  %s", who, dump())
		case !now && conn == 1 && disc != 1:
			e.miss(tag, "%s has ended but its disconnect callback ran %d times:\n  %s", who, disc, dump())
		case conn == 0 && (disc != 0 || len(rooms) != 0):
			e.miss(tag, "%s was never connected but other callbacks ran:\n  %s", who, dump())
		}
		for r, x := range rooms {
			j := 0
			if now && n.Room(r) != nil {
				j = 1
			}
			if x[neffos.OnRoomJoined] != x[neffos.OnRoomLeft]+j {
				e.miss(tag, "%s room %q: %d joined and %d left callbacks, joined now: %v\n  %s", who, r, x[neffos.OnRoomJoined], x[neffos.OnRoomLeft], j == 1, dump())
			}
			if x[neffos.OnRoomJoin] < x[neffos.OnRoomJoined] || x[neffos.OnRoomLeave] < x[neffos.OnRoomLeft] {
				e.miss(tag, "%s room %q: joined or left without a join or leave callback\n  %s", who, r, dump())
			}
		}
		if !now && len(n.Rooms()) != 0 {
			e.miss(tag, "%s has ended but still has rooms", who)
		}
	}
}

func roomNames(n *neffos.NSConn) string {
	if n == nil {
		return "not connected"
	}
	var s []string
	for _, r := range n.Rooms() {
		s = append(s, fmt.Sprintf("%q", r.Name))
	}
	sort.Strings(s)
	return "connected, rooms " + strings.Join(s, " ")
}

// checkAgree: both sides report the same namespaces and rooms.
func (e *conc) checkAgree(tag string) {
	for k, m := range e.conns {
		for _, ns := range e.p.NS {
			a, b := roomNames(m.cc.Namespace(ns)), roomNames(m.sc.Namespace(ns))
			if a != b {
				e.miss(tag, "connection #%d, namespace %q: client is %s, server is %s", k, ns, a, b)
			}
			if e.conns[k].endedBy && a != "not connected" {
				e.miss(tag, "connection #%d has ended but the client is still connected to %q", k, ns)
			}
		}
	}
}

// checkClosed: what must hold of connections that have ended.
func (e *conc) checkClosed(tag string) {
	for k, m := range e.conns {
		if !m.endedBy {
			if len(m.discs) != 0 {
				e.miss(tag, "OnDisconnect ran for the live connection #%d", k)
			}
			continue
		}
		if !m.cc.IsClosed() || !m.sc.IsClosed() {
			e.miss(tag, "connection #%d has ended but IsClosed is %v on the client and %v on the server", k, m.cc.IsClosed(), m.sc.IsClosed())
		}
		if len(m.discs) != 1 {
			e.miss(tag, "OnDisconnect ran %d times for connection #%d which has ended", len(m.discs), k)
		}
		if m.notifySeq == 0 {
			e.miss(tag, "the client's close notification of connection #%d has not fired", k)
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			for _, ns := range append([]string{ctlNS}, e.p.NS...) {
				if c.Namespace(ns) != nil {
					e.miss(tag, "connection #%d has ended but the %s holds namespace %q", k, sideName(s == 1), ns)
				}
				if c.Write(neffos.Message{Namespace: ns, Event: userEv}) {
					e.miss(tag, "a write on the closed connection #%d reported success on the %s", k, sideName(s == 1))
				}
			}
		}
		// messages sent after a side's own Close had returned are never handled by it
		var closed [2]int64
		for _, r := range e.ops {
			if r.C != k || !r.Ended {
				continue
			}
			s := -1
			switch {
			case r.Op.K == "close":
				s = sideIdx(r.S)
			case r.Op.K == "end0" || r.Op.K == "end4":
				s = 0
			case r.Op.K == "end1":
				s = 1
			}
			if s >= 0 && (closed[s] == 0 || r.S1 < closed[s]) && !r.InCb {
				closed[s] = r.S1
			}
		}
		ids := e.byID()
		for _, r := range e.cbs {
			if !isUser(r) || r.C != k {
				continue
			}
			if o := ids[r.ID]; o != nil && closed[sideIdx(r.S)] != 0 && o.S0 > closed[sideIdx(r.S)] {
				e.miss(tag, "a message sent after the %s of connection #%d was closed was handled: %s", sideName(r.S), k, r)
			}
		}
		// the forced callbacks of the client precede its close notification, if
		// no operation of the client itself was under way, and none of the
		// server which makes the client fire (forced) leave callbacks
		busy := false
		for _, r := range e.ops {
			if r.C == k && r.S && (strings.HasPrefix(r.Op.K, "disc") || strings.HasPrefix(r.Op.K, "leave")) {
				busy = true
			}
			if r.C == k && !r.S && r.Op.K != "close" && !strings.HasPrefix(r.Op.K, "end") {
				busy = true
			}
		}
		// the same for the server and its OnDisconnect
		busyS := false
		for _, r := range e.ops {
			if r.C == k && !r.S && (strings.HasPrefix(r.Op.K, "disc") || strings.HasPrefix(r.Op.K, "leave")) {
				busyS = true
			}
			if r.C == k && r.S && r.Op.K != "close" && r.Op.K != "do" && !strings.HasPrefix(r.Op.K, "end") {
				busyS = true
			}
		}
		if !busyS && len(m.discs) == 1 {
			for _, r := range e.cbs {
				if r.C == k && r.S && r.Force && r.S1 > m.discs[0] {
					e.miss(tag, "OnDisconnect of connection #%d ran before a forced callback: %s", k, r)
				}
			}
		}
		if !busy {
			for _, r := range e.cbs {
				if r.C == k && !r.S && r.Force && r.S1 > m.notifySeq {
					e.miss(tag, "the close notification of client #%d fired before a forced callback: %s", k, r)
				}
			}
		}
	}
	n := uint64(0)
	for _, m := range e.conns {
		if !m.endedBy {
			n++
		}
	}
	if g := e.w.S.GetTotalConnections(); g != n {
		e.miss(tag, "GetTotalConnections is %d, %d connections are live", g, n)
	}
}

// checkRegistry: every look at the server's connections fits the history, and
// after everything has settled exactly the live connections are left.
func (e *conc) checkRegistry(tag string) {
	all := append(append([]*cconn(nil), e.conns...), e.extras...)
	live := uint64(0)
	by := map[*neffos.Conn]*cconn{}
	for i, m := range all {
		if m.sc != nil {
			by[m.sc] = m
		}
		name := fmt.Sprintf("connection #%d (%q, extra: %v)", i, m.id, m.extra)
		if m.extra {
			switch {
			case m.refuse:
				if m.err == nil || e.closedS == 0 && m.err.Error() != "refused" {
					e.miss(tag, "the Dial of the refused %s returned %v", name, m.err)
				}
				m.endedBy = true
			case m.err != nil && e.closedS == 0:
				e.miss(tag, "the Dial of %s failed: %v", name, m.err)
			case e.closedS != 0:
				m.endedBy = true // the server has closed
			}
		}
		want := 0
		if m.sc != nil && m.endedBy && (!m.refuse || e.p.FireAll) {
			want = 1
		}
		// a connection that came while the server was closing may have ended
		// before it was accepted
		if len(m.discs) != want && !(m.extra && e.closedS != 0 && len(m.discs) == 0 && m.dialed == 0) {
			e.miss(tag, "OnDisconnect ran %d times for %s, ended: %v, refused: %v", len(m.discs), name, m.endedBy, m.refuse)
		}
		if m.connectCnt > 1 || m.connectCnt == 0 && m.dialed != 0 {
			e.miss(tag, "OnConnect ran %d times for %s", m.connectCnt, name)
		}
		if m.sc != nil && m.sc.IsClosed() != m.endedBy {
			e.miss(tag, "the server's end of %s: closed is %v, ended is %v", name, m.sc.IsClosed(), m.endedBy)
		}
		if m.endedBy && m.link.B.Request() != nil && !m.link.B.IsClosed() {
			e.miss(tag, "the socket of %s is still open (refused %v, Dial error %v, server side %v)", name, m.refuse, m.err, m.sc != nil)
		}
		if !m.endedBy {
			live++
		}
	}
	for _, r := range e.ops {
		if r.Op.K == "dial" && r.Err != nil && e.closedS == 0 && mod(r.Op.M, 5) != 4 {
			e.miss(tag, "a new connection can not be used: %s", r)
		}
	}
	// in: the connection is registered during the whole look (simulated time has
	// passed since its Dial returned, so the server's loop has taken it); may: it
	// can be seen
	in := func(m *cconn, r *regRec) bool {
		return m.sc != nil && m.dialed != 0 && m.dialedT.Before(r.T0) && (!m.endedBy || m.endSeq > r.S1 && m.endSeq != 0) &&
			(e.closedS == 0 || e.closedS > r.S1) // Server.Close ends those it takes afterwards, too
	}
	may := func(m *cconn, r *regRec) bool {
		return m.started < r.S1 && !(len(m.discs) > 0 && m.discs[0] < r.S0)
	}
	for _, r := range e.regs {
		var lo, hi uint64
		for _, m := range all {
			if in(m, r) {
				lo++
			}
			if may(m, r) {
				hi++
			}
		}
		switch r.kind {
		case 0:
			if r.total < lo || r.total > hi {
				e.miss(tag, "GetTotalConnections is %d while between %d and %d connections are live [%d,%d]", r.total, lo, hi, r.S0, r.S1)
			}
		case 3:
			for c, n := range r.conns {
				if m := by[c]; n != 1 || m == nil && e.closedS == 0 || m != nil && !may(m, r) {
					e.miss(tag, "Do called its function %d times with connection %q (known: %v) [%d,%d]", n, c.ID(), m != nil, r.S0, r.S1)
				}
			}
			for _, m := range all {
				if in(m, r) && r.conns[m.sc] != 1 {
					e.miss(tag, "Do missed the live connection %q [%d,%d]", m.sc.ID(), r.S0, r.S1)
				}
			}
		case 1, 2:
			for id, c := range r.keys {
				if m := by[c]; c.ID() != id || m == nil && e.closedS == 0 || m != nil && !may(m, r) {
					e.miss(tag, "the connections by ID have %q: ID %q (known: %v) [%d,%d]", id, c.ID(), m != nil, r.S0, r.S1)
				}
			}
			for _, m := range all {
				if !in(m, r) || r.kind == 2 && (m.extra || m.endedBy) {
					continue
				}
				if r.kind == 2 && m.sc.Namespace(ctlNS) == nil {
					continue
				}
				if r.keys[m.sc.ID()] == nil {
					e.miss(tag, "the connections by ID (kind %d) miss the live connection %q [%d,%d]", r.kind, m.sc.ID(), r.S0, r.S1)
				}
			}
		}
	}
	if g := e.w.S.GetTotalConnections(); g != live {
		e.miss(tag, "GetTotalConnections is %d, %d connections are live", g, live)
	}
	left := map[*neffos.Conn]bool{}
	e.w.S.Do(func(c *neffos.Conn) { left[c] = true }, false)
	if uint64(len(left)) != live {
		e.miss(tag, "Do sees %d connections, %d are live", len(left), live)
	}
	for c := range left {
		if m := by[c]; m == nil || m.endedBy {
			e.miss(tag, "connection %q is registered although it has ended", c.ID())
		}
	}
}

// busy: the server was handling another message of the connection, answers wait for their turn.
func (e *conc) busy(k int, from, to time.Time) bool {
	for _, r := range e.cbs {
		if r.C == k && r.S && !r.T1.Before(from) && !r.T0.After(to) {
			return true
		}
	}
	return false
}

// checkServerAsk: the reply of Server.Ask comes from the audience.
func (e *conc) checkServerAsk(tag string) {
	byKey := map[[2]int]*cbRec{}
	for _, r := range e.cbs {
		if isUser(r) && !r.S {
			byKey[[2]int{r.ID, r.C}] = r
		}
	}
	for _, r := range e.ops {
		if r.Op.K != "sask" {
			continue
		}
		answers := 0
		winner := -1
		for k := range e.conns {
			if e.expectedAt(r, k, false) && e.static(k, r.NS0, r.Room0) && r.Op.Rep != "" {
				answers++
				if winner < 0 && replyMatches(r, k, false) {
					winner = k
				}
			}
		}
		timedOut := r.Op.TO > 0 && r.Err == ctxError(r.Op) && (r.Op.Was > 0 || r.T1.Sub(r.T0) >= us(r.Op.TO))
		switch {
		case winner >= 0:
			if r.Op.Rep == "K" {
				break // every connection answers the same
			}
			w := byKey[[2]int{r.ID, winner}]
			for k := range e.conns {
				o := byKey[[2]int{r.ID, k}]
				if o != nil && w != nil && k != winner && !e.busy(k, o.T1, w.T1) && o.T1.Add(time.Minute).Before(w.T1) {
					e.miss(tag, "Server.Ask returned the answer of connection #%d although #%d answered %v earlier: %s", winner, k, w.T1.Sub(o.T1), r)
				}
			}
		case timedOut:
			for k := range e.conns {
				o := byKey[[2]int{r.ID, k}]
				if o != nil && r.Op.Rep != "" && o.S1 != 0 && !e.busy(k, o.T1, r.T1) && o.T1.Add(time.Minute).Before(r.T1) {
					e.miss(tag, "Server.Ask timed out although connection #%d answered %v earlier: %s", k, r.T1.Sub(o.T1), r)
				}
			}
		default:
			e.miss(tag, "Server.Ask returned %q, %v which is not an addressed connection's answer (%d would answer): %s", r.Got.Body, r.Err, answers, r)
		}
	}
}

// ---- what each property's check generates and asserts ----

type concCfg struct {
	kinds   string // operation kinds by weight
	scripts string
	conns   int
	sys     bool
	ends    int // at most
	timeout int // of 10 calls
	long    bool
	full    bool // everything is connected and joined at first
	grow    bool
	disc    string // what Server.OnDisconnect does
	part    bool   // each namespace is changed by one goroutine
	refuse  bool   // callbacks refuse what the other side asks for
}

var concCfgs = map[string]concCfg{
	"C03":  {kinds: "emit*8 ask*2 look", scripts: "emit*3 ask", conns: 2, full: true},
	"C04":  {kinds: "ask*8 emit*2", scripts: "ask*3 emit", conns: 2, full: true, timeout: 2},
	"C05":  {kinds: "ask*8 connect join leave disconnect emit*2", scripts: "ask emit", conns: 2, ends: 2, timeout: 4, long: true, full: true},
	"C06":  {kinds: "connect*5 disconnect*5 emit*2 ask join leave", conns: 3, sys: true, part: true, refuse: true},
	"C06g": {kinds: "connect*6 join emit*2 ask", conns: 2, sys: true, grow: true},
	"C07":  {kinds: "connect*2 join*6 leave*5 leaveall disconnect emit*2", conns: 3, sys: true, part: true, refuse: true},
	"C07g": {kinds: "connect*2 join*6 emit*2 ask", conns: 2, sys: true, grow: true},
	"C09":  {kinds: "connect*2 disconnect*2 join*3 leave*3 leaveall emit*8 ask*4", conns: 3, sys: true, part: true, refuse: true},
	"C08":  {kinds: "connect*4 join*4 leave*3 disconnect*3 leaveall disconnectall emit", conns: 1, ends: 1, sys: true},
	"C10":  {kinds: "connect*3 join*3 emit*4 ask*2 leave disconnect close do", conns: 2, ends: 2, sys: true},
	"C11":  {kinds: "bc*8 emit ask", conns: 4, full: true},
	"C14":  {kinds: "sask*8 ask emit", conns: 4, timeout: 4, long: true, full: true},
	"C24":  {kinds: "emit*4 ask*4 connect*2 join*2 leave disconnect bc do*2", scripts: "emit*2 ask*3 connect*2 join*2 leave*2 disconnect*2 close bc look leaveall disconnectall", conns: 2, sys: true, ends: 1, full: true, disc: "emit bc close look"},
	"C12":  {kinds: "dial*8 reg*8 emit ask connect disconnect close bc", conns: 3, ends: 2, disc: "look emit"},
	"C27":  {kinds: "emit*4 ask*3 connect*2 join*2 leave disconnect bc*2 sask look*3 dial*2 reg*3 close leaveall disconnectall do", scripts: "emit*2 ask*3 connect*2 join*2 leave*2 disconnect*2 close bc look*2 leaveall disconnectall", conns: 3, sys: true, ends: 2, timeout: 2, disc: "emit bc look"},
	"C26":  {kinds: "connect*4 join*4 leave*3 disconnect*3 emit*2 ask leaveall", conns: 1, sys: true},
	"C26p": {kinds: "connect*4 join*4 leave*3 disconnect*2 emit*4 ask*2 leaveall", conns: 1, sys: true, part: true},
	"C26g": {kinds: "connect*5 join*5 emit*4 ask", conns: 1, sys: true, grow: true},
}

func weighted(s string) []string {
	var out []string
	for _, f := range strings.Fields(s) {
		n := 1
		if i := strings.IndexByte(f, '*'); i >= 0 {
			fmt.Sscan(f[i+1:], &n)
			f = f[:i]
		}
		for ; n > 0; n-- {
			out = append(out, f)
		}
	}
	return out
}

var (
	concDelay = []int{0, 0, 0, 0, 0, 0, 0, 0, 100, 100, 1000, 1000, 5000, 5000, 60000, 60000, 40000000}
	concRD    = []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 100, 100, 100, 3000, 3000, 3000, 50000, 50000, 50000, 25000000}
	longRD    = []int{0, 0, 1000, 100000, 5000000, 300000000}
	concTO    = []int{1, 500, 5000, 100000, 3000000}
)

func genConc(prop string) func(*rapid.T) concPlan {
	return func(t *rapid.T) concPlan {
		key := prop
		if prop == "C26" {
			key = rapid.SampledFrom([]string{"C26", "C26g", "C26p", "C26p"}).Draw(t, "mode")
		}
		if prop == "C06" || prop == "C07" {
			key = rapid.SampledFrom([]string{prop, prop, prop, prop + "g"}).Draw(t, "mode")
		}
		cfg := concCfgs[key]
		var p concPlan
		p.Sync = rapid.Bool().Draw(t, "sync")
		p.FireAll = rapid.IntRange(0, 5).Draw(t, "fireall") == 0
		maxNS := 2
		if cfg.part {
			maxNS, p.Part = 4, true
		}
		for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "ns")[:rapid.IntRange(1, maxNS).Draw(t, "nns")] {
			p.NS = append(p.NS, nsPool[i])
		}
		for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "rooms")[:rapid.IntRange(1, 2).Draw(t, "nr")] {
			p.Rooms = append(p.Rooms, roomPool[i])
		}
		block := rapid.Bool().Draw(t, "blockside") // whose callbacks may make blocking calls
		nc := rapid.IntRange(1, cfg.conns).Draw(t, "nc")
		for i := 0; i < nc; i++ {
			c := concConn{ID: rapid.SampledFrom([]string{"", "u1", "u2", "u;3"}).Draw(t, "id"), Up: genDir(t, "up"), Down: genDir(t, "down")}
			for n := range p.NS {
				if cfg.full && rapid.IntRange(0, 6).Draw(t, "on") > 0 || !cfg.full && rapid.Bool().Draw(t, "on") {
					c.On = append(c.On, n)
					for r := range p.Rooms {
						if cfg.full && rapid.IntRange(0, 3).Draw(t, "jn") > 0 || !cfg.full && rapid.IntRange(0, 2).Draw(t, "jn") == 0 {
							c.Joined = append(c.Joined, n*100+r)
						}
					}
				}
			}
			p.Conns = append(p.Conns, c)
		}
		bigOdds := 11
		if prop == "C03" {
			bigOdds = 4
		}
		nsc := 0
		if cfg.scripts != "" {
			nsc = rapid.IntRange(0, 3).Draw(t, "nscripts")
		}
		genOp := func(kinds []string, inCb bool) *rapid.Generator[cop] {
			return rapid.Custom(func(t *rapid.T) cop {
				o := cop{K: rapid.SampledFrom(kinds).Draw(t, "k"), D: rapid.SampledFrom(concDelay).Draw(t, "d"), N: rapid.IntRange(0, len(p.NS)-1).Draw(t, "n")}
				rd := concRD
				if cfg.long {
					rd = longRD
				}
				switch o.K {
				case "emit", "ask", "bc", "sask":
					o.R = rapid.IntRange(0, len(p.Rooms)).Draw(t, "r")
					o.Bin = rapid.Bool().Draw(t, "bin")
					o.RD = rapid.SampledFrom(rd).Draw(t, "rd")
					if rapid.IntRange(0, bigOdds).Draw(t, "isbig") == 0 {
						o.Big = rapid.SampledFrom([]int{300, 5000, 33000, 66000}).Draw(t, "big")
					}
					if nsc > 0 && o.K != "bc" && o.K != "sask" && rapid.IntRange(0, 2).Draw(t, "withsc") == 0 {
						o.Sc = rapid.IntRange(1, nsc).Draw(t, "sc")
					}
				case "join", "leave":
					o.R = rapid.IntRange(1, len(p.Rooms)).Draw(t, "r")
				}
				switch o.K {
				case "ask", "sask":
					o.Rep = rapid.SampledFrom([]string{"R", "R", "R", "E", "K", ""}).Draw(t, "rep")
				case "bc":
					if o.M = rapid.IntRange(1, 3).Draw(t, "m"); rapid.IntRange(0, 119).Draw(t, "isM") == 0 {
						o.M, o.Big = rapid.SampledFrom([]int{20, 130}).Draw(t, "manym"), 0
					}
					o.To = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "to")
					o.Ex = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ex")
				}
				switch o.K {
				case "dial":
					o.M = rapid.IntRange(0, 4).Draw(t, "how")
					o.Bin = rapid.Bool().Draw(t, "use")
					o.R = rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "up")
					o.RD = rapid.SampledFrom(concRD).Draw(t, "rd")
				case "do":
					o.M = rapid.IntRange(0, 3).Draw(t, "what")
					o.Bin = rapid.Bool().Draw(t, "async")
					o.To = rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "to")
				case "reg":
					o.M = rapid.IntRange(0, 3).Draw(t, "what")
				}
				if o.K == "sask" {
					o.To = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(t, "to")
				}
				switch o.K {
				case "ask", "sask", "connect", "join", "leave", "disconnect":
					if rapid.IntRange(0, 9).Draw(t, "hasto") < cfg.timeout || o.Rep == "" && (o.K == "ask" || o.K == "sask") || o.K == "sask" {
						o.TO = rapid.SampledFrom(concTO).Draw(t, "to")
						if o.K == "sask" {
							o.TO = rapid.SampledFrom([]int{500, 100000, 3000000, 1000000000}).Draw(t, "sto")
						}
						o.Can = rapid.IntRange(0, 3).Draw(t, "can") == 0
						if rapid.IntRange(0, 7).Draw(t, "was") == 0 {
							o.TO, o.Was = 1, rapid.SampledFrom([]int{1, 999999, 1000001, 60000000}).Draw(t, "ago")
						}
					}
				}
				return o
			})
		}
		kinds := weighted(cfg.kinds)
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "na"); i < n; i++ {
			a := concActor{C: rapid.IntRange(0, nc-1).Draw(t, "ac"), S: rapid.Bool().Draw(t, "as")}
			m := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 12}).Draw(t, "nops")
			a.Ops = rapid.SliceOfN(genOp(kinds, false), m, m).Draw(t, "ops")
			for j := range a.Ops {
				if o := &a.Ops[j]; cfg.part && o.K != "emit" && o.K != "ask" {
					o.N = i
					o.X = rapid.IntRange(0, 3).Draw(t, "x") == 0
					if i >= len(p.NS) {
						o.K, o.N, o.X = "emit", o.N%len(p.NS), false
					}
				}
			}
			p.Actors = append(p.Actors, a)
		}
		if prop == "C14" || prop == "C11" {
			p.Actors[0].S = true
		}
		blocking := map[string]bool{"ask": true, "sask": true, "connect": true, "join": true, "leave": true, "disconnect": true, "leaveall": true, "disconnectall": true}
		for i := 0; i < nsc; i++ {
			m := rapid.IntRange(1, 3).Draw(t, "nsops")
			p.Scripts = append(p.Scripts, rapid.SliceOfN(genOp(weighted(cfg.scripts), true), m, m).Draw(t, "script"))
		}
		// A script with blocking calls is only run by callbacks of one side.
		isBlocking := func(sc int) bool {
			for _, o := range p.Scripts[sc-1] {
				if blocking[o.K] {
					return true
				}
			}
			return false
		}
		if cfg.sys {
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nsys"); i < n; i++ {
				y := concSys{S: rapid.Bool().Draw(t, "ys"), N: rapid.IntRange(0, len(p.NS)-1).Draw(t, "yn"), E: rapid.IntRange(0, len(sysEvents)-1).Draw(t, "ye"), D: rapid.SampledFrom(concRD).Draw(t, "yd")}
				if nsc > 0 {
					y.Sc = rapid.IntRange(0, nsc).Draw(t, "ysc")
				}
				y.Refuse = cfg.refuse && rapid.IntRange(0, 2).Draw(t, "refuse") == 0
				// E: 0 Connect, 3 Join, 5 Leave decide an operation under way
				if y.Sc > 0 && isBlocking(y.Sc) && (y.S != block || y.E == 0 || y.E == 3 || y.E == 5) {
					y.Sc = 0
				}
				p.Sys = append(p.Sys, y)
			}
		}
		// the callback side of a message is the other side of its sender
		fix := func(ops []cop, sender bool, depth int) {
			for i := range ops {
				if ops[i].Sc > 0 && isBlocking(ops[i].Sc) && !sender != block {
					ops[i].Sc = 0
				}
			}
		}
		for i := range p.Actors {
			fix(p.Actors[i].Ops, p.Actors[i].S, 0)
		}
		for i := range p.Scripts {
			// a script may run on either side: only non-blocking scripts are nested
			for j := range p.Scripts[i] {
				if sc := p.Scripts[i][j].Sc; sc > 0 && isBlocking(sc) {
					p.Scripts[i][j].Sc = 0
				}
			}
		}
		if rapid.IntRange(0, 79).Draw(t, "heavy") == 0 {
			// many of them, in bounded time
			p.heavy()
			i := rapid.IntRange(0, len(p.Actors)-1).Draw(t, "which")
			n := rapid.SampledFrom([]int{20, 80, 300}).Draw(t, "times")
			if rapid.Bool().Draw(t, "wide") && !cfg.part {
				for j := 0; j < n/2 && j*len(p.Actors[i].Ops) < 400; j++ {
					p.Actors = append(p.Actors, p.Actors[i])
				}
			} else {
				ops := p.Actors[i].Ops
				for a := &p.Actors[i]; len(a.Ops) < n; {
					a.Ops = append(a.Ops, ops...)
				}
			}
		}
		if cfg.ends > 0 {
			for i, n := 0, rapid.IntRange(0, cfg.ends).Draw(t, "nends"); i < n; i++ {
				p.Ends = append(p.Ends, concEnd{C: rapid.IntRange(0, nc-1).Draw(t, "ec"), At: rapid.SampledFrom([]int{200000, 60000, 10000, 2000000, 1000, 50, 0}).Draw(t, "at"), How: rapid.IntRange(0, 5).Draw(t, "how")})
			}
		}
		if cfg.disc != "" {
			n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ndisc")
			p.Disc = rapid.SliceOfN(genOp(weighted(cfg.disc), true), n, n).Draw(t, "disc")
			for i := range p.Disc {
				if o := &p.Disc[i]; o.Sc > 0 && isBlocking(o.Sc) {
					o.Sc = 0
				}
			}
		}
		return p
	}
}

// heavy bounds the times of a plan that gets many operations.
func (p *concPlan) heavy() {
	lists := append([][]cop{}, p.Scripts...)
	for _, a := range p.Actors {
		lists = append(lists, a.Ops)
	}
	for _, ops := range lists {
		for i := range ops {
			o := &ops[i]
			o.D, o.RD, o.TO, o.M = min(o.D, 60000), min(o.RD, 50000), min(o.TO, 3000000), min(o.M, 4)
		}
	}
	for i := range p.Sys {
		p.Sys[i].D = min(p.Sys[i].D, 50000)
	}
}

func (e *conc) growOnly() bool {
	for _, a := range e.p.Actors {
		for _, o := range a.Ops {
			switch o.K {
			case "connect", "join", "emit", "ask", "sleep", "look":
			default:
				return false
			}
		}
	}
	return len(e.p.Ends) == 0 && len(e.p.Scripts) == 0
}

func (e *conc) check(prop string) {
	all := func(*opRec) bool { return true }
	switch prop {
	case "C03":
		e.checkStatic("conc")
		e.checkOrder("conc", all)
		e.checkOverlap("conc")
		e.checkKept("conc")
	case "C04":
		e.checkStatic("conc")
		e.checkAsks("conc", true)
		e.checkKept("conc")
	case "C05":
		e.checkContent("conc")
		e.checkEnds("conc")
		e.checkAsks("conc", false)
		e.probe("conc")
	case "C06", "C07", "C09":
		e.checkContent("conc")
		if e.p.Part {
			e.checkPartModel("conc", prop)
		} else {
			e.checkGrow("conc")
		}
		e.checkAgree("conc")
		if len(e.bad) == 0 {
			e.probe("conc")
		}
	case "C08":
		e.checkSpans("conc")
	case "C10":
		e.checkContent("conc")
		e.checkClosed("conc")
		e.checkSpans("conc")
	case "C11":
		e.checkStatic("conc")
		if e.p.Sync {
			e.checkOrder("conc", func(r *opRec) bool { return r.Op.K == "bc" })
		} else {
			e.checkOrderWithin("conc")
		}
	case "C12":
		e.checkRegistry("conc")
	case "C14":
		e.checkStatic("conc")
		e.checkServerAsk("conc")
		e.checkAsks("conc", true)
		e.checkEnds("conc")
		e.probe("conc")
	case "C24":
		e.checkContent("conc")
		e.probe("conc")
	case "C26":
		e.checkSpans("conc")
		e.checkContent("conc")
		if e.growOnly() {
			e.checkGrow("conc")
		}
		if e.growOnly() || e.p.Part {
			e.checkAgree("conc")
		}
		if e.p.Part {
			e.checkPart("conc")
		}
		if len(e.bad) == 0 {
			e.probe("conc")
		}
		if len(e.bad) == 0 {
			e.resync("conc")
		}
	}
}

// checkOrderWithin: the messages of one broadcast call arrive in their order.
func (e *conc) checkOrderWithin(tag string) {
	ids := e.byID()
	last := map[[2]int]int{}
	n := map[*opRec]int{}
	for _, r := range e.cbs {
		o := ids[r.ID]
		if !isUser(r) || o == nil || o.Op.K != "bc" {
			continue
		}
		if _, ok := n[o]; !ok {
			n[o] = len(n) + 1
		}
		k := [2]int{n[o], r.C}
		i := indexOf(o.IDs, r.ID) + 1
		if i < last[k] {
			e.miss(tag, "messages of one broadcast arrived in the wrong order at client #%d: %s", r.C, o)
		}
		last[k] = i
	}
}

// checkGrow: nothing disconnects or leaves, so what is connected stays and what is sent arrives.
func (e *conc) checkGrow(tag string) {
	got := map[[2]int]int{}
	for _, r := range e.cbs {
		if isUser(r) {
			got[[2]int{r.ID, r.C*2 + sideIdx(r.S)}]++
		}
	}
	type nk struct {
		c  int
		s  bool
		ns string
	}
	nscs := map[nk]*neffos.NSConn{}
	type rk struct {
		nk
		room string
	}
	rooms := map[rk]*neffos.Room{}
	done := map[nk]int64{} // when the side's own connect completed
	for _, r := range e.ops {
		k := nk{r.C, r.S, r.NS0}
		switch r.Op.K {
		case "connect":
			if r.Err != nil {
				e.miss(tag, "a connect failed without reason: %s", r)
				continue
			}
			if nscs[k] != nil && nscs[k] != r.NSC {
				e.miss(tag, "concurrent connects returned different namespace connections: %s", r)
			}
			nscs[k] = r.NSC
			if done[k] == 0 || r.S1 < done[k] {
				done[k] = r.S1
			}
		case "join":
			if r.Err != nil {
				e.miss(tag, "a join failed without reason: %s", r)
				continue
			}
			x := rk{k, r.Room0}
			if rooms[x] != nil && rooms[x] != r.Room {
				e.miss(tag, "concurrent joins returned different rooms: %s", r)
			}
			rooms[x] = r.Room
		case "emit":
			if n := got[[2]int{r.ID, e.peer(r)}]; r.Ok && n != 1 {
				e.miss(tag, "a message that was emitted successfully was handled %d times: %s", n, r)
			}
			if !r.Ok && r.Room0 == "" && (e.static(r.C, r.NS0, "") || done[k] != 0 && done[k] < r.S0) {
				e.miss(tag, "an emit into a connected namespace failed: %s", r)
			}
		case "ask":
			if e.static(r.C, r.NS0, r.Room0) || r.Room0 == "" && done[k] != 0 && done[k] < r.S0 {
				if !replyMatches(r, r.C, !r.S) && !(r.Op.TO > 0 && r.Err == ctxError(r.Op)) {
					e.miss(tag, "an ask into a connected namespace failed: %s", r)
				}
			}
		}
	}
	// one Connected (Joined) callback per side
	cnt := map[string]int{}
	for _, r := range e.cbs {
		if r.Event == neffos.OnNamespaceConnected || r.Event == neffos.OnRoomJoined {
			key := fmt.Sprintf("%s#%d %s %q/%q", sideName(r.S), r.C, r.Event, r.MNS, r.Room)
			if cnt[key]++; cnt[key] > 1 {
				e.miss(tag, "the callback ran %d times: %s", cnt[key], key)
			}
		}
	}
}

// checkPart: each namespace is changed by one goroutine, so nothing fails.
func (e *conc) checkPart(tag string) {
	for _, r := range e.ops {
		switch r.Op.K {
		case "connect", "disconnect", "join", "leave", "leaveall":
			if r.Err != nil {
				e.miss(tag, "an operation failed although no other one was made on its namespace: %s", r)
			}
		}
	}
}

// checkPartModel: each namespace of a connection is changed by one goroutine, so
// each operation's result and both sides' state follow from the refusals alone.
func (e *conc) checkPartModel(tag, prop string) {
	type key struct {
		c  int
		ns string
	}
	type step struct {
		r     *opRec
		on    bool
		rooms map[string]bool
	}
	str := func(on bool, rooms map[string]bool) nsState {
		var s []string
		for r := range rooms {
			s = append(s, fmt.Sprintf("%q", r))
		}
		sort.Strings(s)
		return nsState{on, strings.Join(s, " ")}
	}
	steps := map[key][]step{}
	for k, m := range e.p.Conns {
		for n, ns := range e.p.NS {
			st := step{rooms: map[string]bool{}}
			st.on = indexOf(m.On, n) >= 0
			for r := range e.p.Rooms {
				if st.on && indexOf(m.Joined, n*100+r) >= 0 {
					st.rooms[e.p.Rooms[r]] = true
				}
			}
			steps[key{k, ns}] = []step{st}
		}
	}
	decide := map[string]string{"connect": neffos.OnNamespaceConnect, "disconnect": neffos.OnNamespaceDisconnect, "join": neffos.OnRoomJoin, "leave": neffos.OnRoomLeave, "leaveall": neffos.OnRoomLeave}
	for _, r := range e.ops { // by S0
		ev := decide[r.Op.K]
		if ev == "" {
			continue
		}
		k := key{r.C, r.NS0}
		l := steps[k]
		now := l[len(l)-1]
		st := step{r: r, on: now.on, rooms: map[string]bool{}}
		for x := range now.rooms {
			st.rooms[x] = true
		}
		var no []*cbRec
		for _, c := range e.cbs {
			if c.C == r.C && c.S != r.S && c.NS == r.NS0 && c.Event == ev && c.Ret != nil && c.S0 > r.S0 && c.S0 < r.S1 &&
				(r.Op.K != "join" && r.Op.K != "leave" || c.Room == r.Room0) && (!r.S || r.Op.K == "connect" || r.Op.K == "join") {
				no = append(no, c)
			}
		}
		switch {
		case len(no) > 0 && (r.Err == nil || r.Err.Error() != no[len(no)-1].Ret.Error()):
			e.miss(tag, "an operation returned %v although the other side refused it: %s, %s returned %q", r.Err, r, no[len(no)-1], no[len(no)-1].Ret)
		case len(no) == 0 && r.Err != nil:
			e.miss(tag, "an operation failed although nobody refused it and no other one was made on its namespace: %s", r)
		}
		switch ok := r.Err == nil; r.Op.K {
		case "connect":
			if ok && !now.on {
				st.on, st.rooms = true, map[string]bool{}
			}
		case "disconnect":
			if ok {
				st.on, st.rooms = false, map[string]bool{}
			}
		case "join":
			if ok {
				st.rooms[r.Room0] = true
			}
		case "leave":
			if ok {
				delete(st.rooms, r.Room0)
			}
		case "leaveall":
			if ok {
				st.rooms = map[string]bool{}
			} else {
				for x := range st.rooms { // those left before the refused one
					for _, c := range e.cbs {
						if c.C == r.C && c.S == r.S && c.NS == r.NS0 && c.Event == neffos.OnRoomLeft && c.Room == x && c.S0 > r.S0 && c.S0 < r.S1 {
							delete(st.rooms, x)
						}
					}
				}
			}
		}
		steps[k] = append(l, st)
		want := str(st.on, st.rooms)
		for i, g := range r.After {
			if prop == "C07" && g != want || g.on != want.on {
				e.miss(tag, "after an operation the %s reports (connected %v, rooms %v), want (%v, %v): %s", sideName(i == 1), g.on, g.rooms, want.on, want.rooms, r)
			}
		}
	}
	for k, l := range steps {
		st := l[len(l)-1]
		want := str(st.on, st.rooms)
		m := e.conns[k.c]
		for i, g := range []nsState{stateOf(m.cc.Namespace(k.ns)), stateOf(m.sc.Namespace(k.ns))} {
			if prop == "C07" && g != want || g.on != want.on {
				e.miss(tag, "in the end the %s#%d reports namespace %q as (connected %v, rooms %v), want (%v, %v)", sideName(i == 1), k.c, k.ns, g.on, g.rooms, want.on, want.rooms)
			}
		}
	}
	if prop != "C09" {
		return
	}
	got := map[[2]int]int{}
	for _, c := range e.cbs {
		if !isUser(c) {
			continue
		}
		got[[2]int{c.ID, c.C*2 + sideIdx(c.S)}]++
		// only while connected (exact up to the instant)
		first, last := true, false
		for _, y := range e.cbs {
			if y.C == c.C && y.S == c.S && y.NSC == c.NSC {
				switch {
				case y.Event == neffos.OnNamespaceConnect && y.S0 > c.S0:
					first = false
				case y.Event == neffos.OnNamespaceDisconnect && y.Ret == nil && y.S1 != 0 && y.T1.Before(c.T0):
					last = true
				}
			}
		}
		if !first || last {
			e.miss(tag, "an event callback ran outside of its namespace's connection: %s", c)
		}
	}
	for _, r := range e.ops {
		if r.Op.K != "emit" && r.Op.K != "ask" {
			continue
		}
		n := got[[2]int{r.ID, e.peer(r)}]
		var st step
		sure := true
		for _, x := range steps[key{r.C, r.NS0}] {
			if x.r == nil || x.r.S1 < r.S0 {
				st = x
			} else if x.r.S0 < r.S1 {
				sure = false
			}
		}
		in := st.on && (r.Room0 == "" || st.rooms[r.Room0])
		switch {
		case r.Op.K == "emit" && !r.Ok && n != 0:
			e.miss(tag, "a refused message was handled %d times: %s", n, r)
		case !sure:
		case r.Op.K == "emit" && r.Ok != in:
			e.miss(tag, "emit reported %v, joined or connected: %v: %s", r.Ok, in, r)
		case r.Op.K == "ask" && !in && (r.Err == nil || n != 0):
			e.miss(tag, "a request into a namespace or room that is not connected returned %v and was handled %d times: %s", r.Err, n, r)
		case r.Op.K == "ask" && in && !replyMatches(r, r.C, !r.S) && !(r.Op.TO > 0 && r.Err == ctxError(r.Op)):
			e.miss(tag, "a request into a connected namespace failed: %s", r)
		}
	}
}

// resync: whatever happened, both sides can start over and agree.
func (e *conc) resync(tag string) {
	for k, m := range e.conns {
		if !e.alive(k) {
			continue
		}
		for s, c := range []*neffos.Conn{m.cc, m.sc} {
			var err error
			if !call(opLimit, func() { err = c.DisconnectAll(context.Background()) }) || err != nil {
				e.miss(tag, "connection #%d: DisconnectAll of the idle %s failed: %v", k, sideName(s == 1), err)
				return
			}
		}
		Settle(time.Minute)
		e.checkAgree(tag)
		for _, ns := range e.p.NS {
			if m.cc.Namespace(ns) != nil {
				e.miss(tag, "connection #%d: namespace %q is connected after both sides disconnected", k, ns)
			}
		}
		for i, ns := range e.p.NS {
			c := m.cc
			if i%2 == 1 {
				c = m.sc
			}
			if !call(opLimit, func() {
				x, err := c.Connect(context.Background(), ns)
				if err == nil {
					_, err = x.JoinRoom(context.Background(), e.roomName(1))
				}
				if err != nil {
					e.miss(tag, "connection #%d: reconnecting to %q failed: %v", k, ns, err)
				}
			}) {
				e.miss(tag, "connection #%d: reconnecting to %q does not return", k, ns)
				return
			}
		}
		Settle(time.Minute)
		want := fmt.Sprintf("connected, rooms %q", e.roomName(1))
		for _, ns := range e.p.NS {
			if a, b := roomNames(m.cc.Namespace(ns)), roomNames(m.sc.Namespace(ns)); a != want || b != want {
				e.miss(tag, "connection #%d, namespace %q after starting over: client is %s, server is %s", k, ns, a, b)
			}
		}
	}
}

func (e *conc) nontrivial(prop string) bool {
	users, sys := 0, 0
	for _, r := range e.cbs {
		if isUser(r) {
			users++
		} else {
			sys++
		}
	}
	overlap := 0
	for i, a := range e.ops {
		for _, b := range e.ops[i+1:] {
			if b.S0 < a.S1 && a.S0 < b.S1 {
				overlap++
			}
		}
	}
	switch prop {
	case "C12":
		return overlap > 0 && len(e.regs) > 0 && len(e.extras) > 0
	case "C06", "C07", "C08", "C10", "C26":
		return overlap > 0 && sys > 4
	case "C11":
		return users > 1
	default:
		return overlap > 0 && users > 1
	}
}

func (e *conc) label(res *kit.Result) {
	seen := map[string]bool{}
	for _, r := range e.ops {
		l := r.Op.K
		if r.InCb {
			l += "-in-callback"
		}
		if r.Op.K != "emit" && r.Err != nil {
			l += "-err"
		}
		seen[l] = true
	}
	for l := range seen {
		res.Label(l)
	}
}
