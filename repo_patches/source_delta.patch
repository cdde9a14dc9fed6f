From 37bede3d8166470337f4e8e9ada1d81c2039f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 01/58] fix: an error with an empty text is no longer decoded
 as success

---
 message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index 7967b85..5bbb386 100644
--- a/message.go
+++ b/message.go
@@ -456,13 +456,11 @@ func deserializeInput(b []byte, allowNativeMessages, shouldHandleOnlyNativeMessa
 	event = string(dts[3])
 	isError := bytes.Equal(dts[4], trueByte)
 	isNoOp = bytes.Equal(dts[5], trueByte)
-	if b := dts[6]; len(b) > 0 {
-		if isError {
-			errorText := string(b)
-			err = resolveError(errorText)
-		} else {
-			body = b // keep it like that.
-		}
+	if b := dts[6]; isError {
+		// an error with an empty text is still an error.
+		err = resolveError(string(b))
+	} else if len(b) > 0 {
+		body = b // keep it like that.
 	}
 
 	return
-- 
2.43.0


From af0fce6fd1700a682ec4835264eb4246bf541947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:05 +0000
Subject: [PATCH 02/58] fix: two asks made at the same time never share a wait
 token

---
 message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 5bbb386..b5e8d0f 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,9 +220,12 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+var waitCounter uint64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
-	wait := strconv.FormatInt(now, 10)
+	// the clock alone is not unique, asks may be made at the same time.
+	wait := strconv.FormatInt(now, 10) + "-" + strconv.FormatUint(atomic.AddUint64(&waitCounter, 1), 10)
 
 	if isClientConn {
 		wait = string(waitComesFromClientPrefix) + wait
-- 
2.43.0


From 7e81315c81ea3f51914d089e356b6974f1da0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 03/58] fix: a connect to a namespace is protected again after
 the first one

---
 process.go | 58 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/process.go b/process.go
index e36b1ed..55d8404 100644
--- a/process.go
+++ b/process.go
@@ -2,7 +2,6 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
 )
 
 // processes is a collection of `process`.
@@ -24,12 +23,14 @@ func (p *processes) get(name string) *process {
 	p.locker.RUnlock()
 
 	if entry == nil {
-		entry = &process{
-			finished: make(chan struct{}),
-		}
-
 		p.locker.Lock()
-		p.entries[name] = entry
+		// re-check, all callers of the same name must share the same entry.
+		if entry = p.entries[name]; entry == nil {
+			entry = &process{
+				finished: make(chan struct{}),
+			}
+			p.entries[name] = entry
+		}
 		p.locker.Unlock()
 	}
 
@@ -39,10 +40,12 @@ func (p *processes) get(name string) *process {
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
 // Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
 type process struct {
-	done uint32
-
 	finished chan struct{}
-	waiting  sync.WaitGroup
+
+	mu      sync.Mutex
+	running int           // the number of `Start` calls which are not `Done` yet.
+	waiting chan struct{} // closed when no longer running.
+	done    bool          // true when it was running and it's not anymore.
 }
 
 // Signal closes the channel.
@@ -60,29 +63,46 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done finishes one `Start`, when all are finished the `Wait` callers continue.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
 		return
 	}
 
-	p.waiting.Done()
+	if p.running--; p.running == 0 {
+		p.done = true
+		close(p.waiting)
+	}
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until every `Start` is `Done`, if any.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	p.mu.Lock()
+	running, waiting := p.running > 0, p.waiting
+	p.mu.Unlock()
+
+	if running {
+		<-waiting
 	}
-	p.waiting.Wait()
 }
 
-// Start makes future `Wait` calls to hold until `Done`.
+// Start makes future `Wait` calls to hold until `Done`, it can be started again after `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	if p.running == 0 {
+		p.done = false
+		p.waiting = make(chan struct{})
+	}
+	p.running++
+	p.mu.Unlock()
 }
 
 // isDone reports whether process is finished.
 func (p *process) isDone() bool {
-	return atomic.LoadUint32(&p.done) == 1
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.done
 }
-- 
2.43.0


From 720be430e724df9605c15d4fda26812afda2b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 04/58] fix: readiness is never missed by a concurrent waiter

---
 waiter_once.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..892ab12 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -1,6 +1,7 @@
 package neffos
 
 import (
+	"sync"
 	"sync/atomic"
 )
 
@@ -14,18 +15,17 @@ import (
 //
 // See `Server#ServeHTTP`, `Conn#Connect`, `Conn#Write`, `Conn#sendClientACK` and `Conn#handleACK`.
 type waiterOnce struct {
-	locked *uint32
-	ready  *uint32
-	err    error
-	// mu     sync.Mutex
+	once  sync.Once
+	ready *uint32
+	err   error
+	// closed once, when ready.
 	ch chan struct{}
 }
 
 func newWaiterOnce() *waiterOnce {
 	return &waiterOnce{
-		locked: new(uint32),
-		ready:  new(uint32),
-		ch:     make(chan struct{}),
+		ready: new(uint32),
+		ch:    make(chan struct{}),
 	}
 }
 
@@ -44,28 +44,20 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch
 	return w.err
 }
 
+// unwait marks it as ready, only the first call counts.
 func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
+	if w == nil {
 		return
 	}
 
-	w.err = err
-	// at any case mark it as ready for future `wait` call to exit immediately.
-	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
+	w.once.Do(func() {
+		w.err = err
+		// at any case mark it as ready for future `wait` call to exit immediately.
+		atomic.StoreUint32(w.ready, 1)
 		close(w.ch)
-	}
+	})
 }
-- 
2.43.0


From b2d5df49b604ef3843f70e4e167f5a77af9fcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 05/58] fix: an Ask gets its own reply and always returns

An Ask that overlapped with an event's callback took the next message of the
connection as its reply and read the socket next to the reader. An Ask of a
closed connection never returned and late replies were handled as events.
---
 conn.go       | 140 ++++++++++++++++++++++++++++++--------------------
 conn_inbox.go | 129 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 214 insertions(+), 55 deletions(-)
 create mode 100644 conn_inbox.go

diff --git a/conn.go b/conn.go
index 0f2d86f..5d26383 100644
--- a/conn.go
+++ b/conn.go
@@ -84,7 +84,8 @@ type Conn struct {
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
 
-	isInsideHandler *uint32
+	// the incoming payloads, see `startReader`.
+	inbox *connInbox
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -110,7 +111,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
-		isInsideHandler:                new(uint32),
+		inbox:                          newConnInbox(),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
@@ -319,12 +320,37 @@ func (c *Conn) startReader() {
 	}
 	defer c.Close()
 
+	go c.readPayloads()
+
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
+		in, ok := c.inbox.next()
+		if !ok {
+			if err := c.inbox.readErr(); err != nil {
+				c.readiness.unwait(err)
+			}
+			return
+		}
+
+		if !c.isAcknowledged() {
+			if !c.handleACK(in.typ, in.body) {
+				return
+			}
+			continue
+		}
+
+		c.HandlePayload(in.typ, in.body)
+	}
+}
+
+// readPayloads reads the socket, replies are given to their `Ask` immediately
+// and the rest of the payloads are handled by the `startReader`, one by one.
+func (c *Conn) readPayloads() {
+	for c.inbox.waitRead() {
 		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
 		if err != nil {
-			c.readiness.unwait(err)
+			c.inbox.fail(err)
 			return
 		}
 
@@ -332,19 +358,38 @@ func (c *Conn) startReader() {
 			continue
 		}
 
-		if !c.isAcknowledged() {
-			if !c.handleACK(msgTyp, b) {
-				return
-			}
+		if c.isAcknowledged() && c.hasWaitingMessages() && c.notifyAsk(c.DeserializeMessage(msgTyp, b)) {
 			continue
 		}
 
-		atomic.StoreUint32(c.isInsideHandler, 1)
-		c.HandlePayload(msgTyp, b)
-		atomic.StoreUint32(c.isInsideHandler, 0)
+		c.inbox.push(incomingPayload{msgTyp, b})
 	}
 }
 
+func (c *Conn) hasWaitingMessages() bool {
+	c.waitingMessagesMutex.RLock()
+	defer c.waitingMessagesMutex.RUnlock()
+	return len(c.waitingMessages) > 0
+}
+
+// notifyAsk gives the reply "msg" to the `Ask` which waits for it, if any.
+func (c *Conn) notifyAsk(msg Message) bool {
+	if msg.isInvalid || !msg.IsWait(c.IsClient()) {
+		return false
+	}
+
+	c.waitingMessagesMutex.Lock()
+	defer c.waitingMessagesMutex.Unlock()
+
+	ch, ok := c.waitingMessages[msg.wait]
+	if ok {
+		delete(c.waitingMessages, msg.wait)
+		ch <- msg // it's buffered and it's removed, so it's sent once and it doesn't block.
+	}
+
+	return ok
+}
+
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	switch typ := b[0]; typ {
 	case ackBinary:
@@ -439,14 +484,14 @@ func (c *Conn) handleMessage(msg Message) error {
 			}
 		}
 
-		c.waitingMessagesMutex.RLock()
-		ch, ok := c.waitingMessages[msg.wait]
-		c.waitingMessagesMutex.RUnlock()
-		if ok {
-			ch <- msg
+		if c.notifyAsk(msg) {
 			return nil
 		}
 
+		if (msg.wait[0] == waitComesFromClientPrefix) == isClient {
+			// a reply to an `Ask` of this side which is not waiting anymore.
+			return nil
+		}
 	}
 
 	switch msg.Event {
@@ -934,11 +979,6 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
-}
-
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -962,42 +1002,35 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	ch := make(chan Message, 1)
 	msg.wait = genWait(c.IsClient())
 
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[msg.wait] = ch
+	c.waitingMessagesMutex.Unlock()
 
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
-		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
-		c.waitingMessagesMutex.Unlock()
-	}
+	c.inbox.startAsk()
+	defer c.inbox.endAsk()
 
-	if !c.Write(msg) {
-		return Message{}, ErrWrite
+	err := ErrWrite
+	if c.Write(msg) {
+		select {
+		case receive := <-ch:
+			return receive, receive.Err
+		case <-ctx.Done():
+			if !c.IsClosed() {
+				err = ctx.Err()
+			}
+		case <-c.inbox.failed:
+		}
 	}
 
-	select {
-	case <-ctx.Done():
-		if c.IsClosed() {
-			return Message{}, ErrWrite
-		}
-		return Message{}, ctx.Err()
-	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
-		}
+	c.waitingMessagesMutex.Lock()
+	delete(c.waitingMessages, msg.wait)
+	c.waitingMessagesMutex.Unlock()
 
+	select {
+	case receive := <-ch: // received at the same time.
 		return receive, receive.Err
+	default:
+		return Message{}, err
 	}
 }
 
@@ -1006,6 +1039,8 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 // After this method call the `Conn` is not usable anymore, a new `Dial` call is required.
 func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
+		c.inbox.close() // unblocks any `Ask` and stops the handling of messages.
+
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
 			c.connectedNamespacesMutex.Lock()
@@ -1019,11 +1054,6 @@ func (c *Conn) Close() {
 			}
 			c.connectedNamespacesMutex.Unlock()
 
-			c.waitingMessagesMutex.Lock()
-			for wait := range c.waitingMessages {
-				delete(c.waitingMessages, wait)
-			}
-			c.waitingMessagesMutex.Unlock()
 		}
 
 		atomic.StoreUint32(c.acknowledged, 0)
diff --git a/conn_inbox.go b/conn_inbox.go
new file mode 100644
index 0000000..a53061e
--- /dev/null
+++ b/conn_inbox.go
@@ -0,0 +1,129 @@
+package neffos
+
+import (
+	"sync"
+)
+
+type incomingPayload struct {
+	typ  MessageType
+	body []byte
+}
+
+// connInbox sits between the reading of a connection's socket and the handling of its messages.
+// The messages are handled one by one and by order but
+// the reply of an `Ask` must be readable while a message is being handled,
+// otherwise an event's callback couldn't `Ask` the other side.
+//
+// The socket is read only when there is nothing left to handle or when an `Ask` waits for its reply.
+type connInbox struct {
+	mu     sync.Mutex
+	cond   *sync.Cond
+	queue  []incomingPayload
+	idle   bool  // true when the next payload is waited.
+	asks   int   // the number of asks that are waiting for reply.
+	err    error // the read error, the already queued payloads can be still handled.
+	closed bool
+
+	// closed when no more replies can be received.
+	failed chan struct{}
+}
+
+func newConnInbox() *connInbox {
+	i := &connInbox{failed: make(chan struct{})}
+	i.cond = sync.NewCond(&i.mu)
+	return i
+}
+
+// next waits for the next payload to be handled.
+func (i *connInbox) next() (incomingPayload, bool) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+
+	for !i.closed {
+		if len(i.queue) > 0 {
+			p := i.queue[0]
+			i.queue = i.queue[1:]
+			return p, true
+		}
+
+		if i.err != nil {
+			break
+		}
+
+		i.idle = true
+		i.cond.Broadcast()
+		i.cond.Wait()
+		i.idle = false
+	}
+
+	return incomingPayload{}, false
+}
+
+// push adds a payload to be handled after the rest of them.
+func (i *connInbox) push(p incomingPayload) {
+	i.mu.Lock()
+	i.queue = append(i.queue, p)
+	i.cond.Broadcast()
+	i.mu.Unlock()
+}
+
+// waitRead waits until the socket should be read, reports false when closed.
+func (i *connInbox) waitRead() bool {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+
+	for !i.closed {
+		if i.asks > 0 || (i.idle && len(i.queue) == 0) {
+			return true
+		}
+		i.cond.Wait()
+	}
+
+	return false
+}
+
+func (i *connInbox) startAsk() {
+	i.mu.Lock()
+	i.asks++
+	i.cond.Broadcast()
+	i.mu.Unlock()
+}
+
+func (i *connInbox) endAsk() {
+	i.mu.Lock()
+	i.asks--
+	i.mu.Unlock()
+}
+
+// fail sets the read error, the queued payloads can be still handled but there are no more replies.
+func (i *connInbox) fail(err error) {
+	i.mu.Lock()
+	if i.err == nil {
+		i.err = err
+		if !i.closed {
+			close(i.failed)
+		}
+	}
+	i.cond.Broadcast()
+	i.mu.Unlock()
+}
+
+func (i *connInbox) readErr() error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
+	return i.err
+}
+
+// close drops the queued payloads.
+func (i *connInbox) close() {
+	i.mu.Lock()
+	if !i.closed {
+		i.closed = true
+		if i.err == nil {
+			close(i.failed)
+		}
+		i.queue = nil
+	}
+	i.cond.Broadcast()
+	i.mu.Unlock()
+}
-- 
2.43.0


From ad28d54350033be4d0b0a60c4de76a3b363c28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:38 +0000
Subject: [PATCH 06/58] fix: late and repeated replies to a Server.Ask do not
 block the connection they came from

---
 conn.go   |  5 ++++-
 server.go | 12 +++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 5d26383..381acd4 100644
--- a/conn.go
+++ b/conn.go
@@ -479,7 +479,10 @@ func (c *Conn) handleMessage(msg Message) error {
 			ch, ok := c.server.waitingMessages[msg.wait]
 			c.server.waitingMessagesMutex.RUnlock()
 			if ok {
-				ch <- msg
+				select {
+				case ch <- msg:
+				default: // already replied by other connection.
+				}
 				return nil
 			}
 		}
diff --git a/server.go b/server.go
index 19363e3..d9810ff 100644
--- a/server.go
+++ b/server.go
@@ -557,21 +557,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1) // only the first reply matters.
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From 530f2e1e49958109031acedd0530483f1ee7c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 07/58] fix: a broadcast is neither lost nor repeated when
 broadcasts overlap

---
 broadcaster.go | 51 +++++++++++++++++++++++++-------------------------
 server.go      | 17 +++++++----------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..79f708f 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,51 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
 // next broadcast call.
+//
+// The broadcasts are linked to each other by order and
+// each connection follows them on its own pace, so none of them is missed or repeated.
 type broadcaster struct {
+	mu   sync.Mutex
+	next *broadcast
+}
+
+type broadcast struct {
 	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	next     *broadcast
+	// closed when "messages" and "next" are set.
+	done chan struct{}
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
-	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
-	}
+	return &broadcaster{next: &broadcast{done: make(chan struct{})}}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+// follow returns the next broadcast.
+func (b *broadcaster) follow() *broadcast {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.next
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	b.messages = msgs
+	current := b.next
+	b.next = &broadcast{done: make(chan struct{})}
+	current.messages, current.next = msgs, b.next
 	b.mu.Unlock()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	close(current.done)
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+func (b *broadcast) waitUntilClosed(closeCh <-chan struct{}) (ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
-		ok = true
+	case <-b.done:
+		return true
 	case <-closeCh:
+		return false
 	}
-
-	b.mu.Lock()
-	return
 }
diff --git a/server.go b/server.go
index d9810ff..e4c5885 100644
--- a/server.go
+++ b/server.go
@@ -336,10 +336,11 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
+		go func(c *Conn, next *broadcast) {
+			for s.waitMessages(c, next) {
+				next = next.next
 			}
-		}(c)
+		}(c, s.broadcaster.follow())
 	}
 
 	s.connect <- c
@@ -455,16 +456,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
-
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
+func (s *Server) waitMessages(c *Conn, next *broadcast) bool {
+	if !next.waitUntilClosed(c.closeCh) {
 		return false
 	}
 
-	return publishMessages(c, msgs)
+	return publishMessages(c, next.messages)
 }
 
 type stringerValue struct{ v string }
-- 
2.43.0


From 40b4d4ec04a98c50b7154fe9f61e1e5a2e775128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 08/58] fix: every message of a broadcast is delivered by its
 own receiver and sender

---
 server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index e4c5885..e1e1561 100644
--- a/server.go
+++ b/server.go
@@ -436,14 +436,14 @@ func (s *Server) Do(fn func(*Conn), async bool) {
 
 func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
-		if msg.from == c.ID() {
+		if msg.from != "" && msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From 068bf40826540a6e16a30138713c73ff4039d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 09/58] fix: Broadcast keeps the messages of its caller as they
 are

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index e1e1561..924803f 100644
--- a/server.go
+++ b/server.go
@@ -499,6 +499,9 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// the caller's slice should stay as it is, it may be used again
+	// before the messages are published.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
-- 
2.43.0


From 5beff4e543e6b72f321f79a747b207ed4a3114f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 10/58] fix: a connection that ends immediately is not
 registered after its disconnection

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 924803f..bd5195d 100644
--- a/server.go
+++ b/server.go
@@ -120,7 +120,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan []Message),
-- 
2.43.0


From e77ed34755389cfdb197d3868b96b29ce5114d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:22 +0000
Subject: [PATCH 11/58] fix: a StackExchange is notified for the disconnection
 of a refused connection too

---
 server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index bd5195d..727d042 100644
--- a/server.go
+++ b/server.go
@@ -180,10 +180,9 @@ func (s *Server) start() {
 				// println("disconnect...")
 				if s.OnDisconnect != nil {
 					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
+					if s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil) {
+						s.OnDisconnect(c)
 					}
-					s.OnDisconnect(c)
 				}
 
 				if s.usesStackExchange() {
-- 
2.43.0


From 955bb82ba4d254b640fa699b4b644be928b2a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:22 +0000
Subject: [PATCH 12/58] fix: Server.Close closes the upgrading connections and
 does not block its own loop

---
 server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 727d042..a474a06 100644
--- a/server.go
+++ b/server.go
@@ -208,9 +208,15 @@ func (s *Server) start() {
 // Close terminates the server and all of its connections, client connections are getting notified.
 func (s *Server) Close() {
 	if atomic.CompareAndSwapUint32(&s.closed, 0, 1) {
+		var conns []*Conn
 		s.Do(func(c *Conn) {
-			c.Close()
+			conns = append(conns, c)
 		}, false)
+
+		// the connections' event callbacks should be free to use the server.
+		for _, c := range conns {
+			c.Close()
+		}
 	}
 }
 
@@ -344,6 +350,12 @@ func (s *Server) Upgrade(
 
 	s.connect <- c
 
+	if atomic.LoadUint32(&s.closed) > 0 { // closed while upgrading.
+		c.readiness.unwait(errServerClosed)
+		c.Close()
+		return nil, errServerClosed
+	}
+
 	go c.startReader()
 
 	// Before `OnConnect` in order to be able
-- 
2.43.0


From ecd08bebc6c217b4fd09c077f524709d25dfe02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 13/58] fix: a client can not acknowledge itself and select its
 own connection ID

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 381acd4..3dee458 100644
--- a/conn.go
+++ b/conn.go
@@ -391,7 +391,12 @@ func (c *Conn) notifyAsk(msg Message) bool {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
+	typ := b[0]
+	if (typ == ackBinary) == c.IsClient() && (typ == ackBinary || typ == ackIDBinary || typ == ackNotOKBinary) {
+		typ = 0 // not a side's own signal, a client can't select its ID or accept itself.
+	}
+
+	switch typ {
 	case ackBinary:
 		// from client startup to server.
 		err := c.readiness.wait()
-- 
2.43.0


From 112cef66cf16fa2b4d51baa298cfa46dca892185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:01 +0000
Subject: [PATCH 14/58] fix: messages around the acknowledgement are neither
 lost nor reordered

---
 conn.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/conn.go b/conn.go
index 3dee458..e9948be 100644
--- a/conn.go
+++ b/conn.go
@@ -94,7 +94,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []incomingPayload
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -405,12 +405,16 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else because
+		// the client ignores any message before that.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
+
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
@@ -435,10 +439,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, incomingPayload{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -450,13 +451,11 @@ func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
 	defer c.queueMutex.Unlock()
 
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
-
-		delete(c.queue, msgTyp)
+	for _, in := range c.queue {
+		c.HandlePayload(in.typ, in.body)
 	}
+
+	c.queue = nil
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From e311244851ab8f2406ac3fa7268cdb65ad9f64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 15/58] fix: a refused connection is closed even if it was
 already in use

---
 conn.go        | 12 ++++++++++++
 server.go      |  9 +++++----
 waiter_once.go |  7 +++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index e9948be..33034f7 100644
--- a/conn.go
+++ b/conn.go
@@ -63,6 +63,8 @@ type Conn struct {
 	// ack and queue is available,
 	// see `Server#ServeHTTP.?OnConnect!=nil`.
 	readiness *waiterOnce
+	// more than 0 if the server refused this connection after its readiness, see `refuse`.
+	refused uint32
 
 	// maximum wait time allowed to read a message from the connection.
 	// Defaults to no timeout.
@@ -447,6 +449,16 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 
 }
 
+// refuse is called by the server when this connection is not accepted.
+func (c *Conn) refuse(err error) {
+	if !c.readiness.unwait(err) {
+		// messages were already sent to (or can be received by) the client,
+		// there is no one to send the error to, so close it.
+		atomic.StoreUint32(&c.refused, 1)
+		c.Close()
+	}
+}
+
 func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
 	defer c.queueMutex.Unlock()
diff --git a/server.go b/server.go
index a474a06..c81c673 100644
--- a/server.go
+++ b/server.go
@@ -180,7 +180,7 @@ func (s *Server) start() {
 				// println("disconnect...")
 				if s.OnDisconnect != nil {
 					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil) {
+					if s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil && atomic.LoadUint32(&c.refused) == 0) {
 						s.OnDisconnect(c)
 					}
 				}
@@ -362,7 +362,7 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			c.refuse(err)
 			return nil, err
 		}
 	}
@@ -395,8 +395,9 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
+			c.refuse(err)
+			// No need to disconnect here, connection's .Close will be called on readiness ch errored
+			// or it's called by the above if that was already passed.
 
 			// c.Close()
 			return nil, err
diff --git a/waiter_once.go b/waiter_once.go
index 892ab12..421701a 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -48,16 +48,19 @@ func (w *waiterOnce) wait() error {
 	return w.err
 }
 
-// unwait marks it as ready, only the first call counts.
-func (w *waiterOnce) unwait(err error) {
+// unwait marks it as ready, only the first call counts, reports whether it was that one.
+func (w *waiterOnce) unwait(err error) (first bool) {
 	if w == nil {
 		return
 	}
 
 	w.once.Do(func() {
+		first = true
 		w.err = err
 		// at any case mark it as ready for future `wait` call to exit immediately.
 		atomic.StoreUint32(w.ready, 1)
 		close(w.ch)
 	})
+
+	return
 }
-- 
2.43.0


From 9480bbf88cb11be17d0c11b0d81fe95daaba78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 16/58] fix: event callbacks fire without locks and once per
 connected namespace and joined room

---
 conn.go           | 128 ++++++++++++++++++++++++---------------
 conn_namespace.go | 149 ++++++++++++++++++++++++++++------------------
 conn_room.go      |   5 +-
 3 files changed, 174 insertions(+), 108 deletions(-)

diff --git a/conn.go b/conn.go
index 33034f7..c16dbd5 100644
--- a/conn.go
+++ b/conn.go
@@ -710,9 +710,14 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	// 	return ns, nil
 	// }
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	connected, added := c.addNamespace(ns)
+	if connected == nil {
+		return nil, ErrWrite
+	}
+
+	if !added {
+		return connected, nil
+	}
 
 	// println("we're connected")
 
@@ -752,13 +757,60 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	connected, added := c.addNamespace(ns)
+	if connected == nil {
+		return
+	}
 
 	c.writeEmptyReply(msg.wait)
 
-	c.notifyNamespaceConnected(ns, msg)
+	if added {
+		c.notifyNamespaceConnected(ns, msg)
+	}
+}
+
+// addNamespace marks the "ns" as connected and returns it, if "ns.namespace" is already connected
+// then it returns that one instead. Returns nil when the connection is closed.
+func (c *Conn) addNamespace(ns *NSConn) (connected *NSConn, added bool) {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if c.IsClosed() {
+		return nil, false
+	}
+
+	if connected = c.connectedNamespaces[ns.namespace]; connected != nil {
+		return connected, false
+	}
+
+	c.connectedNamespaces[ns.namespace] = ns
+	return ns, true
+}
+
+// removeNamespace reports whether the "ns" was connected, so its disconnection is reported once.
+func (c *Conn) removeNamespace(ns *NSConn) bool {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if c.connectedNamespaces[ns.namespace] != ns {
+		return false
+	}
+
+	delete(c.connectedNamespaces, ns.namespace)
+	return true
+}
+
+// namespaceConns returns a slice copy of the connected namespaces.
+func (c *Conn) namespaceConns() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	defer c.connectedNamespacesMutex.RUnlock()
+
+	nss := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		nss = append(nss, ns)
+	}
+
+	return nss
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
@@ -784,13 +836,10 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.namespaceConns() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && err != ErrBadNamespace {
 			return err
 		}
 	}
@@ -798,17 +847,8 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
-	}
-
-	ns := c.connectedNamespaces[msg.Namespace]
-
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
-	}
-
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		return ErrBadNamespace
 	}
@@ -822,14 +862,8 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 	// before namespace's deletion.
 	ns.forceLeaveAll(true)
 
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
-
-	delete(c.connectedNamespaces, msg.Namespace)
-
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
+	if !c.removeNamespace(ns) {
+		return nil
 	}
 
 	msg.IsLocal = true
@@ -856,13 +890,13 @@ func (c *Conn) replyDisconnect(msg Message) {
 		// before namespace's deletion.
 		ns.forceLeaveAll(false)
 
-		c.connectedNamespacesMutex.Lock()
-		delete(c.connectedNamespaces, msg.Namespace)
-		c.connectedNamespacesMutex.Unlock()
+		removed := c.removeNamespace(ns)
 
 		c.writeEmptyReply(msg.wait)
 
-		ns.events.fireEvent(ns, msg)
+		if removed {
+			ns.events.fireEvent(ns, msg)
+		}
 		return
 	}
 
@@ -876,11 +910,9 @@ func (c *Conn) replyDisconnect(msg Message) {
 
 	ns.forceLeaveAll(false)
 
-	c.connectedNamespacesMutex.Lock()
-	delete(c.connectedNamespaces, msg.Namespace)
-	c.connectedNamespacesMutex.Unlock()
-
-	c.notifyNamespaceDisconnect(ns, msg)
+	if c.removeNamespace(ns) {
+		c.notifyNamespaceDisconnect(ns, msg)
+	}
 
 	c.writeEmptyReply(msg.wait)
 }
@@ -1062,17 +1094,15 @@ func (c *Conn) Close() {
 
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
+			for _, ns := range c.namespaceConns() {
 				// leave rooms first with force and local property before remove the namespace completely.
 				ns.forceLeaveAll(true)
 
-				disconnectMsg.Namespace = ns.namespace
-				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+				if c.removeNamespace(ns) {
+					disconnectMsg.Namespace = ns.namespace
+					ns.events.fireEvent(ns, disconnectMsg)
+				}
 			}
-			c.connectedNamespacesMutex.Unlock()
-
 		}
 
 		atomic.StoreUint32(c.acknowledged, 0)
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..d03936c 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"reflect"
 	"sync"
+	"sync/atomic"
 )
 
 // NSConn describes a connection connected to a specific namespace,
@@ -24,6 +25,8 @@ type NSConn struct {
 	// Namespace(room(fire event)).
 	rooms      map[string]*Room
 	roomsMutex sync.RWMutex
+	// true when disconnected from the namespace, no room can be joined.
+	ended bool
 
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
@@ -129,13 +132,10 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && err != ErrBadRoom {
 			return err
 		}
 	}
@@ -143,24 +143,61 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 	return nil
 }
 
+// forceLeaveAll leaves from all rooms, no room can be joined after that.
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
 	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
+	ns.ended = true
+	ns.roomsMutex.Unlock()
 
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		ns.events.fireEvent(ns, leaveMsg)
-
-		delete(ns.rooms, room)
+	for _, room := range ns.Rooms() {
+		if !atomic.CompareAndSwapUint32(&room.forceLeft, 0, 1) {
+			continue
+		}
 
-		leaveMsg.Event = OnRoomLeft
+		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
+		if ns.removeRoom(room) {
+			leaveMsg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, leaveMsg)
+		}
+
 		leaveMsg.Event = OnRoomLeave
 	}
 }
 
+// addRoom marks the "room" as joined and returns it, if it's already joined
+// then it returns that one instead. Returns nil when the namespace is disconnected.
+func (ns *NSConn) addRoom(room *Room) (joined *Room, added bool) {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	if ns.ended {
+		return nil, false
+	}
+
+	if joined = ns.rooms[room.Name]; joined != nil {
+		return joined, false
+	}
+
+	ns.rooms[room.Name] = room
+	return room, true
+}
+
+// removeRoom reports whether the "room" was joined, so its leave is reported once.
+func (ns *NSConn) removeRoom(room *Room) bool {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	if ns.rooms[room.Name] != room {
+		return false
+	}
+
+	delete(ns.rooms, room.Name)
+	return true
+}
+
 // Disconnect method sends a disconnect signal to the remote side and fires the local `OnNamespaceDisconnect` event.
 func (ns *NSConn) Disconnect(ctx context.Context) error {
 	if ns == nil {
@@ -170,17 +207,22 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
 	ns.roomsMutex.RLock()
 	room, ok := ns.rooms[roomName]
+	ended := ns.ended
 	ns.roomsMutex.RUnlock()
 	if ok {
 		return room, nil
 	}
 
+	if ended {
+		return nil, ErrBadNamespace
+	}
+
 	joinMsg := Message{
 		Namespace: ns.namespace,
 		Room:      roomName,
@@ -198,13 +240,15 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		return nil, err
 	}
 
-	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
+	room, ok = ns.addRoom(newRoom(ns, roomName))
+	if room == nil {
+		return nil, ErrBadNamespace
+	}
 
-	joinMsg.Event = OnRoomJoined
-	ns.events.fireEvent(ns, joinMsg)
+	if ok {
+		joinMsg.Event = OnRoomJoined
+		ns.events.fireEvent(ns, joinMsg)
+	}
 	return room, nil
 }
 
@@ -223,31 +267,30 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.Conn.Write(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
+		room, added := ns.addRoom(newRoom(ns, msg.Room))
+		if room == nil {
+			msg.Err = ErrBadNamespace
+			ns.Conn.Write(msg)
+			return
+		}
+
+		if added {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
 	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
-	}
-	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
-	}
-
-	if !ok {
+	room := ns.Room(msg.Room)
+	if room == nil {
 		return ErrBadRoom
 	}
 
@@ -262,19 +305,11 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 		return err
 	}
 
-	if lock {
-		ns.roomsMutex.Lock()
-	}
-
-	delete(ns.rooms, msg.Room)
-
-	if lock {
-		ns.roomsMutex.Unlock()
+	if ns.removeRoom(room) {
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
 	}
 
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
-
 	return nil
 }
 
@@ -293,14 +328,14 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns.Conn.IsClient() {
 		ns.events.fireEvent(ns, msg)
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, msg.Room)
-		ns.roomsMutex.Unlock()
+		removed := ns.removeRoom(room)
 
 		ns.Conn.writeEmptyReply(msg.wait)
 
-		msg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, msg)
+		if removed {
+			msg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, msg)
+		}
 		return
 	}
 
@@ -312,12 +347,10 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		return
 	}
 
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
-
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
+	if ns.removeRoom(room) {
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
+	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
diff --git a/conn_room.go b/conn_room.go
index ee40486..9f88e64 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -11,6 +11,9 @@ type Room struct {
 	NSConn *NSConn
 
 	Name string
+
+	// 1 when it's leaving by force, see `NSConn.forceLeaveAll`.
+	forceLeft uint32
 }
 
 func newRoom(ns *NSConn, roomName string) *Room {
@@ -46,5 +49,5 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
 }
-- 
2.43.0


From edaa5489eea9c84a5c418dfc27936e72d7e1f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 17/58] fix: a request to a not connected namespace is answered
 with ErrBadNamespace

---
 conn.go           | 12 ++++++++++--
 conn_namespace.go |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index c16dbd5..8edc9a8 100644
--- a/conn.go
+++ b/conn.go
@@ -652,8 +652,9 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" && in.Err == nil {
+			c.writeErrorReply(in, ErrBadNamespace)
+		}
 		return nil, false
 	}
 
@@ -1008,6 +1009,13 @@ func (c *Conn) Write(msg Message) bool {
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
+// used to answer an `Ask` with an error even if the namespace is not connected.
+func (c *Conn) writeErrorReply(msg Message, err error) bool {
+	msg.Err = err
+	msg.FromExplicit = ""
+	return c.write(serializeMessage(msg), msg.SetBinary)
+}
+
 // used when `Ask` caller cares only for successful call and not the message, for performance reasons we just use raw bytes.
 func (c *Conn) writeEmptyReply(wait string) bool {
 	return c.write(genEmptyReplyToWait(wait), false)
diff --git a/conn_namespace.go b/conn_namespace.go
index d03936c..5b7e1c8 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -270,8 +270,7 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 
 		room, added := ns.addRoom(newRoom(ns, msg.Room))
 		if room == nil {
-			msg.Err = ErrBadNamespace
-			ns.Conn.Write(msg)
+			ns.Conn.writeErrorReply(msg, ErrBadNamespace)
 			return
 		}
 
-- 
2.43.0


From 6695cc9199cf707f62c53c327ad4eb95c5821699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 18/58] fix: server-side Connect respects its context and its
 limit while waiting for the acknowledgement

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 8edc9a8..1d62b2d 100644
--- a/conn.go
+++ b/conn.go
@@ -585,7 +585,11 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 				}
 			}
 
-			if t == 0 {
+			if ctx != nil && ctx.Err() != nil {
+				return nil, ctx.Err()
+			}
+
+			if t <= 0 {
 				// when maxSyncWaitDur passed,
 				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
 				if c.IsClosed() {
-- 
2.43.0


From d3f0f110ccd132e52abcfdc4924d33501358ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 19/58] fix: concurrent Increment and Decrement calls are not
 lost

---
 conn.go | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 1d62b2d..67096dd 100644
--- a/conn.go
+++ b/conn.go
@@ -220,23 +220,23 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
+	return c.addToInt(key, 1)
+}
 
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
+// addToInt reads and updates the value under the same lock, so no update is lost.
+func (c *Conn) addToInt(key string, n int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
 
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	// if does not exist or it's not an integer then it's overridden, starting from zero.
+	value, _ := c.store[key].(int)
+	value += n
+	c.store[key] = value
+	return value
 }
 
 // Decrement works like `Set` method.
@@ -253,22 +253,7 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
-	}
-	intValue--
-	c.Set(key, intValue)
-	return intValue
+	return c.addToInt(key, -1)
 }
 
 // WasReconnected reports whether the current connection is a result of a client-side reconnection.
-- 
2.43.0


From e4e6957c03feef1facf4a60ead62035981b0f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 20/58] fix: the local events of Room.Leave are marked as local

---
 conn_namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index 5b7e1c8..0472ee8 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -298,7 +298,7 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return err
 	}
 
-	// msg.IsLocal = true
+	msg.IsLocal = true
 	err = ns.events.fireEvent(ns, msg)
 	if err != nil {
 		return err
-- 
2.43.0


From 874806a5347d8ecb7d35ffa4d1dc1b1a0afee670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 21/58] fix: an action is completed before the handling of the
 messages that follow its reply

---
 conn.go           | 43 +++++++++++++++++++++++++++++++++++--------
 conn_namespace.go |  8 ++++++--
 process.go        | 11 +++++++++++
 3 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 67096dd..59b4478 100644
--- a/conn.go
+++ b/conn.go
@@ -85,12 +85,15 @@ type Conn struct {
 	// used to block certain actions until other action is finished,
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
+	// used to block the messages of a namespace, which came after
+	// the reply of a connect, disconnect, join or leave `Ask`, until that action is completed on this side.
+	completions *processes
 
 	// the incoming payloads, see `startReader`.
 	inbox *connInbox
 
 	// messages that this connection waits for a reply.
-	waitingMessages      map[string]chan Message
+	waitingMessages      map[string]waitingMessage
 	waitingMessagesMutex sync.RWMutex
 
 	allowNativeMessages            bool
@@ -105,6 +108,13 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+type waitingMessage struct {
+	ch chan Message
+	// if not nil then it starts when the message is accepted by the other side,
+	// before any next message is readen.
+	completion *process
+}
+
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -113,8 +123,9 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
+		completions:                    newProcesses(),
 		inbox:                          newConnInbox(),
-		waitingMessages:                make(map[string]chan Message),
+		waitingMessages:                make(map[string]waitingMessage),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
 		closed:                         new(uint32),
@@ -368,10 +379,13 @@ func (c *Conn) notifyAsk(msg Message) bool {
 	c.waitingMessagesMutex.Lock()
 	defer c.waitingMessagesMutex.Unlock()
 
-	ch, ok := c.waitingMessages[msg.wait]
+	w, ok := c.waitingMessages[msg.wait]
 	if ok {
 		delete(c.waitingMessages, msg.wait)
-		ch <- msg // it's buffered and it's removed, so it's sent once and it doesn't block.
+		if w.completion != nil && msg.Err == nil {
+			w.completion.Start()
+		}
+		w.ch <- msg // it's buffered and it's removed, so it's sent once and it doesn't block.
 	}
 
 	return ok
@@ -498,6 +512,8 @@ func (c *Conn) handleMessage(msg Message) error {
 		}
 	}
 
+	c.completions.wait(msg.Namespace)
+
 	switch msg.Event {
 	case OnNamespaceConnect:
 		c.replyConnect(msg)
@@ -634,7 +650,7 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
+	c.processes.wait(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
@@ -687,10 +703,12 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	}
 
 	// println("ask connect")
-	_, err = c.Ask(ctx, connectMessage) // waits for answer no matter if already connected on the other side.
+	completion := c.completions.get(namespace)
+	_, err = c.ask(ctx, connectMessage, completion) // waits for answer no matter if already connected on the other side.
 	if err != nil {
 		return nil, err
 	}
+	defer completion.Done()
 	// println("got connect")
 	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
 	// c.connectedNamespacesMutex.RLock()
@@ -843,10 +861,12 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 		return ErrBadNamespace
 	}
 
-	_, err := c.Ask(ctx, msg)
+	completion := c.completions.get(msg.Namespace)
+	_, err := c.ask(ctx, msg, completion)
 	if err != nil {
 		return err
 	}
+	defer completion.Done()
 
 	// if disconnect is allowed then leave rooms first with force property
 	// before namespace's deletion.
@@ -868,6 +888,8 @@ func (c *Conn) replyDisconnect(msg Message) {
 		return
 	}
 
+	c.processes.wait(msg.Namespace) // wait any `askConnect` process, see `tryNamespace`.
+
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		c.writeEmptyReply(msg.wait)
@@ -1027,6 +1049,11 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
+	return c.ask(ctx, msg, nil)
+}
+
+// ask is the `Ask` method, if it succeeds then the caller should call the "completion.Done".
+func (c *Conn) ask(ctx context.Context, msg Message, completion *process) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -1051,7 +1078,7 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(c.IsClient())
 
 	c.waitingMessagesMutex.Lock()
-	c.waitingMessages[msg.wait] = ch
+	c.waitingMessages[msg.wait] = waitingMessage{ch, completion}
 	c.waitingMessagesMutex.Unlock()
 
 	c.inbox.startAsk()
diff --git a/conn_namespace.go b/conn_namespace.go
index 0472ee8..f39cff7 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -230,10 +230,12 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		IsLocal:   true,
 	}
 
-	_, err := ns.Conn.Ask(ctx, joinMsg)
+	completion := ns.Conn.completions.get(ns.namespace)
+	_, err := ns.Conn.ask(ctx, joinMsg, completion)
 	if err != nil {
 		return nil, err
 	}
+	defer completion.Done()
 
 	err = ns.events.fireEvent(ns, joinMsg)
 	if err != nil {
@@ -293,10 +295,12 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return ErrBadRoom
 	}
 
-	_, err := ns.Conn.Ask(ctx, msg)
+	completion := ns.Conn.completions.get(ns.namespace)
+	_, err := ns.Conn.ask(ctx, msg, completion)
 	if err != nil {
 		return err
 	}
+	defer completion.Done()
 
 	msg.IsLocal = true
 	err = ns.events.fireEvent(ns, msg)
diff --git a/process.go b/process.go
index 55d8404..77db62e 100644
--- a/process.go
+++ b/process.go
@@ -37,6 +37,17 @@ func (p *processes) get(name string) *process {
 	return entry
 }
 
+// wait waits for the process "name" to finish, if it's running.
+func (p *processes) wait(name string) {
+	p.locker.RLock()
+	entry := p.entries[name]
+	p.locker.RUnlock()
+
+	if entry != nil {
+		entry.Wait()
+	}
+}
+
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
 // Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
 type process struct {
-- 
2.43.0


From 804805c7afae4ccf3fc81d3a97eb6cc7fdeb5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:09 +0000
Subject: [PATCH 22/58] fix: a sync Broadcast from a callback fired by the
 server's loop does not block for ever

---
 server.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/server.go b/server.go
index c81c673..1be8b65 100644
--- a/server.go
+++ b/server.go
@@ -76,11 +76,13 @@ type Server struct {
 
 	count uint64
 
-	connections       map[*Conn]struct{}
-	connect           chan *Conn
-	disconnect        chan *Conn
-	actions           chan action
-	broadcastMessages chan []Message
+	connections map[*Conn]struct{}
+	connect     chan *Conn
+	disconnect  chan *Conn
+	actions     chan action
+	// the messages of the `SyncBroadcaster` that are not published yet, by order.
+	broadcastQueue    [][]Message
+	broadcastMessages chan struct{}
 
 	broadcaster *broadcaster
 
@@ -123,7 +125,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
-		broadcastMessages: make(chan []Message),
+		broadcastMessages: make(chan struct{}, 1),
 		broadcaster:       newBroadcaster(),
 		waitingMessages:   make(map[string]chan Message),
 		IDGenerator:       DefaultIDGenerator,
@@ -189,9 +191,16 @@ func (s *Server) start() {
 					s.StackExchange.OnDisconnect(c)
 				}
 			}
-		case msgs := <-s.broadcastMessages:
-			for c := range s.connections {
-				publishMessages(c, msgs)
+		case <-s.broadcastMessages:
+			s.mu.Lock()
+			queue := s.broadcastQueue
+			s.broadcastQueue = nil
+			s.mu.Unlock()
+
+			for _, msgs := range queue {
+				for c := range s.connections {
+					publishMessages(c, msgs)
+				}
 			}
 		case act := <-s.actions:
 			for c := range s.connections {
@@ -542,7 +551,16 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 	}
 
 	if s.SyncBroadcaster {
-		s.broadcastMessages <- msgs
+		// do not wait for the server's loop, it may be the one
+		// which fired the event's callback that broadcasts.
+		s.mu.Lock()
+		s.broadcastQueue = append(s.broadcastQueue, msgs)
+		s.mu.Unlock()
+
+		select {
+		case s.broadcastMessages <- struct{}{}:
+		default: // already signaled.
+		}
 		return
 	}
 
-- 
2.43.0


From 124545cdc54c10cd5e7cdb6344788c774ee698a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:51 +0000
Subject: [PATCH 23/58] fix: a server that is closed right after its creation
 stays closed

---
 server.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server.go b/server.go
index 1be8b65..4cff38d 100644
--- a/server.go
+++ b/server.go
@@ -167,8 +167,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
-- 
2.43.0


From 4beaa111183037e2931ec0a51d524b075ce33770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:51 +0000
Subject: [PATCH 24/58] fix: LeaveAll and DisconnectAll return the ErrBadRoom
 and ErrBadNamespace of the event callbacks

---
 conn.go           | 3 ++-
 conn_namespace.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 59b4478..98a4594 100644
--- a/conn.go
+++ b/conn.go
@@ -847,7 +847,8 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
 	for _, ns := range c.namespaceConns() {
 		disconnectMsg.Namespace = ns.namespace
-		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && err != ErrBadNamespace {
+		// it's fine if it's disconnected by someone else meanwhile.
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && (err != ErrBadNamespace || c.Namespace(ns.namespace) == ns) {
 			return err
 		}
 	}
diff --git a/conn_namespace.go b/conn_namespace.go
index f39cff7..592a9e6 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -135,7 +135,8 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
 	for _, room := range ns.Rooms() {
 		leaveMsg.Room = room.Name
-		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && err != ErrBadRoom {
+		// it's fine if it's left by someone else meanwhile.
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && (err != ErrBadRoom || ns.Room(room.Name) == room) {
 			return err
 		}
 	}
-- 
2.43.0


From ffcff44a85b1492c345e99cd64ec087c08af7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:01 +0000
Subject: [PATCH 25/58] fix: a reply is sent even if its namespace or room was
 left meanwhile

---
 conn.go           | 6 ++++++
 conn_namespace.go | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 98a4594..c2a6116 100644
--- a/conn.go
+++ b/conn.go
@@ -538,6 +538,12 @@ func (c *Conn) handleMessage(msg Message) error {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
+			if !c.canWrite(msg) && msg.wait != "" && !c.IsClosed() {
+				// the remote side waits for a reply, even if the namespace
+				// was disconnected or the room was left meanwhile.
+				c.writeErrorReply(msg, err)
+				return err
+			}
 			c.Write(msg)
 			return err
 		}
diff --git a/conn_namespace.go b/conn_namespace.go
index 592a9e6..9f0fd91 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -266,8 +266,7 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	if !ok {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
-			msg.Err = err
-			ns.Conn.Write(msg)
+			ns.Conn.writeErrorReply(msg, err)
 			return
 		}
 
@@ -346,8 +345,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	// server-side, check for error on the local event first.
 	err := ns.events.fireEvent(ns, msg)
 	if err != nil {
-		msg.Err = err
-		ns.Conn.Write(msg)
+		ns.Conn.writeErrorReply(msg, err)
 		return
 	}
 
-- 
2.43.0


From 13a38fb49a46217114742bf19e83c04d287c3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 26/58] fix: both sides can connect to the same namespace at
 the same time

---
 conn.go       | 19 +++++++++++++++++--
 conn_inbox.go | 30 ++++++++++++++++++++++++++++++
 process.go    | 21 +++++++++++++++++++--
 3 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index c2a6116..02dbdfa 100644
--- a/conn.go
+++ b/conn.go
@@ -655,8 +655,23 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 	return ns
 }
 
+// waitConnecting waits for any running `askConnect` of that "namespace".
+// If the remote side asks to connect too then its previous messages are not related to that process
+// and it can't reply before its own request is handled, so it doesn't wait for it.
+func (c *Conn) waitConnecting(namespace string) {
+	running := c.processes.running(namespace)
+	if running == nil {
+		return
+	}
+
+	c.inbox.waitFor(running, func(in incomingPayload) bool {
+		msg := c.DeserializeMessage(in.typ, in.body)
+		return msg.isConnect() && msg.wait != "" && !msg.isNoOp && msg.Namespace == namespace
+	})
+}
+
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.processes.wait(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
+	c.waitConnecting(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
@@ -895,7 +910,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 		return
 	}
 
-	c.processes.wait(msg.Namespace) // wait any `askConnect` process, see `tryNamespace`.
+	c.waitConnecting(msg.Namespace) // wait any `askConnect` process, see `tryNamespace`.
 
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
diff --git a/conn_inbox.go b/conn_inbox.go
index a53061e..2f4e1ad 100644
--- a/conn_inbox.go
+++ b/conn_inbox.go
@@ -23,6 +23,7 @@ type connInbox struct {
 	asks   int   // the number of asks that are waiting for reply.
 	err    error // the read error, the already queued payloads can be still handled.
 	closed bool
+	pushed chan struct{} // closed on the next push, see `waitFor`.
 
 	// closed when no more replies can be received.
 	failed chan struct{}
@@ -63,10 +64,39 @@ func (i *connInbox) next() (incomingPayload, bool) {
 func (i *connInbox) push(p incomingPayload) {
 	i.mu.Lock()
 	i.queue = append(i.queue, p)
+	if i.pushed != nil {
+		close(i.pushed)
+		i.pushed = nil
+	}
 	i.cond.Broadcast()
 	i.mu.Unlock()
 }
 
+// waitFor waits for the "done" or for a queued payload that satisfies the "match",
+// it should be called by the one who calls the `next`.
+func (i *connInbox) waitFor(done <-chan struct{}, match func(incomingPayload) bool) {
+	for n := 0; ; {
+		i.mu.Lock()
+		for ; n < len(i.queue); n++ {
+			if match(i.queue[n]) {
+				i.mu.Unlock()
+				return
+			}
+		}
+		if i.pushed == nil {
+			i.pushed = make(chan struct{})
+		}
+		pushed := i.pushed
+		i.mu.Unlock()
+
+		select {
+		case <-done:
+			return
+		case <-pushed:
+		}
+	}
+}
+
 // waitRead waits until the socket should be read, reports false when closed.
 func (i *connInbox) waitRead() bool {
 	i.mu.Lock()
diff --git a/process.go b/process.go
index 77db62e..54892c5 100644
--- a/process.go
+++ b/process.go
@@ -39,13 +39,30 @@ func (p *processes) get(name string) *process {
 
 // wait waits for the process "name" to finish, if it's running.
 func (p *processes) wait(name string) {
+	if running := p.running(name); running != nil {
+		<-running
+	}
+}
+
+// running returns a channel which is closed when the process "name" is finished
+// or nil if it's not running.
+func (p *processes) running(name string) <-chan struct{} {
 	p.locker.RLock()
 	entry := p.entries[name]
 	p.locker.RUnlock()
 
-	if entry != nil {
-		entry.Wait()
+	if entry == nil {
+		return nil
+	}
+
+	entry.mu.Lock()
+	defer entry.mu.Unlock()
+
+	if entry.running == 0 {
+		return nil
 	}
+
+	return entry.waiting
 }
 
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
-- 
2.43.0


From 1d71edf53b4bd1d507e0e0b91c9e783c5c667a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 27/58] fix: the handling of messages does not wait for a
 connect which waits for it

---
 conn.go           | 36 ++++++++----------------------------
 conn_inbox.go     | 30 ------------------------------
 conn_namespace.go | 10 ++++++++++
 process.go        | 23 +++--------------------
 4 files changed, 21 insertions(+), 78 deletions(-)

diff --git a/conn.go b/conn.go
index 02dbdfa..8670193 100644
--- a/conn.go
+++ b/conn.go
@@ -82,9 +82,6 @@ type Conn struct {
 	// the connection's current connected namespace.
 	connectedNamespaces      map[string]*NSConn
 	connectedNamespacesMutex sync.RWMutex
-	// used to block certain actions until other action is finished,
-	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
-	processes *processes
 	// used to block the messages of a namespace, which came after
 	// the reply of a connect, disconnect, join or leave `Ask`, until that action is completed on this side.
 	completions *processes
@@ -122,7 +119,6 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		readiness:                      newWaiterOnce(),
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
-		processes:                      newProcesses(),
 		completions:                    newProcesses(),
 		inbox:                          newConnInbox(),
 		waitingMessages:                make(map[string]waitingMessage),
@@ -655,24 +651,7 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 	return ns
 }
 
-// waitConnecting waits for any running `askConnect` of that "namespace".
-// If the remote side asks to connect too then its previous messages are not related to that process
-// and it can't reply before its own request is handled, so it doesn't wait for it.
-func (c *Conn) waitConnecting(namespace string) {
-	running := c.processes.running(namespace)
-	if running == nil {
-		return
-	}
-
-	c.inbox.waitFor(running, func(in incomingPayload) bool {
-		msg := c.DeserializeMessage(in.typ, in.body)
-		return msg.isConnect() && msg.wait != "" && !msg.isNoOp && msg.Namespace == namespace
-	})
-}
-
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.waitConnecting(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
-
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
@@ -692,11 +671,6 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 // or
 // client#Connect
 func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error) {
-	p := c.processes.get(namespace)
-	p.Start() // block any `tryNamespace` with that "namespace".
-
-	defer p.Done() // unblock.
-
 	//	defer c.processes.get(namespace).run()()
 	// for !atomic.CompareAndSwapUint32(c.isConnectingProcess, 0, 1) {
 	// }
@@ -786,12 +760,14 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
+	ns.announced = make(chan struct{})
 	connected, added := c.addNamespace(ns)
 	if connected == nil {
 		return
 	}
 
 	c.writeEmptyReply(msg.wait)
+	close(ns.announced)
 
 	if added {
 		c.notifyNamespaceConnected(ns, msg)
@@ -910,8 +886,6 @@ func (c *Conn) replyDisconnect(msg Message) {
 		return
 	}
 
-	c.waitConnecting(msg.Namespace) // wait any `askConnect` process, see `tryNamespace`.
-
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		c.writeEmptyReply(msg.wait)
@@ -979,6 +953,10 @@ func (c *Conn) canWrite(msg Message) bool {
 		c.readiness.unwait(nil)
 	}
 
+	if msg.isDisconnect() {
+		c.Namespace(msg.Namespace).waitAnnounced()
+	}
+
 	if !msg.isConnect() && !msg.isDisconnect() {
 		if !msg.locked {
 			c.connectedNamespacesMutex.RLock()
@@ -994,6 +972,8 @@ func (c *Conn) canWrite(msg Message) bool {
 			return false
 		}
 
+		ns.waitAnnounced()
+
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
 			if !msg.locked {
 				ns.roomsMutex.RLock()
diff --git a/conn_inbox.go b/conn_inbox.go
index 2f4e1ad..a53061e 100644
--- a/conn_inbox.go
+++ b/conn_inbox.go
@@ -23,7 +23,6 @@ type connInbox struct {
 	asks   int   // the number of asks that are waiting for reply.
 	err    error // the read error, the already queued payloads can be still handled.
 	closed bool
-	pushed chan struct{} // closed on the next push, see `waitFor`.
 
 	// closed when no more replies can be received.
 	failed chan struct{}
@@ -64,39 +63,10 @@ func (i *connInbox) next() (incomingPayload, bool) {
 func (i *connInbox) push(p incomingPayload) {
 	i.mu.Lock()
 	i.queue = append(i.queue, p)
-	if i.pushed != nil {
-		close(i.pushed)
-		i.pushed = nil
-	}
 	i.cond.Broadcast()
 	i.mu.Unlock()
 }
 
-// waitFor waits for the "done" or for a queued payload that satisfies the "match",
-// it should be called by the one who calls the `next`.
-func (i *connInbox) waitFor(done <-chan struct{}, match func(incomingPayload) bool) {
-	for n := 0; ; {
-		i.mu.Lock()
-		for ; n < len(i.queue); n++ {
-			if match(i.queue[n]) {
-				i.mu.Unlock()
-				return
-			}
-		}
-		if i.pushed == nil {
-			i.pushed = make(chan struct{})
-		}
-		pushed := i.pushed
-		i.mu.Unlock()
-
-		select {
-		case <-done:
-			return
-		case <-pushed:
-		}
-	}
-}
-
 // waitRead waits until the socket should be read, reports false when closed.
 func (i *connInbox) waitRead() bool {
 	i.mu.Lock()
diff --git a/conn_namespace.go b/conn_namespace.go
index 9f0fd91..f21dd6b 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -28,6 +28,10 @@ type NSConn struct {
 	// true when disconnected from the namespace, no room can be joined.
 	ended bool
 
+	// closed when the remote side, which asked to connect, has been told that it's connected,
+	// nothing can be sent to this namespace before that. Nil if this side asked to connect.
+	announced chan struct{}
+
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
 	value reflect.Value
@@ -42,6 +46,12 @@ func newNSConn(c *Conn, namespace string, events Events) *NSConn {
 	}
 }
 
+func (ns *NSConn) waitAnnounced() {
+	if ns != nil && ns.announced != nil {
+		<-ns.announced
+	}
+}
+
 // String method simply returns the Conn's ID().
 // Useful method to this connected to a namespace connection to be passed on `Server#Broadcast` method
 // to exclude itself from the broadcasted message's receivers.
diff --git a/process.go b/process.go
index 54892c5..4e1c5a6 100644
--- a/process.go
+++ b/process.go
@@ -39,34 +39,17 @@ func (p *processes) get(name string) *process {
 
 // wait waits for the process "name" to finish, if it's running.
 func (p *processes) wait(name string) {
-	if running := p.running(name); running != nil {
-		<-running
-	}
-}
-
-// running returns a channel which is closed when the process "name" is finished
-// or nil if it's not running.
-func (p *processes) running(name string) <-chan struct{} {
 	p.locker.RLock()
 	entry := p.entries[name]
 	p.locker.RUnlock()
 
-	if entry == nil {
-		return nil
-	}
-
-	entry.mu.Lock()
-	defer entry.mu.Unlock()
-
-	if entry.running == 0 {
-		return nil
+	if entry != nil {
+		entry.Wait()
 	}
-
-	return entry.waiting
 }
 
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
-// Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
+// Take for example the `Conn#handleMessage` which waits for `Conn#askConnect` to finish on the specific namespace.
 type process struct {
 	finished chan struct{}
 
-- 
2.43.0


From 57e1464d389526dd6d84ca96eac5824e5cb1d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:25 +0000
Subject: [PATCH 28/58] fix: a broadcast that does not reach a connection does
 not accept it

---
 conn.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 8670193..0bca6c8 100644
--- a/conn.go
+++ b/conn.go
@@ -948,11 +948,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if msg.isDisconnect() {
 		c.Namespace(msg.Namespace).waitAnnounced()
 	}
@@ -1007,6 +1002,11 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
-- 
2.43.0


From 954d10f2b46ce9f33ff033790271540a2d4ef73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 29/58] fix: the excluded sender of a broadcast can have any
 connection ID when a StackExchange is used

---
 message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index b5e8d0f..10200e7 100644
--- a/message.go
+++ b/message.go
@@ -288,7 +288,7 @@ func serializeMessage(msg Message) (out []byte) {
 				panic("msg.wait and msg.FromExplicit cannot work together")
 			}
 
-			msg.wait = msg.FromExplicit
+			msg.wait = escape(msg.FromExplicit)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
@@ -346,7 +346,7 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 
 	fromExplicit := ""
 	if isServerConnID(wait) {
-		fromExplicit = wait
+		fromExplicit = unescape(wait)
 		wait = ""
 	}
 
-- 
2.43.0


From 8644e7242eda93c167b9a4ea028cf0115f9e4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:15 +0000
Subject: [PATCH 30/58] fix: Server.Ask gets its reply when a StackExchange is
 used

---
 message.go | 5 ++++-
 server.go  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index 10200e7..d58683e 100644
--- a/message.go
+++ b/message.go
@@ -246,7 +246,7 @@ func genWaitStackExchange(wait string) string {
 	// This is the second special character.
 	// If found, it is removed on the deserialization
 	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -289,6 +289,9 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = escape(msg.FromExplicit)
+		} else if msg.FromStackExchange {
+			// the reply should be passed to the stackexchange too.
+			msg.wait = genWaitStackExchange(msg.wait)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
diff --git a/server.go b/server.go
index 4cff38d..0eb5e72 100644
--- a/server.go
+++ b/server.go
@@ -581,7 +581,7 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(false)
 
 	if s.usesStackExchange() {
-		msg.wait = genWaitStackExchange(msg.wait)
+		msg.FromStackExchange = true
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-- 
2.43.0


From e39d1d3cee80cf9129f9bf6448f5b3680a968bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:14 +0000
Subject: [PATCH 31/58] fix: a broadcast excludes a connection by its ID when a
 StackExchange is used too

---
 conn.go    |  6 +++---
 message.go | 14 +++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 0bca6c8..9372352 100644
--- a/conn.go
+++ b/conn.go
@@ -998,7 +998,7 @@ func (c *Conn) canWrite(msg Message) bool {
 	// don't write if explicit "from" field is set
 	// to this server's instance client connection ~~~but give a chance to Publish
 	// it to other instances with the same conn ID, if any~~~.
-	if c.Is(msg.FromExplicit) {
+	if c.Is(msg.FromExplicit) || (msg.from != "" && msg.from == c.ID()) {
 		return false
 	}
 
@@ -1018,14 +1018,14 @@ func (c *Conn) Write(msg Message) bool {
 		return false
 	}
 
-	msg.FromExplicit = ""
+	msg.FromExplicit, msg.from = "", ""
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
 // used to answer an `Ask` with an error even if the namespace is not connected.
 func (c *Conn) writeErrorReply(msg Message, err error) bool {
 	msg.Err = err
-	msg.FromExplicit = ""
+	msg.FromExplicit, msg.from = "", ""
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
diff --git a/message.go b/message.go
index d58683e..0623b6b 100644
--- a/message.go
+++ b/message.go
@@ -278,6 +278,9 @@ func unescape(s string) string {
 	return strings.Replace(s, messageFieldSeparatorReplacement, messageSeparatorString, -1)
 }
 
+// It is serialized as the first parameter, like the `FromExplicit`, followed by the `Message.from`.
+const fromIDPrefix = "neffos(0x)"
+
 func serializeMessage(msg Message) (out []byte) {
 	if msg.IsNative && msg.wait == "" {
 		out = msg.Body
@@ -289,6 +292,8 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = escape(msg.FromExplicit)
+		} else if msg.from != "" {
+			msg.wait = fromIDPrefix + escape(msg.from)
 		} else if msg.FromStackExchange {
 			// the reply should be passed to the stackexchange too.
 			msg.wait = genWaitStackExchange(msg.wait)
@@ -347,8 +352,11 @@ func serializeOutput(wait, namespace, room, event string,
 func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shouldHandleOnlyNativeMessages bool) Message {
 	wait, namespace, room, event, body, isNoOp, isInvalid, err := deserializeInput(b, allowNativeMessages, shouldHandleOnlyNativeMessages)
 
-	fromExplicit := ""
-	if isServerConnID(wait) {
+	from, fromExplicit := "", ""
+	if strings.HasPrefix(wait, fromIDPrefix) {
+		from = unescape(wait[len(fromIDPrefix):])
+		wait = ""
+	} else if isServerConnID(wait) {
 		fromExplicit = unescape(wait)
 		wait = ""
 	}
@@ -370,7 +378,7 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		isError:           err != nil,
 		isNoOp:            isNoOp,
 		isInvalid:         isInvalid,
-		from:              "",
+		from:              from,
 		FromExplicit:      fromExplicit,
 		FromStackExchange: fromStackExchange,
 		To:                "",
-- 
2.43.0


From 4ba6d75281c3f0da91f58b5e8125a8301b99d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:14 +0000
Subject: [PATCH 32/58] fix: the next StackExchange is asked with the message
 of the Ask

---
 stackexchange.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange.go b/stackexchange.go
index c355e91..e94b284 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	response, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		response, err = s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return response, err
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-- 
2.43.0


From ce608d72a06ac5549643603304fc7947b5aec445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:18 +0000
Subject: [PATCH 33/58] fix: a connection is closed when a write of it times
 out

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 9372352..2481276 100644
--- a/conn.go
+++ b/conn.go
@@ -934,7 +934,7 @@ func (c *Conn) write(b []byte, binary bool) bool {
 	}
 
 	if err != nil {
-		if IsCloseError(err) {
+		if IsDisconnectError(err) {
 			c.Close()
 		}
 		return false
-- 
2.43.0


From 54733be96310fb870a5eb17724f7230e66a76785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:31 +0000
Subject: [PATCH 34/58] fix: the IsZero method of a struct handler's field is
 called only if it is a func() bool

---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 153a5dc..c90bd52 100644
--- a/reflect.go
+++ b/reflect.go
@@ -27,7 +27,7 @@ func isZero(v reflect.Value) bool {
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool {
 				return zero
 			}
 
@@ -35,7 +35,7 @@ func isZero(v reflect.Value) bool {
 			// no needed check but:
 			if method.IsValid() && !method.IsNil() {
 				// it shouldn't panic here.
-				zero = method.Call(nil)[0].Interface().(bool)
+				zero = method.Call(nil)[0].Bool()
 			}
 		}
 
-- 
2.43.0


From 5cda20fc2d89f39255384f8c6586081da8580a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:31 +0000
Subject: [PATCH 35/58] fix: a dynamic struct handler can have unexported
 fields

---
 reflect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index c90bd52..bf48dad 100644
--- a/reflect.go
+++ b/reflect.go
@@ -27,7 +27,8 @@ func isZero(v reflect.Value) bool {
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool {
+			// Same if it can't be called because the value comes from an unexported field.
+			if !ok || !v.CanInterface() || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool {
 				return zero
 			}
 
@@ -81,6 +82,11 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	v = reflect.Indirect(v)
 
 	visitFields(v.Type(), func(f reflect.StructField) bool {
+		if f.PkgPath != "" {
+			// unexported, can't be set.
+			return false
+		}
+
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
 		if !isZero(fieldValue) {
-- 
2.43.0


From 38f42712fc7e1cfd612505d1fda1023b54bec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:31 +0000
Subject: [PATCH 36/58] fix: a struct handler's namespace can come from the
 Namespace field of an embedded struct

---
 reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index bf48dad..4dca1ad 100644
--- a/reflect.go
+++ b/reflect.go
@@ -129,7 +129,7 @@ func resolveStructNamespace(v reflect.Value) (string, bool) {
 	v = reflect.Indirect(v)
 	if f, ok := typ.FieldByNameFunc(func(s string) bool { return s == "Namespace" }); ok {
 		if f.Type.Kind() == reflect.String {
-			namespace := v.Field(f.Index[0]).String()
+			namespace := v.FieldByIndex(f.Index).String()
 			Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
 				return dargs{namespace, nameOf(typ), f.Name}
 			})
-- 
2.43.0


From a24df236ed46acd7003ca75516c9962d456c3ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:59 +0000
Subject: [PATCH 37/58] fix: a nil embedded pointer does not give a struct
 handler's namespace

---
 reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 4dca1ad..723c2b5 100644
--- a/reflect.go
+++ b/reflect.go
@@ -128,8 +128,9 @@ func resolveStructNamespace(v reflect.Value) (string, bool) {
 	typ = indirectType(typ)
 	v = reflect.Indirect(v)
 	if f, ok := typ.FieldByNameFunc(func(s string) bool { return s == "Namespace" }); ok {
-		if f.Type.Kind() == reflect.String {
-			namespace := v.FieldByIndex(f.Index).String()
+		// err: it's a field of a nil embedded pointer.
+		if fieldValue, err := v.FieldByIndexErr(f.Index); err == nil && f.Type.Kind() == reflect.String {
+			namespace := fieldValue.String()
 			Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
 				return dargs{namespace, nameOf(typ), f.Name}
 			})
-- 
2.43.0


From eda0ed95f1144cb429f6342495524de0053c8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 38/58] fix: more than one dynamic structs can handle the same
 namespace

---
 conn_namespace.go |  5 ++---
 reflect.go        | 35 ++++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index f21dd6b..b12676d 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -2,7 +2,6 @@ package neffos
 
 import (
 	"context"
-	"reflect"
 	"sync"
 	"sync/atomic"
 )
@@ -32,9 +31,9 @@ type NSConn struct {
 	// nothing can be sent to this namespace before that. Nil if this side asked to connect.
 	announced chan struct{}
 
-	// value is just a temporarily value.
+	// values are just temporarily values.
 	// Storage across event callbacks for this namespace.
-	value reflect.Value
+	values sync.Map
 }
 
 func newNSConn(c *Conn, namespace string, events Events) *NSConn {
diff --git a/reflect.go b/reflect.go
index 723c2b5..6f5cc6d 100644
--- a/reflect.go
+++ b/reflect.go
@@ -180,7 +180,7 @@ func isArgOf(fnType reflect.Type, argType reflect.Type) bool {
 	return false
 }
 
-func makeEventFromMethod(v reflect.Value, method reflect.Method, eventMatcher EventMatcherFunc) (eventName string, cb MessageHandlerFunc) {
+func makeEventFromMethod(v reflect.Value, method reflect.Method, eventMatcher EventMatcherFunc, instanceOf func(*NSConn) reflect.Value) (eventName string, cb MessageHandlerFunc) {
 	eventName = method.Name
 
 	// if method looks like a system event, i.e
@@ -212,7 +212,7 @@ func makeEventFromMethod(v reflect.Value, method reflect.Method, eventMatcher Ev
 		// the NSConn exists on the "controller" itself which is set dynamically.
 		cb = func(c *NSConn, msg Message) error {
 			// load an existing instance which contains the same "c".
-			return c.value.Method(method.Index).Interface().(func(Message) error)(msg)
+			return instanceOf(c).Method(method.Index).Interface().(func(Message) error)(msg)
 		}
 	}
 
@@ -241,6 +241,20 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 	nsConnFieldIndex := getFieldIndex(typ, nsConnType)
 	msgHandlerType := makeMessageHandlerFuncType(typ, nsConnFieldIndex)
 
+	// newInstance makes and stores the instance of a dynamic struct for the rest of the events inside
+	// the "c" namespace of that specific connection.
+	var newInstance func(c *NSConn) reflect.Value
+	// the "events" of more than one dynamic structs may be joined under the same namespace,
+	// so each one of them has its own instance.
+	key := new(reflect.Value)
+	instanceOf := func(c *NSConn) reflect.Value {
+		if value, ok := c.values.Load(key); ok {
+			return value.(reflect.Value)
+		}
+
+		return newInstance(c)
+	}
+
 	for i, n := 0, typ.NumMethod(); i < n; i++ {
 		method := typ.Method(i)
 
@@ -248,7 +262,7 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			continue
 		}
 
-		eventName, cb := makeEventFromMethod(v, method, eventMatcher)
+		eventName, cb := makeEventFromMethod(v, method, eventMatcher, instanceOf)
 		if cb == nil {
 			continue
 		}
@@ -287,9 +301,7 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			}
 		}
 
-		cb, hasNamespaceConnect := events[OnNamespaceConnect]
-
-		events[OnNamespaceConnect] = func(c *NSConn, msg Message) error {
+		newInstance = func(c *NSConn) reflect.Value {
 			cachePtr := injector(typ, c)
 			cacheElem := cachePtr.Elem()
 
@@ -301,9 +313,14 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 				cacheElem.Field(findex).Set(fvalue)
 			}
 
-			// Store it for the rest of the events inside
-			// this namespace of that specific connection.
-			c.value = cachePtr
+			value, _ := c.values.LoadOrStore(key, cachePtr)
+			return value.(reflect.Value)
+		}
+
+		cb, hasNamespaceConnect := events[OnNamespaceConnect]
+
+		events[OnNamespaceConnect] = func(c *NSConn, msg Message) error {
+			instanceOf(c)
 
 			if hasNamespaceConnect {
 				return cb(c, msg)
-- 
2.43.0


From 36b0b0142a2bfaac32e0cd44e3d706aeba29110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 39/58] fix: the gobwas socket does not write a pong inside of
 a message

---
 gobwas/socket.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..845dbd1 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,9 +33,17 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	// the replies to the control frames are written while
+	// other goroutines may write messages.
+	s.controlHandler = wsutil.ControlFrameHandler(controlWriter{s}, state)
+
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +52,22 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	return s
+}
+
+// controlWriter writes a whole control frame at once, never inside of a message's frame.
+type controlWriter struct {
+	s *Socket
+}
+
+func (w controlWriter) Write(b []byte) (int, error) {
+	w.s.mu.Lock()
+	defer w.s.mu.Unlock()
+
+	return w.s.UnderlyingConn.Write(b)
 }
 
 // NetConn returns the underline net connection.
-- 
2.43.0


From 7fd013dcbc60cbc47f182775e5dd00825fe54738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:17 +0000
Subject: [PATCH 40/58] fix: the gobwas client does not lose the frames that
 come with the handshake response

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..4c60126 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, buffered, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		s := newSocket(underline, nil, true)
+		if buffered != nil {
+			// the server's first frames came together with its handshake response.
+			s.reader.Source = buffered
+		}
+
+		return s, nil
 	}
 }
-- 
2.43.0


From 60b3e521cac12a9627ae617f425729d2611bcb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 41/58] fix: the gobwas socket can answer a ping after the
 write timeout of its last message

---
 gobwas/socket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index 845dbd1..faa1a70 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -159,6 +159,10 @@ func (s *Socket) write(body []byte, op gobwas.OpCode, timeout time.Duration) err
 
 	// println("write: " + string(body))
 	err := wsutil.WriteMessage(s.UnderlyingConn, s.state, op, body)
+	if timeout > 0 {
+		// it's not for the later replies to the control frames.
+		s.UnderlyingConn.SetWriteDeadline(time.Time{})
+	}
 	s.mu.Unlock()
 
 	return err
-- 
2.43.0


From a9fd4b88f84bdf00aba692c319bd09a47f237b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:16 +0000
Subject: [PATCH 42/58] fix: a timed out write of a gorilla socket is reported
 as a timeout

---
 gorilla/socket.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..3099e02 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,13 +72,23 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
-	s.mu.Unlock()
+	if err != nil {
+		// the gorilla websocket hides the network's timeout error behind an error type of its own,
+		// give back what the `neffos.IsTimeoutError` expects, so the connection can be closed.
+		if _, ok := err.(*net.OpError); !ok {
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+				err = &net.OpError{Op: "write", Net: "websocket", Err: netErr}
+			}
+		}
+	}
 
 	return err
 }
-- 
2.43.0


From 3ed9c9f48453ffc5f83768b01371445e82e75b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:36 +0000
Subject: [PATCH 43/58] fix: a StackExchange is subscribed to a namespace
 before its connect is answered

---
 conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 2481276..8223205 100644
--- a/conn.go
+++ b/conn.go
@@ -729,6 +729,7 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 
 	// c.sendConfirmation(reply.wait)
 
+	c.subscribeNamespace(ns)
 	c.notifyNamespaceConnected(ns, connectMessage)
 	return ns, nil
 }
@@ -766,6 +767,12 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
+	if added {
+		// before the remote side gets to know that it's connected,
+		// it should not miss any message that is published from now on.
+		c.subscribeNamespace(ns)
+	}
+
 	c.writeEmptyReply(msg.wait)
 	close(ns.announced)
 
@@ -818,15 +825,17 @@ func (c *Conn) namespaceConns() []*NSConn {
 	return nss
 }
 
-func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
-	connectMsg.Event = OnNamespaceConnected
-	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-
+func (c *Conn) subscribeNamespace(ns *NSConn) {
 	if !c.IsClient() && c.server.usesStackExchange() {
 		c.server.StackExchange.Subscribe(c, ns.namespace)
 	}
 }
 
+func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
+	connectMsg.Event = OnNamespaceConnected
+	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
+}
+
 func (c *Conn) notifyNamespaceDisconnect(_ *NSConn, disconnectMsg Message) {
 	if !c.IsClient() && c.server.usesStackExchange() {
 		c.server.StackExchange.Unsubscribe(c, disconnectMsg.Namespace)
-- 
2.43.0


From e62f2e09d76af06219284309e5b02258af0c8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 44/58] fix: the redis stackexchange uses its password and
 timeout to discover a cluster

---
 stackexchange/redis/stackexchange_redis.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..d3a2153 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -103,7 +103,12 @@ func NewStackExchange(cfg Config, channel string) (*StackExchange, error) {
 	var connFunc radix.ConnFunc
 
 	if len(cfg.Clusters) > 0 {
-		cluster, err := radix.NewCluster(cfg.Clusters)
+		// the same dial options (e.g. password) should be used to discover the cluster too.
+		cluster, err := radix.NewCluster(cfg.Clusters, radix.ClusterPoolFunc(func(network, addr string) (radix.Client, error) {
+			return radix.NewPool(network, addr, 4, radix.PoolConnFunc(func(network, addr string) (radix.Conn, error) {
+				return radix.Dial(network, addr, dialOptions...)
+			}))
+		}))
 		if err != nil {
 			// maybe an
 			// ERR This instance has cluster support disabled
-- 
2.43.0


From be3b77c4bf069fd15b9eeac9cd9f905d99ba3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:43 +0000
Subject: [PATCH 45/58] fix: a connection ID can be the name of a namespace
 with the redis stackexchange

---
 stackexchange/redis/stackexchange_redis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index d3a2153..6573ba6 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -188,7 +188,7 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.channel + "." + connID + "."
+		return exc.channel + ".conn." + connID + "."
 	}
 
 	if namespace == "" && room != "" {
@@ -196,7 +196,8 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 		panic("namespace cannot be empty when sending to a namespace's room")
 	}
 
-	return exc.channel + "." + namespace + "."
+	// different than the connection's one, an ID can be the same with the name of a namespace.
+	return exc.channel + ".ns." + namespace + "."
 }
 
 // OnConnect prepares the connection redis subscriber
-- 
2.43.0


From 2ec9963207251cca98c52942a636cbcdff1945d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:57 +0000
Subject: [PATCH 46/58] fix: namespaces and connection IDs are not patterns for
 the redis stackexchange

---
 stackexchange/redis/stackexchange_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 6573ba6..7e4baa7 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -162,7 +162,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.subscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
-				sub.pubSub.PSubscribe(sub.msgCh, channel)
+				sub.pubSub.Subscribe(sub.msgCh, channel)
 				// neffos.Debugf("[%s] subscribed to [%s] for namespace [%s]", m.conn.ID(), channel, m.namespace)
 				//	} else {
 				// neffos.Debugf("[%s] tried to subscribe to [%s] namespace before 'OnConnect.addSubscriber'!", m.conn.ID(), m.namespace)
@@ -171,7 +171,7 @@ func (exc *StackExchange) run() {
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", channel)
-				sub.pubSub.PUnsubscribe(sub.msgCh, channel)
+				sub.pubSub.Unsubscribe(sub.msgCh, channel)
 			}
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
@@ -223,7 +223,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 		msgCh:  redisMsgCh,
 	}
 	selfChannel := exc.getChannel("", "", c.ID())
-	pubSub.PSubscribe(redisMsgCh, selfChannel)
+	pubSub.Subscribe(redisMsgCh, selfChannel)
 
 	exc.addSubscriber <- s
 
-- 
2.43.0


From 567e88c8d8a5b9feba1dc4ce35314d8d906c517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 47/58] fix: the redis stackexchange's Ask returns even if
 there are more than one replies

---
 stackexchange/redis/stackexchange_redis.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 7e4baa7..8bbeb48 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -264,7 +264,16 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	if err != nil {
 		return
 	}
-	defer sub.Close()
+	defer func() {
+		// more than one connection may reply, their replies should not block the close.
+		go func() {
+			for range msgCh {
+			}
+		}()
+
+		sub.Close()
+		close(msgCh)
+	}()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 43241e1d030959c00b27f4c8a95c4b4518b4c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:35 +0000
Subject: [PATCH 48/58] fix: the redis stackexchange is subscribed when
 Subscribe returns

---
 stackexchange/redis/stackexchange_redis.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 8bbeb48..47efc26 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -57,11 +57,13 @@ type (
 	subscribeAction struct {
 		conn      *neffos.Conn
 		namespace string
+		done      chan struct{}
 	}
 
 	unsubscribeAction struct {
 		conn      *neffos.Conn
 		namespace string
+		done      chan struct{}
 	}
 
 	closeAction struct {
@@ -167,12 +169,14 @@ func (exc *StackExchange) run() {
 				//	} else {
 				// neffos.Debugf("[%s] tried to subscribe to [%s] namespace before 'OnConnect.addSubscriber'!", m.conn.ID(), m.namespace)
 			}
+			close(m.done)
 		case m := <-exc.unsubscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", channel)
 				sub.pubSub.Unsubscribe(sub.msgCh, channel)
 			}
+			close(m.done)
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
@@ -299,19 +303,25 @@ func (exc *StackExchange) NotifyAsk(msg neffos.Message, token string) error {
 // Subscribe subscribes to a specific namespace,
 // it's called automatically on neffos namespace connected.
 func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
+	done := make(chan struct{})
 	exc.subscribe <- subscribeAction{
 		conn:      c,
 		namespace: namespace,
+		done:      done,
 	}
+	<-done // wait for redis, the next published message should be received.
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
 // it's called automatically on neffos namespace disconnect.
 func (exc *StackExchange) Unsubscribe(c *neffos.Conn, namespace string) {
+	done := make(chan struct{})
 	exc.unsubscribe <- unsubscribeAction{
 		conn:      c,
 		namespace: namespace,
+		done:      done,
 	}
+	<-done // wait for redis, the next published message should not be received.
 }
 
 // OnDisconnect terminates the connection's subscriber that
-- 
2.43.0


From ed76267ad8fff19ede27233f980bc1b65a2c3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 49/58] fix: a client that is slow or still connecting does not
 block the redis stackexchange

---
 stackexchange/redis/stackexchange_redis.go | 50 ++++++++++++++++++----
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 47efc26..3a7dd4b 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -204,22 +204,54 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	return exc.channel + ".ns." + namespace + "."
 }
 
-// OnConnect prepares the connection redis subscriber
-// and subscribes to itself for direct neffos messages.
-// It's called automatically after the neffos server's OnConnect (if any)
-// on incoming client connections.
-func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
-	redisMsgCh := make(chan radix.PubSubMessage)
+// forward sends the redis messages to the client in their order.
+// It never stops to receive from the "redisMsgCh", even if the client is slow or
+// it's still connecting to a namespace, otherwise the subscriber could not be modified meanwhile.
+func forward(c *neffos.Conn, redisMsgCh <-chan radix.PubSubMessage) {
+	sendCh := make(chan []byte)
+	defer close(sendCh)
+
 	go func() {
-		for redisMsg := range redisMsgCh {
-			// neffos.Debugf("[%s] send to client: [%s]", c.ID(), string(redisMsg.Message))
-			msg := c.DeserializeMessage(neffos.TextMessage, redisMsg.Message)
+		for b := range sendCh {
+			// neffos.Debugf("[%s] send to client: [%s]", c.ID(), string(b))
+			msg := c.DeserializeMessage(neffos.TextMessage, b)
 			msg.FromStackExchange = true
 
 			c.Write(msg)
 		}
 	}()
 
+	var queue [][]byte
+	for {
+		var (
+			nextCh chan<- []byte
+			next   []byte
+		)
+
+		if len(queue) > 0 {
+			nextCh, next = sendCh, queue[0]
+		}
+
+		select {
+		case redisMsg, ok := <-redisMsgCh:
+			if !ok {
+				return
+			}
+			queue = append(queue, redisMsg.Message)
+		case nextCh <- next:
+			queue = queue[1:]
+		}
+	}
+}
+
+// OnConnect prepares the connection redis subscriber
+// and subscribes to itself for direct neffos messages.
+// It's called automatically after the neffos server's OnConnect (if any)
+// on incoming client connections.
+func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
+	redisMsgCh := make(chan radix.PubSubMessage)
+	go forward(c, redisMsgCh)
+
 	pubSub := radix.PersistentPubSub("", "", exc.connFunc)
 	s := &subscriber{
 		conn:   c,
-- 
2.43.0


From 51e17952ee76af1b6895621d54411b710cbb8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 50/58] fix: the redis channel of a namespace keeps its name

---
 stackexchange/redis/stackexchange_redis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 3a7dd4b..1ff4ac3 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -192,7 +192,9 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.channel + ".conn." + connID + "."
+		// The channel is different than the namespace's one below,
+		// an ID can be the same with the name of a namespace.
+		return exc.channel + ":" + connID + "."
 	}
 
 	if namespace == "" && room != "" {
@@ -200,8 +202,7 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 		panic("namespace cannot be empty when sending to a namespace's room")
 	}
 
-	// different than the connection's one, an ID can be the same with the name of a namespace.
-	return exc.channel + ".ns." + namespace + "."
+	return exc.channel + "." + namespace + "."
 }
 
 // forward sends the redis messages to the client in their order.
-- 
2.43.0


From a5f2a0b33b387a08d3536eab1353b504afab0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 51/58] fix: any namespace and connection ID can be used with
 the nats stackexchange

---
 stackexchange/nats/stackexchange_nats.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..cfc9190 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -2,6 +2,7 @@ package nats
 
 import (
 	"context"
+	"net/url"
 	"strings"
 	"sync"
 
@@ -226,7 +227,9 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.SubjectPrefix + "." + connID
+		// The subject is different than the namespace's one below,
+		// an ID can be the same with the name of a namespace.
+		return exc.SubjectPrefix + ".conn." + escapeToken(connID)
 	}
 
 	if namespace == "" && room != "" {
@@ -234,7 +237,17 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		panic("namespace cannot be empty when sending to a namespace's room")
 	}
 
-	return exc.SubjectPrefix + "." + namespace
+	if namespace == "" {
+		return exc.SubjectPrefix
+	}
+
+	return exc.SubjectPrefix + "." + escapeToken(namespace)
+}
+
+// escapeToken returns a single subject's token for any non-empty "name",
+// which may contain spaces or characters with special meaning for nats: ".", "*" and ">".
+func escapeToken(name string) string {
+	return strings.ReplaceAll(url.QueryEscape(name), ".", "%2E")
 }
 
 func makeMsgHandler(c *neffos.Conn) nats.MsgHandler {
-- 
2.43.0


From 176eae5af2abb8c903947cb8da5162b56628e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 52/58] fix: the nats stackexchange is subscribed when
 Subscribe returns

---
 stackexchange/nats/stackexchange_nats.go | 116 ++++++++++++++---------
 1 file changed, 70 insertions(+), 46 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index cfc9190..805e897 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -48,11 +48,13 @@ type (
 	subscribeAction struct {
 		conn      *neffos.Conn
 		namespace string
+		done      chan struct{}
 	}
 
 	unsubscribeAction struct {
 		conn      *neffos.Conn
 		namespace string
+		done      chan struct{}
 	}
 
 	closeAction struct {
@@ -162,53 +164,11 @@ func (exc *StackExchange) run() {
 			// neffos.Debugf("[%s] added to potential subscribers", s.conn.ID())
 			exc.subscribers[s.conn] = s
 		case m := <-exc.subscribe:
-			if sub, ok := exc.subscribers[m.conn]; ok {
-				if sub.subConn.IsClosed() {
-					// neffos.Debugf("[%s] has an unexpected nats connection closing on subscribe", m.conn.ID())
-					delete(exc.subscribers, m.conn)
-					continue
-				}
-
-				subject := exc.getSubject(m.namespace, "", "")
-				// neffos.Debugf("[%s] subscribed to [%s]", m.conn.ID(), subject)
-				subscription, err := sub.subConn.Subscribe(subject, makeMsgHandler(sub.conn))
-				if err != nil {
-					continue
-				}
-				sub.subConn.Flush()
-				if err = sub.subConn.LastError(); err != nil {
-					// neffos.Debugf("[%s] OnSubscribe [%s] Last Error: %v", m.conn, subject, err)
-					continue
-				}
-
-				sub.mu.Lock()
-				if sub.subscriptions == nil {
-					sub.subscriptions = make(map[string]*nats.Subscription)
-				}
-				sub.subscriptions[subject] = subscription
-				sub.mu.Unlock()
-			}
+			exc.subscribeNamespace(m.conn, m.namespace)
+			close(m.done)
 		case m := <-exc.unsubscribe:
-			if sub, ok := exc.subscribers[m.conn]; ok {
-				if sub.subConn.IsClosed() {
-					// neffos.Debugf("[%s] has an unexpected nats connection closing on unsubscribe", m.conn.ID())
-					delete(exc.subscribers, m.conn)
-					continue
-				}
-
-				subject := exc.getSubject(m.namespace, "", "")
-				// neffos.Debugf("[%s] unsubscribed from [%s]", subject)
-				if sub.subscriptions == nil {
-					continue
-				}
-
-				sub.mu.RLock()
-				subscription, ok := sub.subscriptions[subject]
-				sub.mu.RUnlock()
-				if ok {
-					subscription.Unsubscribe()
-				}
-			}
+			exc.unsubscribeNamespace(m.conn, m.namespace)
+			close(m.done)
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
@@ -222,6 +182,64 @@ func (exc *StackExchange) run() {
 	}
 }
 
+func (exc *StackExchange) subscribeNamespace(c *neffos.Conn, namespace string) {
+	sub, ok := exc.subscribers[c]
+	if !ok {
+		return
+	}
+
+	if sub.subConn.IsClosed() {
+		// neffos.Debugf("[%s] has an unexpected nats connection closing on subscribe", c.ID())
+		delete(exc.subscribers, c)
+		return
+	}
+
+	subject := exc.getSubject(namespace, "", "")
+	// neffos.Debugf("[%s] subscribed to [%s]", c.ID(), subject)
+	subscription, err := sub.subConn.Subscribe(subject, makeMsgHandler(sub.conn))
+	if err != nil {
+		return
+	}
+	sub.subConn.Flush()
+	if err = sub.subConn.LastError(); err != nil {
+		// neffos.Debugf("[%s] OnSubscribe [%s] Last Error: %v", c, subject, err)
+		return
+	}
+
+	sub.mu.Lock()
+	if sub.subscriptions == nil {
+		sub.subscriptions = make(map[string]*nats.Subscription)
+	}
+	sub.subscriptions[subject] = subscription
+	sub.mu.Unlock()
+}
+
+func (exc *StackExchange) unsubscribeNamespace(c *neffos.Conn, namespace string) {
+	sub, ok := exc.subscribers[c]
+	if !ok {
+		return
+	}
+
+	if sub.subConn.IsClosed() {
+		// neffos.Debugf("[%s] has an unexpected nats connection closing on unsubscribe", c.ID())
+		delete(exc.subscribers, c)
+		return
+	}
+
+	subject := exc.getSubject(namespace, "", "")
+	// neffos.Debugf("[%s] unsubscribed from [%s]", subject)
+	if sub.subscriptions == nil {
+		return
+	}
+
+	sub.mu.RLock()
+	subscription, ok := sub.subscriptions[subject]
+	sub.mu.RUnlock()
+	if ok {
+		subscription.Unsubscribe()
+	}
+}
+
 // Nats does not allow ending with ".", it uses pattern matching.
 func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 	if connID != "" {
@@ -366,19 +384,25 @@ func (exc *StackExchange) NotifyAsk(msg neffos.Message, token string) error {
 // Subscribe subscribes to a specific namespace,
 // it's called automatically on neffos namespace connected.
 func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
+	done := make(chan struct{})
 	exc.subscribe <- subscribeAction{
 		conn:      c,
 		namespace: namespace,
+		done:      done,
 	}
+	<-done // wait for nats, the next published message should be received.
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
 // it's called automatically on neffos namespace disconnect.
 func (exc *StackExchange) Unsubscribe(c *neffos.Conn, namespace string) {
+	done := make(chan struct{})
 	exc.unsubscribe <- unsubscribeAction{
 		conn:      c,
 		namespace: namespace,
+		done:      done,
 	}
+	<-done // wait for nats, the next published message should not be received.
 }
 
 // OnDisconnect terminates the connection's subscriber that
-- 
2.43.0


From bcc150b5b3edcf0229956165f6795822727766cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 53/58] fix: the nats stackexchange's Ask is subscribed before
 it publishes and can receive more than one replies

---
 stackexchange/nats/stackexchange_nats.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 805e897..69b61d5 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -346,9 +346,14 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return
 	}
 
-	ch := make(chan neffos.Message)
+	defer subConn.Close()
+
+	ch := make(chan neffos.Message, 1)
 	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+		select {
+		case ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false):
+		default: // more than one connections may reply, the first one wins.
+		}
 	})
 
 	if err != nil {
@@ -356,7 +361,11 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	}
 
 	defer sub.Unsubscribe()
-	defer subConn.Close()
+
+	// The reply is lost if it comes before the subscription.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 77d5ffc0f8fbf0b3d9cf71a77e47e5e74af720d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 54/58] fix: the nats stackexchange closes the subscriber of a
 closed connection even if it is reconnecting

---
 stackexchange/nats/stackexchange_nats.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 69b61d5..2791d26 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -172,10 +172,8 @@ func (exc *StackExchange) run() {
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
-				if sub.subConn.IsConnected() {
-					sub.subConn.Close()
-				}
-
+				// even if it's reconnecting, otherwise it is subscribed again later on.
+				sub.subConn.Close()
 				delete(exc.subscribers, m.conn)
 			}
 		}
-- 
2.43.0


From c33419a7855b143214d434d46ec30c175e40cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 55/58] fix: connections are read and modified under the same
 lock

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index 0eb5e72..6b85c59 100644
--- a/server.go
+++ b/server.go
@@ -170,12 +170,18 @@ func (s *Server) start() {
 	for {
 		select {
 		case c := <-s.connect:
+			// this loop is the only one that modifies the connections,
+			// the lock is for those that read them outside of it, e.g. `GetConnections`.
+			s.mu.Lock()
 			s.connections[c] = struct{}{}
+			s.mu.Unlock()
 			atomic.AddUint64(&s.count, 1)
 		case c := <-s.disconnect:
 			if _, ok := s.connections[c]; ok {
 				// close(c.out)
+				s.mu.Lock()
 				delete(s.connections, c)
+				s.mu.Unlock()
 				atomic.AddUint64(&s.count, ^uint64(0))
 				// println("disconnect...")
 				if s.OnDisconnect != nil {
-- 
2.43.0


From ff70781d46a09ee1842daebee09926b7ad835590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:37 +0000
Subject: [PATCH 56/58] fix: a reply is sent even if its room is left while it
 is written

---
 conn.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 8223205..2d1195b 100644
--- a/conn.go
+++ b/conn.go
@@ -534,13 +534,11 @@ func (c *Conn) handleMessage(msg Message) error {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			if !c.canWrite(msg) && msg.wait != "" && !c.IsClosed() {
+			if !c.Write(msg) && msg.wait != "" && !c.IsClosed() {
 				// the remote side waits for a reply, even if the namespace
 				// was disconnected or the room was left meanwhile.
 				c.writeErrorReply(msg, err)
-				return err
 			}
-			c.Write(msg)
 			return err
 		}
 	}
-- 
2.43.0


From ae6d61d4d1553e7dd51c4fa039683c8798699457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:46 +0000
Subject: [PATCH 57/58] fix: nats: close the connection to nats when its
 connection is refused

---
 stackexchange/nats/stackexchange_nats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 2791d26..77d6262 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -291,6 +291,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -299,6 +300,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
-- 
2.43.0


From 5c0ed7d6c1d9a9c19139ad3d23d409c67abdc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:46 +0000
Subject: [PATCH 58/58] fix: nats: a comma-separated list of servers

---
 stackexchange/nats/stackexchange_nats.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 77d6262..c8ecad6 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -127,9 +127,15 @@ func NewStackExchange(url string, options ...nats.Option) (*StackExchange, error
 	}
 
 	// opts.Url may change from caller, use the struct's field to respect it.
-	servers := strings.Split(opts.Url, ",")
-	for i, s := range servers {
-		servers[i] = strings.TrimSpace(s)
+	var servers []string
+	for _, s := range strings.Split(opts.Url, ",") {
+		if s = strings.TrimSpace(s); s != "" {
+			servers = append(servers, s)
+		}
+	}
+	if len(servers) > 0 {
+		// it accepts a single url, the rest of them are part of its servers.
+		opts.Url = servers[0]
 	}
 	// append to make sure that any custom servers from caller
 	// are respected, no check for duplications.
-- 
2.43.0

