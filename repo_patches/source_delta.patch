From fa0bfa4a268a1b0387b573c715b9ffe3fdedbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:14 +0000
Subject: [PATCH 01/49] fix: Ask wait tokens must be unique even when generated
 at the same nanosecond

---
 message.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/message.go b/message.go
index 7967b85..f765c3c 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,8 +220,23 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// the last generated wait token's number, see `genWait`.
+var lastWait int64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
+	// two or more calls at the same time (or on a clock adjustment) should never share the same token.
+	for {
+		last := atomic.LoadInt64(&lastWait)
+		if now <= last {
+			now = last + 1
+		}
+
+		if atomic.CompareAndSwapInt64(&lastWait, last, now) {
+			break
+		}
+	}
+
 	wait := strconv.FormatInt(now, 10)
 
 	if isClientConn {
-- 
2.43.0


From a2cc8904162f873c52cc725ec36fd0521d1fe739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:22 +0000
Subject: [PATCH 02/49] fix: waiterOnce could lose its wake-up and tear its
 error when wait and unwait race

---
 waiter_once.go | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..3d7c954 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -1,6 +1,7 @@
 package neffos
 
 import (
+	"sync"
 	"sync/atomic"
 )
 
@@ -14,18 +15,16 @@ import (
 //
 // See `Server#ServeHTTP`, `Conn#Connect`, `Conn#Write`, `Conn#sendClientACK` and `Conn#handleACK`.
 type waiterOnce struct {
-	locked *uint32
-	ready  *uint32
-	err    error
-	// mu     sync.Mutex
-	ch chan struct{}
+	ready *uint32
+	err   error
+	mu    sync.Mutex
+	ch    chan struct{}
 }
 
 func newWaiterOnce() *waiterOnce {
 	return &waiterOnce{
-		locked: new(uint32),
-		ready:  new(uint32),
-		ch:     make(chan struct{}),
+		ready: new(uint32),
+		ch:    make(chan struct{}),
 	}
 }
 
@@ -44,28 +43,28 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
+	<-w.ch
+	return w.err
+}
 
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
+// unwait releases the current and any future `wait` calls,
+// only its first call is respected.
+// It reports whether the given "err" is the one that the `wait` returns.
+func (w *waiterOnce) unwait(err error) bool {
+	if w == nil {
+		return false
 	}
 
-	return w.err
-}
+	w.mu.Lock()
+	defer w.mu.Unlock()
 
-func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
-		return
+	if w.isReady() {
+		return false
 	}
 
 	w.err = err
 	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
-		close(w.ch)
-	}
+	close(w.ch)
+	return true
 }
-- 
2.43.0


From 49a26f439998474e9da177e08e29229eaf8f80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 03/49] fix: a namespace's connect process must protect every
 connect, not only the first one

---
 process.go | 58 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/process.go b/process.go
index e36b1ed..fe918f5 100644
--- a/process.go
+++ b/process.go
@@ -24,12 +24,14 @@ func (p *processes) get(name string) *process {
 	p.locker.RUnlock()
 
 	if entry == nil {
-		entry = &process{
-			finished: make(chan struct{}),
-		}
-
 		p.locker.Lock()
-		p.entries[name] = entry
+		// re-check, it may be created by a simultaneous call.
+		if entry = p.entries[name]; entry == nil {
+			entry = &process{
+				finished: make(chan struct{}),
+			}
+			p.entries[name] = entry
+		}
 		p.locker.Unlock()
 	}
 
@@ -42,7 +44,10 @@ type process struct {
 	done uint32
 
 	finished chan struct{}
-	waiting  sync.WaitGroup
+
+	mu      sync.Mutex
+	running int           // how many `Start` calls without a `Done` yet.
+	waiting chan struct{} // closed when running is back to zero.
 }
 
 // Signal closes the channel.
@@ -60,26 +65,51 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done ends a `Start`, the last one releases the `Wait` calls.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
 		return
 	}
 
-	p.waiting.Done()
+	p.running--
+	if p.running == 0 {
+		atomic.StoreUint32(&p.done, 1)
+		close(p.waiting)
+	}
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until not running. See `Done` too.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	if ch := p.wait(); ch != nil {
+		<-ch
 	}
-	p.waiting.Wait()
+}
+
+// wait returns a channel which is closed when the process is done
+// or nil if it's not running.
+func (p *process) wait() <-chan struct{} {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
+		return nil
+	}
+
+	return p.waiting
 }
 
 // Start makes future `Wait` calls to hold until `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	if p.running == 0 {
+		atomic.StoreUint32(&p.done, 0)
+		p.waiting = make(chan struct{})
+	}
+	p.running++
+	p.mu.Unlock()
 }
 
 // isDone reports whether process is finished.
-- 
2.43.0


From 5385e13b9cd3828d2540be82f773de6a5e45d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:21 +0000
Subject: [PATCH 04/49] fix: the async broadcaster could lose or repeat
 messages and hold every connection's broadcasts behind a single write

---
 broadcaster.go | 47 ++++++++++++++++++++++++++---------------------
 server.go      | 15 +++++++--------
 2 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..71a3112 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,57 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
 // next broadcast call.
 type broadcaster struct {
+	mu *sync.Mutex
+	// the entry that the next broadcast call will fill.
+	awaiter *broadcast
+}
+
+// broadcast is an entry of the broadcaster, each connection walks through
+// the entries by its own pace, so a slow one does not miss or delay anything for the rest of them.
+type broadcast struct {
+	ch       chan struct{} // closed when messages and next are filled.
 	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	next     *broadcast
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
 	return &broadcaster{
 		mu:      new(sync.Mutex),
-		awaiter: awaiter,
+		awaiter: &broadcast{ch: make(chan struct{})},
 	}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+func (b *broadcaster) getAwaiter() *broadcast {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+
+	return b.awaiter
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
+	next := &broadcast{ch: make(chan struct{})}
+
 	b.mu.Lock()
-	b.messages = msgs
+	old := b.awaiter
+	old.messages = msgs
+	old.next = next
+	b.awaiter = next
+	close(old.ch)
 	b.mu.Unlock()
-
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+func (b *broadcast) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
+	case <-b.ch:
+		msgs = b.messages
 		ok = true
 	case <-closeCh:
 	}
 
-	b.mu.Lock()
 	return
 }
diff --git a/server.go b/server.go
index 19363e3..255694d 100644
--- a/server.go
+++ b/server.go
@@ -336,10 +336,12 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
+		// capture it here, any broadcast after that point should be visible to this connection.
+		go func(c *Conn, b *broadcast) {
+			for s.waitMessages(c, b) {
+				b = b.next
 			}
-		}(c)
+		}(c, s.broadcaster.getAwaiter())
 	}
 
 	s.connect <- c
@@ -455,11 +457,8 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
-
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
+func (s *Server) waitMessages(c *Conn, b *broadcast) bool {
+	msgs, ok := b.waitUntilClosed(c.closeCh)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From cee77af1d29739ea2afbdb1106effad7aa10f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:21 +0000
Subject: [PATCH 05/49] fix: a broadcast message addressed to another
 connection should not cancel the rest of its batch

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 255694d..f678c27 100644
--- a/server.go
+++ b/server.go
@@ -439,12 +439,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From b44d7ffe675d7d31deabc72d36cb20f8074684ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:22 +0000
Subject: [PATCH 06/49] fix: Broadcast should not modify or retain the caller's
 slice of messages

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index f678c27..0d5e902 100644
--- a/server.go
+++ b/server.go
@@ -501,6 +501,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// it's published in the background, so the caller's slice should not be shared (or modified).
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
-- 
2.43.0


From bbb6c52125458ef0da2347a31bcea40fbb5bf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 07/49] fix: a Broadcast from a callback which the server's
 loop runs should not deadlock the SyncBroadcaster

---
 server.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index 0d5e902..1b60b7e 100644
--- a/server.go
+++ b/server.go
@@ -80,7 +80,11 @@ type Server struct {
 	connect           chan *Conn
 	disconnect        chan *Conn
 	actions           chan action
-	broadcastMessages chan []Message
+	broadcastMessages chan struct{}
+
+	// pending batches of the `SyncBroadcaster`, by order.
+	broadcastQueue      [][]Message
+	broadcastQueueMutex sync.Mutex
 
 	broadcaster *broadcaster
 
@@ -123,7 +127,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		connect:           make(chan *Conn, 1),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
-		broadcastMessages: make(chan []Message),
+		broadcastMessages: make(chan struct{}, 1),
 		broadcaster:       newBroadcaster(),
 		waitingMessages:   make(map[string]chan Message),
 		IDGenerator:       DefaultIDGenerator,
@@ -190,9 +194,16 @@ func (s *Server) start() {
 					s.StackExchange.OnDisconnect(c)
 				}
 			}
-		case msgs := <-s.broadcastMessages:
-			for c := range s.connections {
-				publishMessages(c, msgs)
+		case <-s.broadcastMessages:
+			s.broadcastQueueMutex.Lock()
+			queue := s.broadcastQueue
+			s.broadcastQueue = nil
+			s.broadcastQueueMutex.Unlock()
+
+			for _, msgs := range queue {
+				for c := range s.connections {
+					publishMessages(c, msgs)
+				}
 			}
 		case act := <-s.actions:
 			for c := range s.connections {
@@ -531,7 +542,15 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 	}
 
 	if s.SyncBroadcaster {
-		s.broadcastMessages <- msgs
+		// it may be called by the server's loop itself, i.e on `OnDisconnect`, so do not block here.
+		s.broadcastQueueMutex.Lock()
+		s.broadcastQueue = append(s.broadcastQueue, msgs)
+		s.broadcastQueueMutex.Unlock()
+
+		select {
+		case s.broadcastMessages <- struct{}{}:
+		default:
+		}
 		return
 	}
 
-- 
2.43.0


From 1d033a3caa43fb97a5f3f8524603f7b3bb3cc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 08/49] fix: a connection should not be unregistered before its
 registration or survive a server that is closed meanwhile

---
 server.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index 1b60b7e..4e6ee35 100644
--- a/server.go
+++ b/server.go
@@ -124,7 +124,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan struct{}, 1),
@@ -169,8 +169,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
@@ -346,17 +344,26 @@ func (s *Server) Upgrade(
 		c.ReconnectTries, _ = strconv.Atoi(retriesHeaderValue)
 	}
 
+	// capture it here, any broadcast after that point should be visible to this connection.
+	awaiter := s.broadcaster.getAwaiter()
+
+	// it should be registered before anything that may close it.
+	s.connect <- c
+
+	if atomic.LoadUint32(&s.closed) > 0 {
+		// closed in the meantime.
+		c.Close()
+		return nil, errServerClosed
+	}
+
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		// capture it here, any broadcast after that point should be visible to this connection.
 		go func(c *Conn, b *broadcast) {
 			for s.waitMessages(c, b) {
 				b = b.next
 			}
-		}(c, s.broadcaster.getAwaiter())
+		}(c, awaiter)
 	}
 
-	s.connect <- c
-
 	go c.startReader()
 
 	// Before `OnConnect` in order to be able
-- 
2.43.0


From 4c470b65361ae070e133e8011140d4ff279a9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:13 +0000
Subject: [PATCH 09/49] fix: an error of the server's OnConnect should always
 reject the connection

---
 conn.go   | 10 +++++-----
 server.go | 13 +++++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..9101013 100644
--- a/conn.go
+++ b/conn.go
@@ -844,11 +844,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		if !msg.locked {
 			c.connectedNamespacesMutex.RLock()
@@ -897,6 +892,11 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
diff --git a/server.go b/server.go
index 4e6ee35..adc7ac3 100644
--- a/server.go
+++ b/server.go
@@ -370,7 +370,9 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			if !c.readiness.unwait(err) {
+				c.Close()
+			}
 			return nil, err
 		}
 	}
@@ -403,10 +405,13 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
+			if !c.readiness.unwait(err) {
+				// already marked as ready (i.e native messages only or a `Connect` before the error),
+				// the client can't be notified about the error.
+				c.Close()
+			}
+			// Otherwise no need to disconnect here, connection's .Close will be called on readiness ch errored.
 
-			// c.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 6e30e4c90459223b47f31bb849d95cd75a49cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:20 +0000
Subject: [PATCH 10/49] fix: replies that nobody waits for should not block the
 reader of a server's connection or be handled as events

---
 conn.go   |  9 ++++++++-
 server.go | 12 +++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 9101013..b6a2370 100644
--- a/conn.go
+++ b/conn.go
@@ -434,7 +434,10 @@ func (c *Conn) handleMessage(msg Message) error {
 			ch, ok := c.server.waitingMessages[msg.wait]
 			c.server.waitingMessagesMutex.RUnlock()
 			if ok {
-				ch <- msg
+				select {
+				case ch <- msg: // the first reply.
+				default:
+				}
 				return nil
 			}
 		}
@@ -447,6 +450,10 @@ func (c *Conn) handleMessage(msg Message) error {
 			return nil
 		}
 
+		if !isClient {
+			// a late reply, clients mark their own requests with a prefix.
+			return nil
+		}
 	}
 
 	switch msg.Event {
diff --git a/server.go b/server.go
index adc7ac3..ea64977 100644
--- a/server.go
+++ b/server.go
@@ -589,21 +589,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From c107e0bcf57223ac2d2fc0891a3fb4c079b09f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:48 +0000
Subject: [PATCH 11/49] fix: Ask should always get its own reply, or an error
 when the connection is lost, even inside an event callback

An Ask inside a callback was taking the next incoming message, whatever it was,
as its reply by a second reader, so messages were lost, mixed or never replied.
Pending Ask calls were never released on connection loss.
---
 conn.go | 203 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 142 insertions(+), 61 deletions(-)

diff --git a/conn.go b/conn.go
index b6a2370..d246f08 100644
--- a/conn.go
+++ b/conn.go
@@ -86,6 +86,13 @@ type Conn struct {
 
 	isInsideHandler *uint32
 
+	// the reads are serialized, a message that it's read while waiting
+	// inside a handler and it's not a reply is handled, by order, right after that handler.
+	readMutex sync.Mutex
+	readAhead []readData
+	// more than 0 if the connection's reading is failed but connection is not closed yet.
+	readFailed *uint32
+
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
 	waitingMessagesMutex sync.RWMutex
@@ -111,6 +118,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
 		isInsideHandler:                new(uint32),
+		readFailed:                     new(uint32),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
@@ -322,7 +330,7 @@ func (c *Conn) startReader() {
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
-		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+		b, msgTyp, err := c.readNext()
 		if err != nil {
 			c.readiness.unwait(err)
 			return
@@ -345,6 +353,62 @@ func (c *Conn) startReader() {
 	}
 }
 
+type readData struct {
+	body []byte
+	typ  MessageType
+	err  error
+}
+
+// readNext returns the next message that should be handled by the `startReader`.
+func (c *Conn) readNext() ([]byte, MessageType, error) {
+	c.readMutex.Lock()
+	defer c.readMutex.Unlock()
+
+	if len(c.readAhead) > 0 {
+		next := c.readAhead[0]
+		c.readAhead = c.readAhead[1:]
+		return next.body, next.typ, next.err
+	}
+
+	return c.socket.ReadData(c.readTimeout)
+}
+
+// readUntil reads, on behalf of the `startReader` which is blocked by a handler, until "done".
+// Replies are delivered to their waiters, the rest of the messages are kept for the `startReader`.
+func (c *Conn) readUntil(done <-chan struct{}) {
+	for c.readOnce(done) {
+	}
+}
+
+func (c *Conn) readOnce(done <-chan struct{}) bool {
+	c.readMutex.Lock()
+	defer c.readMutex.Unlock()
+
+	if atomic.LoadUint32(c.readFailed) > 0 {
+		return false
+	}
+
+	select {
+	case <-done:
+		return false
+	default:
+	}
+
+	b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+	if err != nil {
+		c.readAhead = append(c.readAhead, readData{err: err})
+		atomic.StoreUint32(c.readFailed, 1)
+		c.cancelWaitingMessages()
+		return false
+	}
+
+	if handled, _ := c.handleReply(c.DeserializeMessage(msgTyp, b)); !handled {
+		c.readAhead = append(c.readAhead, readData{body: b, typ: msgTyp})
+	}
+
+	return true
+}
+
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	switch typ := b[0]; typ {
 	case ackBinary:
@@ -400,6 +464,9 @@ func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
 	defer c.queueMutex.Unlock()
 
+	atomic.StoreUint32(c.isInsideHandler, 1)
+	defer atomic.StoreUint32(c.isInsideHandler, 0)
+
 	for msgTyp, q := range c.queue {
 		for _, b := range q {
 			c.HandlePayload(msgTyp, b)
@@ -423,37 +490,8 @@ func (c *Conn) handleMessage(msg Message) error {
 		return ns.events.fireEvent(ns, msg)
 	}
 
-	if isClient := c.IsClient(); msg.IsWait(isClient) {
-		if !isClient {
-			if msg.FromStackExchange && c.server.usesStackExchange() {
-				// Currently let's not export the wait field, instead
-				// just accept it on the stackexchange.
-				return c.server.StackExchange.NotifyAsk(msg, msg.wait)
-			}
-			c.server.waitingMessagesMutex.RLock()
-			ch, ok := c.server.waitingMessages[msg.wait]
-			c.server.waitingMessagesMutex.RUnlock()
-			if ok {
-				select {
-				case ch <- msg: // the first reply.
-				default:
-				}
-				return nil
-			}
-		}
-
-		c.waitingMessagesMutex.RLock()
-		ch, ok := c.waitingMessages[msg.wait]
-		c.waitingMessagesMutex.RUnlock()
-		if ok {
-			ch <- msg
-			return nil
-		}
-
-		if !isClient {
-			// a late reply, clients mark their own requests with a prefix.
-			return nil
-		}
+	if handled, err := c.handleReply(msg); handled {
+		return err
 	}
 
 	switch msg.Event {
@@ -488,6 +526,54 @@ func (c *Conn) handleMessage(msg Message) error {
 	return nil
 }
 
+// handleReply reports whether the "msg" is a reply of an `Ask` call (`Conn#Ask` or `Server#Ask`) and delivers it.
+func (c *Conn) handleReply(msg Message) (bool, error) {
+	isClient := c.IsClient()
+	if msg.isInvalid || !msg.IsWait(isClient) {
+		return false, nil
+	}
+
+	if !isClient {
+		if msg.FromStackExchange && c.server.usesStackExchange() {
+			// Currently let's not export the wait field, instead
+			// just accept it on the stackexchange.
+			return true, c.server.StackExchange.NotifyAsk(msg, msg.wait)
+		}
+		c.server.waitingMessagesMutex.RLock()
+		ch, ok := c.server.waitingMessages[msg.wait]
+		c.server.waitingMessagesMutex.RUnlock()
+		if ok {
+			select {
+			case ch <- msg: // the first reply.
+			default:
+			}
+			return true, nil
+		}
+	}
+
+	c.waitingMessagesMutex.Lock()
+	ch, ok := c.waitingMessages[msg.wait]
+	delete(c.waitingMessages, msg.wait)
+	c.waitingMessagesMutex.Unlock()
+	if ok {
+		ch <- msg // it never blocks, there is only one reply per entry.
+		return true, nil
+	}
+
+	// a late reply when server, clients mark their own requests with a prefix.
+	return !isClient, nil
+}
+
+// cancelWaitingMessages fails the `Ask` calls that are waiting for a reply.
+func (c *Conn) cancelWaitingMessages() {
+	c.waitingMessagesMutex.Lock()
+	for wait, ch := range c.waitingMessages {
+		delete(c.waitingMessages, wait)
+		ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}
+	}
+	c.waitingMessagesMutex.Unlock()
+}
+
 // DeserializeMessage returns a Message from the "payload".
 func (c *Conn) DeserializeMessage(msgTyp MessageType, payload []byte) Message {
 	return DeserializeMessage(msgTyp, payload, c.allowNativeMessages, c.shouldHandleOnlyNativeMessages)
@@ -941,11 +1027,11 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
+	isInsideHandler := atomic.LoadUint32(c.isInsideHandler) == 1
+	return c.ask(ctx, msg, isInsideHandler)
 }
 
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
+func (c *Conn) ask(ctx context.Context, msg Message, isInsideHandler bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -969,26 +1055,23 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	ch := make(chan Message, 1)
 	msg.wait = genWait(c.IsClient())
 
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[msg.wait] = ch
+	c.waitingMessagesMutex.Unlock()
 
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
+	if c.IsClosed() || atomic.LoadUint32(c.readFailed) > 0 {
+		// there is no one to read its reply.
+		c.cancelWaitingMessages()
+	} else if !c.Write(msg) {
 		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
+		delete(c.waitingMessages, msg.wait)
 		c.waitingMessagesMutex.Unlock()
-	}
-
-	if !c.Write(msg) {
 		return Message{}, ErrWrite
+	} else if isInsideHandler {
+		// the reader is busy so read the reply from here.
+		done := make(chan struct{})
+		defer close(done)
+		go c.readUntil(done)
 	}
 
 	select {
@@ -996,14 +1079,16 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 		if c.IsClosed() {
 			return Message{}, ErrWrite
 		}
-		return Message{}, ctx.Err()
-	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
+
+		// the entry is not removed (until close or a late reply) when client-side,
+		// so a late reply is not handled as an incoming event.
+		if !c.IsClient() {
 			c.waitingMessagesMutex.Lock()
 			delete(c.waitingMessages, msg.wait)
 			c.waitingMessagesMutex.Unlock()
 		}
-
+		return Message{}, ctx.Err()
+	case receive := <-ch:
 		return receive, receive.Err
 	}
 }
@@ -1013,6 +1098,8 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 // After this method call the `Conn` is not usable anymore, a new `Dial` call is required.
 func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
+		c.cancelWaitingMessages()
+
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
 			c.connectedNamespacesMutex.Lock()
@@ -1025,12 +1112,6 @@ func (c *Conn) Close() {
 				delete(c.connectedNamespaces, namespace)
 			}
 			c.connectedNamespacesMutex.Unlock()
-
-			c.waitingMessagesMutex.Lock()
-			for wait := range c.waitingMessages {
-				delete(c.waitingMessages, wait)
-			}
-			c.waitingMessagesMutex.Unlock()
 		}
 
 		atomic.StoreUint32(c.acknowledged, 0)
-- 
2.43.0


From 03fd3ce9bf1abca8ee56bc70a2a091781b03573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:49 +0000
Subject: [PATCH 12/49] fix: messages queued before the acknowledgement should
 be handled by the order they came

---
 conn.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/conn.go b/conn.go
index d246f08..08bfe12 100644
--- a/conn.go
+++ b/conn.go
@@ -100,7 +100,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []readData
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -449,10 +449,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, readData{body: b, typ: msgTyp})
 		c.queueMutex.Unlock()
 	}
 
@@ -467,13 +464,11 @@ func (c *Conn) handleQueue() {
 	atomic.StoreUint32(c.isInsideHandler, 1)
 	defer atomic.StoreUint32(c.isInsideHandler, 0)
 
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
-
-		delete(c.queue, msgTyp)
+	for _, q := range c.queue {
+		c.HandlePayload(q.typ, q.body)
 	}
+
+	c.queue = nil
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From c0c74f20641da0a92bb2f0591e657582e3c29cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:55 +0000
Subject: [PATCH 13/49] fix: each side should accept only the acknowledgement
 messages of the other one and the ID should be sent first

A client was able to acknowledge itself, with an ID of its choice and before the
server's OnConnect, by sending the server's own acknowledgement message.
---
 conn.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 08bfe12..3592982 100644
--- a/conn.go
+++ b/conn.go
@@ -410,8 +410,10 @@ func (c *Conn) readOnce(done <-chan struct{}) bool {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
-	case ackBinary:
+	isClient := c.IsClient()
+
+	switch typ := b[0]; {
+	case typ == ackBinary && !isClient:
 		// from client startup to server.
 		err := c.readiness.wait()
 		if err != nil {
@@ -419,19 +421,22 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
+
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
 	// 	atomic.StoreUint32(c.acknowledged, 1)
 	// 	c.handleQueue()
 
-	case ackIDBinary:
+	case typ == ackIDBinary && isClient:
 		// from server to client.
 		id := string(b[1:])
 		c.id = id
@@ -441,7 +446,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
 		// c.handleQueue()
-	case ackNotOKBinary:
+	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
 		err := errors.New(errText)
-- 
2.43.0


From 5ad8d35729649a6556ad2b13b53fa8f133333fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:17 +0000
Subject: [PATCH 14/49] fix: a message that waits its namespace to be connected
 should not block the reply of that connect

---
 conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 3592982..acad3c3 100644
--- a/conn.go
+++ b/conn.go
@@ -673,8 +673,17 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 	return ns
 }
 
+// waitProcess waits any `askConnect` process (if any) of that "namespace".
+// That process may need a reply in order to be done, so keep reading while waiting.
+func (c *Conn) waitProcess(namespace string) {
+	if done := c.processes.get(namespace).wait(); done != nil {
+		go c.readUntil(done)
+		<-done
+	}
+}
+
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
+	c.waitProcess(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
-- 
2.43.0


From 6a0ea123b78f07657ca61ce2c75f854c38badbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 15/49] fix: connect and disconnect of a namespace should be
 registered and notified once and never under a lock

Simultaneous calls and Close were able to replace a connected namespace, to fire its
events more than once, to connect it after Close and to deadlock with callbacks that use the connection.
---
 conn.go           | 152 +++++++++++++++++++++++++++++-----------------
 conn_namespace.go |  16 ++++-
 2 files changed, 112 insertions(+), 56 deletions(-)

diff --git a/conn.go b/conn.go
index acad3c3..5419583 100644
--- a/conn.go
+++ b/conn.go
@@ -340,6 +340,10 @@ func (c *Conn) startReader() {
 			continue
 		}
 
+		if c.IsClosed() {
+			return
+		}
+
 		if !c.isAcknowledged() {
 			if !c.handleACK(msgTyp, b) {
 				return
@@ -740,17 +744,15 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 		return nil, err
 	}
 	// println("got connect")
-	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	// c.connectedNamespacesMutex.RLock()
-	// ns, ok = c.connectedNamespaces[namespace]
-	// c.connectedNamespacesMutex.RUnlock()
-	// if ok {
-	// 	return ns, nil
-	// }
+	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client or by the same side).
+	connected, ok := c.addNamespace(ns)
+	if connected == nil {
+		return nil, CloseError{Code: -1, error: ErrWrite}
+	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	if !ok {
+		return connected, nil
+	}
 
 	// println("we're connected")
 
@@ -763,6 +765,33 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	return ns, nil
 }
 
+// addNamespace registers the "ns" as connected and returns it,
+// if its namespace is already connected then it returns the existing one and false.
+// It returns nil if the connection is closed.
+func (c *Conn) addNamespace(ns *NSConn) (*NSConn, bool) {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if c.IsClosed() {
+		return nil, false
+	}
+
+	if existing := c.connectedNamespaces[ns.namespace]; existing != nil {
+		return existing, false
+	}
+
+	c.connectedNamespaces[ns.namespace] = ns
+	return ns, true
+}
+
+func (c *Conn) deleteNamespace(ns *NSConn) {
+	c.connectedNamespacesMutex.Lock()
+	if c.connectedNamespaces[ns.namespace] == ns {
+		delete(c.connectedNamespaces, ns.namespace)
+	}
+	c.connectedNamespacesMutex.Unlock()
+}
+
 func (c *Conn) replyConnect(msg Message) {
 	// must give answer even a noOp if already connected.
 	if msg.wait == "" || msg.isNoOp {
@@ -790,13 +819,16 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	connected, ok := c.addNamespace(ns)
+	if connected == nil {
+		return
+	}
 
 	c.writeEmptyReply(msg.wait)
 
-	c.notifyNamespaceConnected(ns, msg)
+	if ok {
+		c.notifyNamespaceConnected(ns, msg)
+	}
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
@@ -822,13 +854,13 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.getNamespaces() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil {
+			if err == ErrBadNamespace && c.Namespace(ns.namespace) == nil {
+				continue // disconnected meanwhile.
+			}
 			return err
 		}
 	}
@@ -836,17 +868,22 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
-	}
-
-	ns := c.connectedNamespaces[msg.Namespace]
+// getNamespaces returns a copy of the connected namespaces,
+// so callbacks and writes can be called outside of the lock.
+func (c *Conn) getNamespaces() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	defer c.connectedNamespacesMutex.RUnlock()
 
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
+	namespaces := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		namespaces = append(namespaces, ns)
 	}
 
+	return namespaces
+}
+
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		return ErrBadNamespace
 	}
@@ -856,19 +893,15 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 		return err
 	}
 
+	if !ns.beginDisconnect() {
+		return nil // it's disconnected (or it's going to) by the other side, another call or close.
+	}
+
 	// if disconnect is allowed then leave rooms first with force property
 	// before namespace's deletion.
 	ns.forceLeaveAll(true)
 
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
-
-	delete(c.connectedNamespaces, msg.Namespace)
-
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
-	}
+	c.deleteNamespace(ns)
 
 	msg.IsLocal = true
 	ns.events.fireEvent(ns, msg)
@@ -882,8 +915,10 @@ func (c *Conn) replyDisconnect(msg Message) {
 		return
 	}
 
+	c.waitProcess(msg.Namespace)
+
 	ns := c.Namespace(msg.Namespace)
-	if ns == nil {
+	if ns == nil || !ns.beginDisconnect() {
 		c.writeEmptyReply(msg.wait)
 		return
 	}
@@ -894,9 +929,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 		// before namespace's deletion.
 		ns.forceLeaveAll(false)
 
-		c.connectedNamespacesMutex.Lock()
-		delete(c.connectedNamespaces, msg.Namespace)
-		c.connectedNamespacesMutex.Unlock()
+		c.deleteNamespace(ns)
 
 		c.writeEmptyReply(msg.wait)
 
@@ -907,6 +940,12 @@ func (c *Conn) replyDisconnect(msg Message) {
 	// server-side, check for error on the local event first.
 	err := ns.events.fireEvent(ns, msg)
 	if err != nil {
+		ns.cancelDisconnect()
+		if c.IsClosed() {
+			c.forceDisconnect(ns) // closed meanwhile.
+			return
+		}
+
 		msg.Err = err
 		c.Write(msg)
 		return
@@ -914,15 +953,26 @@ func (c *Conn) replyDisconnect(msg Message) {
 
 	ns.forceLeaveAll(false)
 
-	c.connectedNamespacesMutex.Lock()
-	delete(c.connectedNamespaces, msg.Namespace)
-	c.connectedNamespacesMutex.Unlock()
+	c.deleteNamespace(ns)
 
 	c.notifyNamespaceDisconnect(ns, msg)
 
 	c.writeEmptyReply(msg.wait)
 }
 
+// forceDisconnect disconnects from the namespace without asking, see `Close`.
+func (c *Conn) forceDisconnect(ns *NSConn) {
+	if !ns.beginDisconnect() {
+		return
+	}
+
+	// leave rooms first with force and local property before remove the namespace completely.
+	ns.forceLeaveAll(true)
+
+	ns.events.fireEvent(ns, Message{Namespace: ns.namespace, Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true})
+	c.deleteNamespace(ns)
+}
+
 func (c *Conn) write(b []byte, binary bool) bool {
 	var err error
 	if binary {
@@ -1110,17 +1160,9 @@ func (c *Conn) Close() {
 		c.cancelWaitingMessages()
 
 		if !c.shouldHandleOnlyNativeMessages {
-			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
-				// leave rooms first with force and local property before remove the namespace completely.
-				ns.forceLeaveAll(true)
-
-				disconnectMsg.Namespace = ns.namespace
-				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+			for _, ns := range c.getNamespaces() {
+				c.forceDisconnect(ns)
 			}
-			c.connectedNamespacesMutex.Unlock()
 		}
 
 		atomic.StoreUint32(c.acknowledged, 0)
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..e9691f7 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"reflect"
 	"sync"
+	"sync/atomic"
 )
 
 // NSConn describes a connection connected to a specific namespace,
@@ -25,6 +26,9 @@ type NSConn struct {
 	rooms      map[string]*Room
 	roomsMutex sync.RWMutex
 
+	// more than 0 if disconnected or it's going to, so disconnect is done once.
+	disconnected uint32
+
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
 	value reflect.Value
@@ -39,6 +43,16 @@ func newNSConn(c *Conn, namespace string, events Events) *NSConn {
 	}
 }
 
+// beginDisconnect reports whether the caller is the one that should disconnect this namespace.
+func (ns *NSConn) beginDisconnect() bool {
+	return atomic.CompareAndSwapUint32(&ns.disconnected, 0, 1)
+}
+
+// cancelDisconnect should be called when disconnect is not allowed.
+func (ns *NSConn) cancelDisconnect() {
+	atomic.StoreUint32(&ns.disconnected, 0)
+}
+
 // String method simply returns the Conn's ID().
 // Useful method to this connected to a namespace connection to be passed on `Server#Broadcast` method
 // to exclude itself from the broadcasted message's receivers.
@@ -170,7 +184,7 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
-- 
2.43.0


From 0f91302afefe9c77882afc6795e1c34a31c35c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:22 +0000
Subject: [PATCH 16/49] fix: join and leave of a room should be registered and
 notified once and never under a lock

---
 conn_namespace.go | 137 +++++++++++++++++++++++++++-------------------
 conn_room.go      |   2 +-
 2 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index e9691f7..caf44bd 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -25,6 +25,8 @@ type NSConn struct {
 	// Namespace(room(fire event)).
 	rooms      map[string]*Room
 	roomsMutex sync.RWMutex
+	// true when force-left from all rooms, no more joins are allowed.
+	roomsClosed bool
 
 	// more than 0 if disconnected or it's going to, so disconnect is done once.
 	disconnected uint32
@@ -143,13 +145,13 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil {
+			if err == ErrBadRoom && ns.Room(room.Name) == nil {
+				continue // left meanwhile.
+			}
 			return err
 		}
 	}
@@ -159,22 +161,53 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
 	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
+	ns.roomsClosed = true
+	ns.roomsMutex.Unlock()
 
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
-		delete(ns.rooms, room)
-
-		leaveMsg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, leaveMsg)
+		if ns.deleteRoom(room.Name) {
+			leaveMsg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, leaveMsg)
+		}
 
 		leaveMsg.Event = OnRoomLeave
 	}
 }
 
+// addRoom registers a joined room and returns it,
+// if it's already joined then it returns the existing one and false.
+// It returns nil if the namespace is disconnected.
+func (ns *NSConn) addRoom(roomName string) (*Room, bool) {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	if ns.roomsClosed {
+		return nil, false
+	}
+
+	if room, ok := ns.rooms[roomName]; ok {
+		return room, false
+	}
+
+	room := newRoom(ns, roomName)
+	ns.rooms[roomName] = room
+	return room, true
+}
+
+// deleteRoom reports whether the room was joined and it's removed by this call.
+func (ns *NSConn) deleteRoom(roomName string) bool {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	_, ok := ns.rooms[roomName]
+	delete(ns.rooms, roomName)
+	return ok
+}
+
 // Disconnect method sends a disconnect signal to the remote side and fires the local `OnNamespaceDisconnect` event.
 func (ns *NSConn) Disconnect(ctx context.Context) error {
 	if ns == nil {
@@ -212,13 +245,15 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		return nil, err
 	}
 
-	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
+	room, ok = ns.addRoom(roomName)
+	if room == nil {
+		return nil, ErrBadNamespace
+	}
 
-	joinMsg.Event = OnRoomJoined
-	ns.events.fireEvent(ns, joinMsg)
+	if ok {
+		joinMsg.Event = OnRoomJoined
+		ns.events.fireEvent(ns, joinMsg)
+	}
 	return room, nil
 }
 
@@ -237,31 +272,29 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.Conn.Write(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
+		room, ok := ns.addRoom(msg.Room)
+		if room == nil {
+			msg.Err = ErrBadNamespace
+			ns.Conn.Write(msg)
+			return
+		}
+
+		if ok {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
 	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
-	}
-	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
-	}
-
-	if !ok {
+	if ns.Room(msg.Room) == nil {
 		return ErrBadRoom
 	}
 
@@ -276,19 +309,11 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 		return err
 	}
 
-	if lock {
-		ns.roomsMutex.Lock()
-	}
-
-	delete(ns.rooms, msg.Room)
-
-	if lock {
-		ns.roomsMutex.Unlock()
+	if ns.deleteRoom(msg.Room) {
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
 	}
 
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
-
 	return nil
 }
 
@@ -307,14 +332,14 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns.Conn.IsClient() {
 		ns.events.fireEvent(ns, msg)
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, msg.Room)
-		ns.roomsMutex.Unlock()
+		left := ns.deleteRoom(msg.Room)
 
 		ns.Conn.writeEmptyReply(msg.wait)
 
-		msg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, msg)
+		if left {
+			msg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, msg)
+		}
 		return
 	}
 
@@ -326,12 +351,10 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		return
 	}
 
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
-
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
+	if ns.deleteRoom(msg.Room) {
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
+	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
diff --git a/conn_room.go b/conn_room.go
index ee40486..a882b3e 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -46,5 +46,5 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
 }
-- 
2.43.0


From c641e629b7755a6490aea93ee15c24771de843bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 17/49] fix: a request that waits for an answer should get its
 error even if its namespace or room is not available

---
 conn.go           | 21 ++++++++++++++++-----
 conn_namespace.go |  6 +++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 5419583..cfefc01 100644
--- a/conn.go
+++ b/conn.go
@@ -522,7 +522,7 @@ func (c *Conn) handleMessage(msg Message) error {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			c.Write(msg)
+			c.reply(msg)
 			return err
 		}
 	}
@@ -695,7 +695,7 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
 		in.Err = ErrBadNamespace
-		c.Write(in)
+		c.reply(in)
 		return nil, false
 	}
 
@@ -807,7 +807,7 @@ func (c *Conn) replyConnect(msg Message) {
 	events, ok := c.namespaces[msg.Namespace]
 	if !ok {
 		msg.Err = ErrBadNamespace
-		c.Write(msg)
+		c.reply(msg)
 		return
 	}
 
@@ -815,7 +815,7 @@ func (c *Conn) replyConnect(msg Message) {
 	err := events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		c.Write(msg)
+		c.reply(msg)
 		return
 	}
 
@@ -947,7 +947,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 		}
 
 		msg.Err = err
-		c.Write(msg)
+		c.reply(msg)
 		return
 	}
 
@@ -1064,6 +1064,17 @@ func (c *Conn) Write(msg Message) bool {
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
+// reply sends back the error (or the `Reply`) of an incoming "msg".
+// If the remote side waits for it then it's always sent, even if the namespace or the room is not available (anymore).
+func (c *Conn) reply(msg Message) bool {
+	if msg.wait == "" || msg.IsWait(c.IsClient()) || c.IsClosed() {
+		return c.Write(msg)
+	}
+
+	msg.FromExplicit = ""
+	return c.write(serializeMessage(msg), msg.SetBinary)
+}
+
 // used when `Ask` caller cares only for successful call and not the message, for performance reasons we just use raw bytes.
 func (c *Conn) writeEmptyReply(wait string) bool {
 	return c.write(genEmptyReplyToWait(wait), false)
diff --git a/conn_namespace.go b/conn_namespace.go
index caf44bd..3514bae 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -269,14 +269,14 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			ns.Conn.Write(msg)
+			ns.Conn.reply(msg)
 			return
 		}
 
 		room, ok := ns.addRoom(msg.Room)
 		if room == nil {
 			msg.Err = ErrBadNamespace
-			ns.Conn.Write(msg)
+			ns.Conn.reply(msg)
 			return
 		}
 
@@ -347,7 +347,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	err := ns.events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		ns.Conn.Write(msg)
+		ns.Conn.reply(msg)
 		return
 	}
 
-- 
2.43.0


From 36c7a6da9f78e8fbded5ef4fcce2c33531ed4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 18/49] fix: Increment and Decrement of a connection's store
 should be atomic

---
 conn.go | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/conn.go b/conn.go
index cfefc01..f27b643 100644
--- a/conn.go
+++ b/conn.go
@@ -225,23 +225,7 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	return c.add(key, 1)
 }
 
 // Decrement works like `Set` method.
@@ -258,22 +242,23 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
+	return c.add(key, -1)
+}
 
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
+// add adds the "n" to the integer value of "key" and returns the result,
+// a missing or a not integer value counts as zero.
+func (c *Conn) add(key string, n int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
-	intValue--
-	c.Set(key, intValue)
-	return intValue
+
+	value, _ := c.store[key].(int)
+	value += n
+	c.store[key] = value
+	return value
 }
 
 // WasReconnected reports whether the current connection is a result of a client-side reconnection.
-- 
2.43.0


From e7e702b14cfb811a7e0b40ea851232d4c3341d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 19/49] fix: server-side Connect should respect its deadline
 when the client never acknowledges

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index f27b643..ccefcf9 100644
--- a/conn.go
+++ b/conn.go
@@ -603,7 +603,7 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 				}
 			}
 
-			if t == 0 {
+			if t <= 0 {
 				// when maxSyncWaitDur passed,
 				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
 				if c.IsClosed() {
-- 
2.43.0


From 33be5c407b9d03f3887d3cc9b9620239c4513e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 20/49] fix: a timed out write should close the connection

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ccefcf9..bedd164 100644
--- a/conn.go
+++ b/conn.go
@@ -967,7 +967,8 @@ func (c *Conn) write(b []byte, binary bool) bool {
 	}
 
 	if err != nil {
-		if IsCloseError(err) {
+		// a timed out write may be partial, nothing can be sent after that.
+		if IsDisconnectError(err) {
 			c.Close()
 		}
 		return false
-- 
2.43.0


From fb20298819e881dbf26894592d97dd51744baf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:59 +0000
Subject: [PATCH 21/49] fix: an error with an empty text should reach the other
 side as an error

---
 message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index f765c3c..e252b1f 100644
--- a/message.go
+++ b/message.go
@@ -472,13 +472,11 @@ func deserializeInput(b []byte, allowNativeMessages, shouldHandleOnlyNativeMessa
 	event = string(dts[3])
 	isError := bytes.Equal(dts[4], trueByte)
 	isNoOp = bytes.Equal(dts[5], trueByte)
-	if b := dts[6]; len(b) > 0 {
-		if isError {
-			errorText := string(b)
-			err = resolveError(errorText)
-		} else {
-			body = b // keep it like that.
-		}
+	if b := dts[6]; isError {
+		errorText := string(b)
+		err = resolveError(errorText)
+	} else if len(b) > 0 {
+		body = b // keep it like that.
 	}
 
 	return
-- 
2.43.0


From aaf86c863395be9e59c94603bdcfcb7a7ad359d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:59 +0000
Subject: [PATCH 22/49] fix: gorilla: set the write deadline under the write
 lock

---
 gorilla/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From ee334628fee0cdfd5bdc12182f2183b34ff07ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:40 +0000
Subject: [PATCH 23/49] fix: gobwas: control frames should not be mixed with
 messages or fail by a past write deadline

---
 gobwas/socket.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..a35e0c6 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,7 +33,14 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
+
+	// control frames (i.e pong) are written by the reader, they should not be mixed with the rest of the writes.
+	controlHandler := wsutil.ControlFrameHandler(controlWriter{s}, state)
 
 	reader := &wsutil.Reader{
 		Source:          underline,
@@ -47,13 +54,18 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		OnIntermediate: controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	s.reader = reader
+	s.controlHandler = controlHandler
+	return s
+}
+
+type controlWriter struct{ *Socket }
+
+func (w controlWriter) Write(p []byte) (int, error) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	return w.UnderlyingConn.Write(p)
 }
 
 // NetConn returns the underline net connection.
@@ -139,13 +151,14 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 
 func (s *Socket) write(body []byte, op gobwas.OpCode, timeout time.Duration) error {
 	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
+		// clear it, otherwise it would be applied to a later control frame.
+		defer s.UnderlyingConn.SetWriteDeadline(time.Time{})
 	}
 
 	// println("write: " + string(body))
-	err := wsutil.WriteMessage(s.UnderlyingConn, s.state, op, body)
-	s.mu.Unlock()
-
-	return err
+	return wsutil.WriteMessage(s.UnderlyingConn, s.state, op, body)
 }
-- 
2.43.0


From 07e65776aa2e81eafe2eb5da30c64453cf8e828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 24/49] fix: gobwas: messages that came along with the
 handshake should not be lost

---
 gobwas/dialer.go   |  4 ++--
 gobwas/socket.go   | 18 ++++++++++++++++--
 gobwas/upgrader.go |  4 ++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..4df3ef0 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,11 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		return newSocket(underline, br, nil, true), nil
 	}
 }
diff --git a/gobwas/socket.go b/gobwas/socket.go
index a35e0c6..5a3a2f3 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -1,6 +1,8 @@
 package gobwas
 
 import (
+	"bufio"
+	"bytes"
 	"io"
 	"io/ioutil"
 	"net"
@@ -27,7 +29,7 @@ type Socket struct {
 	mu sync.Mutex
 }
 
-func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
+func newSocket(underline net.Conn, br *bufio.Reader, request *http.Request, client bool) *Socket {
 	state := gobwas.StateServerSide
 	if client {
 		state = gobwas.StateClientSide
@@ -43,7 +45,7 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 	controlHandler := wsutil.ControlFrameHandler(controlWriter{s}, state)
 
 	reader := &wsutil.Reader{
-		Source:          underline,
+		Source:          newSource(underline, br),
 		State:           state,
 		CheckUTF8:       true,
 		SkipHeaderCheck: false,
@@ -59,6 +61,18 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 	return s
 }
 
+// newSource returns the reader of the connection, the "br" may contain
+// data that came right after the handshake.
+func newSource(underline net.Conn, br *bufio.Reader) io.Reader {
+	if br == nil || br.Buffered() == 0 {
+		return underline
+	}
+
+	b := make([]byte, br.Buffered())
+	io.ReadFull(br, b)
+	return io.MultiReader(bytes.NewReader(b), underline)
+}
+
 type controlWriter struct{ *Socket }
 
 func (w controlWriter) Write(p []byte) (int, error) {
diff --git a/gobwas/upgrader.go b/gobwas/upgrader.go
index 4d4e106..3d1137c 100644
--- a/gobwas/upgrader.go
+++ b/gobwas/upgrader.go
@@ -15,11 +15,11 @@ var DefaultUpgrader = Upgrader(gobwas.HTTPUpgrader{})
 // Should be used on `neffos.New` to construct the neffos server.
 func Upgrader(upgrader gobwas.HTTPUpgrader) neffos.Upgrader {
 	return func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
-		underline, _, _, err := upgrader.Upgrade(r, w)
+		underline, rw, _, err := upgrader.Upgrade(r, w)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, r, false), nil
+		return newSocket(underline, rw.Reader, r, false), nil
 	}
 }
-- 
2.43.0


From 7a4297e523f2286aeaaf248d87cee6d48e2946b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 25/49] fix: StackExchange should be always notified for the
 disconnection of a connection that it was notified for

---
 server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index ea64977..0904aa9 100644
--- a/server.go
+++ b/server.go
@@ -182,10 +182,9 @@ func (s *Server) start() {
 				// println("disconnect...")
 				if s.OnDisconnect != nil {
 					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
+					if s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil) {
+						s.OnDisconnect(c)
 					}
-					s.OnDisconnect(c)
 				}
 
 				if s.usesStackExchange() {
-- 
2.43.0


From 1e4e6c2550edfda36b9ce6fe9d4a3a65474f5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 26/49] fix: Server#Ask through a StackExchange should get its
 reply

The wait token was malformed, so it was never recognised by the other side, and the
subscriptions were not ready for the reply or for more than one of them.
---
 conn.go                                    |  3 ++-
 message.go                                 | 13 +++++--------
 stackexchange.go                           |  6 +++---
 stackexchange/nats/stackexchange_nats.go   | 15 ++++++++++++---
 stackexchange/redis/stackexchange_redis.go | 10 +++++++++-
 5 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index bedd164..fabe51d 100644
--- a/conn.go
+++ b/conn.go
@@ -1053,7 +1053,8 @@ func (c *Conn) Write(msg Message) bool {
 // reply sends back the error (or the `Reply`) of an incoming "msg".
 // If the remote side waits for it then it's always sent, even if the namespace or the room is not available (anymore).
 func (c *Conn) reply(msg Message) bool {
-	if msg.wait == "" || msg.IsWait(c.IsClient()) || c.IsClosed() {
+	// requests of clients are marked with a prefix.
+	if msg.wait == "" || (msg.wait[0] == waitComesFromClientPrefix) == c.IsClient() || c.IsClosed() {
 		return c.Write(msg)
 	}
 
diff --git a/message.go b/message.go
index e252b1f..8735757 100644
--- a/message.go
+++ b/message.go
@@ -256,9 +256,9 @@ func genWaitStackExchange(wait string) string {
 	}
 
 	// This is the second special character.
-	// If found, it is removed on the deserialization
-	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	// If found on the deserialization then
+	// the Message.FromStackExchange is set to true.
+	return string(wait[0]) + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -362,12 +362,9 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		wait = ""
 	}
 
+	// the wait token is kept as it is, because the client should send it back and
+	// the asker server waits for that exact token.
 	fromStackExchange := len(wait) > 2 && wait[1] == waitComesFromStackExchange
-	if fromStackExchange {
-		// remove the second special char, we need to reform it,
-		// this wait token is compared to the waiter side as it's without the information about stackexchnage.
-		wait = string(wait[0]) + wait[2:]
-	}
 
 	return Message{
 		wait:              wait,
diff --git a/stackexchange.go b/stackexchange.go
index c355e91..e94b284 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	response, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		response, err = s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return response, err
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..368fab7 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -315,9 +315,14 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return
 	}
 
-	ch := make(chan neffos.Message)
+	defer subConn.Close()
+
+	ch := make(chan neffos.Message, 1)
 	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+		select {
+		case ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false):
+		default: // more than one connections may reply, keep the first one.
+		}
 	})
 
 	if err != nil {
@@ -325,7 +330,11 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	}
 
 	defer sub.Unsubscribe()
-	defer subConn.Close()
+
+	// make sure that it's subscribed before publish.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..58bb421 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -258,7 +258,15 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	if err != nil {
 		return
 	}
-	defer sub.Close()
+	defer func() {
+		// more than one connections may reply, Close requires a reader.
+		go func() {
+			for range msgCh {
+			}
+		}()
+		sub.Close()
+		close(msgCh)
+	}()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 52b3d072859b2569d8f2e4a1dd616735d162aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:58 +0000
Subject: [PATCH 27/49] fix: broadcasting an asked message except its sender
 through a StackExchange should not panic

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 0904aa9..806e929 100644
--- a/server.go
+++ b/server.go
@@ -543,6 +543,8 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 				msgs[i].from = from
 			} else {
 				msgs[i].FromExplicit = fromExplicit
+				// the sender is excluded, so it's not a reply to its request (if any).
+				msgs[i].wait = ""
 			}
 		}
 	}
-- 
2.43.0


From ea965e5a511dcbec8d7f47230e75506169a7ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:26 +0000
Subject: [PATCH 28/49] fix: Exclude by connection ID should be respected
 through a StackExchange

---
 conn.go    |  6 +++++-
 message.go | 10 +++++++++-
 server.go  |  3 +++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index fabe51d..1f7b1b1 100644
--- a/conn.go
+++ b/conn.go
@@ -474,6 +474,8 @@ func (c *Conn) handleMessage(msg Message) error {
 		return ErrInvalidPayload
 	}
 
+	msg.from = "" // only a stackexchange can set it.
+
 	if msg.IsNative && c.shouldHandleOnlyNativeMessages {
 		ns := c.Namespace("")
 		return ns.events.fireEvent(ns, msg)
@@ -1026,7 +1028,7 @@ func (c *Conn) canWrite(msg Message) bool {
 	// don't write if explicit "from" field is set
 	// to this server's instance client connection ~~~but give a chance to Publish
 	// it to other instances with the same conn ID, if any~~~.
-	if c.Is(msg.FromExplicit) {
+	if c.Is(msg.FromExplicit) || (msg.FromStackExchange && msg.from != "" && msg.from == c.ID()) {
 		return false
 	}
 
@@ -1047,6 +1049,7 @@ func (c *Conn) Write(msg Message) bool {
 	}
 
 	msg.FromExplicit = ""
+	msg.from = ""
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
@@ -1059,6 +1062,7 @@ func (c *Conn) reply(msg Message) bool {
 	}
 
 	msg.FromExplicit = ""
+	msg.from = ""
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
 
diff --git a/message.go b/message.go
index 8735757..1984264 100644
--- a/message.go
+++ b/message.go
@@ -301,6 +301,8 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = msg.FromExplicit
+		} else if msg.from != "" {
+			msg.wait = excludeConnIDPrefix + escape(msg.from)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
@@ -362,6 +364,12 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		wait = ""
 	}
 
+	from := ""
+	if strings.HasPrefix(wait, excludeConnIDPrefix) {
+		from = unescape(wait[len(excludeConnIDPrefix):])
+		wait = ""
+	}
+
 	// the wait token is kept as it is, because the client should send it back and
 	// the asker server waits for that exact token.
 	fromStackExchange := len(wait) > 2 && wait[1] == waitComesFromStackExchange
@@ -376,7 +384,7 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		isError:           err != nil,
 		isNoOp:            isNoOp,
 		isInvalid:         isInvalid,
-		from:              "",
+		from:              from,
 		FromExplicit:      fromExplicit,
 		FromStackExchange: fromStackExchange,
 		To:                "",
diff --git a/server.go b/server.go
index 806e929..b6e9f0d 100644
--- a/server.go
+++ b/server.go
@@ -277,6 +277,9 @@ func isServerConnID(s string) bool {
 	return strings.HasPrefix(s, "neffos(0x")
 }
 
+// prefix of a connection's ID that should be excluded from the receivers, see `Exclude` and `serializeMessage`.
+const excludeConnIDPrefix = "neffos(id:"
+
 func genServerConnID(s *Server, c *Conn) string {
 	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, c.id, c)
 }
-- 
2.43.0


From 08cdea0fb8e2358d16763c40e94a5e5751341eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:32 +0000
Subject: [PATCH 29/49] fix: subscribe to a namespace through StackExchange
 before its connected event, which may broadcast or disconnect it

---
 conn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 1f7b1b1..7b012c5 100644
--- a/conn.go
+++ b/conn.go
@@ -819,12 +819,13 @@ func (c *Conn) replyConnect(msg Message) {
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
-	connectMsg.Event = OnNamespaceConnected
-	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-
+	// before the event, its callback may broadcast or disconnect.
 	if !c.IsClient() && c.server.usesStackExchange() {
 		c.server.StackExchange.Subscribe(c, ns.namespace)
 	}
+
+	connectMsg.Event = OnNamespaceConnected
+	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
 }
 
 func (c *Conn) notifyNamespaceDisconnect(_ *NSConn, disconnectMsg Message) {
-- 
2.43.0


From b4c5c7f8e3590fe6ebc6ef7c665ae9a214302266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:40 +0000
Subject: [PATCH 30/49] fix: a struct with unexported fields should be able to
 be used as events controller

---
 reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reflect.go b/reflect.go
index 153a5dc..76319da 100644
--- a/reflect.go
+++ b/reflect.go
@@ -81,6 +81,11 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	v = reflect.Indirect(v)
 
 	visitFields(v.Type(), func(f reflect.StructField) bool {
+		if f.PkgPath != "" {
+			// unexported, it can't be set to the new values.
+			return false
+		}
+
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
 		if !isZero(fieldValue) {
-- 
2.43.0


From 297c8d53b19b73221fde268e4d445035a5535949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:11 +0000
Subject: [PATCH 31/49] fix: Room#Leave should fire its own side's events as
 local, like LeaveAll, JoinRoom and Disconnect do

---
 conn_room.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_room.go b/conn_room.go
index a882b3e..f825754 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -46,5 +46,6 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
+		IsLocal:   true,
 	})
 }
-- 
2.43.0


From fac17297fd3da2f4485ca22c41744f25f3e0abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:28 +0000
Subject: [PATCH 32/49] fix: messages that were read while waiting inside a
 callback should be handled right after it, not when the next one comes

---
 conn.go | 67 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index 7b012c5..42f9fcf 100644
--- a/conn.go
+++ b/conn.go
@@ -88,8 +88,10 @@ type Conn struct {
 
 	// the reads are serialized, a message that it's read while waiting
 	// inside a handler and it's not a reply is handled, by order, right after that handler.
-	readMutex sync.Mutex
-	readAhead []readData
+	reading        chan struct{} // filled by the one who reads.
+	readAhead      []readData
+	readAheadMutex sync.Mutex
+	readAheadCh    chan struct{} // filled when readAhead is not empty.
 	// more than 0 if the connection's reading is failed but connection is not closed yet.
 	readFailed *uint32
 
@@ -118,6 +120,8 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
 		isInsideHandler:                new(uint32),
+		reading:                        make(chan struct{}, 1),
+		readAheadCh:                    make(chan struct{}, 1),
 		readFailed:                     new(uint32),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
@@ -350,16 +354,49 @@ type readData struct {
 
 // readNext returns the next message that should be handled by the `startReader`.
 func (c *Conn) readNext() ([]byte, MessageType, error) {
-	c.readMutex.Lock()
-	defer c.readMutex.Unlock()
+	for {
+		if next, ok := c.popReadAhead(); ok {
+			return next.body, next.typ, next.err
+		}
+
+		select {
+		case <-c.readAheadCh:
+			// a `readOnce`, which may outlive its caller, read something.
+		case c.reading <- struct{}{}:
+			if next, ok := c.popReadAhead(); ok {
+				<-c.reading
+				return next.body, next.typ, next.err
+			}
 
-	if len(c.readAhead) > 0 {
-		next := c.readAhead[0]
-		c.readAhead = c.readAhead[1:]
-		return next.body, next.typ, next.err
+			b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+			<-c.reading
+			return b, msgTyp, err
+		}
 	}
+}
+
+func (c *Conn) pushReadAhead(next readData) {
+	c.readAheadMutex.Lock()
+	c.readAhead = append(c.readAhead, next)
+	c.readAheadMutex.Unlock()
 
-	return c.socket.ReadData(c.readTimeout)
+	select {
+	case c.readAheadCh <- struct{}{}:
+	default:
+	}
+}
+
+func (c *Conn) popReadAhead() (next readData, ok bool) {
+	c.readAheadMutex.Lock()
+	defer c.readAheadMutex.Unlock()
+
+	if len(c.readAhead) == 0 {
+		return
+	}
+
+	next = c.readAhead[0]
+	c.readAhead = c.readAhead[1:]
+	return next, true
 }
 
 // readUntil reads, on behalf of the `startReader` which is blocked by a handler, until "done".
@@ -370,8 +407,12 @@ func (c *Conn) readUntil(done <-chan struct{}) {
 }
 
 func (c *Conn) readOnce(done <-chan struct{}) bool {
-	c.readMutex.Lock()
-	defer c.readMutex.Unlock()
+	select {
+	case <-done:
+		return false
+	case c.reading <- struct{}{}:
+		defer func() { <-c.reading }()
+	}
 
 	if atomic.LoadUint32(c.readFailed) > 0 {
 		return false
@@ -385,14 +426,14 @@ func (c *Conn) readOnce(done <-chan struct{}) bool {
 
 	b, msgTyp, err := c.socket.ReadData(c.readTimeout)
 	if err != nil {
-		c.readAhead = append(c.readAhead, readData{err: err})
+		c.pushReadAhead(readData{err: err})
 		atomic.StoreUint32(c.readFailed, 1)
 		c.cancelWaitingMessages()
 		return false
 	}
 
 	if handled, _ := c.handleReply(c.DeserializeMessage(msgTyp, b)); !handled {
-		c.readAhead = append(c.readAhead, readData{body: b, typ: msgTyp})
+		c.pushReadAhead(readData{body: b, typ: msgTyp})
 	}
 
 	return true
-- 
2.43.0


From 3fc3441cc56eb2100b61f82a75cce9be4262ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 33/49] fix: native-only servers should not handle messages of
 a connection before OnConnect accepts it

---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 42f9fcf..e5946b1 100644
--- a/conn.go
+++ b/conn.go
@@ -142,7 +142,6 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 			c.connectedNamespaces[""] = newNSConn(c, "", emptyNamespace)
 			c.shouldHandleOnlyNativeMessages = true
 			atomic.StoreUint32(c.acknowledged, 1)
-			c.readiness.unwait(nil)
 		}
 	}
 
@@ -316,6 +315,13 @@ func (c *Conn) startReader() {
 	}
 	defer c.Close()
 
+	if c.shouldHandleOnlyNativeMessages && !c.IsClient() {
+		// there is no ACK to wait for the `Server#OnConnect`.
+		if err := c.readiness.wait(); err != nil {
+			return
+		}
+	}
+
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
-- 
2.43.0


From d17b2a6e9dfc74352805b905ffb414d57e616ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:15 +0000
Subject: [PATCH 34/49] fix: a StackExchange sees a connection's OnConnect
 before its OnDisconnect

The reader was started (and the connection registered) before the exchange's OnConnect, so a connection that
was lost meanwhile was disconnected from the exchange first and its subscriber stayed forever.
---
 server.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index b6e9f0d..07dd6c5 100644
--- a/server.go
+++ b/server.go
@@ -349,8 +349,22 @@ func (s *Server) Upgrade(
 	// capture it here, any broadcast after that point should be visible to this connection.
 	awaiter := s.broadcaster.getAwaiter()
 
+	// Before `OnConnect` in order to be able
+	// to Broadcast inside the `OnConnect` custom func and
+	// before anything that may end the connection, its `OnDisconnect` should always come after.
+	var excErr error
+	if s.usesStackExchange() {
+		excErr = s.StackExchange.OnConnect(c)
+	}
+
 	// it should be registered before anything that may close it.
 	s.connect <- c
+	if c.IsClosed() {
+		// closed by a stackexchange.
+		go func() {
+			s.disconnect <- c
+		}()
+	}
 
 	if atomic.LoadUint32(&s.closed) > 0 {
 		// closed in the meantime.
@@ -368,15 +382,11 @@ func (s *Server) Upgrade(
 
 	go c.startReader()
 
-	// Before `OnConnect` in order to be able
-	// to Broadcast inside the `OnConnect` custom func.
-	if s.usesStackExchange() {
-		if err := s.StackExchange.OnConnect(c); err != nil {
-			if !c.readiness.unwait(err) {
-				c.Close()
-			}
-			return nil, err
+	if excErr != nil {
+		if !c.readiness.unwait(excErr) {
+			c.Close()
 		}
+		return nil, excErr
 	}
 
 	// Start the reader before `OnConnect`, remember clients may remotely connect to namespace before `Server#OnConnect`
-- 
2.43.0


From eee11a7a4f4a19b660e22742321b2edf73450145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:45 +0000
Subject: [PATCH 35/49] fix: a message of a connected namespace does not wait
 for simultaneous Connect calls

---
 conn.go           | 31 +++++++++++++++++++++++++++----
 conn_namespace.go |  2 ++
 process.go        | 10 ++++++----
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index e5946b1..bf35a7c 100644
--- a/conn.go
+++ b/conn.go
@@ -714,14 +714,36 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 // waitProcess waits any `askConnect` process (if any) of that "namespace".
 // That process may need a reply in order to be done, so keep reading while waiting.
 func (c *Conn) waitProcess(namespace string) {
-	if done := c.processes.get(namespace).wait(); done != nil {
-		go c.readUntil(done)
-		<-done
+	for c.waitProcessOnce(namespace) {
+	}
+}
+
+// waitProcessOnce waits for one of the running `askConnect` of that "namespace" to finish,
+// it returns false if there is nothing to wait.
+func (c *Conn) waitProcessOnce(namespace string) bool {
+	done := c.processes.get(namespace).wait()
+	if done == nil {
+		return false
 	}
+
+	go c.readUntil(done)
+	<-done
+	return true
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.waitProcess(in.Namespace) // wait any `askConnect` process (if any) of that "in.Namespace".
+	// wait any `askConnect` process (if any) of that "in.Namespace" but
+	// not those that are simultaneous to an already connected one,
+	// their answers may depend on the messages that are going to be read after this one.
+	for {
+		if ns := c.Namespace(in.Namespace); ns != nil && atomic.LoadUint32(&ns.ready) > 0 {
+			return ns, true
+		}
+
+		if !c.waitProcessOnce(in.Namespace) {
+			break
+		}
+	}
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
@@ -873,6 +895,7 @@ func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
 
 	connectMsg.Event = OnNamespaceConnected
 	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
+	atomic.StoreUint32(&ns.ready, 1)
 }
 
 func (c *Conn) notifyNamespaceDisconnect(_ *NSConn, disconnectMsg Message) {
diff --git a/conn_namespace.go b/conn_namespace.go
index 3514bae..e61adc8 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -30,6 +30,8 @@ type NSConn struct {
 
 	// more than 0 if disconnected or it's going to, so disconnect is done once.
 	disconnected uint32
+	// more than 0 if connected and its `OnNamespaceConnected` event is done.
+	ready uint32
 
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
diff --git a/process.go b/process.go
index fe918f5..29b7961 100644
--- a/process.go
+++ b/process.go
@@ -47,7 +47,7 @@ type process struct {
 
 	mu      sync.Mutex
 	running int           // how many `Start` calls without a `Done` yet.
-	waiting chan struct{} // closed when running is back to zero.
+	waiting chan struct{} // closed by the next `Done`.
 }
 
 // Signal closes the channel.
@@ -75,20 +75,22 @@ func (p *process) Done() {
 	}
 
 	p.running--
+	close(p.waiting)
 	if p.running == 0 {
 		atomic.StoreUint32(&p.done, 1)
-		close(p.waiting)
+	} else {
+		p.waiting = make(chan struct{})
 	}
 }
 
 // Wait waits until not running. See `Done` too.
 func (p *process) Wait() {
-	if ch := p.wait(); ch != nil {
+	for ch := p.wait(); ch != nil; ch = p.wait() {
 		<-ch
 	}
 }
 
-// wait returns a channel which is closed when the process is done
+// wait returns a channel which is closed on the next `Done`
 // or nil if it's not running.
 func (p *process) wait() <-chan struct{} {
 	p.mu.Lock()
-- 
2.43.0


From f217fe12afe8068923b53c7277f6154ba7f33ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:52 +0000
Subject: [PATCH 36/49] fix: a reply that comes after the close is not an
 incoming request

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index bf35a7c..8b09886 100644
--- a/conn.go
+++ b/conn.go
@@ -599,7 +599,8 @@ func (c *Conn) handleReply(msg Message) (bool, error) {
 	}
 
 	// a late reply when server, clients mark their own requests with a prefix.
-	return !isClient, nil
+	// On a closed connection the request was just canceled, see `cancelWaitingMessages`.
+	return !isClient || c.IsClosed(), nil
 }
 
 // cancelWaitingMessages fails the `Ask` calls that are waiting for a reply.
-- 
2.43.0


From eb65babc7b2d2a9d5fa29f557f425390397d0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:02 +0000
Subject: [PATCH 37/49] fix: messages queued before the acknowledgement are not
 handled after the close

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 8b09886..3fd8601 100644
--- a/conn.go
+++ b/conn.go
@@ -506,6 +506,9 @@ func (c *Conn) handleQueue() {
 	defer atomic.StoreUint32(c.isInsideHandler, 0)
 
 	for _, q := range c.queue {
+		if c.IsClosed() {
+			break
+		}
 		c.HandlePayload(q.typ, q.body)
 	}
 
-- 
2.43.0


From 2063c8d7dcab90dda5f78f1c2639ef0b0e454917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 38/49] fix: the remote side can not set the sender of a
 message

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 3fd8601..073912d 100644
--- a/conn.go
+++ b/conn.go
@@ -524,7 +524,9 @@ func (c *Conn) handleMessage(msg Message) error {
 		return ErrInvalidPayload
 	}
 
-	msg.from = "" // only a stackexchange can set it.
+	// only a server can set them, never the remote side.
+	msg.from = ""
+	msg.FromExplicit = ""
 
 	if msg.IsNative && c.shouldHandleOnlyNativeMessages {
 		ns := c.Namespace("")
-- 
2.43.0


From fc8f961024efb706eb06e062dd4d78ccfe2810ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 39/49] fix: stackexchanges can publish to the rooms of the
 empty namespace

---
 stackexchange/nats/stackexchange_nats.go   | 5 ++---
 stackexchange/redis/stackexchange_redis.go | 5 -----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 368fab7..abc5d7a 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -229,9 +229,8 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		return exc.SubjectPrefix + "." + connID
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
+	if namespace == "" {
+		return exc.SubjectPrefix
 	}
 
 	return exc.SubjectPrefix + "." + namespace
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 58bb421..fcd1cc9 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -186,11 +186,6 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 		return exc.channel + "." + connID + "."
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
-	}
-
 	return exc.channel + "." + namespace + "."
 }
 
-- 
2.43.0


From 2ebdbf54f37091315aab16c62791c1065fa7fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 40/49] fix: a client can not inject nats protocol through its
 reply's token

---
 stackexchange/nats/stackexchange_nats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index abc5d7a..f54a2f1 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -349,6 +349,11 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 
 // NotifyAsk notifies and unblocks a "msg" subscriber, called on a server connection's read when expects a result.
 func (exc *StackExchange) NotifyAsk(msg neffos.Message, token string) error {
+	// the token comes from the client and the publisher does not validate subjects.
+	if strings.ContainsAny(token, " \t\r\n") {
+		return nats.ErrBadSubject
+	}
+
 	msg.ClearWait()
 	err := exc.publisher.Publish(token, msg.Serialize())
 	if err != nil {
-- 
2.43.0


From ae5eec6e055e74c4152a30b89cd29d78dec49a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 41/49] fix: nats connections are closed even if not connected
 at that time

---
 stackexchange/nats/stackexchange_nats.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index f54a2f1..9e1f915 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -211,10 +211,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
-				if sub.subConn.IsConnected() {
-					sub.subConn.Close()
-				}
-
+				sub.subConn.Close()
 				delete(exc.subscribers, m.conn)
 			}
 		}
@@ -261,6 +258,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -269,6 +267,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
-- 
2.43.0


From c94d781d78b5167a370bf3384bac412e3b7aeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 42/49] fix: a namespace is subscribed when the stackexchange's
 Subscribe returns

---
 stackexchange/nats/stackexchange_nats.go   | 3 +++
 stackexchange/redis/stackexchange_redis.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 9e1f915..95851bc 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -369,6 +369,9 @@ func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
 		conn:      c,
 		namespace: namespace,
 	}
+	// actions run one by one, an empty one is accepted when the above is done,
+	// so any message that is published after this call is received.
+	exc.subscribe <- subscribeAction{}
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index fcd1cc9..233bee1 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -291,6 +291,9 @@ func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
 		conn:      c,
 		namespace: namespace,
 	}
+	// actions run one by one, an empty one is accepted when the above is done,
+	// so any message that is published after this call is received.
+	exc.subscribe <- subscribeAction{}
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
-- 
2.43.0


From 3f952d42f8ffcc3e2475bc14d4de765db606acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 43/49] fix: a timed out write of gorilla should close the
 connection too

---
 event.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/event.go b/event.go
index cbfe42f..ce25c91 100644
--- a/event.go
+++ b/event.go
@@ -120,7 +120,8 @@ func IsTimeoutError(err error) bool {
 		return false
 	}
 
-	if netErr, ok := err.(*net.OpError); ok {
+	// the *net.OpError or a socket implementation's own type, i.e gorilla wraps the errors of its writes.
+	if netErr, ok := err.(net.Error); ok {
 		// poll.TimeoutError is the /internal/poll of the go language itself, we can't use it directly.
 		return netErr.Timeout()
 	}
-- 
2.43.0


From ffa660477a87a21b1f2a4f5b7cf67a990c60d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:00 +0000
Subject: [PATCH 44/49] fix: a reply which was read before the connection was
 lost could be handled as an incoming event

---
 conn.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 073912d..cb64d5e 100644
--- a/conn.go
+++ b/conn.go
@@ -599,7 +599,10 @@ func (c *Conn) handleReply(msg Message) (bool, error) {
 	delete(c.waitingMessages, msg.wait)
 	c.waitingMessagesMutex.Unlock()
 	if ok {
-		ch <- msg // it never blocks, there is only one reply per entry.
+		select {
+		case ch <- msg:
+		default: // canceled.
+		}
 		return true, nil
 	}
 
@@ -609,11 +612,14 @@ func (c *Conn) handleReply(msg Message) (bool, error) {
 }
 
 // cancelWaitingMessages fails the `Ask` calls that are waiting for a reply.
+// The entries are not removed, so a reply that was already read is not handled as an incoming event.
 func (c *Conn) cancelWaitingMessages() {
 	c.waitingMessagesMutex.Lock()
-	for wait, ch := range c.waitingMessages {
-		delete(c.waitingMessages, wait)
-		ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}
+	for _, ch := range c.waitingMessages {
+		select {
+		case ch <- Message{Err: CloseError{Code: -1, error: ErrWrite}, isError: true}:
+		default:
+		}
 	}
 	c.waitingMessagesMutex.Unlock()
 }
-- 
2.43.0


From ac215586dd92e164d085413bf675d4eb7c2491a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 45/49] fix: accept more than one NATS servers separated by
 comma

---
 stackexchange/nats/stackexchange_nats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 95851bc..9f454fa 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -131,6 +131,8 @@ func NewStackExchange(url string, options ...nats.Option) (*StackExchange, error
 	// append to make sure that any custom servers from caller
 	// are respected, no check for duplications.
 	opts.Servers = append(opts.Servers, servers...)
+	// it is parsed as a single one.
+	opts.Url = servers[0]
 
 	pubConn, err := opts.Connect()
 	if err != nil {
-- 
2.43.0


From ea7077b7dad27bd6050087c21b6272604a4f44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 46/49] fix: a message does not wait for simultaneous Connect
 calls if its namespace was connected meanwhile

---
 conn.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index cb64d5e..973b497 100644
--- a/conn.go
+++ b/conn.go
@@ -726,35 +726,31 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 // waitProcess waits any `askConnect` process (if any) of that "namespace".
 // That process may need a reply in order to be done, so keep reading while waiting.
 func (c *Conn) waitProcess(namespace string) {
-	for c.waitProcessOnce(namespace) {
+	p := c.processes.get(namespace)
+	for done := p.wait(); done != nil; done = p.wait() {
+		go c.readUntil(done)
+		<-done
 	}
 }
 
-// waitProcessOnce waits for one of the running `askConnect` of that "namespace" to finish,
-// it returns false if there is nothing to wait.
-func (c *Conn) waitProcessOnce(namespace string) bool {
-	done := c.processes.get(namespace).wait()
-	if done == nil {
-		return false
-	}
-
-	go c.readUntil(done)
-	<-done
-	return true
-}
-
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 	// wait any `askConnect` process (if any) of that "in.Namespace" but
 	// not those that are simultaneous to an already connected one,
 	// their answers may depend on the messages that are going to be read after this one.
 	for {
+		// before the check, so one that finishes meanwhile is not missed.
+		done := c.processes.get(in.Namespace).wait()
+
 		if ns := c.Namespace(in.Namespace); ns != nil && atomic.LoadUint32(&ns.ready) > 0 {
 			return ns, true
 		}
 
-		if !c.waitProcessOnce(in.Namespace) {
+		if done == nil {
 			break
 		}
+
+		go c.readUntil(done)
+		<-done
 	}
 
 	ns := c.Namespace(in.Namespace)
-- 
2.43.0


From 775683aaca83d5ff1067a8d41e2a450b33cefb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:47 +0000
Subject: [PATCH 47/49] fix: LeaveAll does not stop at a room which is being
 left meanwhile

---
 conn_namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index e61adc8..545b411 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -151,7 +151,7 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 	for _, room := range ns.Rooms() {
 		leaveMsg.Room = room.Name
 		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil {
-			if err == ErrBadRoom && ns.Room(room.Name) == nil {
+			if (err == ErrBadRoom || err == ErrWrite && !ns.Conn.IsClosed()) && ns.Room(room.Name) == nil {
 				continue // left meanwhile.
 			}
 			return err
-- 
2.43.0


From b2c9e050722e6f5e5d4ed1e53344d691dad81111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:21 +0000
Subject: [PATCH 48/49] fix: a connection with an empty ID receives broadcasts

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 07dd6c5..12d9df4 100644
--- a/server.go
+++ b/server.go
@@ -472,7 +472,7 @@ func (s *Server) Do(fn func(*Conn), async bool) {
 
 func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
-		if msg.from == c.ID() {
+		if msg.from != "" && msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
 			continue
 		}
-- 
2.43.0


From 8ad8c80279d904c32425ae424de299aed5bf76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:39 +0000
Subject: [PATCH 49/49] fix: exchanges do not mix connections whose ID is equal
 to a namespace with that namespace

---
 stackexchange/nats/stackexchange_nats.go   | 3 ++-
 stackexchange/redis/stackexchange_redis.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 9f454fa..3664340 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -225,7 +225,8 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.SubjectPrefix + "." + connID
+		// Not a dot, an ID may be equal to a namespace.
+		return exc.SubjectPrefix + ":" + connID
 	}
 
 	if namespace == "" {
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 233bee1..88464da 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -183,7 +183,8 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	if connID != "" {
 		// publish direct and let the server-side do the checks
 		// of valid or invalid message to send on this particular client.
-		return exc.channel + "." + connID + "."
+		// Not a dot, an ID may be equal to a namespace.
+		return exc.channel + ":" + connID + "."
 	}
 
 	return exc.channel + "." + namespace + "."
-- 
2.43.0

