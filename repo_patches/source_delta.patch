From 04eb86ace410e1b33db74fbd492efc65a0231273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 01/46] fix: address each message of a broadcast on its own

A message not meant for a connection made publishMessages skip the messages
after it in the same Broadcast call.
---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 19363e3..d7c9edd 100644
--- a/server.go
+++ b/server.go
@@ -437,12 +437,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From 87efce9163f698bf098ebf2c520494255ec32d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:29 +0000
Subject: [PATCH 02/46] fix: do not lose the wakeup of a connection waiting to
 be ready

An unwait that ran between wait's ready check and its lock left the waiter
blocked forever, and two concurrent unwaits could both set the error.
---
 waiter_once.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..39c30e5 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -44,28 +44,17 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch // closed, so it returns immediately, if it's ready.
 	return w.err
 }
 
 func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
+	if w == nil || !atomic.CompareAndSwapUint32(w.locked, 0, 1) { // unlock once.
 		return
 	}
 
 	w.err = err
 	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
-		close(w.ch)
-	}
+	close(w.ch)
 }
-- 
2.43.0


From b28721d33d2452c504619ff80ed5fe5618c88663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 03/46] fix: accept acknowledgement messages only from the side
 that sends them

A client could send the server's "A<id>" or "H<error>" message to mark its
connection as acknowledged before (or against) the server's OnConnect and to
change its connection ID; a server's "M" blocked the client's reader.
---
 conn.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..5623043 100644
--- a/conn.go
+++ b/conn.go
@@ -346,7 +346,14 @@ func (c *Conn) startReader() {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
+	typ := b[0]
+	if isClient := c.IsClient(); isClient == (typ == ackBinary) {
+		// the ack binary comes only from clients, the rest of them only from servers;
+		// it is not a valid ack message for this side.
+		typ = 0
+	}
+
+	switch typ {
 	case ackBinary:
 		// from client startup to server.
 		err := c.readiness.wait()
-- 
2.43.0


From 0bbb9ea2b86580e9bb5ba23c865e7e05e98deeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 04/46] fix: send the acknowledgement before any other message

The replies to queued messages, and a server-side Connect, could be written
before the "A<id>" message; a client drops what it reads before that.
---
 conn.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 5623043..bff6da7 100644
--- a/conn.go
+++ b/conn.go
@@ -362,12 +362,16 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else is able to write:
+		// client does not handle any message before that.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
+
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
-- 
2.43.0


From 6a256cc14156f80b03e7ece44ace25f75c745a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 05/46] fix: allow Ask inside the handler of a queued message

The reader runs the handlers of the messages queued before the
acknowledgement too, an Ask there waited for a reply nobody was reading.
---
 conn.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index bff6da7..df1d973 100644
--- a/conn.go
+++ b/conn.go
@@ -339,12 +339,17 @@ func (c *Conn) startReader() {
 			continue
 		}
 
-		atomic.StoreUint32(c.isInsideHandler, 1)
-		c.HandlePayload(msgTyp, b)
-		atomic.StoreUint32(c.isInsideHandler, 0)
+		c.handleRead(msgTyp, b)
 	}
 }
 
+// handles a message on the reader's goroutine.
+func (c *Conn) handleRead(msgTyp MessageType, b []byte) {
+	atomic.StoreUint32(c.isInsideHandler, 1)
+	c.HandlePayload(msgTyp, b)
+	atomic.StoreUint32(c.isInsideHandler, 0)
+}
+
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	typ := b[0]
 	if isClient := c.IsClient(); isClient == (typ == ackBinary) {
@@ -413,7 +418,7 @@ func (c *Conn) handleQueue() {
 
 	for msgTyp, q := range c.queue {
 		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
+			c.handleRead(msgTyp, b)
 		}
 
 		delete(c.queue, msgTyp)
-- 
2.43.0


From 82ee32993c016ea362b13991816c03e03e4007ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:21 +0000
Subject: [PATCH 06/46] fix: handle the messages queued before the
 acknowledgement in order

Text and binary messages were kept apart and handled in a random order.
---
 conn.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/conn.go b/conn.go
index df1d973..3e9c383 100644
--- a/conn.go
+++ b/conn.go
@@ -93,7 +93,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []queuedMessage
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -102,6 +102,12 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+// a message that is read but it's not handled yet.
+type queuedMessage struct {
+	typ     MessageType
+	payload []byte
+}
+
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -401,10 +407,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, queuedMessage{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -416,13 +419,11 @@ func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
 	defer c.queueMutex.Unlock()
 
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.handleRead(msgTyp, b)
-		}
-
-		delete(c.queue, msgTyp)
+	for _, q := range c.queue {
+		c.handleRead(q.typ, q.payload)
 	}
+
+	c.queue = nil
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From c22a987760fe8013bb3138c8fa2aa84019318411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 07/46] fix: make every wait token unique

Two asks in the same clock tick got the same token and the reply of the one
was delivered to the other.
---
 message.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/message.go b/message.go
index 7967b85..62b1ec0 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,8 +220,22 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// the last time used as wait token, see `genWait`.
+var lastWait int64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
+	for {
+		last := atomic.LoadInt64(&lastWait)
+		if now <= last {
+			now = last + 1 // clock's resolution may be low, keep it unique.
+		}
+
+		if atomic.CompareAndSwapInt64(&lastWait, last, now) {
+			break
+		}
+	}
+
 	wait := strconv.FormatInt(now, 10)
 
 	if isClientConn {
-- 
2.43.0


From 8df473e6a78a4209f01379625a2e1b13b156348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 08/46] fix: deliver every reply once and only to the Ask that
 waits for it

- An Ask while the reader was inside a handler (which includes an Ask just
  after another one) took the next message, whatever it was, as its reply and
  read the socket along with the reader: replies and events were lost.
- A second reply to a Server.Ask, or one after its deadline, blocked the
  reader of that connection forever.
- An Ask was not released when its connection closed.
- A reply that nobody waits for anymore fired an event's callback, whose own
  reply could be answered again, and so on.
---
 conn.go   | 150 +++++++++++++++++++++++++++++++++++++-----------------
 server.go |  12 +++--
 2 files changed, 110 insertions(+), 52 deletions(-)

diff --git a/conn.go b/conn.go
index 3e9c383..f48c853 100644
--- a/conn.go
+++ b/conn.go
@@ -85,6 +85,9 @@ type Conn struct {
 	processes *processes
 
 	isInsideHandler *uint32
+	// the messages that are read while the reader was inside a handler, see `readUntilReply`.
+	unhandled []queuedMessage
+	readMutex sync.Mutex
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -328,7 +331,7 @@ func (c *Conn) startReader() {
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
-		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+		b, msgTyp, err := c.read()
 		if err != nil {
 			c.readiness.unwait(err)
 			return
@@ -440,30 +443,8 @@ func (c *Conn) handleMessage(msg Message) error {
 		return ns.events.fireEvent(ns, msg)
 	}
 
-	if isClient := c.IsClient(); msg.IsWait(isClient) {
-		if !isClient {
-			if msg.FromStackExchange && c.server.usesStackExchange() {
-				// Currently let's not export the wait field, instead
-				// just accept it on the stackexchange.
-				return c.server.StackExchange.NotifyAsk(msg, msg.wait)
-			}
-			c.server.waitingMessagesMutex.RLock()
-			ch, ok := c.server.waitingMessages[msg.wait]
-			c.server.waitingMessagesMutex.RUnlock()
-			if ok {
-				ch <- msg
-				return nil
-			}
-		}
-
-		c.waitingMessagesMutex.RLock()
-		ch, ok := c.waitingMessages[msg.wait]
-		c.waitingMessagesMutex.RUnlock()
-		if ok {
-			ch <- msg
-			return nil
-		}
-
+	if isReply, err := c.handleReply(msg); isReply {
+		return err
 	}
 
 	switch msg.Event {
@@ -498,6 +479,48 @@ func (c *Conn) handleMessage(msg Message) error {
 	return nil
 }
 
+// handleReply delivers the "msg" to the `Ask` which waits for it,
+// reports whether the "msg" is a reply and not a message to be handled by an event.
+func (c *Conn) handleReply(msg Message) (bool, error) {
+	isClient := c.IsClient()
+	if msg.isInvalid || !msg.IsWait(isClient) {
+		return false, nil
+	}
+
+	if !isClient {
+		if msg.FromStackExchange && c.server.usesStackExchange() {
+			// Currently let's not export the wait field, instead
+			// just accept it on the stackexchange.
+			return true, c.server.StackExchange.NotifyAsk(msg, msg.wait)
+		}
+
+		if deliverReply(&c.server.waitingMessagesMutex, c.server.waitingMessages, msg) {
+			return true, nil
+		}
+	}
+
+	if deliverReply(&c.waitingMessagesMutex, c.waitingMessages, msg) {
+		return true, nil
+	}
+
+	// if nobody waits for it anymore then it should not be handled as a new message,
+	// client accepts questions from the server too.
+	return !isClient || msg.wait[0] == waitComesFromClientPrefix, nil
+}
+
+// deliverReply sends the "msg" once to its waiter, if any. It does not block.
+func deliverReply(mu *sync.RWMutex, waitingMessages map[string]chan Message, msg Message) bool {
+	mu.Lock()
+	ch, ok := waitingMessages[msg.wait]
+	delete(waitingMessages, msg.wait)
+	mu.Unlock()
+	if ok {
+		ch <- msg
+	}
+
+	return ok
+}
+
 // DeserializeMessage returns a Message from the "payload".
 func (c *Conn) DeserializeMessage(msgTyp MessageType, payload []byte) Message {
 	return DeserializeMessage(msgTyp, payload, c.allowNativeMessages, c.shouldHandleOnlyNativeMessages)
@@ -951,11 +974,11 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
+	mustReadReply := atomic.LoadUint32(c.isInsideHandler) == 1
+	return c.ask(ctx, msg, mustReadReply)
 }
 
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
+func (c *Conn) ask(ctx context.Context, msg Message, mustReadReply bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -979,43 +1002,76 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	ch := make(chan Message, 1)
 	msg.wait = genWait(c.IsClient())
 
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[msg.wait] = ch
+	c.waitingMessagesMutex.Unlock()
 
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
+	defer func() {
 		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
+		delete(c.waitingMessages, msg.wait)
 		c.waitingMessagesMutex.Unlock()
-	}
+	}()
 
 	if !c.Write(msg) {
 		return Message{}, ErrWrite
 	}
 
+	if mustReadReply {
+		// the reader may be blocked by the event's callback which called this method.
+		go c.readUntilReply(msg.wait)
+	}
+
 	select {
 	case <-ctx.Done():
 		if c.IsClosed() {
 			return Message{}, ErrWrite
 		}
 		return Message{}, ctx.Err()
+	case <-c.closeCh:
+		return Message{}, ErrWrite
 	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
+		return receive, receive.Err
+	}
+}
+
+// readUntilReply reads on behalf of the reader until the question with that "wait" is over.
+// It delivers replies and keeps the rest of the messages, in order, for the reader.
+func (c *Conn) readUntilReply(wait string) {
+	c.readMutex.Lock()
+	defer c.readMutex.Unlock()
+
+	for !c.IsClosed() {
+		c.waitingMessagesMutex.RLock()
+		_, waiting := c.waitingMessages[wait]
+		c.waitingMessagesMutex.RUnlock()
+		if !waiting {
+			return
 		}
 
-		return receive, receive.Err
+		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+		if err != nil {
+			c.Close()
+			return
+		}
+
+		if isReply, _ := c.handleReply(c.DeserializeMessage(msgTyp, b)); !isReply {
+			c.unhandled = append(c.unhandled, queuedMessage{msgTyp, b})
+		}
+	}
+}
+
+// read returns the next message that the reader should handle.
+func (c *Conn) read() ([]byte, MessageType, error) {
+	c.readMutex.Lock()
+	defer c.readMutex.Unlock()
+
+	if len(c.unhandled) > 0 {
+		next := c.unhandled[0]
+		c.unhandled = c.unhandled[1:]
+		return next.payload, next.typ, nil
 	}
+
+	return c.socket.ReadData(c.readTimeout)
 }
 
 // Close method will force-disconnect from all connected namespaces and force-leave from all joined rooms
diff --git a/server.go b/server.go
index d7c9edd..55dd40f 100644
--- a/server.go
+++ b/server.go
@@ -557,21 +557,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From c546eb256e79896e1efa9fd4b9f2553fecd699b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:41 +0000
Subject: [PATCH 09/46] fix: do not hold locks while callbacks run or replies
 are awaited

A callback of a forced leave or disconnect which used the connection's rooms
or namespaces, or an event received while LeaveAll or DisconnectAll was
waiting for its reply, blocked forever.
---
 conn.go           | 33 ++++++++++++++++++++++-----------
 conn_namespace.go | 23 ++++++++++-------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/conn.go b/conn.go
index f48c853..ddf74fc 100644
--- a/conn.go
+++ b/conn.go
@@ -620,6 +620,18 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 	return ns
 }
 
+// getNamespaces returns a slice copy of the connected namespaces.
+func (c *Conn) getNamespaces() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	namespaces := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		namespaces = append(namespaces, ns)
+	}
+	c.connectedNamespacesMutex.RUnlock()
+
+	return namespaces
+}
+
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
 
@@ -760,13 +772,10 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.getNamespaces() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg, true); err != nil && err != ErrBadNamespace {
 			return err
 		}
 	}
@@ -1081,16 +1090,18 @@ func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
+			for _, ns := range c.getNamespaces() {
 				// leave rooms first with force and local property before remove the namespace completely.
+				// the lock must not be held here, callbacks may use the connection.
 				ns.forceLeaveAll(true)
 
 				disconnectMsg.Namespace = ns.namespace
 				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+
+				c.connectedNamespacesMutex.Lock()
+				delete(c.connectedNamespaces, ns.namespace)
+				c.connectedNamespacesMutex.Unlock()
 			}
-			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
 			for wait := range c.waitingMessages {
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..11e9b8a 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -129,13 +129,10 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg, true); err != nil && err != ErrBadRoom {
 			return err
 		}
 	}
@@ -144,15 +141,15 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 }
 
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
+	for _, room := range ns.Rooms() {
+		// the lock must not be held here, callbacks may use the rooms.
+		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
-		delete(ns.rooms, room)
+		ns.roomsMutex.Lock()
+		delete(ns.rooms, room.Name)
+		ns.roomsMutex.Unlock()
 
 		leaveMsg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, leaveMsg)
-- 
2.43.0


From f182b53b5f5545f2e5bc6644fc884d4db3db513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:41 +0000
Subject: [PATCH 10/46] fix: do not connect a namespace after its connection is
 closed

A Close while OnNamespaceConnect was running left the namespace connected on
the closed connection and its disconnect event was never fired.
---
 conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conn.go b/conn.go
index ddf74fc..ba48af7 100644
--- a/conn.go
+++ b/conn.go
@@ -699,6 +699,11 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	// }
 
 	c.connectedNamespacesMutex.Lock()
+	if c.IsClosed() {
+		// closed so far, it's too late for `Close` to disconnect it.
+		c.connectedNamespacesMutex.Unlock()
+		return nil, ErrWrite
+	}
 	c.connectedNamespaces[namespace] = ns
 	c.connectedNamespacesMutex.Unlock()
 
@@ -741,6 +746,11 @@ func (c *Conn) replyConnect(msg Message) {
 	}
 
 	c.connectedNamespacesMutex.Lock()
+	if c.IsClosed() {
+		// closed so far, it's too late for `Close` to disconnect it.
+		c.connectedNamespacesMutex.Unlock()
+		return
+	}
 	c.connectedNamespaces[msg.Namespace] = ns
 	c.connectedNamespacesMutex.Unlock()
 
-- 
2.43.0


From a94398aa3837e1dc18deb34e674e7b9c1900d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:41 +0000
Subject: [PATCH 11/46] fix: reply to a connect before the namespace's messages

A broadcast just after the namespace was marked as connected was written
before the reply: the other side's reader held that message until its Connect
was done, which was waiting for the reply that comes next.
---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ba48af7..2f90d98 100644
--- a/conn.go
+++ b/conn.go
@@ -752,9 +752,15 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 	c.connectedNamespaces[msg.Namespace] = ns
+	// reply before anything else is able to write to this namespace,
+	// the other side does not read the reply if it has to handle a message of that namespace first.
+	err = c.socket.WriteText(genEmptyReplyToWait(msg.wait), c.writeTimeout)
 	c.connectedNamespacesMutex.Unlock()
 
-	c.writeEmptyReply(msg.wait)
+	if IsCloseError(err) {
+		c.Close()
+		return
+	}
 
 	c.notifyNamespaceConnected(ns, msg)
 }
-- 
2.43.0


From 705ebb9ec8675108bcaa4b449cd4e71940c5df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:42 +0000
Subject: [PATCH 12/46] fix: share a process between its concurrent first users

Connect and the reader could get a different process for the same namespace,
so a message of a namespace that is about to connect was rejected.
---
 process.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/process.go b/process.go
index e36b1ed..5efe69a 100644
--- a/process.go
+++ b/process.go
@@ -24,12 +24,14 @@ func (p *processes) get(name string) *process {
 	p.locker.RUnlock()
 
 	if entry == nil {
-		entry = &process{
-			finished: make(chan struct{}),
-		}
-
 		p.locker.Lock()
-		p.entries[name] = entry
+		entry = p.entries[name] // re-check, maybe added so far.
+		if entry == nil {
+			entry = &process{
+				finished: make(chan struct{}),
+			}
+			p.entries[name] = entry
+		}
 		p.locker.Unlock()
 	}
 
-- 
2.43.0


From 940168ed3ac087fe0a6b5def7acdbe25c1e1b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:42 +0000
Subject: [PATCH 13/46] fix: hold the messages of a namespace on every Connect

Only the first Connect of a namespace held the messages which are sent just
after the other side accepted it, after a Disconnect they were lost.
---
 process.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/process.go b/process.go
index 5efe69a..5c1cef2 100644
--- a/process.go
+++ b/process.go
@@ -44,7 +44,10 @@ type process struct {
 	done uint32
 
 	finished chan struct{}
-	waiting  sync.WaitGroup
+
+	mu      sync.Mutex
+	running bool
+	waiting chan struct{} // closed when it's not running anymore.
 }
 
 // Signal closes the channel.
@@ -62,26 +65,39 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done releases the `Wait` calls, until the next `Start`.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
-		return
-	}
+	p.mu.Lock()
+	defer p.mu.Unlock()
 
-	p.waiting.Done()
+	if p.running {
+		p.running = false
+		atomic.StoreUint32(&p.done, 1)
+		close(p.waiting)
+	}
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until `Done` if it's started.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	p.mu.Lock()
+	running, waiting := p.running, p.waiting
+	p.mu.Unlock()
+
+	if running {
+		<-waiting
 	}
-	p.waiting.Wait()
 }
 
 // Start makes future `Wait` calls to hold until `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if !p.running {
+		p.running = true
+		atomic.StoreUint32(&p.done, 0)
+		p.waiting = make(chan struct{})
+	}
 }
 
 // isDone reports whether process is finished.
-- 
2.43.0


From 8a594803b3c660a6e1ddfd7f03915ad392be3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 14/46] fix: do not accept a connection because of a broadcast

A broadcast to a connection which is not connected to the namespace, nothing
is sent there, marked that connection as ready while its OnConnect was still
running: the error of OnConnect was then ignored.
---
 conn.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 2f90d98..5948249 100644
--- a/conn.go
+++ b/conn.go
@@ -909,11 +909,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		if !msg.locked {
 			c.connectedNamespacesMutex.RLock()
@@ -962,6 +957,11 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
-- 
2.43.0


From 9e66a8a25f5cd429402093ea882f18bad105f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 15/46] fix: close a connection refused by OnConnect if it was
 ready before

The error was ignored on connections of native messages, and when OnConnect
had sent a message: the refused connection stayed open.
---
 server.go      | 12 +++++++-----
 waiter_once.go |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index 55dd40f..8ce0241 100644
--- a/server.go
+++ b/server.go
@@ -350,7 +350,9 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			if !c.readiness.unwait(err) {
+				c.Close() // it was ready already, i.e native messages.
+			}
 			return nil, err
 		}
 	}
@@ -383,10 +385,10 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
-
-			// c.Close()
+			if !c.readiness.unwait(err) {
+				c.Close() // it was ready already, i.e native messages or `OnConnect` itself sent something before.
+			}
+			// No need to disconnect here otherwise, connection's .Close will be called on readiness ch errored.
 			return nil, err
 		}
 	}
diff --git a/waiter_once.go b/waiter_once.go
index 39c30e5..edb1888 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -48,13 +48,15 @@ func (w *waiterOnce) wait() error {
 	return w.err
 }
 
-func (w *waiterOnce) unwait(err error) {
+// reports whether it's the first `unwait` call, the rest of them are ignored.
+func (w *waiterOnce) unwait(err error) bool {
 	if w == nil || !atomic.CompareAndSwapUint32(w.locked, 0, 1) { // unlock once.
-		return
+		return false
 	}
 
 	w.err = err
 	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
 	close(w.ch)
+	return true
 }
-- 
2.43.0


From 6bc07024f57488034c7a65f00a3e041c59f28745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 16/46] fix: do not re-open a server which is closed just after
 New

---
 server.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server.go b/server.go
index 8ce0241..5ee9ea0 100644
--- a/server.go
+++ b/server.go
@@ -165,8 +165,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
-- 
2.43.0


From 14ff9e38082c136c65876cf3a0e4c48fcc7ae896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:39 +0000
Subject: [PATCH 17/46] fix: register a connection before its disconnect

The connect was buffered, so the disconnect of a connection that failed
immediately could be handled first, that connection was never removed.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 5ee9ea0..dfc7ac5 100644
--- a/server.go
+++ b/server.go
@@ -120,7 +120,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan []Message),
-- 
2.43.0


From b8339566269ed09b7b048aa9c59481e2718c24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:39 +0000
Subject: [PATCH 18/46] fix: close a connection that is upgraded while the
 server closes

---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index dfc7ac5..3bea1fa 100644
--- a/server.go
+++ b/server.go
@@ -342,6 +342,13 @@ func (s *Server) Upgrade(
 
 	s.connect <- c
 
+	if atomic.LoadUint32(&s.closed) > 0 {
+		// closed so far, it may be too late for `Close` to find that connection.
+		c.readiness.unwait(errServerClosed)
+		c.Close()
+		return nil, errServerClosed
+	}
+
 	go c.startReader()
 
 	// Before `OnConnect` in order to be able
-- 
2.43.0


From 99000772255805a43f8bfb0dd15539c01c56208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:39 +0000
Subject: [PATCH 19/46] fix: always notify the StackExchange about a disconnect

It was skipped, along with OnDisconnect, for the connections which are
refused by OnConnect, so their subscribers were never closed.
---
 server.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 3bea1fa..d907c3c 100644
--- a/server.go
+++ b/server.go
@@ -176,11 +176,8 @@ func (s *Server) start() {
 				delete(s.connections, c)
 				atomic.AddUint64(&s.count, ^uint64(0))
 				// println("disconnect...")
-				if s.OnDisconnect != nil {
-					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
-					}
+				// don't fire disconnect if was immediately closed on the `OnConnect` server event.
+				if s.OnDisconnect != nil && (s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil)) {
 					s.OnDisconnect(c)
 				}
 
-- 
2.43.0


From 75bdc7b077f09f6ba53925b2315e492b8e0093d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 20/46] fix: deliver every broadcast once and in order

The async broadcaster kept the last broadcast only: a connection which was
still writing the previous one lost it, or wrote a newer one twice, and the
messages were published to one connection at a time.
---
 broadcaster.go | 58 ++++++++++++++++++++++++++++----------------------
 server.go      | 21 ++++++++----------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..3a052ab 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,58 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
-// next broadcast call.
+// next broadcast call. It's a list of broadcasts, each connection goes through it on its own pace
+// so none of them is lost, repeated or re-ordered.
 type broadcaster struct {
-	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	mu   *sync.Mutex
+	next *broadcast // the next one to be published.
+}
+
+type broadcast struct {
+	published chan struct{} // closed when the below are set.
+	messages  []Message
+	next      *broadcast
+}
+
+func newBroadcast() *broadcast {
+	return &broadcast{published: make(chan struct{})}
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
 	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
+		mu:   new(sync.Mutex),
+		next: newBroadcast(),
 	}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+// getNext returns the next, not published yet, broadcast.
+func (b *broadcaster) getNext() *broadcast {
+	b.mu.Lock()
+	next := b.next
+	b.mu.Unlock()
+	return next
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	b.messages = msgs
+	current := b.next
+	current.messages = msgs
+	current.next = newBroadcast()
+	b.next = current.next
 	b.mu.Unlock()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	close(current.published)
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+// waitUntilClosed waits until that broadcast is published or the "closeCh" is closed.
+func (b *broadcast) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, next *broadcast, ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
-		ok = true
+	case <-b.published:
+		return b.messages, b.next, true
 	case <-closeCh:
+		return nil, nil, false
 	}
-
-	b.mu.Lock()
-	return
 }
diff --git a/server.go b/server.go
index d907c3c..e1c3eff 100644
--- a/server.go
+++ b/server.go
@@ -331,10 +331,7 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
-			}
-		}(c)
+		go s.waitMessages(c, s.broadcaster.getNext())
 	}
 
 	s.connect <- c
@@ -459,16 +456,16 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
+// waitMessages publishes all the broadcasts from "b" to the "c", until it's closed.
+func (s *Server) waitMessages(c *Conn, b *broadcast) {
+	for {
+		msgs, next, ok := b.waitUntilClosed(c.closeCh)
+		if !ok || !publishMessages(c, msgs) {
+			return
+		}
 
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
-		return false
+		b = next
 	}
-
-	return publishMessages(c, msgs)
 }
 
 type stringerValue struct{ v string }
-- 
2.43.0


From be06f6765ba924d18d5af0ef03c920c75b778892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 21/46] fix: do not modify the messages given to Broadcast

The excluded connection of one call stayed on the messages of the caller's
slice, and a StackExchange panicked on a message received by an Ask.
---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index e1c3eff..c6fcf55 100644
--- a/server.go
+++ b/server.go
@@ -516,7 +516,11 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 			from = exceptSender.String()
 		}
 
+		// the caller may use the same slice again, e.g. for the next sender.
+		msgs = append([]Message(nil), msgs...)
+
 		for i := range msgs {
+			msgs[i].wait = "" // an incoming question should not be asked to the others.
 			if from != "" {
 				msgs[i].from = from
 			} else {
-- 
2.43.0


From 82a5b2fe4f1096ef990d755107ec990d850b1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 22/46] fix: reply to the questions of a not connected
 namespace

The ErrBadNamespace reply was never sent, the other side's Ask waited forever.
---
 conn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 5948249..154592b 100644
--- a/conn.go
+++ b/conn.go
@@ -640,8 +640,11 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" && !in.isError {
+			// not with `Write`, it can't send to a not connected namespace.
+			in.Err = ErrBadNamespace
+			c.write(serializeMessage(in), in.SetBinary)
+		}
 		return nil, false
 	}
 
-- 
2.43.0


From 99f8ea9d7348e26b8627b7355d95121ac9bbc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 23/46] fix: give up a server-side Connect when the client
 never acknowledges

The wait time is not a multiple of the step so it was never exactly zero.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 154592b..612838a 100644
--- a/conn.go
+++ b/conn.go
@@ -561,7 +561,7 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 				}
 			}
 
-			if t == 0 {
+			if t <= 0 {
 				// when maxSyncWaitDur passed,
 				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
 				if c.IsClosed() {
-- 
2.43.0


From 9eb2ddc27f9da43073358f35673f8277fac1adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 24/46] fix: receive an error with empty text as an error

An event's error without text was received as a successful reply.
---
 message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index 62b1ec0..bb2fe91 100644
--- a/message.go
+++ b/message.go
@@ -471,13 +471,11 @@ func deserializeInput(b []byte, allowNativeMessages, shouldHandleOnlyNativeMessa
 	event = string(dts[3])
 	isError := bytes.Equal(dts[4], trueByte)
 	isNoOp = bytes.Equal(dts[5], trueByte)
-	if b := dts[6]; len(b) > 0 {
-		if isError {
-			errorText := string(b)
-			err = resolveError(errorText)
-		} else {
-			body = b // keep it like that.
-		}
+	if b := dts[6]; isError {
+		errorText := string(b)
+		err = resolveError(errorText)
+	} else if len(b) > 0 {
+		body = b // keep it like that.
 	}
 
 	return
-- 
2.43.0


From 7c5cd4c0240b0eead785fe7aebd85fb4d70a8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:40 +0000
Subject: [PATCH 25/46] fix: make Increment and Decrement atomic

Concurrent calls returned the same value and updates were lost.
---
 conn.go | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 612838a..d9b7a5c 100644
--- a/conn.go
+++ b/conn.go
@@ -226,23 +226,7 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	return c.add(key, 1)
 }
 
 // Decrement works like `Set` method.
@@ -259,21 +243,20 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
+	return c.add(key, -1)
+}
 
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
+func (c *Conn) add(key string, delta int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
-	intValue--
-	c.Set(key, intValue)
+
+	intValue, _ := c.store[key].(int) // zero if missing or to override.
+	intValue += delta
+	c.store[key] = intValue
 	return intValue
 }
 
-- 
2.43.0


From 66087ef737f1adb5835177e57b497702b8129242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:40 +0000
Subject: [PATCH 26/46] fix: send the reply of a StackExchange's Ask to the
 StackExchange

The mark of the wait token was added to its first character instead of being
its second one, so it was not recognised and such an Ask never got its reply.
---
 message.go | 6 +++++-
 server.go  | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/message.go b/message.go
index bb2fe91..ff96bf9 100644
--- a/message.go
+++ b/message.go
@@ -257,7 +257,7 @@ func genWaitStackExchange(wait string) string {
 	// This is the second special character.
 	// If found, it is removed on the deserialization
 	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -300,6 +300,10 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = msg.FromExplicit
+		} else if msg.FromStackExchange && msg.wait != "" {
+			// add the special character that the deserialization removed,
+			// so the reply will be sent to the stackexchange.
+			msg.wait = genWaitStackExchange(msg.wait)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
diff --git a/server.go b/server.go
index c6fcf55..a125741 100644
--- a/server.go
+++ b/server.go
@@ -558,8 +558,10 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(false)
 
 	if s.usesStackExchange() {
-		msg.wait = genWaitStackExchange(msg.wait)
-		return s.StackExchange.Ask(ctx, msg, msg.wait)
+		// the reply's token is without the stackexchange's mark.
+		token := msg.wait
+		msg.wait = genWaitStackExchange(token)
+		return s.StackExchange.Ask(ctx, msg, token)
 	}
 
 	ch := make(chan Message, 1)
-- 
2.43.0


From f7b53f9854a09690ce532ed8232017ad0473498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:25 +0000
Subject: [PATCH 27/46] fix: do not share the messages given to Broadcast with
 its caller

They are published after Broadcast returns, when the caller may have changed
them.
---
 server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index a125741..5dd4b07 100644
--- a/server.go
+++ b/server.go
@@ -503,6 +503,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// the caller may use the same slice again, e.g. for the next sender.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
@@ -516,9 +518,6 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 			from = exceptSender.String()
 		}
 
-		// the caller may use the same slice again, e.g. for the next sender.
-		msgs = append([]Message(nil), msgs...)
-
 		for i := range msgs {
 			msgs[i].wait = "" // an incoming question should not be asked to the others.
 			if from != "" {
-- 
2.43.0


From c9b36ba6ab0e952705142591f05fa7d5662c8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:39 +0000
Subject: [PATCH 28/46] fix: do not write a pong in the middle of a message

The gobwas socket replied to pings without the lock of its writes, a message
is written by more than one write call.
---
 gobwas/socket.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..5a0857b 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,9 +33,15 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	s.controlHandler = wsutil.ControlFrameHandler(controlWriter{s}, state)
+
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +50,22 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	return s
+}
+
+// controlWriter writes the replies of control frames, not in the middle of a message.
+type controlWriter struct {
+	s *Socket
+}
+
+func (w controlWriter) Write(b []byte) (int, error) {
+	w.s.mu.Lock()
+	defer w.s.mu.Unlock()
+
+	return w.s.UnderlyingConn.Write(b)
 }
 
 // NetConn returns the underline net connection.
-- 
2.43.0


From 235a441af98760387372bf228b63e4acc8f9e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:20 +0000
Subject: [PATCH 29/46] fix: connect a namespace once on simultaneous Connect
 calls

---
 conn.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index d9b7a5c..1172b69 100644
--- a/conn.go
+++ b/conn.go
@@ -676,20 +676,17 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 		return nil, err
 	}
 	// println("got connect")
-	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	// c.connectedNamespacesMutex.RLock()
-	// ns, ok = c.connectedNamespaces[namespace]
-	// c.connectedNamespacesMutex.RUnlock()
-	// if ok {
-	// 	return ns, nil
-	// }
-
 	c.connectedNamespacesMutex.Lock()
 	if c.IsClosed() {
 		// closed so far, it's too late for `Close` to disconnect it.
 		c.connectedNamespacesMutex.Unlock()
 		return nil, ErrWrite
 	}
+	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
+	if current := c.connectedNamespaces[namespace]; current != nil {
+		c.connectedNamespacesMutex.Unlock()
+		return current, nil
+	}
 	c.connectedNamespaces[namespace] = ns
 	c.connectedNamespacesMutex.Unlock()
 
@@ -737,7 +734,10 @@ func (c *Conn) replyConnect(msg Message) {
 		c.connectedNamespacesMutex.Unlock()
 		return
 	}
-	c.connectedNamespaces[msg.Namespace] = ns
+	connected := c.connectedNamespaces[msg.Namespace] != nil // maybe connected so far by a simultaneously `Connect` call.
+	if !connected {
+		c.connectedNamespaces[msg.Namespace] = ns
+	}
 	// reply before anything else is able to write to this namespace,
 	// the other side does not read the reply if it has to handle a message of that namespace first.
 	err = c.socket.WriteText(genEmptyReplyToWait(msg.wait), c.writeTimeout)
@@ -748,6 +748,10 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
+	if connected {
+		return
+	}
+
 	c.notifyNamespaceConnected(ns, msg)
 }
 
-- 
2.43.0


From 2aa7816efc3a97e7861a739f1e6f5eea3623c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 30/46] fix: ask the next StackExchange the same question when
 one fails

---
 stackexchange.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange.go b/stackexchange.go
index c355e91..164c44f 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	reply, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		reply, err = s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return reply, err
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-- 
2.43.0


From dee58b9e2c49f21ce8aa14c87d2b4596c677cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 31/46] fix: deliver the reply of a Connect or of a question
 behind a message that waits for that Connect

The reader waits in tryNamespace until a running Connect of that namespace is done.
If the reply of that Connect (both sides connecting at once), or of a question asked
inside its connected callback, is behind that message then nobody read it, forever.
Read on behalf of the reader in that case too, and deliver replies before the next read.
---
 conn.go    | 16 +++++++++++++---
 process.go | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 1172b69..1c14d10 100644
--- a/conn.go
+++ b/conn.go
@@ -989,7 +989,8 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustReadReply := atomic.LoadUint32(c.isInsideHandler) == 1
+	// the reader may be, or get, blocked by an event's callback or by a running `Connect`, see `tryNamespace`.
+	mustReadReply := atomic.LoadUint32(c.isInsideHandler) == 1 || c.processes.isRunning()
 	return c.ask(ctx, msg, mustReadReply)
 }
 
@@ -1032,7 +1033,6 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustReadReply bool) (Messag
 	}
 
 	if mustReadReply {
-		// the reader may be blocked by the event's callback which called this method.
 		go c.readUntilReply(msg.wait)
 	}
 
@@ -1086,7 +1086,17 @@ func (c *Conn) read() ([]byte, MessageType, error) {
 		return next.payload, next.typ, nil
 	}
 
-	return c.socket.ReadData(c.readTimeout)
+	for {
+		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+		if err == nil && len(b) > 0 && b[0] != messageSeparator[0] && c.isAcknowledged() {
+			// it may be a reply, deliver it before someone else (see `readUntilReply`) reads again to find it.
+			if isReply, _ := c.handleReply(c.DeserializeMessage(msgTyp, b)); isReply {
+				continue
+			}
+		}
+
+		return b, msgTyp, err
+	}
 }
 
 // Close method will force-disconnect from all connected namespaces and force-leave from all joined rooms
diff --git a/process.go b/process.go
index 5c1cef2..19f16b8 100644
--- a/process.go
+++ b/process.go
@@ -38,6 +38,23 @@ func (p *processes) get(name string) *process {
 	return entry
 }
 
+// isRunning reports whether any of the processes is started and not done yet.
+func (p *processes) isRunning() bool {
+	p.locker.RLock()
+	defer p.locker.RUnlock()
+
+	for _, entry := range p.entries {
+		entry.mu.Lock()
+		running := entry.running
+		entry.mu.Unlock()
+		if running {
+			return true
+		}
+	}
+
+	return false
+}
+
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
 // Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
 type process struct {
-- 
2.43.0


From 0b860a79262362e38b1e5003f230060964f96ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 32/46] fix: do not join a room while the connection is closing

The room was joined after Close left all of them, it was never left.
---
 conn_namespace.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conn_namespace.go b/conn_namespace.go
index 11e9b8a..37d69bf 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -197,6 +197,11 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 
 	room = newRoom(ns, roomName)
 	ns.roomsMutex.Lock()
+	if ns.Conn.IsClosed() {
+		// closed so far, it's too late for `Close` to leave it.
+		ns.roomsMutex.Unlock()
+		return nil, ErrWrite
+	}
 	ns.rooms[roomName] = room
 	ns.roomsMutex.Unlock()
 
@@ -221,6 +226,11 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			return
 		}
 		ns.roomsMutex.Lock()
+		if ns.Conn.IsClosed() {
+			// closed so far, it's too late for `Close` to leave it.
+			ns.roomsMutex.Unlock()
+			return
+		}
 		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
 		ns.roomsMutex.Unlock()
 
-- 
2.43.0


From eea55d5cf4a6d5e2fb4f7e06f6a14a88adac5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 33/46] fix: join a room once on simultaneous joins

---
 conn_namespace.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index 37d69bf..4a91281 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -202,6 +202,11 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		ns.roomsMutex.Unlock()
 		return nil, ErrWrite
 	}
+	// re-check, maybe joined so far by a simultaneously join.
+	if current, ok := ns.rooms[roomName]; ok {
+		ns.roomsMutex.Unlock()
+		return current, nil
+	}
 	ns.rooms[roomName] = room
 	ns.roomsMutex.Unlock()
 
@@ -231,11 +236,16 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.roomsMutex.Unlock()
 			return
 		}
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
+		_, joined := ns.rooms[msg.Room] // maybe joined so far by a simultaneously join.
+		if !joined {
+			ns.rooms[msg.Room] = newRoom(ns, msg.Room)
+		}
 		ns.roomsMutex.Unlock()
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
+		if !joined {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
 	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
-- 
2.43.0


From 041228b63e16bd637fff6d8dda4a22deaa27df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:57 +0000
Subject: [PATCH 34/46] fix: handle messages while another goroutine waits for
 a reply

A question asked while the reader was inside a callback keeps reading on
behalf of it until its reply comes; the other messages it reads were not
handled before that, even if the other side replies only after them.
---
 conn.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 1c14d10..04ab399 100644
--- a/conn.go
+++ b/conn.go
@@ -87,7 +87,9 @@ type Conn struct {
 	isInsideHandler *uint32
 	// the messages that are read while the reader was inside a handler, see `readUntilReply`.
 	unhandled []queuedMessage
+	isReading bool // true when someone reads from the socket.
 	readMutex sync.Mutex
+	readCond  *sync.Cond
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -126,6 +128,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		closed:                         new(uint32),
 		closeCh:                        make(chan struct{}),
 	}
+	c.readCond = sync.NewCond(&c.readMutex)
 
 	if emptyNamespace := namespaces[""]; emptyNamespace != nil && emptyNamespace[OnNativeMessage] != nil {
 		c.allowNativeMessages = true
@@ -1053,7 +1056,12 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustReadReply bool) (Messag
 // It delivers replies and keeps the rest of the messages, in order, for the reader.
 func (c *Conn) readUntilReply(wait string) {
 	c.readMutex.Lock()
-	defer c.readMutex.Unlock()
+	for c.isReading {
+		c.readCond.Wait()
+	}
+	c.isReading = true
+	c.readMutex.Unlock()
+	defer c.stopReading()
 
 	for !c.IsClosed() {
 		c.waitingMessagesMutex.RLock()
@@ -1070,22 +1078,39 @@ func (c *Conn) readUntilReply(wait string) {
 		}
 
 		if isReply, _ := c.handleReply(c.DeserializeMessage(msgTyp, b)); !isReply {
+			c.readMutex.Lock()
 			c.unhandled = append(c.unhandled, queuedMessage{msgTyp, b})
+			c.readMutex.Unlock()
+			c.readCond.Broadcast()
 		}
 	}
 }
 
+func (c *Conn) stopReading() {
+	c.readMutex.Lock()
+	c.isReading = false
+	c.readMutex.Unlock()
+	c.readCond.Broadcast()
+}
+
 // read returns the next message that the reader should handle.
 func (c *Conn) read() ([]byte, MessageType, error) {
 	c.readMutex.Lock()
-	defer c.readMutex.Unlock()
+	for c.isReading && len(c.unhandled) == 0 {
+		c.readCond.Wait()
+	}
 
 	if len(c.unhandled) > 0 {
 		next := c.unhandled[0]
 		c.unhandled = c.unhandled[1:]
+		c.readMutex.Unlock()
 		return next.payload, next.typ, nil
 	}
 
+	c.isReading = true
+	c.readMutex.Unlock()
+	defer c.stopReading()
+
 	for {
 		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
 		if err == nil && len(b) > 0 && b[0] != messageSeparator[0] && c.isAcknowledged() {
-- 
2.43.0


From abb8ac8ccff73f730ffa9aa4fd582b84416c922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:02 +0000
Subject: [PATCH 35/46] fix: read the messages that arrive with the handshake
 response (gobwas client)

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..129ca3d 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		socket := newSocket(underline, nil, true)
+		if br != nil {
+			// messages that the server sent right after its handshake response.
+			socket.reader.Source = br
+		}
+
+		return socket, nil
 	}
 }
-- 
2.43.0


From f71442643faac06d946bbe304bc73c319d1f9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 36/46] fix: set the write deadline under the lock (gorilla)

---
 gorilla/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From b1789e090e3e7ac08bfefa1f326698a142827e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 37/46] fix: unexported fields of a struct handler made the
 first connect panic

---
 reflect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 153a5dc..0ccee39 100644
--- a/reflect.go
+++ b/reflect.go
@@ -27,7 +27,8 @@ func isZero(v reflect.Value) bool {
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			// or if it can't be called, i.e value of an unexported field.
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool || !v.CanInterface() {
 				return zero
 			}
 
@@ -81,6 +82,10 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	v = reflect.Indirect(v)
 
 	visitFields(v.Type(), func(f reflect.StructField) bool {
+		if f.PkgPath != "" {
+			return false // unexported, it can't be set.
+		}
+
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
 		if !isZero(fieldValue) {
-- 
2.43.0


From c76439fd11243754732730190be12d690d82d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 38/46] fix: namespace of a struct handler from an embedded
 struct's field

---
 reflect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reflect.go b/reflect.go
index 0ccee39..b683c2d 100644
--- a/reflect.go
+++ b/reflect.go
@@ -128,11 +128,14 @@ func resolveStructNamespace(v reflect.Value) (string, bool) {
 	v = reflect.Indirect(v)
 	if f, ok := typ.FieldByNameFunc(func(s string) bool { return s == "Namespace" }); ok {
 		if f.Type.Kind() == reflect.String {
-			namespace := v.Field(f.Index[0]).String()
-			Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
-				return dargs{namespace, nameOf(typ), f.Name}
-			})
-			return namespace, true
+			// it may be promoted by an embedded struct.
+			if field, err := v.FieldByIndexErr(f.Index); err == nil {
+				namespace := field.String()
+				Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
+					return dargs{namespace, nameOf(typ), f.Name}
+				})
+				return namespace, true
+			}
 		}
 	}
 
-- 
2.43.0


From e184b5d0a782afaccc83b362d3bd1cea8a9ad516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 39/46] fix: Ask through redis blocked forever on a second
 reply

---
 stackexchange/redis/stackexchange_redis.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..6f75d2e 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -258,7 +258,15 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	if err != nil {
 		return
 	}
-	defer sub.Close()
+	defer func() {
+		// more replies may come until it's closed, they should be read.
+		go func() {
+			for range msgCh {
+			}
+		}()
+		sub.Close()
+		close(msgCh)
+	}()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From d486950498ae70c65dad7838d94e57f57b67e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 40/46] fix: namespaces and connection IDs as patterns of redis
 channels

---
 stackexchange/redis/stackexchange_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 6f75d2e..6baec69 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -157,7 +157,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.subscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
-				sub.pubSub.PSubscribe(sub.msgCh, channel)
+				sub.pubSub.Subscribe(sub.msgCh, channel)
 				// neffos.Debugf("[%s] subscribed to [%s] for namespace [%s]", m.conn.ID(), channel, m.namespace)
 				//	} else {
 				// neffos.Debugf("[%s] tried to subscribe to [%s] namespace before 'OnConnect.addSubscriber'!", m.conn.ID(), m.namespace)
@@ -166,7 +166,7 @@ func (exc *StackExchange) run() {
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", channel)
-				sub.pubSub.PUnsubscribe(sub.msgCh, channel)
+				sub.pubSub.Unsubscribe(sub.msgCh, channel)
 			}
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
@@ -217,7 +217,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 		msgCh:  redisMsgCh,
 	}
 	selfChannel := exc.getChannel("", "", c.ID())
-	pubSub.PSubscribe(redisMsgCh, selfChannel)
+	pubSub.Subscribe(redisMsgCh, selfChannel)
 
 	exc.addSubscriber <- s
 
-- 
2.43.0


From 1c2f8e83356b0fb370d596447c5da3f29adebae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 41/46] fix: subscriber of a connection that closed while it
 was added

---
 stackexchange/nats/stackexchange_nats.go   | 4 ++++
 stackexchange/redis/stackexchange_redis.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..f3c51ed 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -279,6 +279,10 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	}
 
 	exc.addSubscriber <- s
+	if c.IsClosed() {
+		// closed so far, it may be too late for `OnDisconnect` to find it.
+		exc.OnDisconnect(c)
+	}
 
 	return nil
 }
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 6baec69..f781baa 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -220,6 +220,10 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	pubSub.Subscribe(redisMsgCh, selfChannel)
 
 	exc.addSubscriber <- s
+	if c.IsClosed() {
+		// closed so far, it may be too late for `OnDisconnect` to find it.
+		exc.OnDisconnect(c)
+	}
 
 	return nil
 }
-- 
2.43.0


From d4032397c45cafa64949667c0939aca60927ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 42/46] fix: a slow client blocked the redis exchange

---
 stackexchange/redis/stackexchange_redis.go | 31 +++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index f781baa..a041f94 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -194,14 +194,43 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 	return exc.channel + "." + namespace + "."
 }
 
+// queueMessages sends the messages of "in" to "out" until "in" is closed.
+// It never blocks the "in" so a slow client can't block the subscribers.
+func queueMessages(in <-chan radix.PubSubMessage, out chan<- radix.PubSubMessage) {
+	defer close(out)
+
+	var queue []radix.PubSubMessage
+	for {
+		var (
+			next chan<- radix.PubSubMessage // nil when nothing to send.
+			msg  radix.PubSubMessage
+		)
+		if len(queue) > 0 {
+			next, msg = out, queue[0]
+		}
+
+		select {
+		case m, ok := <-in:
+			if !ok {
+				return
+			}
+			queue = append(queue, m)
+		case next <- msg:
+			queue = queue[1:]
+		}
+	}
+}
+
 // OnConnect prepares the connection redis subscriber
 // and subscribes to itself for direct neffos messages.
 // It's called automatically after the neffos server's OnConnect (if any)
 // on incoming client connections.
 func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	redisMsgCh := make(chan radix.PubSubMessage)
+	messages := make(chan radix.PubSubMessage)
+	go queueMessages(redisMsgCh, messages)
 	go func() {
-		for redisMsg := range redisMsgCh {
+		for redisMsg := range messages {
 			// neffos.Debugf("[%s] send to client: [%s]", c.ID(), string(redisMsg.Message))
 			msg := c.DeserializeMessage(neffos.TextMessage, redisMsg.Message)
 			msg.FromStackExchange = true
-- 
2.43.0


From c029ea8df18a687b4557902f7c35c82d68c6198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 43/46] fix: handler of a second reply to an Ask through nats
 never returned

---
 stackexchange/nats/stackexchange_nats.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index f3c51ed..b3ee62c 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -319,9 +319,12 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return
 	}
 
-	ch := make(chan neffos.Message)
+	ch := make(chan neffos.Message, 1)
 	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+		select {
+		case ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false):
+		default: // already replied.
+		}
 	})
 
 	if err != nil {
-- 
2.43.0


From 88dbcdb155a86714d9d86e8dedfabb7e2c1427da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 44/46] fix: reply to an Ask through nats could come before its
 subscription

---
 stackexchange/nats/stackexchange_nats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index b3ee62c..f3966d9 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -328,12 +328,18 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	})
 
 	if err != nil {
+		subConn.Close()
 		return response, err
 	}
 
 	defer sub.Unsubscribe()
 	defer subConn.Close()
 
+	// the reply may come before the subscription otherwise.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
+
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
 	}
-- 
2.43.0


From 51ed7e5616f3f33948ab6ffbed000d1de8d5890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:20 +0000
Subject: [PATCH 45/46] fix: nats connection of a refused connection stayed
 open

---
 stackexchange/nats/stackexchange_nats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index f3966d9..8157cb9 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -262,6 +262,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -270,6 +271,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
-- 
2.43.0


From 9db005e15983b2028255f128956d89e80fa589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:20 +0000
Subject: [PATCH 46/46] fix: messages of the empty namespace through nats

---
 stackexchange/nats/stackexchange_nats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 8157cb9..b7d3fc8 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -234,6 +234,10 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		panic("namespace cannot be empty when sending to a namespace's room")
 	}
 
+	if namespace == "" {
+		return exc.SubjectPrefix // it can't end with ".".
+	}
+
 	return exc.SubjectPrefix + "." + namespace
 }
 
-- 
2.43.0

