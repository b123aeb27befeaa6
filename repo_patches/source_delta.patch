From c0ed021d4fe6e54ea421c276e274463dd20ccd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/73] fix: a successful call must not deliver an empty
 stand-in result

receiveCompletionItem pushed a nil error after the value, so Invoke yielded
two results (the value and InvokeResult{nil, nil}, in either order) and Send
delivered a nil error.
---
 invokeclient.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..0708286 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -97,11 +97,6 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
-- 
2.43.0


From 6ab451f350d2f8a7051e171e5ee178d17b2c2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 02/73] fix: do not hold the client mutex while connecting and
 shaking hands

State(), Err(), WaitForState(), ObserveStateChanged() and all calls blocked
as long as the connection factory or the handshake took.
---
 client.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..4dccbad 100644
--- a/client.go
+++ b/client.go
@@ -285,31 +285,29 @@ func (c *client) shouldClientEnd() bool {
 }
 
 func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
-
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, err
-			}
-		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	// Neither connecting nor the handshake may happen under c.mx, because both might take long
+	// and State(), Err(), etc. would block meanwhile.
+	c.mx.RLock()
+	conn := c.conn
+	c.mx.RUnlock()
+	if conn == nil {
+		if c.connectionFactory == nil {
+			return nil, ErrUnableToConnect
 		}
-		protocol, err := c.processHandshake()
+		var err error
+		conn, err = c.connectionFactory()
 		if err != nil {
 			return nil, err
 		}
-
-		return protocol, nil
-	}()
+		c.mx.Lock()
+		c.conn = conn
+		c.mx.Unlock()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	return c.processHandshake()
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From 7d0e7b64125e91c1d04a27ff2dcb27584d308e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 03/73] fix: do not reuse a connection whose handshake failed
 when reconnecting

---
 client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 4dccbad..9a2be35 100644
--- a/client.go
+++ b/client.go
@@ -307,7 +307,14 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 	if wsConn, ok := conn.(*webSocketConnection); ok {
 		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 	}
-	return c.processHandshake()
+	protocol, err := c.processHandshake()
+	if err != nil {
+		// The connection is not usable anymore, a reconnect needs a new one
+		c.mx.Lock()
+		c.conn = nil
+		c.mx.Unlock()
+	}
+	return protocol, err
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From 84b0d5054090f0c8cf8ddae35662d63e2328e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 04/73] fix: the client must not report connected after its
 loop has ended

The goroutine setting ClientConnected could run after ClientClosed was set,
leaving a dead client in state connected.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 9a2be35..673e6c7 100644
--- a/client.go
+++ b/client.go
@@ -245,12 +245,16 @@ func (c *client) run() error {
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	connectedStateSet := make(chan struct{})
 	go func() {
+		defer close(connectedStateSet)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// Never set ClientConnected after the loop has ended
+	<-connectedStateSet
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
-- 
2.43.0


From 13077d73ce8f9efae836761633be399250f534dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 05/73] fix: notify client state observers in order and without
 blocking the client

Each state change started goroutines which held client.mx while sending to
the observer: an observer which did not read blocked State(), Stop() and all
calls, canceling an observation could deadlock, and states were delivered in
random order.
---
 client.go | 92 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/client.go b/client.go
index 673e6c7..30fc60a 100644
--- a/client.go
+++ b/client.go
@@ -122,13 +122,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -155,7 +154,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -334,20 +333,51 @@ func (c *client) setState(state ClientState) {
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
+	for _, o := range c.stateObservers {
+		o.pending = append(o.pending, state)
+		if !o.delivering {
+			o.delivering = true
+			go c.deliverStates(o)
+		}
+	}
+}
 
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
+// stateObserver is a channel observing the client state.
+type stateObserver struct {
+	ch         chan ClientState
+	done       chan struct{} // closed when the observation is canceled
+	pending    []ClientState // states not delivered yet, guarded by client.mx
+	delivering bool          // deliverStates is running, guarded by client.mx
+	canceled   bool          // guarded by client.mx
+}
+
+// deliverStates sends the pending states to the observer in the order they were set.
+// It must not hold client.mx while sending, because the observer might not be reading.
+func (c *client) deliverStates(o *stateObserver) {
+	for {
+		c.mx.Lock()
+		if o.canceled || len(o.pending) == 0 {
+			o.delivering = false
+			if o.canceled {
+				close(o.ch)
+			}
+			c.mx.Unlock()
+			return
+		}
+		state := o.pending[0]
+		o.pending = o.pending[1:]
+		c.mx.Unlock()
+
+		select {
+		case o.ch <- state:
+		case <-o.done:
+		case <-c.ctx.Done():
+			// Nobody might be reading anymore, do not wait for it
+			select {
+			case o.ch <- state:
+			default:
 			}
-		}(ch, state)
+		}
 	}
 }
 
@@ -355,23 +385,31 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	o := &stateObserver{ch: ch, done: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, o)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(o)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(o *stateObserver) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	if o.canceled {
+		return
+	}
+	o.canceled = true
+	close(o.done)
+	for i, co := range c.stateObservers {
+		if co == o {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
 			break
 		}
 	}
+	if !o.delivering {
+		close(o.ch)
+	}
 }
 
 func (c *client) Err() error {
-- 
2.43.0


From 7d295bc7c57f0601c64e9e93ca5a94a7cc67eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 06/73] fix: data race on client.loop between calls and
 reconnecting

---
 client.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 30fc60a..f46ec93 100644
--- a/client.go
+++ b/client.go
@@ -267,6 +267,13 @@ func (c *client) run() error {
 	return err
 }
 
+// currentLoop returns the loop of the current or last connection. It is nil before the first handshake.
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) shouldClientEnd() bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
@@ -280,7 +287,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop := c.currentLoop(); loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
@@ -479,11 +486,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -506,10 +514,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -532,7 +541,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -554,7 +564,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
-- 
2.43.0


From a7010dccaac7f5ae59c6969c4360b474b6ef44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 07/73] fix: concurrent calls could get the same invocation id

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 3d413d0..bfd999b 100644
--- a/loop.go
+++ b/loop.go
@@ -190,8 +190,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From c06a8e2c2d6b620d50f282cb27ec662ea6127497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 08/73] fix: an invocation started while the message loop ends
 must not hang forever

---
 loop.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index bfd999b..d99c7d9 100644
--- a/loop.go
+++ b/loop.go
@@ -142,8 +142,10 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// Abort before canceling the pending invocations: Otherwise an invocation started in between would
+	// neither be canceled nor fail to be sent
 	l.hubConn.Abort()
+	l.invokeClient.cancelAllInvokes()
 	return err
 }
 
-- 
2.43.0


From 99db9cd160f28f035645da4816279c57aca17067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 09/73] fix: end pending calls of a canceled client with an
 error, deliver received values first

When the client was canceled, the channels of pending calls were just closed,
like those of successful calls without result. Stream items which had already
been received were lost when an error followed.
---
 Invokeresult.go | 24 ++++++++++++++++++++++++
 client.go       | 15 +++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..932d04b 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -12,14 +12,37 @@ type InvokeResult struct {
 
 // newInvokeResultChan combines a value result and an error result channel into one InvokeResult channel
 // The InvokeResult channel is automatically closed when both input channels are closed.
+// When ctx is canceled before, the InvokeResult channel delivers the error of ctx and is closed.
 func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
 	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
 		var resultChanClosed, errChanClosed bool
+		// Values which have been received before an error are delivered before the error
+		deliverReceivedValues := func() {
+			for !resultChanClosed {
+				select {
+				case value, ok := <-resultChan:
+					if !ok {
+						resultChanClosed = true
+					} else {
+						ch <- InvokeResult{
+							Value: value,
+						}
+					}
+				default:
+					return
+				}
+			}
+		}
 	loop:
 		for !resultChanClosed || !errChanClosed {
 			select {
 			case <-ctx.Done():
+				deliverReceivedValues()
+				// Without an error, the caller would take the closed channel for a success.
+				ch <- InvokeResult{
+					Error: ctx.Err(),
+				}
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
@@ -33,6 +56,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				if !ok {
 					errChanClosed = true
 				} else {
+					deliverReceivedValues()
 					ch <- InvokeResult{
 						Error: err,
 					}
diff --git a/client.go b/client.go
index f46ec93..38fea5f 100644
--- a/client.go
+++ b/client.go
@@ -497,8 +497,14 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			return
 		}
 		go func() {
+			first := true
 			for ir := range irCh {
-				ch <- ir
+				// An invocation has only one result. When the client is canceled right after
+				// the result was received, an error might follow
+				if first {
+					ch <- ir
+					first = false
+				}
 			}
 			close(ch)
 		}()
@@ -572,8 +578,13 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			return
 		}
 		go func() {
+			first := true
 			for ir := range pushCh {
-				irCh <- ir
+				// See Invoke
+				if first {
+					irCh <- ir
+					first = false
+				}
 			}
 			close(irCh)
 		}()
-- 
2.43.0


From ae5fecb18f4c2176b8c81826cd96102736ee7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/73] fix: close the client when it is canceled while waiting
 to reconnect

Without Stop(), it stayed in state connecting forever. Also set the error
before the state, because waiters read it as soon as the state is closed.
---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 38fea5f..c184a55 100644
--- a/client.go
+++ b/client.go
@@ -208,13 +208,15 @@ func (c *client) Start() {
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
 			c.setState(ClientConnecting)
-- 
2.43.0


From 71ff69afcb78b74a2ebb9d7828dd45cb84c1c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 11/73] fix: a JSON message without type must not be taken for
 the type of its predecessor

The type of the previous message in the same read was kept.
---
 jsonhubprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..1c2006f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -70,9 +70,9 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-- 
2.43.0


From 7ae1baf54c46223883cb6d0213a50d02cdeb14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 12/73] fix: JSON framing: apply the size limit to each
 message, stop at EOF, keep messages before an error

The limit was applied to all bytes of one read, so several small messages
arriving together were rejected. An EOF made the reader spin forever. A
malformed message discarded the valid ones before it in the same read.
---
 hubprotocol.go     |  1 +
 jsonhubprotocol.go | 39 +++++++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/hubprotocol.go b/hubprotocol.go
index 3d3d1e1..eb2ad03 100644
--- a/hubprotocol.go
+++ b/hubprotocol.go
@@ -7,6 +7,7 @@ import (
 
 // hubProtocol interface
 // ParseMessages() parses messages from an io.Reader and stores unparsed bytes in remainBuf.
+// It might return messages along with an error, if these have been received before the error occurred.
 // If buf does not contain the whole message, it returns a nil message and complete false
 // WriteMessage writes a message to the specified writer
 // UnmarshalArgument() unmarshals a raw message depending of the specified value type into a destination value
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 1c2006f..a776d60 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -64,23 +64,21 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 	return nil
 }
 
-// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// In case of an error, the messages before it are returned along with the error.
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
-	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
-	if err != nil {
-		return nil, err
-	}
+	frames, readErr := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
 		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-			return nil, &jsonError{string(frame), err}
+			return messages, &jsonError{string(frame), err}
 		}
 		typedMessage, err := j.parseMessage(message.Type, frame)
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
@@ -88,7 +86,7 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 		}
 		messages = append(messages, typedMessage)
 	}
-	return messages, nil
+	return messages, readErr
 }
 
 func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message interface{}, err error) {
@@ -154,7 +152,8 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 }
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// maxSize is the maximum number of bytes of one frame (without delimiter); 0 means unlimited.
+// When a frame is too large, the frames before it are returned along with the error.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
@@ -162,24 +161,32 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	// Try getting data until at least one frame is available
 	for {
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
-		if err != nil && !errors.Is(err, io.EOF) {
-			return nil, err
-		}
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
 			frames, err := parseJSONFrames(buf)
 			if err != nil {
 				return nil, err
 			}
+			// The limit is meant for each single frame, and for the incomplete one at the end
+			if maxSize > 0 {
+				err = fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+				for i, frame := range frames {
+					if len(frame) > maxSize {
+						return frames[:i], err
+					}
+				}
+				if buf.Len() > maxSize {
+					return frames, err
+				}
+			}
 			if len(frames) > 0 {
 				_, _ = remainBuf.ReadFrom(buf)
 				return frames, nil
 			}
 		}
+		if err != nil {
+			return nil, err
+		}
 	}
 }
 
-- 
2.43.0


From 3be745b71c89b417c59a14a45b9c2c76acb886b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 13/73] fix: process all messages received before the
 connection broke

The read error overtook the messages which were still being parsed, so a
completion or invocation sent right before closing was lost.
---
 hubconnection.go | 85 ++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 57 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..231f67b 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -89,8 +89,6 @@ func (c *defaultHubConnection) Abort() {
 
 func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	recvChan := make(chan receiveResult, 20)
-	// Prepare cleanup
-	writerDone := make(chan struct{}, 1)
 	// the pipe connects the goroutine which reads from the connection and the goroutine which parses the read data
 	reader, writer := io.Pipe()
 	go func() {
@@ -100,70 +98,43 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
-	loop:
-		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			default:
-				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
-				if n > 0 {
-					_, err = writer.Write(p[:n])
-					if err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
-					}
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter) {
+		for ctx.Err() == nil {
+			n, err := connection.Read(p)
+			if n > 0 {
+				if _, pipeErr := writer.Write(p[:n]); pipeErr != nil {
+					return
 				}
 			}
+			if err != nil {
+				// The parser will see the error after all data read before
+				_ = writer.CloseWithError(err)
+				return
+			}
 		}
-		// The pipe writer is done
-		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, c.connection, writer)
 	// parse
-	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
+	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult) {
 		remainBuf := bytes.Buffer{}
-	loop:
 		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			case <-writerDone:
-				break loop
-			default:
-				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					case <-writerDone:
-						break loop
-					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
+			messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+			for _, message := range messages {
+				select {
+				case recvChan <- receiveResult{message: message}:
+				case <-ctx.Done():
+					return
+				}
+			}
+			if err != nil {
+				// Nothing which follows an error can be parsed reliably
+				select {
+				case recvChan <- receiveResult{err: err}:
+				case <-ctx.Done():
 				}
+				return
 			}
 		}
-	}(c.ctx, reader, recvChan, writerDone)
+	}(c.ctx, reader, recvChan)
 	return recvChan
 }
 
-- 
2.43.0


From 71de1de4153255c3f0bb78dbee046e10f5a49c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 14/73] fix: rework MessagePack framing

The frame reader depended on how the transport cuts the byte stream: frames
with less than 5 bytes were padded with zeros, bytes were reordered or read
as lengths when several frames arrived together or a length prefix was split,
and a complete frame was not processed until further data arrived.
---
 messagepackhubprotocol.go | 103 ++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 61 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..792d806 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -3,7 +3,6 @@ package signalr
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"io"
 
@@ -16,85 +15,67 @@ type messagePackHubProtocol struct {
 	maximumReceiveMessageSize uint
 }
 
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// In case of an error, the messages before it are returned along with the error.
 func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) ([]interface{}, error) {
-	frames, err := m.readFrames(reader, remainBuf)
-	if err != nil {
-		return nil, err
-	}
+	frames, readErr := m.readFrames(reader, remainBuf)
 	messages := make([]interface{}, 0)
 	for _, frame := range frames {
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		messages = append(messages, message)
 	}
-	return messages, nil
+	return messages, readErr
 }
 
+// readFrames reads until at least one frame is complete and puts the remaining bytes into remainBuf.
+// When a frame is too large, the frames before it are returned along with the error.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		n, err := reader.Read(p)
+		if n > 0 {
+			_, _ = remainBuf.Write(p[:n])
+			frames, err := m.parseFrames(remainBuf)
+			if err != nil || len(frames) > 0 {
+				return frames, err
+			}
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		if err != nil {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
-			return frames, nil
+	}
+}
+
+// parseFrames takes all complete frames from buf
+func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		lenBuf := buf.Bytes()
+		if len(lenBuf) > binary.MaxVarintLen32 {
+			lenBuf = lenBuf[:binary.MaxVarintLen32]
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
+		frameLen, lenLen := binary.Uvarint(lenBuf)
+		if lenLen == 0 && len(lenBuf) < binary.MaxVarintLen32 {
+			// The length is not complete
+			return frames, nil
 		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
+		if lenLen <= 0 {
+			return frames, fmt.Errorf("messagepack frame length to large")
 		}
 		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+			return frames, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
+		}
+		if uint64(buf.Len()-lenLen) < frameLen {
+			// The frame is not complete
+			return frames, nil
+		}
+		_ = buf.Next(lenLen)
+		if frameLen > 0 {
+			// Copy, because the memory of buf will be reused
+			frames = append(frames, append([]byte(nil), buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From e51c339077b718b32f0d799834e573fd1c2867c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 15/73] fix: keep messages which arrive together with the
 handshake

Server and client dropped everything that was read along with the handshake
message, e.g. a call sent right after the handshake request. Also limit the
size of the handshake message, it was buffered without bound.
---
 client.go    | 47 +++++++++++++++++++-------------------
 handshake.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 server.go    | 35 ++++++++++++++--------------
 3 files changed, 105 insertions(+), 41 deletions(-)
 create mode 100644 handshake.go

diff --git a/client.go b/client.go
index c184a55..c52b3b6 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -235,12 +234,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, conn, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, conn, protocol)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -296,7 +295,8 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
+// setupConnectionAndProtocol returns the protocol and the Connection to use after the handshake.
+func (c *client) setupConnectionAndProtocol() (hubProtocol, Connection, error) {
 	// Neither connecting nor the handshake may happen under c.mx, because both might take long
 	// and State(), Err(), etc. would block meanwhile.
 	c.mx.RLock()
@@ -304,12 +304,12 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 	c.mx.RUnlock()
 	if conn == nil {
 		if c.connectionFactory == nil {
-			return nil, ErrUnableToConnect
+			return nil, nil, ErrUnableToConnect
 		}
 		var err error
 		conn, err = c.connectionFactory()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 		c.mx.Lock()
 		c.conn = conn
@@ -319,14 +319,14 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 	if wsConn, ok := conn.(*webSocketConnection); ok {
 		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 	}
-	protocol, err := c.processHandshake()
+	protocol, overread, err := c.processHandshake()
 	if err != nil {
 		// The connection is not usable anymore, a reconnect needs a new one
 		c.mx.Lock()
 		c.conn = nil
 		c.mx.Unlock()
 	}
-	return protocol, err
+	return protocol, withOverread(conn, overread), err
 }
 
 func (c *client) State() ClientState {
@@ -642,9 +642,9 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+func (c *client) processHandshake() (hubProtocol, []byte, error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -666,31 +666,32 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+// receiveHandshakeResponse returns the protocol and the bytes which have been read beyond the response.
+func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
+	conn := c.conn
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, overread, err := readHandshake(conn, c.maximumReceiveMessageSize())
+		readJSONFramesChan <- []interface{}{rawHandshake, overread, err}
 	}()
 	select {
 	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
+		if result[2] != nil {
+			return nil, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
+		rawHandshake := result[0].([]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(rawHandshake, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -704,9 +705,9 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result[1].([]byte), nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/handshake.go b/handshake.go
new file mode 100644
index 0000000..f236a5d
--- /dev/null
+++ b/handshake.go
@@ -0,0 +1,64 @@
+package signalr
+
+import (
+	"bytes"
+	"fmt"
+	"io"
+)
+
+// minHandshakeSizeLimit ensures that connections with a very small maximumReceiveMessageSize can shake hands
+const minHandshakeSizeLimit = 1 << 12
+
+// readHandshake reads the handshake message and returns it along with the bytes which have been read beyond it.
+func readHandshake(reader io.Reader, maximumReceiveMessageSize uint) (handshake []byte, overread []byte, err error) {
+	limit := max(int(maximumReceiveMessageSize), minHandshakeSizeLimit)
+	p := make([]byte, 1<<15)
+	var buf []byte
+	for {
+		n, err := reader.Read(p)
+		buf = append(buf, p[:n]...)
+		end := bytes.IndexByte(buf, 0x1e)
+		switch {
+		case end > limit, end < 0 && len(buf) > limit:
+			return nil, nil, fmt.Errorf("handshake exceeded maximum size %d", limit)
+		case end >= 0:
+			return buf[:end], buf[end+1:], nil
+		case err != nil:
+			return nil, nil, err
+		}
+	}
+}
+
+// withOverread returns a Connection which delivers the bytes already read from conn first.
+func withOverread(conn Connection, overread []byte) Connection {
+	if len(overread) == 0 {
+		return conn
+	}
+	return &overreadConnection{Connection: conn, overread: bytes.NewReader(overread)}
+}
+
+// overreadConnection is a Connection from which more than the handshake has been read during the handshake.
+type overreadConnection struct {
+	Connection
+	overread *bytes.Reader
+}
+
+func (o *overreadConnection) Read(p []byte) (n int, err error) {
+	if o.overread.Len() > 0 {
+		return o.overread.Read(p)
+	}
+	return o.Connection.Read(p)
+}
+
+func (o *overreadConnection) TransferMode() TransferMode {
+	if conn, ok := o.Connection.(ConnectionWithTransferMode); ok {
+		return conn.TransferMode()
+	}
+	return 0
+}
+
+func (o *overreadConnection) SetTransferMode(transferMode TransferMode) {
+	if conn, ok := o.Connection.(ConnectionWithTransferMode); ok {
+		conn.SetTransferMode(transferMode)
+	}
+}
diff --git a/server.go b/server.go
index 7989887..9e1db85 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,7 +126,7 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, conn, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
@@ -246,35 +245,35 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
-	} else {
-		return s.sendHandshakeResponse(conn, request)
+// processHandshake returns the protocol and the Connection to use after the handshake.
+func (s *server) processHandshake(conn Connection) (hubProtocol, Connection, error) {
+	request, overread, err := s.receiveHandshakeRequest(conn)
+	if err != nil {
+		return nil, conn, err
 	}
+	protocol, err := s.sendHandshakeResponse(conn, request)
+	return protocol, withOverread(conn, overread), err
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (request handshakeRequest, overread []byte, err error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, overread, err := readHandshake(conn, s.maximumReceiveMessageSize())
+		readJSONFramesChan <- []interface{}{rawHandshake, overread, err}
 	}()
-	request := handshakeRequest{}
 	select {
 	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
+		if result[2] != nil {
+			return request, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		rawHandshake := result[0].([]byte)
+		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake))
+		return request, result[1].([]byte), json.Unmarshal(rawHandshake, &request)
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From f17459ba2558e8eb5e0b3eab59e8097446d1eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 16/73] fix: MessagePack close messages have no header

The close message was written as an array of length 3 with 4 elements, which
no other implementation understands, and close messages of other
implementations could not be parsed.
---
 messagepackhubprotocol.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 792d806..afb2445 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -94,9 +95,18 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close messages that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	hasHeader := msgType != 6
+	if msgType == 7 {
+		// Former versions of this package sent close messages with header
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return nil, err
+		}
+		hasHeader = msgpcode.IsFixedMap(code)
+	}
+	if hasHeader {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -340,7 +350,10 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(7); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From fb79493cb494359a8c01264ee51b59e41f62757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 17/73] fix: MessagePack values of a peer must not crash the
 process

A map with keys which are not hashable paniced, and the decoder allocated
memory for up to 2^32 elements announced by an array or map header before
reading any of them, which killed the process with a message of a few bytes.
---
 messagepackhubprotocol.go | 104 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 102 insertions(+), 2 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index afb2445..a19ee92 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -3,6 +3,7 @@ package signalr
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 
@@ -81,7 +82,105 @@ func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error
 	}
 }
 
-func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
+// maxMsgPackDepth limits the nesting of received values like encoding/json does
+const maxMsgPackDepth = 10000
+
+// checkMsgPack checks that the first value in b is complete. The decoder allocates memory depending on the
+// lengths announced for arrays and maps before it reads their elements, so these can not be trusted.
+func checkMsgPack(b []byte) error {
+	// The number of values which are still missing in each open array or map, and their sum
+	open := []uint64{1}
+	missing := uint64(1)
+	for len(open) > 0 {
+		top := len(open) - 1
+		if open[top] == 0 {
+			open = open[:top]
+			continue
+		}
+		// Each value has at least one byte
+		if missing > uint64(len(b)) {
+			return errors.New("incomplete messagepack value")
+		}
+		open[top]--
+		missing--
+		code := b[0]
+		b = b[1:]
+		// readLen reads a big endian length of n bytes
+		readLen := func(n int) (l uint64) {
+			for i := 0; i < n && i < len(b); i++ {
+				l = l<<8 | uint64(b[i])
+			}
+			b = b[min(n, len(b)):]
+			return l
+		}
+		var size, elements uint64
+		switch {
+		case msgpcode.IsFixedNum(code), code == msgpcode.Nil, code == msgpcode.False, code == msgpcode.True:
+		case msgpcode.IsFixedMap(code):
+			elements = 2 * uint64(code&msgpcode.FixedMapMask)
+		case msgpcode.IsFixedArray(code):
+			elements = uint64(code & msgpcode.FixedArrayMask)
+		case msgpcode.IsFixedString(code):
+			size = uint64(code & msgpcode.FixedStrMask)
+		case code == msgpcode.Uint8, code == msgpcode.Int8:
+			size = 1
+		case code == msgpcode.Uint16, code == msgpcode.Int16:
+			size = 2
+		case code == msgpcode.Uint32, code == msgpcode.Int32, code == msgpcode.Float:
+			size = 4
+		case code == msgpcode.Uint64, code == msgpcode.Int64, code == msgpcode.Double:
+			size = 8
+		case code == msgpcode.Str8, code == msgpcode.Bin8:
+			size = readLen(1)
+		case code == msgpcode.Str16, code == msgpcode.Bin16:
+			size = readLen(2)
+		case code == msgpcode.Str32, code == msgpcode.Bin32:
+			size = readLen(4)
+		case code == msgpcode.Array16:
+			elements = readLen(2)
+		case code == msgpcode.Array32:
+			elements = readLen(4)
+		case code == msgpcode.Map16:
+			elements = 2 * readLen(2)
+		case code == msgpcode.Map32:
+			elements = 2 * readLen(4)
+		case code >= msgpcode.FixExt1 && code <= msgpcode.FixExt16:
+			size = 1 + 1<<(code-msgpcode.FixExt1)
+		case code == msgpcode.Ext8:
+			size = 1 + readLen(1)
+		case code == msgpcode.Ext16:
+			size = 1 + readLen(2)
+		case code == msgpcode.Ext32:
+			size = 1 + readLen(4)
+		default:
+			return fmt.Errorf("invalid messagepack code %x", code)
+		}
+		if size > uint64(len(b)) {
+			return errors.New("incomplete messagepack value")
+		}
+		b = b[size:]
+		if elements > 0 {
+			missing += elements
+			if open = append(open, elements); len(open) > maxMsgPackDepth {
+				return errors.New("messagepack value exceeded maximum depth")
+			}
+		}
+	}
+	return nil
+}
+
+// recoverDecode turns a panic of the decoder, e.g. because a map key is not hashable, into an error
+func recoverDecode(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("invalid messagepack value: %v", r)
+	}
+}
+
+func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interface{}, err error) {
+	defer recoverDecode(&err)
+	if err = checkMsgPack(buf.Bytes()); err != nil {
+		return nil, err
+	}
 	decoder := msgpack.NewDecoder(buf)
 	// Default map decoding expects all maps to have string keys
 	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
@@ -403,7 +502,8 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	defer recoverDecode(&err)
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From cac6f191cb400dc7aa9995e6e5b14fb9f7137376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 18/73] fix: an invocation with stream ids instead of arguments
 must not crash the server

buildMethodArguments indexed beyond the arguments in the message loop.
---
 loop.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loop.go b/loop.go
index d99c7d9..aa9af9c 100644
--- a/loop.go
+++ b/loop.go
@@ -360,6 +360,8 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			// it is
 			chanCount++
 			arguments[i] = arg
+		} else if i-chanCount >= len(invocation.Arguments) {
+			return arguments, fmt.Errorf("parameter mismatch calling method %v", invocation.Target)
 		} else {
 			// it is not, so do the normal thing
 			arg := reflect.New(t)
-- 
2.43.0


From 08f5ebf9b55a6ee2d029453d67383043d76e5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 19/73] fix: goroutine leak after a timeout while delivering a
 received value

---
 invokeclient.go | 2 +-
 streamclient.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 0708286..97ac845 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -80,7 +80,7 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
+				close(done)
 			}()
 			select {
 			case <-done:
diff --git a/streamclient.go b/streamclient.go
index 1ee7781..85a6ec9 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -82,7 +82,8 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	// Buffered, because nobody receives after the timeout
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
-- 
2.43.0


From e6236684a10a77f9180808570e65abea36b07474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 20/73] fix: an upload stream which the client completes with
 an error must not close the connection

---
 streamclient.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 85a6ec9..f067a9f 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -123,8 +123,10 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 	if ok {
 		var err error
 		if completion.Error != "" {
-			// Push error to the error channel
-			err = invokeClient.receiveCompletionItem(completion)
+			// Push error to the error channel. There is none if this is an upload stream to a method
+			if invokeClient.handlesInvocationID(completion.InvocationID) {
+				err = invokeClient.receiveCompletionItem(completion)
+			}
 		} else {
 			if completion.Result != nil {
 				c.mx.Lock()
-- 
2.43.0


From d2d9d09c3d3ce9e4a08eea9834987103e4c998d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 21/73] fix: close the upload channels of hub methods when the
 connection ends

Methods ranging over their channel parameters were blocked forever.
---
 loop.go         | 2 ++
 streamclient.go | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/loop.go b/loop.go
index aa9af9c..601b8a7 100644
--- a/loop.go
+++ b/loop.go
@@ -146,6 +146,8 @@ msgLoop:
 	// neither be canceled nor fail to be sent
 	l.hubConn.Abort()
 	l.invokeClient.cancelAllInvokes()
+	// Nothing will be received anymore: do not let hub methods wait for their upload streams forever
+	l.streamClient.closeAllUpstreamChannels()
 	return err
 }
 
diff --git a/streamclient.go b/streamclient.go
index f067a9f..2866b71 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -65,6 +65,15 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Unlock()
 }
 
+func (c *streamClient) closeAllUpstreamChannels() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for id, upChan := range c.upstreamChannels {
+		upChan.Close()
+		delete(c.upstreamChannels, id)
+	}
+}
+
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-- 
2.43.0


From 84b7c7e651a9bc6480e3eaf2766fddeab58eaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 22/73] fix: upload streams of a refused invocation must not
 occupy stream slots

They counted as open forever. A stream id which is already in use must not
replace the running stream.
---
 loop.go         | 8 ++++++++
 streamclient.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/loop.go b/loop.go
index 601b8a7..9c33707 100644
--- a/loop.go
+++ b/loop.go
@@ -352,6 +352,14 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 	}
 	arguments = make([]reflect.Value, method.Type().NumIn())
 	chanCount := 0
+	defer func() {
+		if err != nil {
+			// The method will not be called, so its upload streams must not occupy any resources
+			for _, id := range invocation.StreamIds[:min(chanCount, len(invocation.StreamIds))] {
+				streamClient.deleteUpstreamChannel(id)
+			}
+		}
+	}()
 	for i := 0; i < method.Type().NumIn(); i++ {
 		t := method.Type().In(i)
 		// Is it a channel for client streaming?
diff --git a/streamclient.go b/streamclient.go
index 2866b71..915fa0b 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,9 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			return reflect.Value{}, true, fmt.Errorf("stream id %v is already in use", invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
-- 
2.43.0


From cea43c62e10e8e7aec7dda0c860c89bcd0383c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 23/73] fix: refusing an invocation with upload streams must
 not close the connection

The client has already sent items for these streams when it learns about the
refusal; they were taken for a protocol violation.
---
 loop.go         | 12 ++++++++++++
 streamclient.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/loop.go b/loop.go
index 9c33707..8074247 100644
--- a/loop.go
+++ b/loop.go
@@ -203,16 +203,22 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	methodName := l.party.getMethodNameByAlternateName(invocation.Target)
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
+		l.streamClient.refuseStreams(invocation.StreamIds)
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
+		l.streamClient.refuseStreams(invocation.StreamIds)
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
 		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
+			for _, id := range invocation.StreamIds {
+				l.streamClient.deleteUpstreamChannel(id)
+			}
+			l.streamClient.refuseStreams(invocation.StreamIds)
 			_ = l.hubConn.Completion(invocation.InvocationID, nil,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
@@ -266,6 +272,9 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 
 func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) error {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(streamItemMessage))
+	if l.streamClient.isRefused(streamItemMessage.InvocationID, false) {
+		return nil
+	}
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
@@ -281,6 +290,9 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 func (l *loop) handleCompletionMessage(message completionMessage) error {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
 	var err error
+	if l.streamClient.isRefused(message.InvocationID, true) {
+		return nil
+	}
 	if l.streamClient.handlesInvocationID(message.InvocationID) {
 		err = l.streamClient.receiveCompletionItem(message, l.invokeClient)
 	} else if l.invokeClient.handlesInvocationID(message.InvocationID) {
diff --git a/streamclient.go b/streamclient.go
index 915fa0b..3040ef3 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -12,6 +12,7 @@ func newStreamClient(protocol hubProtocol, chanReceiveTimeout time.Duration, str
 		mx:                   sync.Mutex{},
 		upstreamChannels:     make(map[string]reflect.Value),
 		runningStreams:       make(map[string]bool),
+		refusedStreams:       make(map[string]struct{}),
 		chanReceiveTimeout:   chanReceiveTimeout,
 		streamBufferCapacity: streamBufferCapacity,
 		maxConcurrentStreams: maxConcurrentStreams,
@@ -23,6 +24,7 @@ type streamClient struct {
 	mx                   sync.Mutex
 	upstreamChannels     map[string]reflect.Value
 	runningStreams       map[string]bool
+	refusedStreams       map[string]struct{}
 	chanReceiveTimeout   time.Duration
 	streamBufferCapacity uint
 	maxConcurrentStreams uint
@@ -44,6 +46,7 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
+		delete(c.refusedStreams, invocation.StreamIds[chanCount])
 		return arg, true, nil
 	} else {
 		// To many channel parameters arguments this method. The client will not send streamItems for these
@@ -68,6 +71,32 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Unlock()
 }
 
+// maxRefusedStreams limits the refused streams a misbehaving client can make us remember
+const maxRefusedStreams = 1000
+
+// refuseStreams remembers the upload streams of a refused invocation. The client might have sent items for them
+// before it learned that the invocation was refused.
+func (c *streamClient) refuseStreams(streamIds []string) {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for _, id := range streamIds {
+		if _, ok := c.upstreamChannels[id]; !ok && len(c.refusedStreams) < maxRefusedStreams {
+			c.refusedStreams[id] = struct{}{}
+		}
+	}
+}
+
+// isRefused reports if the message belongs to a refused upload stream. completed ends the stream.
+func (c *streamClient) isRefused(streamID string, completed bool) bool {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	_, ok := c.refusedStreams[streamID]
+	if completed {
+		delete(c.refusedStreams, streamID)
+	}
+	return ok
+}
+
 func (c *streamClient) closeAllUpstreamChannels() {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-- 
2.43.0


From a2da62b88865626d0ccfdcac6d94555f412d53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 24/73] fix: canceling streams must not stop working after
 maximumConcurrentStreams cancellations

Used and useless cancel entries were counted forever, so after 100 canceled
streams all further cancel messages were ignored. A stream whose channel was
idle was neither canceled nor ended with the connection.
---
 loop.go     |  11 +++++-
 streamer.go | 101 +++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 95 insertions(+), 17 deletions(-)

diff --git a/loop.go b/loop.go
index 8074247..e86287c 100644
--- a/loop.go
+++ b/loop.go
@@ -89,7 +89,9 @@ msgLoop:
 						l.handleInvocationMessage(message)
 					case cancelInvocationMessage:
 						_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
-						l.streamer.Stop(message.InvocationID)
+						if l.streamer.Knows(message.InvocationID) {
+							l.streamer.Stop(message.InvocationID)
+						}
 					case streamItemMessage:
 						err = l.handleStreamItemMessage(message)
 					case completionMessage:
@@ -222,6 +224,9 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			_ = l.hubConn.Completion(invocation.InvocationID, nil,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
+			if invocation.Type == 4 {
+				l.streamer.Expect(invocation.InvocationID)
+			}
 			// hub method might take a long time
 			go func() {
 				result := func() []reflect.Value {
@@ -229,6 +234,10 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 					return method.Call(in)
 				}()
 				l.returnInvocationResult(invocation, result)
+				if invocation.Type == 4 {
+					// If there is no stream running now, there will never be one
+					l.streamer.Forget(invocation.InvocationID)
+				}
 			}()
 		}
 	}
diff --git a/streamer.go b/streamer.go
index faf8486..172ec11 100644
--- a/streamer.go
+++ b/streamer.go
@@ -11,34 +11,103 @@ type streamer struct {
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
+	mx          sync.Mutex               // guards expected, running and the transition between them
+	expected    map[string]struct{}      // stream invocations which are not started yet
+	running     map[string]chan struct{} // running streams, the channel is closed to cancel the stream
+}
+
+// Expect announces that a stream might be started for invocationID.
+func (s *streamer) Expect(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if s.expected == nil {
+		s.expected = make(map[string]struct{})
+	}
+	s.expected[invocationID] = struct{}{}
+}
+
+// Knows reports whether the stream is expected or running. There is nothing to cancel for other streams.
+func (s *streamer) Knows(invocationID string) bool {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	_, expected := s.expected[invocationID]
+	_, running := s.running[invocationID]
+	return expected || running
+}
+
+// Forget has to be called when no stream will be started for an expected invocationID.
+func (s *streamer) Forget(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	delete(s.expected, invocationID)
+	s.takeCancel(invocationID)
+}
+
+// takeCancel reports whether the stream was canceled before it was started
+func (s *streamer) takeCancel(invocationID string) bool {
+	_, canceled := s.cancels.LoadAndDelete(invocationID)
+	if canceled {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
+	return canceled
 }
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
+	cancel := make(chan struct{})
+	s.mx.Lock()
+	delete(s.expected, invocationID)
+	if s.takeCancel(invocationID) {
+		close(cancel)
+	}
+	if s.running == nil {
+		s.running = make(map[string]chan struct{})
+	}
+	s.running[invocationID] = cancel
+	s.mx.Unlock()
 	go func() {
-	loop:
+		defer func() {
+			s.mx.Lock()
+			defer s.mx.Unlock()
+			if s.running[invocationID] == cancel {
+				delete(s.running, invocationID)
+			}
+		}()
+		cases := []reflect.SelectCase{
+			{Dir: reflect.SelectRecv, Chan: reflectedChannel},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(cancel)},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.conn.Context().Done())},
+		}
 		for {
 			// Waits for channel, so might hang
-			if chanResult, ok := reflectedChannel.Recv(); ok {
-				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
-					_ = s.conn.Completion(invocationID, nil, "")
-					break loop
-				}
-				if s.conn.Context().Err() != nil {
-					break loop
-				}
-				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
-			} else {
-				if s.conn.Context().Err() == nil {
-					_ = s.conn.Completion(invocationID, nil, "")
-				}
-				break loop
+			chosen, chanResult, ok := reflect.Select(cases)
+			if s.conn.Context().Err() != nil {
+				return
+			}
+			select {
+			case <-cancel:
+				chosen = 1
+			default:
 			}
+			if chosen != 0 || !ok {
+				_ = s.conn.Completion(invocationID, nil, "")
+				return
+			}
+			_ = s.conn.StreamItem(invocationID, chanResult.Interface())
 		}
 	}()
 }
 
 func (s *streamer) Stop(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if cancel, ok := s.running[invocationID]; ok {
+		select {
+		case <-cancel:
+		default:
+			close(cancel)
+		}
+		return
+	}
 	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
-- 
2.43.0


From 4c7b2c600472613a83265e6f44d0d765d29c8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 25/73] fix: answer a panicking method with exactly one
 completion

---
 loop.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index e86287c..c85a49c 100644
--- a/loop.go
+++ b/loop.go
@@ -229,11 +229,17 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			}
 			// hub method might take a long time
 			go func() {
-				result := func() []reflect.Value {
+				result, panicked := func() (result []reflect.Value, panicked bool) {
+					panicked = true
 					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
+					result = method.Call(in)
+					return result, false
 				}()
-				l.returnInvocationResult(invocation, result)
+				// The panic has already been answered. When the method has upload streams, the additional
+				// completion makes the client close the connection, which ends the uploads nobody receives.
+				if !panicked || len(invocation.StreamIds) > 0 {
+					l.returnInvocationResult(invocation, result)
+				}
 				if invocation.Type == 4 {
 					// If there is no stream running now, there will never be one
 					l.streamer.Forget(invocation.InvocationID)
-- 
2.43.0


From cd20db495c3389f4e886ea67b6e719be0315a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 26/73] fix: an invocation without id must not be answered when
 it is refused

---
 loop.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/loop.go b/loop.go
index c85a49c..5a0f3d1 100644
--- a/loop.go
+++ b/loop.go
@@ -207,12 +207,12 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		// Unable to find the method
 		l.streamClient.refuseStreams(invocation.StreamIds)
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.refuse(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		l.streamClient.refuseStreams(invocation.StreamIds)
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.refuse(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
@@ -221,8 +221,8 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 				l.streamClient.deleteUpstreamChannel(id)
 			}
 			l.streamClient.refuseStreams(invocation.StreamIds)
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
-				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
+			l.refuse(invocation, fmt.Sprintf(
+				"Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			if invocation.Type == 4 {
 				l.streamer.Expect(invocation.InvocationID)
@@ -249,6 +249,13 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// refuse answers an invocation which can not be executed. An invocation without id is not answered.
+func (l *loop) refuse(invocation invocationMessage, errorText string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From 9518f68494388e4d432519c84addc5c7064fa561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 27/73] fix: do not wait for the result of an asynchronous
 method after the connection ended

---
 loop.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 5a0f3d1..3688b9f 100644
--- a/loop.go
+++ b/loop.go
@@ -265,11 +265,17 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			// Simple invocation
 			case 1:
 				go func() {
-					// Recv might block, so run continue in a goroutine
-					if chanResult, ok := result[0].Recv(); ok {
+					// Receiving might block, so run continue in a goroutine, but not longer than the connection exists
+					chosen, chanResult, ok := reflect.Select([]reflect.SelectCase{
+						{Dir: reflect.SelectRecv, Chan: result[0]},
+						{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(l.hubConn.Context().Done())},
+					})
+					if chosen != 0 {
+						return
+					}
+					if ok {
 						l.sendResult(invocation, completion, []reflect.Value{chanResult})
 					} else {
-
 						_ = l.hubConn.Completion(invocation.InvocationID, nil, "hub func returned closed chan")
 					}
 				}()
-- 
2.43.0


From 579187cfb39bb24289c71b5546aa221db8f380d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 28/73] fix: values which can not be serialized must not end
 the connection

---
 hubconnection.go | 16 ++++++++++++----
 loop.go          | 14 ++++++++++----
 streamer.go      |  6 +++++-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 231f67b..992e18a 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -208,15 +208,23 @@ func (c *defaultHubConnection) LastWriteStamp() time.Time {
 }
 
 func (c *defaultHubConnection) writeMessage(message interface{}) error {
-	c.mx.Lock()
-	c.lastWriteStamp = time.Now()
-	c.mx.Unlock()
 	err := func() error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
+		// A message which can not be encoded is an error of the caller and does not affect the connection
+		buf := &bytes.Buffer{}
+		if err := c.protocol.WriteMessage(message, buf); err != nil {
+			return err
+		}
+		c.mx.Lock()
+		c.lastWriteStamp = time.Now()
+		c.mx.Unlock()
 		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+		go func() {
+			_, err := c.connection.Write(buf.Bytes())
+			e <- err
+		}()
 		select {
 		case <-c.ctx.Done():
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
diff --git a/loop.go b/loop.go
index 3688b9f..1232086 100644
--- a/loop.go
+++ b/loop.go
@@ -292,7 +292,6 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 				// Stream invocation of method with no stream result.
 				// Return a single StreamItem and an empty Completion
 				l.sendResult(invocation, streamItem, result)
-				_ = l.hubConn.Completion(invocation.InvocationID, nil, "")
 			}
 		}
 	}
@@ -363,12 +362,19 @@ func (l *loop) sendResult(invocation invocationMessage, connFunc connFunc, resul
 type connFunc func(sl *loop, invocation invocationMessage, value interface{})
 
 func completion(sl *loop, invocation invocationMessage, value interface{}) {
-	_ = sl.hubConn.Completion(invocation.InvocationID, value, "")
+	if err := sl.hubConn.Completion(invocation.InvocationID, value, ""); err != nil {
+		// The value can not be serialized. If the connection has failed, this fails, too
+		_ = sl.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+	}
 }
 
+// streamItem returns the one and only item of a stream and completes it
 func streamItem(sl *loop, invocation invocationMessage, value interface{}) {
-
-	_ = sl.hubConn.StreamItem(invocation.InvocationID, value)
+	errorText := ""
+	if err := sl.hubConn.StreamItem(invocation.InvocationID, value); err != nil {
+		errorText = err.Error()
+	}
+	_ = sl.hubConn.Completion(invocation.InvocationID, nil, errorText)
 }
 
 func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
diff --git a/streamer.go b/streamer.go
index 172ec11..94e2a59 100644
--- a/streamer.go
+++ b/streamer.go
@@ -92,7 +92,11 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				_ = s.conn.Completion(invocationID, nil, "")
 				return
 			}
-			_ = s.conn.StreamItem(invocationID, chanResult.Interface())
+			if err := s.conn.StreamItem(invocationID, chanResult.Interface()); err != nil {
+				// The item can not be serialized. If the connection has failed, this fails, too
+				_ = s.conn.Completion(invocationID, nil, err.Error())
+				return
+			}
 		}
 	}()
 }
-- 
2.43.0


From a19986c5500f50e2a87e5b8b261306443b7cd67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 29/73] fix: a peer which does not read must not block the
 message loop

---
 hubconnection.go | 21 ++++++++++++++++++++-
 loop.go          | 19 +++++++++++++++----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 992e18a..4941d6c 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -27,6 +27,9 @@ type HubConnection interface {
 	Abort()
 }
 
+// closeTimeout limits the time to wait until a close message is written. The other side might not read anymore.
+const closeTimeout = 5 * time.Second
+
 type receiveResult struct {
 	message interface{}
 	err     error
@@ -72,7 +75,23 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	buf := &bytes.Buffer{}
+	if err := c.protocol.WriteMessage(closeMessage, buf); err != nil {
+		return err
+	}
+	e := make(chan error, 1)
+	go func() {
+		_, err := c.connection.Write(buf.Bytes())
+		e <- err
+	}()
+	timer := time.NewTimer(closeTimeout)
+	defer timer.Stop()
+	select {
+	case err := <-e:
+		return err
+	case <-timer.C:
+		return fmt.Errorf("timeout (%v) writing close message", closeTimeout)
+	}
 }
 
 func (c *defaultHubConnection) ConnectionID() string {
diff --git a/loop.go b/loop.go
index 1232086..e05b291 100644
--- a/loop.go
+++ b/loop.go
@@ -75,6 +75,11 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	defer timeoutTicker.Stop()
+	defer keepAliveTicker.Stop()
+	// The message loop must not be blocked by writing, because the other side might not read anymore
+	pinging := false
+	pingErr := make(chan error, 1)
 msgLoop:
 	for {
 	pingLoop:
@@ -116,14 +121,20 @@ msgLoop:
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
 
 				if nextPingIn <= 0 {
-					if err = l.hubConn.Ping(); err != nil {
-						break pingLoop
+					if !pinging {
+						pinging = true
+						go func() { pingErr <- l.hubConn.Ping() }()
 					}
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
 					keepAliveTicker.Reset(nextPingIn)
 				}
 				// Don't break the pingLoop when keepAlive is over, it exists for this case
+			case err = <-pingErr:
+				pinging = false
+				if err != nil {
+					break pingLoop
+				}
 			case <-timeoutTicker.C:
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
@@ -252,7 +263,7 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 // refuse answers an invocation which can not be executed. An invocation without id is not answered.
 func (l *loop) refuse(invocation invocationMessage, errorText string) {
 	if invocation.InvocationID != "" {
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+		go func() { _ = l.hubConn.Completion(invocation.InvocationID, nil, errorText) }()
 	}
 }
 
@@ -305,7 +316,7 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
-			_ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error())
+			go func() { _ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error()) }()
 		default:
 			_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(streamItemMessage), react, "close connection")
 			return err
-- 
2.43.0


From b78ffbcaf5ebcddb4243b9b288e8a13c1655ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 30/73] fix: use one and the same per connection hub for all
 calls and callbacks

---
 server.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index 9e1db85..3aecaf1 100644
--- a/server.go
+++ b/server.go
@@ -150,16 +150,24 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	connectionHub := s.connectionHub(hc)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		if connectionHub == nil {
+			connectionHub = s.invocationTarget(hc)
+		}
+		connectionHub.(HubInterface).OnConnected(hc.ConnectionID())
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
+	connectionHub := s.connectionHub(hc)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
+		if connectionHub == nil {
+			connectionHub = s.invocationTarget(hc)
+		}
+		connectionHub.(HubInterface).OnDisconnected(hc.ConnectionID())
 	}()
 	s.lifetimeManager.OnDisconnected(hc)
 
@@ -167,6 +175,15 @@ func (s *server) onDisconnected(hc HubConnection) {
 	s.removeConnectionHub(hc.ConnectionID())
 }
 
+// connectionHub returns the hub of the connection when PerConnectionHubFactory is used. The callbacks have to get it
+// before they run in their own goroutine. Then, it might be already removed and they would run on a new one.
+func (s *server) connectionHub(hc HubConnection) interface{} {
+	if s.perConnectionHubFactory != nil {
+		return s.invocationTarget(hc)
+	}
+	return nil
+}
+
 func (s *server) invocationTarget(conn HubConnection) interface{} {
 	if s.perConnectionHubFactory != nil {
 		// Use per-connection hub factory
@@ -180,8 +197,7 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 		// Create new hub instance for this connection
 		hub := s.perConnectionHubFactory(connectionID)
 		hub.Initialize(s.newConnectionHubContext(conn))
-		s.setConnectionHub(connectionID, hub)
-		return hub
+		return s.setConnectionHub(connectionID, hub)
 	}
 
 	// Fall back to the original behavior
@@ -328,11 +344,16 @@ func (s *server) getConnectionHub(connectionID string) (HubInterface, bool) {
 	return hub, exists
 }
 
-// setConnectionHub stores a hub instance for a specific connection
-func (s *server) setConnectionHub(connectionID string, hub HubInterface) {
+// setConnectionHub stores a hub instance for a specific connection, if there is none.
+// It returns the hub instance of the connection.
+func (s *server) setConnectionHub(connectionID string, hub HubInterface) HubInterface {
 	s.connectionHubsMutex.Lock()
 	defer s.connectionHubsMutex.Unlock()
+	if existing, exists := s.connectionHubs[connectionID]; exists {
+		return existing
+	}
 	s.connectionHubs[connectionID] = hub
+	return hub
 }
 
 // removeConnectionHub removes a hub instance for a specific connection
-- 
2.43.0


From dc631d6d42f2295b8edeb73945483174bf6fe30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 31/73] fix: data race on the reconnect permission of a server

---
 server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 3aecaf1..48d13b4 100644
--- a/server.go
+++ b/server.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 
 	"github.com/go-kit/log"
 )
@@ -47,7 +48,7 @@ type server struct {
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
-	reconnectAllowed           bool
+	reconnectForbidden         atomic.Bool
 	transports                 []TransportType
 	negotiationConnectionLimit int
 }
@@ -62,7 +63,6 @@ func NewServer(ctx context.Context, options ...func(Party) error) (Server, error
 		connectionHubs:            make(map[string]HubInterface),
 		// Do NOT initialize defaultHubClients or groupManager yet
 		partyBase:                  newPartyBase(ctx, info, dbg),
-		reconnectAllowed:           true,
 		negotiationConnectionLimit: 1000,
 	}
 	// apply any option including lifetime manager, logger, etc.
@@ -207,12 +207,12 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 }
 
 func (s *server) allowReconnect() bool {
-	return s.reconnectAllowed
+	return !s.reconnectForbidden.Load()
 }
 
 func (s *server) recoverHubLifeCyclePanic() {
 	if err := recover(); err != nil {
-		s.reconnectAllowed = false
+		s.reconnectForbidden.Store(true)
 		info, dbg := s.prefixLoggers("")
 		_ = info.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect")
 		_ = dbg.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect", "stack", string(debug.Stack()))
-- 
2.43.0


From 4de0b2e7f9f09e29f762877dd4d0caa92ad91dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 32/73] fix: PushStreams must accept nil arguments

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index e05b291..ac1a6dd 100644
--- a/loop.go
+++ b/loop.go
@@ -186,7 +186,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if reflect.ValueOf(arg).Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From 3ce348dfe093bd96522a753444675498f077a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 33/73] fix: answer a panicking stream method with exactly one
 completion, with upload streams, too

---
 loop.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index ac1a6dd..f041c9f 100644
--- a/loop.go
+++ b/loop.go
@@ -246,9 +246,9 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 					result = method.Call(in)
 					return result, false
 				}()
-				// The panic has already been answered. When the method has upload streams, the additional
+				// The panic has already been answered. When a plain invocation has upload streams, the additional
 				// completion makes the client close the connection, which ends the uploads nobody receives.
-				if !panicked || len(invocation.StreamIds) > 0 {
+				if !panicked || (invocation.Type == 1 && len(invocation.StreamIds) > 0) {
 					l.returnInvocationResult(invocation, result)
 				}
 				if invocation.Type == 4 {
-- 
2.43.0


From 1e0afec563aba58b4603ba48e3c0907e9621b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 34/73] fix: a stream waiting for its receiver must not block
 other streams and calls

---
 streamclient.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 3040ef3..2933b8f 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -68,6 +68,7 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
 	}
+	delete(c.runningStreams, invocationID)
 	c.mx.Unlock()
 }
 
@@ -108,10 +109,14 @@ func (c *streamClient) closeAllUpstreamChannels() {
 
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
-	defer c.mx.Unlock()
-	if upChan, ok := c.upstreamChannels[streamItem.InvocationID]; ok {
+	upChan, ok := c.upstreamChannels[streamItem.InvocationID]
+	if ok {
 		// Mark the stream as running to detect illegal completion with result on this id
 		c.runningStreams[streamItem.InvocationID] = true
+	}
+	c.mx.Unlock()
+	if ok {
+		// Do not hold the mutex here. Other streams should not have to wait for the receiver of this stream
 		chanVal := reflect.New(upChan.Type().Elem())
 		err := c.protocol.UnmarshalArgument(streamItem.Item, chanVal.Interface())
 		if err != nil {
@@ -159,7 +164,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -185,13 +190,9 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
 		return err
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
-- 
2.43.0


From 62a03feca261ba75adb804f7f25ed31f8579d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 35/73] fix: MessagePack integers which are out of the range of
 their destination must not be cut

---
 messagepackhubprotocol.go | 108 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 107 insertions(+), 1 deletion(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index a19ee92..00229da 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -2,10 +2,14 @@ package signalr
 
 import (
 	"bytes"
+	"encoding"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
+	"math"
+	"reflect"
+	"strings"
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
@@ -521,5 +525,107 @@ func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interfac
 	if err := decoder.Decode(dst); err != nil {
 		return err
 	}
-	return nil
+	// The decoder cuts integers which do not fit
+	decoder.Reset(bytes.NewBuffer(rawSrc))
+	return checkIntegers(decoder, reflect.TypeOf(dst).Elem())
+}
+
+var (
+	msgpackCustomDecoderType = reflect.TypeOf((*msgpack.CustomDecoder)(nil)).Elem()
+	msgpackUnmarshalerType   = reflect.TypeOf((*msgpack.Unmarshaler)(nil)).Elem()
+	binaryUnmarshalerType    = reflect.TypeOf((*encoding.BinaryUnmarshaler)(nil)).Elem()
+)
+
+// checkIntegers returns an error when the next value of the decoder, which has been decoded to type t before,
+// contains an integer which is out of the range of its destination.
+func checkIntegers(decoder *msgpack.Decoder, t reflect.Type) error {
+	code, err := decoder.PeekCode()
+	if err != nil {
+		return err
+	}
+	if code == msgpcode.Nil {
+		return decoder.Skip()
+	}
+	if t.Kind() == reflect.Ptr {
+		return checkIntegers(decoder, t.Elem())
+	}
+	for _, custom := range []reflect.Type{msgpackCustomDecoderType, msgpackUnmarshalerType, binaryUnmarshalerType} {
+		if reflect.PtrTo(t).Implements(custom) {
+			return decoder.Skip()
+		}
+	}
+	isArray := msgpcode.IsFixedArray(code) || code == msgpcode.Array16 || code == msgpcode.Array32
+	isMap := msgpcode.IsFixedMap(code) || code == msgpcode.Map16 || code == msgpcode.Map32
+	switch kind := t.Kind(); {
+	case kind >= reflect.Int && kind <= reflect.Int64:
+		if code == msgpcode.Uint64 {
+			n, err := decoder.DecodeUint64()
+			if err == nil && (n > math.MaxInt64 || reflect.Zero(t).OverflowInt(int64(n))) {
+				err = fmt.Errorf("value %v is out of the range of type %v", n, t)
+			}
+			return err
+		}
+		n, err := decoder.DecodeInt64()
+		if err == nil && reflect.Zero(t).OverflowInt(n) {
+			err = fmt.Errorf("value %v is out of the range of type %v", n, t)
+		}
+		return err
+	case kind >= reflect.Uint && kind <= reflect.Uintptr:
+		if code == msgpcode.Uint64 {
+			n, err := decoder.DecodeUint64()
+			if err == nil && reflect.Zero(t).OverflowUint(n) {
+				err = fmt.Errorf("value %v is out of the range of type %v", n, t)
+			}
+			return err
+		}
+		n, err := decoder.DecodeInt64()
+		if err == nil && (n < 0 || reflect.Zero(t).OverflowUint(uint64(n))) {
+			err = fmt.Errorf("value %v is out of the range of type %v", n, t)
+		}
+		return err
+	case (kind == reflect.Slice || kind == reflect.Array) && isArray:
+		n, err := decoder.DecodeArrayLen()
+		for i := 0; i < n && err == nil; i++ {
+			err = checkIntegers(decoder, t.Elem())
+		}
+		return err
+	case kind == reflect.Map && isMap:
+		return checkIntegersOfMap(decoder, t.Key(), func(interface{}) reflect.Type { return t.Elem() })
+	case kind == reflect.Struct && isMap:
+		fields := make(map[interface{}]reflect.Type)
+		for _, field := range reflect.VisibleFields(t) {
+			name, _, _ := strings.Cut(field.Tag.Get("json"), ",")
+			if name == "" {
+				name = field.Name
+			}
+			if field.IsExported() && name != "-" {
+				fields[name] = field.Type
+			}
+		}
+		return checkIntegersOfMap(decoder, nil, func(key interface{}) reflect.Type { return fields[key] })
+	default:
+		return decoder.Skip()
+	}
+}
+
+// checkIntegersOfMap checks the keys only if keyType is not nil, and the values elemType returns a type for.
+func checkIntegersOfMap(decoder *msgpack.Decoder, keyType reflect.Type, elemType func(key interface{}) reflect.Type) error {
+	n, err := decoder.DecodeMapLen()
+	for i := 0; i < n && err == nil; i++ {
+		var key interface{}
+		if keyType != nil {
+			err = checkIntegers(decoder, keyType)
+		} else {
+			key, err = decoder.DecodeString()
+		}
+		if err != nil {
+			return err
+		}
+		if t := elemType(key); t != nil {
+			err = checkIntegers(decoder, t)
+		} else {
+			err = decoder.Skip()
+		}
+	}
+	return err
 }
-- 
2.43.0


From e0943c3074b609d702834070d642f189c20cd1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 36/73] fix: goroutine leak when a call can not be sent while
 the client ends

---
 Invokeresult.go | 9 +++++++++
 client.go       | 1 +
 loop.go         | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index 932d04b..48e1b4e 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -67,3 +67,12 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 	}(ctx, ch, resultChan, errChan)
 	return ch
 }
+
+// discardInvokeResults takes everything which is still delivered by an InvokeResult channel nobody will read from,
+// so that the goroutine delivering it does not wait forever.
+func discardInvokeResults(ch <-chan InvokeResult) {
+	go func() {
+		for range ch {
+		}
+	}()
+}
diff --git a/client.go b/client.go
index c52b3b6..74b4501 100644
--- a/client.go
+++ b/client.go
@@ -494,6 +494,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
 		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
 			loop.invokeClient.deleteInvocation(id)
+			discardInvokeResults(irCh)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
diff --git a/loop.go b/loop.go
index f041c9f..9f9f2fa 100644
--- a/loop.go
+++ b/loop.go
@@ -171,6 +171,7 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
+		discardInvokeResults(ch)
 		ch, _ = createResultChansWithError(l.party.Context(), err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
@@ -196,6 +197,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
 		l.invokeClient.deleteInvocation(id)
+		discardInvokeResults(irCh)
 		return nil, err
 	}
 	// Start streaming on all channels
-- 
2.43.0


From 19f4bbccec8bb5795dd349c523f7596382c30437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 37/73] fix: a client must not be able to invoke the lifecycle
 methods of a hub

---
 loop.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/loop.go b/loop.go
index 9f9f2fa..5e7b8f8 100644
--- a/loop.go
+++ b/loop.go
@@ -451,6 +451,9 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	if hubType != nil {
 		hubValue := reflect.ValueOf(target)
 		name = strings.ToLower(name)
+		if _, isHub := target.(HubInterface); isHub && isHubLifecycleMethod(name) {
+			return reflect.Value{}, false
+		}
 		for i := 0; i < hubType.NumMethod(); i++ {
 			// Search in public methods
 			if m := hubType.Method(i); strings.ToLower(m.Name) == name {
@@ -461,6 +464,11 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	return reflect.Value{}, false
 }
 
+// isHubLifecycleMethod tells if a method (in lower case) is reserved for the server and must not be invoked by a client
+func isHubLifecycleMethod(name string) bool {
+	return name == "initialize" || name == "onconnected" || name == "ondisconnected"
+}
+
 func fmtMsg(message interface{}) string {
 	switch msg := message.(type) {
 	case invocationMessage:
-- 
2.43.0


From afe5f04b774b4f82a97ad9cb1fe4995a47656029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 38/73] fix: a client canceled while sending the handshake
 request must not crash

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 74b4501..fd8fb1e 100644
--- a/client.go
+++ b/client.go
@@ -655,9 +655,11 @@ func (c *client) sendHandshakeRequest() error {
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
+	// c.conn might be already replaced when the write starts after the context is canceled
+	conn := c.conn
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
-- 
2.43.0


From 553a175fb9d43cf78b669b350c9e34203831799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 39/73] fix: a canceled client must not skip states for
 observers which are reading

---
 client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index fd8fb1e..81cbade 100644
--- a/client.go
+++ b/client.go
@@ -381,11 +381,14 @@ func (c *client) deliverStates(o *stateObserver) {
 		case o.ch <- state:
 		case <-o.done:
 		case <-c.ctx.Done():
-			// Nobody might be reading anymore, do not wait for it
+			// Nobody might be reading anymore, do not wait forever
+			timer := time.NewTimer(c.chanReceiveTimeout())
 			select {
 			case o.ch <- state:
-			default:
+			case <-o.done:
+			case <-timer.C:
 			}
+			timer.Stop()
 		}
 	}
 }
-- 
2.43.0


From 92a9479c413a246a13beaf2beef9ad85d16dfcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 40/73] fix: messages waiting to be processed must keep a
 connection from timing out

---
 loop.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/loop.go b/loop.go
index 5e7b8f8..ba740ed 100644
--- a/loop.go
+++ b/loop.go
@@ -136,6 +136,11 @@ msgLoop:
 					break pingLoop
 				}
 			case <-timeoutTicker.C:
+				// Processing a message might have taken the whole interval. When the next one has
+				// already been received, the other side is not silent.
+				if len(ch) > 0 {
+					continue
+				}
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
 			case <-l.hubConn.Context().Done():
-- 
2.43.0


From b63c7b98e64b7f2e8f42d649edf82d170d9101d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 41/73] fix: a stopped client must have stopped parsing and
 logging received messages

---
 hubconnection.go | 1 +
 loop.go          | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hubconnection.go b/hubconnection.go
index 4941d6c..5f1e982 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -134,6 +134,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}(c.ctx, c.connection, writer)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult) {
+		defer close(recvChan)
 		remainBuf := bytes.Buffer{}
 		for {
 			messages, err := c.protocol.ParseMessages(reader, &remainBuf)
diff --git a/loop.go b/loop.go
index ba740ed..2f4a127 100644
--- a/loop.go
+++ b/loop.go
@@ -72,6 +72,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 				break loop
 			}
 		}
+		// Wait until receiving has ended. Who waits for the end of the party does not expect any logs afterwards.
+		for range recv {
+		}
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-- 
2.43.0


From 6e68b4aadec7c65f586f7229a11fb17a4cdf675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 42/73] fix: a result received while its call is still being
 sent must neither be lost nor crash the client

---
 Invokeresult.go |  9 -------
 client.go       | 22 +++--------------
 invokeclient.go | 64 ++++++++++++++++++++++++-------------------------
 loop.go         | 13 ++++------
 4 files changed, 39 insertions(+), 69 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index 48e1b4e..932d04b 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -67,12 +67,3 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 	}(ctx, ch, resultChan, errChan)
 	return ch
 }
-
-// discardInvokeResults takes everything which is still delivered by an InvokeResult channel nobody will read from,
-// so that the goroutine delivering it does not wait forever.
-func discardInvokeResults(ch <-chan InvokeResult) {
-	go func() {
-		for range ch {
-		}
-	}()
-}
diff --git a/client.go b/client.go
index 81cbade..c46b488 100644
--- a/client.go
+++ b/client.go
@@ -496,11 +496,8 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
 		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			loop.invokeClient.deleteInvocation(id)
-			discardInvokeResults(irCh)
-			ch <- InvokeResult{Error: err}
-			close(ch)
-			return
+			// The result might have been received nevertheless
+			loop.invokeClient.failInvocation(id, err)
 		}
 		go func() {
 			first := true
@@ -530,10 +527,7 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 		id := loop.GetNewID()
 		_, sendErrCh := loop.invokeClient.newInvocation(id)
 		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			loop.invokeClient.deleteInvocation(id)
-			errCh <- err
-			close(errCh)
-			return
+			loop.invokeClient.failInvocation(id, err)
 		}
 		go func() {
 			for ir := range sendErrCh {
@@ -602,16 +596,6 @@ func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
 
-func createResultChansWithError(ctx context.Context, err error) (<-chan InvokeResult, chan error) {
-	resultCh := make(chan interface{}, 1)
-	errCh := make(chan error, 1)
-	errCh <- err
-	invokeResultChan := newInvokeResultChan(ctx, resultCh, errCh)
-	close(errCh)
-	close(resultCh)
-	return invokeResultChan, errCh
-}
-
 func (c *client) onConnected(HubConnection) {}
 
 func (c *client) onDisconnected(HubConnection) {}
diff --git a/invokeclient.go b/invokeclient.go
index 97ac845..7259053 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -49,6 +49,18 @@ func (i *invokeClient) deleteInvocation(id string) {
 	i.mx.Unlock()
 }
 
+// failInvocation ends an invocation which could not be sent with an error, unless it has already been ended
+func (i *invokeClient) failInvocation(id string, err error) {
+	i.mx.Lock()
+	if r, ok := i.resultChans[id]; ok {
+		delete(i.resultChans, id)
+		r.errChan <- err
+		close(r.resultChan)
+		close(r.errChan)
+	}
+	i.mx.Unlock()
+}
+
 func (i *invokeClient) cancelAllInvokes() {
 	i.mx.Lock()
 	for _, r := range i.resultChans {
@@ -71,42 +83,28 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 }
 
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
-	defer i.deleteInvocation(completion.InvocationID)
+	// Take the invocation out of the map first. Then, nobody else can close its channels anymore.
 	i.mx.Lock()
 	ir, ok := i.resultChans[completion.InvocationID]
+	delete(i.resultChans, completion.InvocationID)
 	i.mx.Unlock()
-	if ok {
-		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
-			}
-		}
-		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-			}
-		}
+	if !ok {
+		return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	}
+	// The channels are buffered, so sending the one and only result or error does not block
+	defer close(ir.errChan)
+	defer close(ir.resultChan)
+	if completion.Error != "" {
+		ir.errChan <- errors.New(completion.Error)
 		return nil
 	}
-	return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	if completion.Result != nil {
+		var result interface{}
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			ir.errChan <- err
+			return err
+		}
+		ir.resultChan <- result
+	}
+	return nil
 }
diff --git a/loop.go b/loop.go
index 2f4a127..a6dbccc 100644
--- a/loop.go
+++ b/loop.go
@@ -177,12 +177,9 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 	upChan := l.streamClient.newUpstreamChannel(id)
 	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
-		// When we get an error here, the loop is closed and the errChan might be already closed
-		// We create a new one to deliver our error
-		discardInvokeResults(ch)
-		ch, _ = createResultChansWithError(l.party.Context(), err)
+		// Results might have been received nevertheless
+		l.invokeClient.failInvocation(id, err)
 		l.streamClient.deleteUpstreamChannel(id)
-		l.invokeClient.deleteInvocation(id)
 	}
 	return ch
 }
@@ -204,9 +201,9 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	}
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
-		l.invokeClient.deleteInvocation(id)
-		discardInvokeResults(irCh)
-		return nil, err
+		// The result might have been received nevertheless
+		l.invokeClient.failInvocation(id, err)
+		return irCh, nil
 	}
 	// Start streaming on all channels
 	for i, reflectedChannel := range reflectedChannels {
-- 
2.43.0


From 8138bc72b3749855efdfc059f407b1f9ef733323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 43/73] fix: the handshake error response must be valid JSON
 whatever protocol was requested

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 48d13b4..774eb98 100644
--- a/server.go
+++ b/server.go
@@ -314,8 +314,8 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
+				return conn.Write(append(errorHandshakeResponse, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From b978f7b4f9b4d6b6d94a526a97970cde00533730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 44/73] fix: messages of concurrent senders must not be mixed
 on connections which do not serialize writes

---
 hubconnection.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 5f1e982..b8239e9 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -3,6 +3,7 @@ package signalr
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -44,6 +45,7 @@ func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiv
 		mx:                        sync.Mutex{},
 		connection:                connection,
 		maximumReceiveMessageSize: maximumReceiveMessageSize,
+		writing:                   make(chan struct{}, 1),
 		items:                     &sync.Map{},
 		info:                      info,
 	}
@@ -60,6 +62,7 @@ type defaultHubConnection struct {
 	mx                        sync.Mutex
 	connection                Connection
 	maximumReceiveMessageSize uint
+	writing                   chan struct{}
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
@@ -79,15 +82,12 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 	if err := c.protocol.WriteMessage(closeMessage, buf); err != nil {
 		return err
 	}
-	e := make(chan error, 1)
-	go func() {
-		_, err := c.connection.Write(buf.Bytes())
-		e <- err
-	}()
 	timer := time.NewTimer(closeTimeout)
 	defer timer.Stop()
+	giveUp := make(chan struct{})
+	defer close(giveUp)
 	select {
-	case err := <-e:
+	case err := <-c.write(buf.Bytes(), giveUp):
 		return err
 	case <-timer.C:
 		return fmt.Errorf("timeout (%v) writing close message", closeTimeout)
@@ -240,15 +240,10 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		c.mx.Lock()
 		c.lastWriteStamp = time.Now()
 		c.mx.Unlock()
-		e := make(chan error, 1)
-		go func() {
-			_, err := c.connection.Write(buf.Bytes())
-			e <- err
-		}()
 		select {
 		case <-c.ctx.Done():
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
-		case err := <-e:
+		case err := <-c.write(buf.Bytes(), c.ctx.Done()):
 			if err != nil {
 				c.Abort()
 			}
@@ -260,3 +255,27 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 	}
 	return err
 }
+
+// write writes one encoded message. Not every Connection can handle concurrent writes, and a Connection which writes a
+// message in pieces must not mix it with others. So there is always only one write in progress.
+// When giveUp is closed before the write has started, it will never start.
+func (c *defaultHubConnection) write(p []byte, giveUp <-chan struct{}) <-chan error {
+	e := make(chan error, 1)
+	go func() {
+		err := errors.New("write canceled")
+		select {
+		case c.writing <- struct{}{}:
+		case <-giveUp:
+			e <- err
+			return
+		}
+		select {
+		case <-giveUp:
+		default:
+			_, err = c.connection.Write(p)
+		}
+		<-c.writing
+		e <- err
+	}()
+	return e
+}
-- 
2.43.0


From b0a3bee87d625a0e2a4d29671913f888adf62220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 45/73] fix: a negotiated id must not admit more than one
 connection, and version 1 connections must get the negotiated id

---
 httpmux.go | 144 +++++++++++++++++++++++++++++------------------------
 1 file changed, 78 insertions(+), 66 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..47433d2 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strconv"
@@ -127,51 +128,46 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			// Connection is negotiated but not initiated
-			// We compose http and send it over sse
-			writer.Header().Set("Content-Type", "text/event-stream")
-			writer.Header().Set("Connection", "keep-alive")
-			writer.Header().Set("Cache-Control", "no-cache")
-			writer.WriteHeader(http.StatusOK)
-			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
-			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
-			go func() {
-				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
-			}()
-			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
-				}
-				jobResultChan <- RWJobResult{n: n, err: err}
-			}
-			close(jobResultChan)
-		} else {
-			// connectionID in use
-			writer.WriteHeader(http.StatusConflict)
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	var jobChan <-chan []byte
+	var jobResultChan chan RWJobResult
+	// version 1 uses the token to initiate the connection, not the ID
+	sseConn, status, err := h.openConnection(connectionIDorToken, func(connectionID string) (Connection, error) {
+		conn, jobs, jobResults, err := newServerSSEConnection(ctx, connectionID)
+		jobChan, jobResultChan = jobs, jobResults
+		return conn, err
+	})
+	if err != nil {
+		writer.WriteHeader(status)
+		return
+	}
+	// Connection is negotiated but not initiated
+	// We compose http and send it over sse
+	writer.Header().Set("Content-Type", "text/event-stream")
+	writer.Header().Set("Connection", "keep-alive")
+	writer.Header().Set("Cache-Control", "no-cache")
+	writer.WriteHeader(http.StatusOK)
+	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
+	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
+	flusher.Flush()
+	go func() {
+		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
+		_ = h.serveConnection(connectionIDorToken, sseConn)
+	}()
+	// Loop for write jobs from the sseServerConnection
+	for buf := range jobChan {
+		n, err := writer.Write(buf)
+		if err == nil {
+			flusher.Flush()
 		}
-	} else {
-		writer.WriteHeader(http.StatusNotFound)
+		jobResultChan <- RWJobResult{n: n, err: err}
 	}
+	close(jobResultChan)
 }
 
 func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Request) {
@@ -188,35 +184,33 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		return
 	}
 	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
+	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	newConnection := func(connectionID string) (Connection, error) {
+		return newWebSocketConnection(ctx, connectionID, websocketConn), nil
+	}
 	connectionMapKey := request.URL.Query().Get("id")
+	var conn Connection
+	var status int
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
 		connectionMapKey = newConnectionID()
+		conn, _ = newConnection(connectionMapKey)
 		h.mx.Lock()
-		h.connectionMap[connectionMapKey] = &negotiateConnection{
-			ConnectionBase: ConnectionBase{connectionID: connectionMapKey},
-			createdAt:      time.Now(),
-		}
+		h.connectionMap[connectionMapKey] = conn
 		h.mx.Unlock()
-	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			}
+	} else if conn, status, err = h.openConnection(connectionMapKey, newConnection); err != nil {
+		if status == http.StatusNotFound {
+			// Not negotiated
+			_ = websocketConn.Close(1002, "Not found")
 		} else {
 			// Already initiated
 			_ = websocketConn.Close(1002, "Bad request")
 		}
-	} else {
-		// Not negotiated
-		_ = websocketConn.Close(1002, "Not found")
+		return
+	}
+	// Connection is negotiated but not initiated
+	if err = h.serveConnection(connectionMapKey, conn); err != nil {
+		_ = websocketConn.Close(1005, err.Error())
 	}
 }
 
@@ -299,13 +293,31 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// openConnection replaces the pending negotiation with the given key (the connectionID for version 0,
+// the connectionToken for version 1) by the connection newConnection returns.
+// Only one request can do this. It returns a http status and an error for all others.
+func (h *httpMux) openConnection(key string, newConnection func(connectionID string) (Connection, error)) (Connection, int, error) {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[key]
+	if !ok {
+		return nil, http.StatusNotFound, errors.New("connection not negotiated")
+	}
+	if _, ok := c.(*negotiateConnection); !ok {
+		return nil, http.StatusConflict, errors.New("connection already initiated")
+	}
+	conn, err := newConnection(c.ConnectionID())
+	if err != nil {
+		return nil, http.StatusInternalServerError, err
+	}
+	h.connectionMap[key] = conn
+	return conn, http.StatusOK, nil
+}
+
+func (h *httpMux) serveConnection(key string, c Connection) error {
 	err := h.server.Serve(c)
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	delete(h.connectionMap, key)
 	h.mx.Unlock()
 	return err
 }
-- 
2.43.0


From 689c0714dcaf606b824cf00c2b7a8cdd64ff1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 46/73] fix: the headers for HTTP requests must be sent with
 Server-Sent Events POSTs, and never be changed

---
 clientsseconnection.go | 11 ++++++++---
 httpconnection.go      | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..f1af4e1 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,12 +13,13 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	headers   func() http.Header
 	reqURL    string
 	sseReader io.Reader
 	sseWriter io.Writer
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
+func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
 	// Setup request
 	reqURL, err := url.Parse(address)
 	if err != nil {
@@ -32,8 +33,9 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
-		client: client,
-		reqURL: reqURL.String(),
+		client:  client,
+		headers: headers,
+		reqURL:  reqURL.String(),
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
@@ -76,6 +78,9 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	if c.headers != nil {
+		req.Header = cloneHeader(c.headers())
+	}
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..ff5a881 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -107,7 +107,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	}
 
 	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
+		req.Header = cloneHeader(httpConn.headers())
 	}
 
 	resp, err := httpConn.client.Do(req)
@@ -175,7 +175,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
+			opts.HTTPHeader = cloneHeader(httpConn.headers())
 		} else {
 			opts.HTTPHeader = http.Header{}
 		}
@@ -199,7 +199,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
+			req.Header = cloneHeader(httpConn.headers())
 		}
 		req.Header.Set("Accept", "text/event-stream")
 
@@ -208,7 +208,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
 			return nil, err
 		}
@@ -220,6 +220,14 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	return conn, nil
 }
 
+// cloneHeader returns a copy of the users header which can be changed. It is never nil.
+func cloneHeader(header http.Header) http.Header {
+	if header == nil {
+		return http.Header{}
+	}
+	return header.Clone()
+}
+
 // closeResponseBody reads a http response body to the end and closes it
 // See https://blog.cubieserver.de/2022/http-connection-reuse-in-go-clients/
 // The body needs to be fully read and closed, otherwise the connection will not be reused
-- 
2.43.0


From 3d546834790054fdb6701b9124bafb0d52d93c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 47/73] fix: Server-Sent Events with negotiate version 1 must
 POST to the connection token

---
 clientsseconnection.go | 14 +++-----------
 httpconnection.go      |  2 +-
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index f1af4e1..555567e 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"net/http"
-	"net/url"
 	"strings"
 )
 
@@ -19,15 +18,8 @@ type clientSSEConnection struct {
 	sseWriter io.Writer
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
-		return nil, err
-	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
+// newClientSSEConnection returns a connection which reads from body and POSTs to the URL the body comes from.
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
@@ -35,7 +27,7 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 		},
 		client:  client,
 		headers: headers,
-		reqURL:  reqURL.String(),
+		reqURL:  reqURL,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
diff --git a/httpconnection.go b/httpconnection.go
index ff5a881..132405b 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,7 +208,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b7b55e8344b56ca72dc9b02bb46832060a4a0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 48/73] fix: the Server-Sent Events client must read events of
 any size and framing, and notice their end

---
 clientsseconnection.go | 58 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 555567e..db32cdd 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,12 +1,12 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
-	"strings"
 )
 
 type clientSSEConnection struct {
@@ -15,7 +15,6 @@ type clientSSEConnection struct {
 	headers   func() http.Header
 	reqURL    string
 	sseReader io.Reader
-	sseWriter io.Writer
 }
 
 // newClientSSEConnection returns a connection which reads from body and POSTs to the URL the body comes from.
@@ -29,36 +28,39 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 		headers: headers,
 		reqURL:  reqURL,
 	}
-	c.sseReader, c.sseWriter = io.Pipe()
+	reader, writer := io.Pipe()
+	c.sseReader = reader
 	go func() {
-		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
-		for {
-			n, err := body.Read(p)
-			if err != nil {
-				break loop
-			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+		// When the server ends the events, the connection is over
+		_ = writer.CloseWithError(copyEventData(writer, body))
+		_ = body.Close()
+	}()
+	return &c, nil
+}
+
+// copyEventData writes the data of all server sent events in body to w.
+func copyEventData(w io.Writer, body io.Reader) error {
+	r := bufio.NewReaderSize(body, 1<<15)
+	isData, isContinued := false, false
+	for {
+		line, isPrefix, err := r.ReadLine()
+		if err != nil {
+			return err
+		}
+		if !isContinued {
+			// Ignore everything but data
+			if line, isData = bytes.CutPrefix(line, []byte("data:")); isData {
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
-				}
+				line = bytes.TrimPrefix(line, []byte(" "))
 			}
 		}
-	}()
-	return &c, nil
+		isContinued = isPrefix
+		if isData && len(line) > 0 {
+			if _, err := w.Write(line); err != nil {
+				return err
+			}
+		}
+	}
 }
 
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
-- 
2.43.0


From 67193633dd970d754f89b6a2f816991da75f3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 49/73] fix: Server-Sent Events connections must not lock up
 when they end or when a POST fails

---
 serversseconnection.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..61da429 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -26,9 +26,12 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 		jobChan:        make(chan []byte, 1),
 		jobResultChan:  make(chan RWJobResult, 1),
 	}
-	s.postReader, s.postWriter = io.Pipe()
+	postReader, postWriter := io.Pipe()
+	s.postReader, s.postWriter = postReader, postWriter
 	go func() {
 		<-s.Context().Done()
+		// Unblock Read and consumeRequest
+		_ = postWriter.CloseWithError(s.Context().Err())
 		s.mx.Lock()
 		close(s.jobChan)
 		s.mx.Unlock()
@@ -50,15 +53,19 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	defer func() {
 		_ = request.Body.Close()
 	}()
-	body, err := io.ReadAll(request.Body)
-	if err != nil {
-		return http.StatusBadRequest // 400
-	} else if _, err := s.postWriter.Write(body); err != nil {
-		return http.StatusInternalServerError // 500
+	body, readErr := io.ReadAll(request.Body)
+	var writeErr error
+	if readErr == nil {
+		_, writeErr = s.postWriter.Write(body)
 	}
 	s.mx.Lock()
 	s.postWriting = false
 	s.mx.Unlock()
+	if readErr != nil {
+		return http.StatusBadRequest // 400
+	} else if writeErr != nil {
+		return http.StatusInternalServerError // 500
+	}
 	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
@@ -66,7 +73,7 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() {}) // the end of the context closes the pipe
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
@@ -83,17 +90,24 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	}
 	// prevent race with goroutine closing the jobChan
 	s.mx.Lock()
-	if s.Context().Err() == nil {
-		s.jobChan <- []byte(payload + "\n")
-	} else {
-		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+	if err := s.Context().Err(); err != nil {
+		s.mx.Unlock()
+		return 0, fmt.Errorf("%T: %w", s, err)
 	}
+	s.jobChan <- []byte(payload + "\n")
 	s.mx.Unlock()
 	select {
 	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
-	case r := <-s.jobResultChan:
-		return r.n, r.err
+	case r, ok := <-s.jobResultChan:
+		if !ok {
+			// It is closed after the end of the context only
+			return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+		}
+		if r.err != nil {
+			return 0, r.err
+		}
+		return len(p), nil
 	}
 
 }
-- 
2.43.0


From 5c764b827461883f86bbfe4795a6f946a71a4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 50/73] fix: the Server-Sent Events response must end with the
 connection, even if the client does not read it

---
 httpmux.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 47433d2..dd846aa 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -133,7 +133,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusInternalServerError)
 		return
 	}
-	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	defer cancel()
 	var jobChan <-chan []byte
 	var jobResultChan chan RWJobResult
 	// version 1 uses the token to initiate the connection, not the ID
@@ -155,9 +156,14 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
 	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
 	flusher.Flush()
+	served := make(chan struct{})
 	go func() {
+		defer close(served)
 		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 		_ = h.serveConnection(connectionIDorToken, sseConn)
+		// End the response, even if the client does not read it anymore
+		cancel()
+		_ = http.NewResponseController(writer).SetWriteDeadline(time.Now().Add(closeTimeout))
 	}()
 	// Loop for write jobs from the sseServerConnection
 	for buf := range jobChan {
@@ -165,9 +171,13 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		if err == nil {
 			flusher.Flush()
 		}
-		jobResultChan <- RWJobResult{n: n, err: err}
+		select {
+		case jobResultChan <- RWJobResult{n: n, err: err}:
+		case <-ctx.Done():
+		}
 	}
 	close(jobResultChan)
+	<-served
 }
 
 func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Request) {
-- 
2.43.0


From 6b02fbf0b2187fd94fd8af2b4a617edd1384ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 51/73] fix: a client must close the transport of the
 connections the library has made when they end

---
 client.go                  | 18 ++++++++++++------
 clientsseconnection.go     | 15 +++++++++++++--
 connection.go              |  6 ++++++
 websocketconnection.go     |  4 ++++
 webtransportsconnection.go |  4 ++++
 5 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index c46b488..7ffd1a9 100644
--- a/client.go
+++ b/client.go
@@ -260,12 +260,20 @@ func (c *client) run() error {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
 	}
 
-	// Reset conn to allow reconnecting
+	c.resetConnection()
+
+	return err
+}
+
+// resetConnection gives up the connection to allow reconnecting.
+func (c *client) resetConnection() {
 	c.mx.Lock()
+	conn := c.conn
 	c.conn = nil
 	c.mx.Unlock()
-
-	return err
+	if closer, ok := conn.(transportCloser); ok {
+		closer.closeTransport()
+	}
 }
 
 // currentLoop returns the loop of the current or last connection. It is nil before the first handshake.
@@ -322,9 +330,7 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, Connection, error) {
 	protocol, overread, err := c.processHandshake()
 	if err != nil {
 		// The connection is not usable anymore, a reconnect needs a new one
-		c.mx.Lock()
-		c.conn = nil
-		c.mx.Unlock()
+		c.resetConnection()
 	}
 	return protocol, withOverread(conn, overread), err
 }
diff --git a/clientsseconnection.go b/clientsseconnection.go
index db32cdd..cf9c429 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -15,13 +15,15 @@ type clientSSEConnection struct {
 	headers   func() http.Header
 	reqURL    string
 	sseReader io.Reader
+	close     func()
 }
 
 // newClientSSEConnection returns a connection which reads from body and POSTs to the URL the body comes from.
 func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
+	ctx, cancel := context.WithCancel(context.Background())
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
-			ctx:          context.Background(),
+			ctx:          ctx,
 			connectionID: connectionID,
 		},
 		client:  client,
@@ -30,6 +32,11 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 	}
 	reader, writer := io.Pipe()
 	c.sseReader = reader
+	c.close = func() {
+		cancel()
+		_ = body.Close()
+		_ = reader.Close()
+	}
 	go func() {
 		// When the server ends the events, the connection is over
 		_ = writer.CloseWithError(copyEventData(writer, body))
@@ -67,8 +74,12 @@ func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 	return c.sseReader.Read(p)
 }
 
+func (c *clientSSEConnection) closeTransport() {
+	c.close()
+}
+
 func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
-	req, err := http.NewRequest("POST", c.reqURL, bytes.NewReader(p))
+	req, err := http.NewRequestWithContext(c.Context(), "POST", c.reqURL, bytes.NewReader(p))
 	if err != nil {
 		return 0, err
 	}
diff --git a/connection.go b/connection.go
index db77eb5..4072a5c 100644
--- a/connection.go
+++ b/connection.go
@@ -30,3 +30,9 @@ type ConnectionWithTransferMode interface {
 	TransferMode() TransferMode
 	SetTransferMode(transferMode TransferMode)
 }
+
+// transportCloser is a Connection which owns its transport. When a Client is done with such a Connection, it has to
+// close the transport, because nobody else can.
+type transportCloser interface {
+	closeTransport()
+}
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..40e7001 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -70,6 +70,10 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+func (w *webSocketConnection) closeTransport() {
+	_ = w.conn.Close(websocket.StatusNormalClosure, "")
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
diff --git a/webtransportsconnection.go b/webtransportsconnection.go
index ea01bce..590aa13 100644
--- a/webtransportsconnection.go
+++ b/webtransportsconnection.go
@@ -76,3 +76,7 @@ func (w *webTransportsConnection) closeStream() (err error) {
 	}
 	return w.stream.Close()
 }
+
+func (w *webTransportsConnection) closeTransport() {
+	_ = w.session.CloseWithError(0, "")
+}
-- 
2.43.0


From 57e474cfcdef0cd946b2108695393d99480ebbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 52/73] fix: HttpConnectionFactory must not change the options,
 because reconnects use them again, and must ignore nil options

---
 clientoptions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..7ac0cff 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,7 +42,12 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
+	// The options belong to the caller who might use them again, e.g. for a reconnect
+	options = append([]func(*httpConnection) error(nil), options...)
 	for i, option := range options {
+		if option == nil {
+			continue
+		}
 		if err := option(conn); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 06ebed4491a21a3c05c19329e6c58cb0d17f6e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 53/73] fix: Redis sends reach the connections of the sending
 instance

Each instance ignored what it had published itself, and nothing else delivered
it to its own connections.
---
 ext/redishublifetimemnager.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..afc0fd8 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,10 +23,8 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
+// NOTE: An instance also receives the messages it has published itself. It has to process them, because
+// this is how its own local connections get them. Processing a message never publishes, so there are no loops.
 
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
@@ -35,7 +33,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID (useful for debugging)
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,12 +130,6 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
-
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
 	for _, id := range invocation.ExcludedIDs {
-- 
2.43.0


From 26a18c50e12e4b89d7c2acb2fff6c45ccf32b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 54/73] fix: Redis sends to all and to groups ask the clients
 for no answer

The generated invocation id made every client answer with a completion which
the server never expects, so it closed the connection.
---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index afc0fd8..dabee12 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -196,7 +196,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -232,7 +232,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 7b3bc357d74dcd62cb43082c31936d0ea34a60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 55/73] fix: a Redis send to the connection "" does not go to
 everybody, one to the group "" is not lost

---
 ext/redishublifetimemnager.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index dabee12..fc30fa8 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -32,7 +32,7 @@ type redisInvocation struct {
 	Args           []interface{} `json:"a"`
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
-	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
+	ConnectionID   *string       `json:"c,omitempty"` // Used for client messages to identify the target client, nil for all other messages
 	SourceInstance string        `json:"s,omitempty"` // Source instance ID (useful for debugging)
 }
 
@@ -139,11 +139,12 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	// --- Message Dispatching Logic ---
 
 	// 1. Message for a specific client (sent via InvokeClient)
-	if invocation.ConnectionID != "" {
+	if invocation.ConnectionID != nil {
+		connectionID := *invocation.ConnectionID
 		// Check if this specific client is managed by *this* server instance
-		if conn, ok := r.clients.Load(invocation.ConnectionID); ok {
+		if conn, ok := r.clients.Load(connectionID); ok {
 			// Check if this connection ID is in the exclusion list
-			if _, excluded := excludedMap[invocation.ConnectionID]; !excluded {
+			if _, excluded := excludedMap[connectionID]; !excluded {
 				hubConn := conn.(signalr.HubConnection)
 				// Send the invocation asynchronously
 				go func() {
@@ -151,25 +152,25 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 					// Timeout removed as per request
 					err := hubConn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
-						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "client", "connectionId", invocation.ConnectionID, "err", err)
+						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "client", "connectionId", connectionID, "err", err)
 						// Consider removing connection if send fails repeatedly?
 					} else {
-						level.Debug(r.logger).Log("event", "sent_invocation_local", "target", "client", "connectionId", invocation.ConnectionID, "method", invocation.Target)
+						level.Debug(r.logger).Log("event", "sent_invocation_local", "target", "client", "connectionId", connectionID, "method", invocation.Target)
 					}
 				}()
 			} else {
-				level.Debug(r.logger).Log("event", "skipped_excluded_client", "connectionId", invocation.ConnectionID, "method", invocation.Target)
+				level.Debug(r.logger).Log("event", "skipped_excluded_client", "connectionId", connectionID, "method", invocation.Target)
 			}
 		} else {
 			// Client is not connected to this instance, ignore.
-			level.Debug(r.logger).Log("event", "received_client_message_for_remote_connection", "connectionId", invocation.ConnectionID)
+			level.Debug(r.logger).Log("event", "received_client_message_for_remote_connection", "connectionId", connectionID)
 		}
 		return // Processed client message, exit
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
-		groupName := invocation.GroupName // Group name is in the payload
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+		groupName := invocation.GroupName // Group name is in the payload (and may be empty)
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
 		// Iterate through local connections ONLY
@@ -215,7 +216,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 3. Message for all clients (sent via InvokeAll)
-	if invocation.ConnectionID == "" && invocation.GroupName == "" && msg.Channel == redisAllChannel {
+	if msg.Channel == redisAllChannel {
 		level.Debug(r.logger).Log("event", "processing_all_message", "method", invocation.Target)
 		// Iterate through all local connections
 		r.clients.Range(func(key, value interface{}) bool {
@@ -334,7 +335,7 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
-	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
+	msg := redisInvocation{Target: target, Args: args, ConnectionID: &connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
 		level.Error(r.logger).Log("event", "json_marshal_failed", "target", "client", "connectionId", connectionID, "method", target, "err", err)
-- 
2.43.0


From 2cd080459361e76e4a87f658fcaeb3903aeb7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 56/73] fix: concurrent Redis group changes crashed the
 process, and memberships could outlive the connection

The group names of a connection were an unprotected map. Adding and removing at
once could leave a member in Redis which the disconnect did not remove, as could
an add during the disconnect and a disconnect by stopping the server.
---
 ext/redishublifetimemnager.go | 93 +++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index fc30fa8..15ad36e 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -39,7 +39,7 @@ type redisInvocation struct {
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
 type redisHubLifetimeManager struct {
 	clients          sync.Map // Map[string]signalr.HubConnection - Local connections on this server instance
-	connectionGroups sync.Map // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	connectionGroups sync.Map // Map[string]*connectionGroups - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
 	redisClient      *redis.Client
 	pubSub           *redis.PubSub
 	logger           signalr.StructuredLogger
@@ -49,6 +49,21 @@ type redisHubLifetimeManager struct {
 	// protocol         signalr.hubProtocol // Needed for serialization if args are complex (though JSON handles basic types)
 }
 
+// connectionGroups is the set of groups one local connection belongs to.
+// Changes of the set and of Redis are done together under the lock, so they can not diverge.
+type connectionGroups struct {
+	lock  chan struct{} // Buffered with size 1, holds an element while locked
+	names map[string]struct{}
+	ended bool // The connection has ended
+}
+
+func newConnectionGroups() *connectionGroups {
+	return &connectionGroups{lock: make(chan struct{}, 1), names: make(map[string]struct{})}
+}
+
+func (c *connectionGroups) Lock()   { c.lock <- struct{}{} }
+func (c *connectionGroups) Unlock() { <-c.lock }
+
 // newRedisHubLifetimeManager creates a new Redis-backed HubLifetimeManager
 func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLogger, redisclient *redis.Client) (signalr.HubLifetimeManager, error) {
 	instanceID := uuid.New().String()
@@ -255,7 +270,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 func (r *redisHubLifetimeManager) OnConnected(conn signalr.HubConnection) {
 	r.clients.Store(conn.ConnectionID(), conn)
 	// Initialize local group cache for this connection
-	r.connectionGroups.Store(conn.ConnectionID(), make(map[string]struct{}))
+	r.connectionGroups.Store(conn.ConnectionID(), newConnectionGroups())
 	level.Debug(r.logger).Log("event", "client_connected_local", "connectionId", conn.ConnectionID())
 	// No Redis action needed on connect, only when adding to groups.
 }
@@ -267,19 +282,19 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 	// Remove connection from all groups it belonged to in Redis
 	// Use the local cache to know which groups to remove it from
 	if groups, ok := r.connectionGroups.LoadAndDelete(connectionID); ok {
-		groupSet, castOK := groups.(map[string]struct{})
-		if !castOK {
-			level.Error(r.logger).Log("event", "invalid_group_cache_type", "connectionId", connectionID)
-			return // Cannot proceed if cache is corrupt
-		}
+		groupSet := groups.(*connectionGroups)
+		groupSet.Lock()
+		defer groupSet.Unlock()
+		groupSet.ended = true
 
-		if len(groupSet) > 0 {
+		if len(groupSet.names) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
-			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
+			// The connection may end because the server has been stopped, so this should also work then
+			ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for groupName := range groupSet.names {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -290,7 +305,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet.names))
 			}
 		}
 	} else {
@@ -409,23 +424,19 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 // AddToGroup adds the connection to the local cache and the Redis Set.
 func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	// Add to local cache first
-	groupsRaw, loaded := r.connectionGroups.Load(connectionID)
-	if !loaded {
-		// This might happen if OnConnected hasn't finished or connection disconnected rapidly.
-		// We could try loading again or just log a warning.
+	if groups, ok := r.connectionGroups.Load(connectionID); ok {
+		groupSet := groups.(*connectionGroups)
+		groupSet.Lock()
+		defer groupSet.Unlock()
+		if groupSet.ended {
+			level.Debug(r.logger).Log("event", "connection_ended_on_add", "connectionId", connectionID, "group", groupName)
+			return
+		}
+		groupSet.names[groupName] = struct{}{} // Add to the local set
+	} else {
+		// This might happen if the connection is managed by another instance or disconnected rapidly.
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_add", "connectionId", connectionID, "group", groupName)
-		// Initialize it defensively?
-		groupsRaw = make(map[string]struct{})
-		r.connectionGroups.Store(connectionID, groupsRaw)
-	}
-
-	groupSet, castOK := groupsRaw.(map[string]struct{})
-	if !castOK {
-		level.Error(r.logger).Log("event", "invalid_group_cache_type_on_add", "connectionId", connectionID)
-		// Don't proceed with Redis if local cache is bad.
-		return
 	}
-	groupSet[groupName] = struct{}{} // Add to the local set
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -434,11 +445,8 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 	err := r.redisClient.SAdd(ctx, redisKey, connectionID).Err()
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_sadd_failed", "group", groupName, "connectionId", connectionID, "err", err)
-		// Rollback local cache add? Depends on consistency requirements.
-		// For simplicity, we leave it in the local cache. If Redis fails,
-		// the connection might not receive group messages, but disconnect
+		// Leave it in the local cache. The connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
-		delete(groupSet, groupName) // Rollback local add on Redis failure
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -450,17 +458,14 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	// Remove from local cache
 	removedLocally := false
-	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
-		groupSet, castOK := groupsRaw.(map[string]struct{})
-		if castOK {
-			if _, exists := groupSet[groupName]; exists {
-				delete(groupSet, groupName)
-				removedLocally = true
-			}
-		} else {
-			level.Error(r.logger).Log("event", "invalid_group_cache_type_on_remove", "connectionId", connectionID)
-			// Don't attempt Redis removal if local cache is bad? Or proceed anyway?
-			// Let's proceed with Redis removal attempt for robustness.
+	var groupSet *connectionGroups
+	if groups, ok := r.connectionGroups.Load(connectionID); ok {
+		groupSet = groups.(*connectionGroups)
+		groupSet.Lock()
+		defer groupSet.Unlock()
+		if _, exists := groupSet.names[groupName]; exists {
+			delete(groupSet.names, groupName)
+			removedLocally = true
 		}
 	} else {
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_remove", "connectionId", connectionID, "group", groupName)
@@ -476,8 +481,10 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	// especially if the local remove also failed or if there was inconsistency.
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_srem_failed", "group", groupName, "connectionId", connectionID, "err", err)
-		// If Redis failed, should we re-add to local cache if we removed it?
-		// For simplicity, leave local cache as removed.
+		// Disconnect will try again
+		if removedLocally {
+			groupSet.names[groupName] = struct{}{}
+		}
 	} else {
 		// Log whether the member was actually removed from Redis (result > 0)
 		level.Debug(r.logger).Log("event", "removed_from_redis_group", "group", groupName, "connectionId", connectionID, "redis_removed_count", result, "removed_locally", removedLocally)
-- 
2.43.0


From a64354f3c694c15d5db926a9ab77de67776a6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 57/73] fix: the Redis manager subscribes before the server
 serves connections

The subscription was made in the background, so the first connections missed
what was sent until it was done.
---
 ext/redishublifetimemnager.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 15ad36e..8a9d18e 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -80,6 +80,11 @@ func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLo
 		// protocol:    protocol, // Store protocol (though json.Marshal handles args for now)
 	}
 
+	// Subscribe before any connection is served, so no connection misses what is sent after it has been connected
+	if err := manager.subscribe(); err != nil {
+		cancel()
+		return nil, err
+	}
 	// Start listening to Redis Pub/Sub in a separate goroutine
 	go manager.subscribeLoop()
 
@@ -87,8 +92,8 @@ func newRedisHubLifetimeManager(ctx context.Context, logger signalr.StructuredLo
 	return manager, nil
 }
 
-// subscribeLoop listens to relevant Redis channels
-func (r *redisHubLifetimeManager) subscribeLoop() {
+// subscribe subscribes to the relevant Redis channels and waits until Redis has confirmed this
+func (r *redisHubLifetimeManager) subscribe() error {
 	// Subscribe to the 'all' channel and all 'group' channels
 	// PSubscribe allows pattern matching
 	allPattern := redisAllChannel
@@ -96,18 +101,19 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 	r.pubSub = r.redisClient.PSubscribe(r.ctx, allPattern, groupPattern)
 
 	// Wait for confirmation that subscription is created before proceeding.
-	_, err := r.pubSub.Receive(r.ctx)
+	_, err := r.pubSub.ReceiveTimeout(r.ctx, 5*time.Second)
 	if err != nil {
 		level.Error(r.logger).Log("event", "redis_subscribe_failed", "err", err, "patterns", []string{allPattern, groupPattern})
-		r.cancel() // Signal manager is defunct
-		return
+		_ = r.pubSub.Close()
+		return err
 	}
 
-	err = level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
-	if err != nil {
-		return
-	}
+	_ = level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
+	return nil
+}
 
+// subscribeLoop listens to the subscribed Redis channels
+func (r *redisHubLifetimeManager) subscribeLoop() {
 	ch := r.pubSub.Channel()
 
 	for {
@@ -126,7 +132,7 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 			}
 			// Check if the message matches one of the subscribed patterns
 			// (PSubscribe sends messages with Pattern and Channel fields)
-			if msg.Channel == allPattern || strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+			if msg.Channel == redisAllChannel || strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 				r.handleRedisMessage(msg)
 			} else {
 				level.Debug(r.logger).Log("event", "received_redis_message_unmatched_pattern", "channel", msg.Channel, "pattern", msg.Pattern, "payload", msg.Payload)
-- 
2.43.0


From 3a8fe60f836f06e7d5124b2fe48225c7d9433b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 58/73] fix: integers beyond 2^53 keep their value when they
 are sent through Redis

---
 ext/redishublifetimemnager.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 8a9d18e..bfc8474 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -3,6 +3,7 @@ package ext
 import (
 	"context"
 	"encoding/json"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -146,10 +147,15 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	level.Debug(r.logger).Log("event", "received_redis_message", "channel", msg.Channel, "payload_len", len(msg.Payload))
 
 	var invocation redisInvocation
-	if err := json.Unmarshal([]byte(msg.Payload), &invocation); err != nil {
+	decoder := json.NewDecoder(strings.NewReader(msg.Payload))
+	decoder.UseNumber() // float64 can not hold all integers
+	if err := decoder.Decode(&invocation); err != nil {
 		level.Error(r.logger).Log("event", "redis_payload_unmarshal_error", "err", err, "payload", msg.Payload)
 		return
 	}
+	for i := range invocation.Args {
+		invocation.Args[i] = convertNumbers(invocation.Args[i])
+	}
 
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
@@ -501,6 +507,31 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 
 // --- Helper methods ---
 
+// convertNumbers replaces all json.Number in a decoded value by numbers which hold their value,
+// so that every hub protocol encodes them as numbers.
+func convertNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i := range v {
+			v[i] = convertNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = convertNumbers(v[k])
+		}
+	}
+	return value
+}
+
 // groupChannel returns the Redis channel name for a specific group.
 // Used for Pub/Sub.
 func (r *redisHubLifetimeManager) groupChannel(groupName string) string {
-- 
2.43.0


From 124a01692833ca7d39bb4aa08281c703dbbd67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 59/73] fix: do not close an upstream channel while a value is
 still being sent to it

---
 streamclient.go | 63 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 2933b8f..d11b06f 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -11,6 +11,7 @@ func newStreamClient(protocol hubProtocol, chanReceiveTimeout time.Duration, str
 	return &streamClient{
 		mx:                   sync.Mutex{},
 		upstreamChannels:     make(map[string]reflect.Value),
+		upstreamSenders:      make(map[string]*upstreamSenders),
 		runningStreams:       make(map[string]bool),
 		refusedStreams:       make(map[string]struct{}),
 		chanReceiveTimeout:   chanReceiveTimeout,
@@ -23,6 +24,7 @@ func newStreamClient(protocol hubProtocol, chanReceiveTimeout time.Duration, str
 type streamClient struct {
 	mx                   sync.Mutex
 	upstreamChannels     map[string]reflect.Value
+	upstreamSenders      map[string]*upstreamSenders
 	runningStreams       map[string]bool
 	refusedStreams       map[string]struct{}
 	chanReceiveTimeout   time.Duration
@@ -46,6 +48,7 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
+		c.upstreamSenders[invocation.StreamIds[chanCount]] = &upstreamSenders{stop: make(chan struct{})}
 		delete(c.refusedStreams, invocation.StreamIds[chanCount])
 		return arg, true, nil
 	} else {
@@ -59,19 +62,39 @@ func (c *streamClient) newUpstreamChannel(invocationID string) <-chan interface{
 	defer c.mx.Unlock()
 	upChan := make(chan interface{}, c.streamBufferCapacity)
 	c.upstreamChannels[invocationID] = reflect.ValueOf(upChan)
+	c.upstreamSenders[invocationID] = &upstreamSenders{stop: make(chan struct{})}
 	return upChan
 }
 
 func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Lock()
-	if upChan, ok := c.upstreamChannels[invocationID]; ok {
-		upChan.Close()
-		delete(c.upstreamChannels, invocationID)
-	}
+	c.closeUpstreamChannel(invocationID)
 	delete(c.runningStreams, invocationID)
 	c.mx.Unlock()
 }
 
+// upstreamSenders are the values on their way into an upstream channel. There might be several of them,
+// because they are not withdrawn when the receiver takes longer than chanReceiveTimeout.
+type upstreamSenders struct {
+	stop    chan struct{}
+	running sync.WaitGroup
+}
+
+// closeUpstreamChannel closes the channel after all its senders gave up. c.mx has to be locked.
+func (c *streamClient) closeUpstreamChannel(id string) {
+	upChan, ok := c.upstreamChannels[id]
+	if !ok {
+		return
+	}
+	if senders, ok := c.upstreamSenders[id]; ok {
+		close(senders.stop)
+		senders.running.Wait()
+		delete(c.upstreamSenders, id)
+	}
+	upChan.Close()
+	delete(c.upstreamChannels, id)
+}
+
 // maxRefusedStreams limits the refused streams a misbehaving client can make us remember
 const maxRefusedStreams = 1000
 
@@ -101,9 +124,8 @@ func (c *streamClient) isRefused(streamID string, completed bool) bool {
 func (c *streamClient) closeAllUpstreamChannels() {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for id, upChan := range c.upstreamChannels {
-		upChan.Close()
-		delete(c.upstreamChannels, id)
+	for id := range c.upstreamChannels {
+		c.closeUpstreamChannel(id)
 	}
 }
 
@@ -122,21 +144,32 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 		if err != nil {
 			return err
 		}
-		return c.sendChanValSave(upChan, chanVal.Elem())
+		return c.sendChanValSave(streamItem.InvocationID, upChan, chanVal.Elem())
 	}
 	return fmt.Errorf(`unknown stream id "%v"`, streamItem.InvocationID)
 }
 
-func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
+func (c *streamClient) sendChanValSave(id string, upChan reflect.Value, chanVal reflect.Value) error {
+	c.mx.Lock()
+	senders, ok := c.upstreamSenders[id]
+	if !ok || c.upstreamChannels[id].Pointer() != upChan.Pointer() {
+		c.mx.Unlock()
+		return fmt.Errorf("stream id %v has been closed", id)
+	}
+	senders.running.Add(1)
+	c.mx.Unlock()
 	// Buffered, because nobody receives after the timeout
 	done := make(chan error, 1)
 	go func() {
-		defer func() {
-			if r := recover(); r != nil {
-				done <- fmt.Errorf("%v", r)
-			}
-		}()
-		upChan.Send(chanVal)
+		defer senders.running.Done()
+		chosen, _, _ := reflect.Select([]reflect.SelectCase{
+			{Dir: reflect.SelectSend, Chan: upChan, Send: chanVal},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(senders.stop)},
+		})
+		if chosen != 0 {
+			done <- fmt.Errorf("stream id %v has been closed", id)
+			return
+		}
 		done <- nil
 	}()
 	select {
-- 
2.43.0


From 4c02298ea9aa333c73a5e930ee6fc95dd5214a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 60/73] fix: a closed result channel must not be polled in a
 busy loop while a call waits for its end

---
 Invokeresult.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index 932d04b..cba9295 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -16,14 +16,14 @@ type InvokeResult struct {
 func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
 	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
-		var resultChanClosed, errChanClosed bool
+		// A channel which has been closed is set to nil: the closed one would be ready again and again
 		// Values which have been received before an error are delivered before the error
 		deliverReceivedValues := func() {
-			for !resultChanClosed {
+			for resultChan != nil {
 				select {
 				case value, ok := <-resultChan:
 					if !ok {
-						resultChanClosed = true
+						resultChan = nil
 					} else {
 						ch <- InvokeResult{
 							Value: value,
@@ -35,7 +35,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 			}
 		}
 	loop:
-		for !resultChanClosed || !errChanClosed {
+		for resultChan != nil || errChan != nil {
 			select {
 			case <-ctx.Done():
 				deliverReceivedValues()
@@ -46,7 +46,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
-					resultChanClosed = true
+					resultChan = nil
 				} else {
 					ch <- InvokeResult{
 						Value: value,
@@ -54,7 +54,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				}
 			case err, ok := <-errChan:
 				if !ok {
-					errChanClosed = true
+					errChan = nil
 				} else {
 					deliverReceivedValues()
 					ch <- InvokeResult{
-- 
2.43.0


From 27122b30cac9baf193f8c2cc8d3bce084fcb9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 61/73] fix: a client started again must not obey the close
 message of its previous connection

---
 client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 7ffd1a9..b92f5db 100644
--- a/client.go
+++ b/client.go
@@ -187,13 +187,14 @@ func (c *client) Start() {
 					}
 				}
 			}()
+			lastLoop := c.currentLoop()
 			// RUN!
 			err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
+			shouldEnd := c.shouldClientEnd(lastLoop)
 			cancelObserve()
 			if shouldEnd {
 				return
@@ -283,7 +284,9 @@ func (c *client) currentLoop() *loop {
 	return c.loop
 }
 
-func (c *client) shouldClientEnd() bool {
+// shouldClientEnd decides if the client ends after a connection has ended or could not be established.
+// lastLoop is the loop of the connection before, if there was one.
+func (c *client) shouldClientEnd(lastLoop *loop) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
 		c.setErr(c.ctx.Err())
@@ -295,8 +298,9 @@ func (c *client) shouldClientEnd() bool {
 		c.setState(ClientClosed)
 		return true
 	}
-	// Reconnecting not allowed
-	if loop := c.currentLoop(); loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
+	// Reconnecting not allowed. What the server of the connection before said, does not count:
+	// the client might have been started again since then.
+	if loop := c.currentLoop(); loop != nil && loop != lastLoop && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
-- 
2.43.0


From ad746a0c2c5470b1d4c3cf5b25442e9ffac3da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:22 +0000
Subject: [PATCH 62/73] fix: a client waiting for its back-off must not be
 reported as connected

Calls made during the back-off failed on the lost connection instead of waiting for the next one.
---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index b92f5db..d793308 100644
--- a/client.go
+++ b/client.go
@@ -212,6 +212,8 @@ func (c *client) Start() {
 				c.setState(ClientClosed)
 				return
 			}
+			// The client is not connected during the backoff
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
@@ -219,7 +221,6 @@ func (c *client) Start() {
 				c.setState(ClientClosed)
 				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
-- 
2.43.0


From e84a4b3d93d874aed49bf41655b8b26c0c08b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 63/73] fix: the negotiation must use the escaped path of the
 client's address

---
 httpconnection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index 132405b..8cb5399 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"path"
 
 	"github.com/coder/websocket"
 	"github.com/quic-go/webtransport-go"
@@ -94,8 +93,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	negotiateURL := *reqURL
-	negotiateURL.Path = path.Join(negotiateURL.Path, "negotiate")
+	negotiateURL := reqURL.JoinPath("negotiate")
 	if httpConn.negotiateVersion != nil {
 		q := negotiateURL.Query()
 		q.Set("negotiateVersion", fmt.Sprint(*httpConn.negotiateVersion))
-- 
2.43.0


From a27a7303999a197982518b617da202ab7ecdba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:11 +0000
Subject: [PATCH 64/73] fix: the cookies of the negotiation must be sent back
 without their attributes

---
 httpconnection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpconnection.go b/httpconnection.go
index 8cb5399..2544a77 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -179,6 +179,8 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		for _, cookie := range resp.Cookies() {
+			// Only name and value are sent back, the attributes are for the client
+			cookie = &http.Cookie{Name: cookie.Name, Value: cookie.Value, Quoted: cookie.Quoted}
 			opts.HTTPHeader.Add("Cookie", cookie.String())
 		}
 
-- 
2.43.0


From bee47b3465af022853eea1a553f9201c17e66363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:40 +0000
Subject: [PATCH 65/73] fix: the context of NewHTTPConnection must also cancel
 the request for Server-Sent Events

---
 httpconnection.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index 2544a77..8c2c3fa 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -193,7 +193,16 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		conn = newWebSocketConnection(context.Background(), negotiateResponse.ConnectionID, ws)
 
 	case httpConn.hasTransport(TransportServerSentEvents) && negotiateResponse.hasTransport(TransportServerSentEvents):
-		req, err := http.NewRequest("GET", reqURL.String(), nil)
+		// ctx cancels the request, but not the event stream when it is established
+		sseCtx, cancelSSE := context.WithCancel(context.Background())
+		stop := context.AfterFunc(ctx, cancelSSE)
+		defer func() {
+			stop()
+			if conn == nil {
+				cancelSSE()
+			}
+		}()
+		req, err := http.NewRequestWithContext(sseCtx, "GET", reqURL.String(), nil)
 		if err != nil {
 			return nil, err
 		}
@@ -207,6 +216,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		if err != nil {
 			return nil, err
 		}
+		if !stop() {
+			_ = resp.Body.Close()
+			return nil, ctx.Err()
+		}
 
 		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
-- 
2.43.0


From f7649d7374a6350d6eb63ccbf4cbc4a7e81c2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:42 +0000
Subject: [PATCH 66/73] fix: a refused request for Server-Sent Events must not
 become a connection

---
 httpconnection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httpconnection.go b/httpconnection.go
index 8c2c3fa..6333d0b 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -220,6 +220,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			_ = resp.Body.Close()
 			return nil, ctx.Err()
 		}
+		if resp.StatusCode != 200 {
+			_ = resp.Body.Close()
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
+		}
 
 		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
-- 
2.43.0


From 39e095197a734d9524ca77ed1b1b7c4e2d06ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:57 +0000
Subject: [PATCH 67/73] fix: a connection which ends while it is added to a
 group does not stay in the group

---
 hublifetimemanager.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..2e93266 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -56,6 +56,15 @@ func (g *groupMap) remove(id string) {
 	g.mu.Unlock()
 }
 
+// removeConnection removes the member with the id only when it is conn.
+func (g *groupMap) removeConnection(id string, conn HubConnection) {
+	g.mu.Lock()
+	if g.members[id] == conn {
+		delete(g.members, id)
+	}
+	g.mu.Unlock()
+}
+
 // snapshot returns a stable copy of the current members for safe iteration.
 func (g *groupMap) snapshot() []HubConnection {
 	g.mu.RLock()
@@ -111,6 +120,10 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
 		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		// When the connection ended meanwhile, OnDisconnected may not have seen the new member
+		if current, ok := d.clients.Load(connectionID); !ok || current != client {
+			gm.(*groupMap).removeConnection(connectionID, client.(HubConnection))
+		}
 	}
 }
 
-- 
2.43.0


From 4ec950910f61ab7f67c98541215d45fa0a5f765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:47 +0000
Subject: [PATCH 68/73] fix: a group without members is not kept forever

Groups are often named after something which exists for a short time, a
document or a game. The server kept each of them until it ended.
---
 hublifetimemanager.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 2e93266..cce1433 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -42,17 +42,24 @@ type defaultHubLifetimeManager struct {
 type groupMap struct {
 	mu      sync.RWMutex
 	members map[string]HubConnection
+	empty   bool // the last member has left, nobody can be added anymore
 }
 
-func (g *groupMap) add(id string, conn HubConnection) {
+// add reports false if the group has become empty meanwhile.
+func (g *groupMap) add(id string, conn HubConnection) bool {
 	g.mu.Lock()
+	defer g.mu.Unlock()
+	if g.empty {
+		return false
+	}
 	g.members[id] = conn
-	g.mu.Unlock()
+	return true
 }
 
 func (g *groupMap) remove(id string) {
 	g.mu.Lock()
 	delete(g.members, id)
+	g.empty = len(g.members) == 0
 	g.mu.Unlock()
 }
 
@@ -61,10 +68,17 @@ func (g *groupMap) removeConnection(id string, conn HubConnection) {
 	g.mu.Lock()
 	if g.members[id] == conn {
 		delete(g.members, id)
+		g.empty = len(g.members) == 0
 	}
 	g.mu.Unlock()
 }
 
+func (g *groupMap) isEmpty() bool {
+	g.mu.RLock()
+	defer g.mu.RUnlock()
+	return g.empty
+}
+
 // snapshot returns a stable copy of the current members for safe iteration.
 func (g *groupMap) snapshot() []HubConnection {
 	g.mu.RLock()
@@ -82,12 +96,20 @@ func (d *defaultHubLifetimeManager) OnConnected(conn HubConnection) {
 
 func (d *defaultHubLifetimeManager) OnDisconnected(conn HubConnection) {
 	d.clients.Delete(conn.ConnectionID())
-	d.groups.Range(func(_, value any) bool {
+	d.groups.Range(func(groupName, value any) bool {
 		value.(*groupMap).remove(conn.ConnectionID())
+		d.forgetIfEmpty(groupName, value.(*groupMap))
 		return true
 	})
 }
 
+// forgetIfEmpty removes a group without members, which might never be used again.
+func (d *defaultHubLifetimeManager) forgetIfEmpty(groupName any, gm *groupMap) {
+	if gm.isEmpty() {
+		d.groups.CompareAndDelete(groupName, gm)
+	}
+}
+
 func (d *defaultHubLifetimeManager) InvokeAll(target string, args []interface{}) {
 	d.clients.Range(func(key, value interface{}) bool {
 		go func() {
@@ -119,10 +141,14 @@ func (d *defaultHubLifetimeManager) InvokeGroup(groupName string, target string,
 func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
-		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		for !gm.(*groupMap).add(connectionID, client.(HubConnection)) {
+			d.forgetIfEmpty(groupName, gm.(*groupMap))
+			gm, _ = d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
+		}
 		// When the connection ended meanwhile, OnDisconnected may not have seen the new member
 		if current, ok := d.clients.Load(connectionID); !ok || current != client {
 			gm.(*groupMap).removeConnection(connectionID, client.(HubConnection))
+			d.forgetIfEmpty(groupName, gm.(*groupMap))
 		}
 	}
 }
@@ -130,5 +156,6 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 func (d *defaultHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	if gm, ok := d.groups.Load(groupName); ok {
 		gm.(*groupMap).remove(connectionID)
+		d.forgetIfEmpty(groupName, gm.(*groupMap))
 	}
 }
-- 
2.43.0


From 072f7feaa2efa4935a853f3d24a482052131ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:45 +0000
Subject: [PATCH 69/73] fix: the cancellation of a stream which is not started
 yet is not ignored

---
 streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 94e2a59..36dba1d 100644
--- a/streamer.go
+++ b/streamer.go
@@ -112,7 +112,9 @@ func (s *streamer) Stop(invocationID string) {
 		}
 		return
 	}
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	// Only cancellations of streams which might never be started have to be limited
+	_, expected := s.expected[invocationID]
+	if !expected && s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0


From 1b8d32c012a779bb11bf1d3cae5234fbdcd38b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:27 +0000
Subject: [PATCH 70/73] fix: a slow receiver of stream items does not keep the
 message loop from pinging and from noticing the end

---
 loop.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index a6dbccc..17449fe 100644
--- a/loop.go
+++ b/loop.go
@@ -83,12 +83,15 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	// The message loop must not be blocked by writing, because the other side might not read anymore
 	pinging := false
 	pingErr := make(chan error, 1)
+	// Nor must it be blocked by a slow receiver of stream items. While busy, the next message has to wait
+	busy := make(chan error, 1)
+	next := ch
 msgLoop:
 	for {
 	pingLoop:
 		for {
 			select {
-			case evt := <-ch:
+			case evt := <-next:
 				err = evt.err
 				timeoutTicker.Reset(l.party.timeout())
 				if err == nil {
@@ -101,7 +104,12 @@ msgLoop:
 							l.streamer.Stop(message.InvocationID)
 						}
 					case streamItemMessage:
-						err = l.handleStreamItemMessage(message)
+						next = nil
+						wg.Add(1)
+						go func() {
+							defer wg.Done()
+							busy <- l.handleStreamItemMessage(message)
+						}()
 					case completionMessage:
 						err = l.handleCompletionMessage(message)
 					case closeMessage:
@@ -119,6 +127,11 @@ msgLoop:
 					_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(evt.message), react, "close connection")
 				}
 				break pingLoop
+			case err = <-busy:
+				next = ch
+				if err != nil {
+					break pingLoop
+				}
 			case <-keepAliveTicker.C:
 				// Send ping only when there was no write in the keepAliveInterval before
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
-- 
2.43.0


From e02ea1ae1763bd9502f42a7aded08bc1ee36016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:02 +0000
Subject: [PATCH 71/73] fix: a net connection is closed and forgotten when it
 has been served or given up

---
 netconnection.go | 24 ++++++++++++++++++++----
 server.go        |  3 +++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/netconnection.go b/netconnection.go
index 4e814d0..bf06cad 100644
--- a/netconnection.go
+++ b/netconnection.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	"encoding/base64"
 	"fmt"
+	"io"
 	"net"
 	"time"
 )
@@ -12,6 +13,8 @@ import (
 type netConnection struct {
 	ConnectionBase
 	conn net.Conn
+	// forgetContext ends waiting for the end of the context, which might live on when the connection has ended
+	forgetContext func() bool
 }
 
 // NewNetConnection wraps net.Conn into a Connection
@@ -20,10 +23,7 @@ func NewNetConnection(ctx context.Context, conn net.Conn) Connection {
 		ConnectionBase: *NewConnectionBase(ctx, getConnectionID()),
 		conn:           conn,
 	}
-	go func() {
-		<-ctx.Done()
-		_ = conn.Close()
-	}()
+	netConn.forgetContext = context.AfterFunc(ctx, func() { _ = conn.Close() })
 	return netConn
 }
 
@@ -47,6 +47,22 @@ func (nc *netConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+func (nc *netConnection) closeTransport() {
+	nc.forgetContext()
+	_ = nc.conn.Close()
+}
+
+// closeServed closes the connection after the server has served it. Nobody else might do it.
+func (nc *netConnection) closeServed() {
+	defer nc.closeTransport()
+	// If it was closed with data of the other side still unread, the other side might not receive the last messages
+	if writeCloser, ok := nc.conn.(interface{ CloseWrite() error }); ok {
+		_ = writeCloser.CloseWrite()
+	}
+	_ = nc.conn.SetReadDeadline(time.Now().Add(closeTimeout))
+	_, _ = io.Copy(io.Discard, nc.conn)
+}
+
 func getConnectionID() string {
 	bytes := make([]byte, 16)
 	_, _ = rand.Read(bytes)
diff --git a/server.go b/server.go
index 774eb98..2e73a1a 100644
--- a/server.go
+++ b/server.go
@@ -125,6 +125,9 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // The same server might serve different connections in parallel. Serve does not return until the connection is closed
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
+	if netConn, ok := conn.(*netConnection); ok {
+		defer func() { go netConn.closeServed() }()
+	}
 
 	protocol, conn, err := s.processHandshake(conn)
 	if err != nil {
-- 
2.43.0


From 3b41c557df91894d9a28a7d5db7a5781655ad595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:20 +0000
Subject: [PATCH 72/73] fix: closing a net connection does not cut the message
 which is just being written

---
 netconnection.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/netconnection.go b/netconnection.go
index bf06cad..0fbf472 100644
--- a/netconnection.go
+++ b/netconnection.go
@@ -15,6 +15,8 @@ type netConnection struct {
 	conn net.Conn
 	// forgetContext ends waiting for the end of the context, which might live on when the connection has ended
 	forgetContext func() bool
+	// writing is taken while a message is written
+	writing chan struct{}
 }
 
 // NewNetConnection wraps net.Conn into a Connection
@@ -22,6 +24,7 @@ func NewNetConnection(ctx context.Context, conn net.Conn) Connection {
 	netConn := &netConnection{
 		ConnectionBase: *NewConnectionBase(ctx, getConnectionID()),
 		conn:           conn,
+		writing:        make(chan struct{}, 1),
 	}
 	netConn.forgetContext = context.AfterFunc(ctx, func() { _ = conn.Close() })
 	return netConn
@@ -29,7 +32,11 @@ func NewNetConnection(ctx context.Context, conn net.Conn) Connection {
 
 func (nc *netConnection) Write(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(nc.Context(),
-		func() (int, error) { return nc.conn.Write(p) },
+		func() (int, error) {
+			nc.writing <- struct{}{}
+			defer func() { <-nc.writing }()
+			return nc.conn.Write(p)
+		},
 		func() { _ = nc.conn.SetWriteDeadline(time.Now()) })
 	if err != nil {
 		err = fmt.Errorf("%T: %w", nc, err)
@@ -47,9 +54,21 @@ func (nc *netConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// afterWriting calls f when no message is being written, as its receiver should get all of it
+func (nc *netConnection) afterWriting(f func()) {
+	timer := time.NewTimer(closeTimeout)
+	defer timer.Stop()
+	select {
+	case nc.writing <- struct{}{}:
+		defer func() { <-nc.writing }()
+	case <-timer.C:
+	}
+	f()
+}
+
 func (nc *netConnection) closeTransport() {
 	nc.forgetContext()
-	_ = nc.conn.Close()
+	go nc.afterWriting(func() { _ = nc.conn.Close() })
 }
 
 // closeServed closes the connection after the server has served it. Nobody else might do it.
@@ -57,7 +76,7 @@ func (nc *netConnection) closeServed() {
 	defer nc.closeTransport()
 	// If it was closed with data of the other side still unread, the other side might not receive the last messages
 	if writeCloser, ok := nc.conn.(interface{ CloseWrite() error }); ok {
-		_ = writeCloser.CloseWrite()
+		nc.afterWriting(func() { _ = writeCloser.CloseWrite() })
 	}
 	_ = nc.conn.SetReadDeadline(time.Now().Add(closeTimeout))
 	_, _ = io.Copy(io.Discard, nc.conn)
-- 
2.43.0


From 71138ccb575a305c84915deb6ef04b55f1e7c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:37 +0000
Subject: [PATCH 73/73] fix: what is discarded when a net connection is closed
 is limited

---
 netconnection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netconnection.go b/netconnection.go
index 0fbf472..a31b8fa 100644
--- a/netconnection.go
+++ b/netconnection.go
@@ -10,6 +10,9 @@ import (
 	"time"
 )
 
+// closeDiscard limits the bytes which are discarded when a connection is closed
+const closeDiscard = 1 << 16
+
 type netConnection struct {
 	ConnectionBase
 	conn net.Conn
@@ -74,12 +77,13 @@ func (nc *netConnection) closeTransport() {
 // closeServed closes the connection after the server has served it. Nobody else might do it.
 func (nc *netConnection) closeServed() {
 	defer nc.closeTransport()
-	// If it was closed with data of the other side still unread, the other side might not receive the last messages
+	// If it was closed with data of the other side still unread, the other side might not receive the last messages.
+	// But do not read on from one which sends without an end.
 	if writeCloser, ok := nc.conn.(interface{ CloseWrite() error }); ok {
 		nc.afterWriting(func() { _ = writeCloser.CloseWrite() })
 	}
 	_ = nc.conn.SetReadDeadline(time.Now().Add(closeTimeout))
-	_, _ = io.Copy(io.Discard, nc.conn)
+	_, _ = io.CopyN(io.Discard, nc.conn, closeDiscard)
 }
 
 func getConnectionID() string {
-- 
2.43.0

