package sigverif

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C21", Quick: 12000, Thorough: 1000000, Run: runC21,
		Rule: "A case is a server with up to four raw connections or a library client (with or without connector), with calls, stream results, uploads, late answers, sends and unread output pending in every combination, whose connections end by close, half close, reset, broken writes, close message, garbage, protocol errors, silence, abort, Close by a hub method, cancelled contexts, shutdown, panicking callbacks, a failing handshake or Stop, some at the same instant. Then the transport is released and the methods of the application end. The times at which Serve and Stop return, the close messages and the goroutines with frames of the library that are left are judged.",
		Need: []string{"server", "client", "end.close", "end.half", "end.reset", "end.write", "end.closemsg", "end.garbage", "end.protocol", "end.silence", "end.abort", "end.context", "end.shutdown", "end.panic", "end.handshake", "end.stop", "stalled", "pending.call", "pending.stream", "pending.upload", "pending.async", "ev:told", "ev:clean", "reconnect", "end.stop-early", "end.hubclose", "flood", "joining", "collected", "write.once"}})
}

// Hub21 has methods which are pending when the connection ends. What the application starts ends some time after.
type Hub21 struct {
	signalr.Hub
	w *world21
}

type world21 struct {
	c       *Case
	panicOn string // connection id whose callback panics
	panicAt string
	mu      sync.Mutex
	on      map[string]bool
	off     map[string]bool
	shut    map[string][]string
	groups  signalr.GroupManager
	joining atomic.Int32
	release chan struct{} // ends application code
}

func (h *Hub21) OnConnected(id string) {
	h.w.mu.Lock()
	h.w.on[id] = true
	h.w.groups = h.Groups()
	h.w.mu.Unlock()
	if h.w.panicOn == id && h.w.panicAt == "on" {
		panic("OnConnected " + id)
	}
}
func (h *Hub21) OnDisconnected(id string) {
	h.w.mu.Lock()
	h.w.off[id] = true
	h.w.mu.Unlock()
	if h.w.panicOn == id && h.w.panicAt == "off" {
		panic("OnDisconnected " + id)
	}
}

// Hi answers at once.
func (h *Hub21) Hi(tag string) string { return "hi " + tag }

// Sleep is application code which returns late.
func (h *Hub21) Sleep(ms int) string {
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return "slept"
}

// UntilGone returns when the connection has ended.
func (h *Hub21) UntilGone() string {
	<-h.Context().Done()
	return "gone"
}

// Never returns a channel on which nothing is ever sent and which is never closed.
func (h *Hub21) Never() <-chan string { return make(chan string) }

// Endless streams until the connection ends, or until nobody receives anymore.
func (h *Hub21) Endless(ms int, capacity int, forget bool) <-chan string {
	ch := make(chan string, capacity)
	ctx := h.Context()
	go func() {
		for i := 0; ; i++ {
			select {
			case ch <- fmt.Sprint(i):
			case <-ctx.Done():
				if !forget {
					close(ch)
				}
				return
			}
			time.Sleep(time.Duration(1+ms) * time.Millisecond)
		}
	}()
	return ch
}

// Read reads its upload until the library ends it.
func (h *Hub21) Read(in <-chan string) int {
	n := 0
	for range in {
		n++
	}
	return n
}

// Ignore does not read its upload.
func (h *Hub21) Ignore(in <-chan string) string {
	<-h.Context().Done()
	return "ignored"
}

// Later returns at once and leaves its upload unread.
func (h *Hub21) Later(in <-chan string) string { return "later" }

// Late sends its asynchronous result after the connection ended, or never.
func (h *Hub21) Late(never bool) <-chan string {
	ch := make(chan string, 1)
	ctx := h.Context()
	if !never {
		go func() {
			<-ctx.Done()
			ch <- "late"
			close(ch)
		}()
	}
	return ch
}

// Bye aborts its connection.
func (h *Hub21) Bye() { h.Abort() }

// Shut tells the peer to close, and leaves the result of that.
func (h *Hub21) Shut(text string, allow bool) string {
	start := h.w.c.Now()
	err := h.Close(text, allow)
	h.w.mu.Lock()
	h.w.shut[h.ConnectionID()] = append(h.w.shut[h.ConnectionID()], fmt.Sprint(err))
	h.w.mu.Unlock()
	if d := h.w.c.Now() - start; d > time.Minute {
		h.w.c.Violf("close-hangs", "Close of %s took %v", h.ConnectionID(), d)
	}
	return "shut"
}

// Spam sends to the caller until the connection ends.
func (h *Hub21) Spam(n int) {
	for i := 0; i < n; i++ {
		h.Clients().Caller().Send("on", i, strings.Repeat("s", 500))
	}
}

// Up echoes its upload.
func (h *Hub21) Up(in <-chan string) <-chan string {
	out := make(chan string)
	ctx := h.Context()
	go func() {
		defer close(out)
		for x := range in {
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

func runC21(c *Case) {
	if c.Chance(40) {
		client21(c)
		return
	}
	server21(c)
}

func (c *Case) allEnded(what string) {
	left := func() []string { return c.libGoroutines() }
	if !c.Until(10*time.Minute, func() bool { return len(left()) == 0 }) {
		for _, g := range left() {
			c.Violf("left-running", "%s: %s", what, short(g, 900))
		}
		return
	}
	c.Ev("clean", "")
}

type conn21 struct {
	r       *RawClient
	end     string
	stalled bool
	at      time.Duration
	open    bool // the handshake succeeded
	text    string
	allow   bool
}

func server21(c *Case) {
	c.Count("server", 1)
	w := &world21{c: c, on: map[string]bool{}, off: map[string]bool{}, shut: map[string][]string{}, release: make(chan struct{})}
	T := c.Dur(5*time.Second, 60*time.Second)
	opts := []opt{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(c.Dur(time.Second, 20*time.Second)),
		signalr.ChanReceiveTimeout(c.Dur(100*time.Millisecond, 6*time.Second)), signalr.StreamBufferCapacity(uint(c.Range(1, 10))),
		signalr.HandshakeTimeout(10 * time.Second)}
	hub := func() signalr.HubInterface { return &Hub21{w: w} }
	if c.Chance(30) {
		opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return hub() }))
	} else {
		opts = append(opts, signalr.HubFactory(hub))
	}
	srv := c.Server(opts...)
	if c.Chance(25) {
		srv.Kept = &kept{}
	}
	n := c.Range(1, 4)
	shutdown := c.Chance(25)
	whole := "" // what ends all connections
	if shutdown {
		whole = "shutdown"
	}
	if c.Chance(10) {
		whole, shutdown = "panic", false
		w.panicOn = fmt.Sprintf("c%d", c.Intn(n))
		w.panicAt = pick(c, "on", "off")
	}
	var ks []*conn21
	var wg sync.WaitGroup
	c.Sample("server, %d connections, timeout %v, %q", n, T, whole)
	for i := 0; i < n; i++ {
		k := &conn21{}
		ks = append(ks, k)
		id := fmt.Sprintf("c%d", i)
		down := c.RandCond(pick(c, 0, 20*time.Millisecond))
		k.end = pick(c, "close", "half", "reset", "closemsg", "garbage", "protocol", "silence", "abort", "context", "write", "handshake", "hubclose")
		if w.panicOn == id && w.panicAt == "on" {
			k.end = "panic"
		} else if w.panicOn == id {
			k.end = pick(c, "close", "closemsg", "abort", "reset")
		} else if whole != "" && c.Chance(60) {
			k.end = whole
		}
		if k.end == "write" {
			down.CutAfter = c.Range(20, 3000)
			down.Once = c.Bool()
			if down.Once {
				c.Count("write.once", 1)
			}
		}
		k.r = srv.Dial(id, c.pickProto(), c.RandCond(pick(c, 0, 20*time.Millisecond)), down)
		wg.Add(1)
		go func() {
			defer wg.Done()
			run21(c, w, srv.Kept != nil, k, T)
		}()
	}
	if shutdown {
		time.Sleep(c.Dur(0, 2*time.Second))
		c.Count("end.shutdown", 1)
		srv.Cancel()
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
		return
	}
	now := c.Now()
	for _, k := range ks {
		limit := 3 * time.Minute
		if k.end == "silence" || k.end == "half" || k.end == "write" {
			limit += T
		}
		if k.end == "shutdown" || k.end == "panic" || whole != "" {
			// all have ended
		}
		if !c.Until(limit, func() bool { d, _ := k.r.Served.Done(); return d }) {
			c.Violf("serve-hangs", "%s (ended by %s, output stalled %v, at %v): Serve has not returned at %v", k.r.ID, k.end, k.stalled, k.at, c.Now())
			return
		}
	}
	_ = now
	// close messages
	time.Sleep(time.Second)
	for _, k := range ks {
		if k.stalled || !k.open {
			continue
		}
		closes := k.r.Find(func(m Msg) bool { return m.Type == 7 })
		tell := false
		switch k.end {
		case "garbage", "protocol", "silence", "shutdown", "panic":
			tell = true
		}
		if k.end == "hubclose" {
			w.mu.Lock()
			did := len(w.shut[k.r.ID]) > 0
			w.mu.Unlock()
			// methods which do not take their uploads may have kept it from being called
			if whole == "" && did && (len(closes) != 1 || closes[0].Error != k.text || closes[0].Allow != k.allow) {
				c.Violf("hub-close", "%s: the hub's Close(%q, %v) sent %v", k.r.ID, short(k.text, 100), k.allow, closes)
			}
			k.r.judgeBad(k.r.ID)
			continue
		}
		if len(closes) > 1 {
			c.Violf("told-twice", "%s (ended by %s): %v", k.r.ID, k.end, closes)
		}
		if tell && len(closes) == 0 && k.r.Partial() == 0 {
			c.Violf("not-told", "%s (ended by %s) received no close message: %v", k.r.ID, k.end, last(k.r.Msgs(), 3))
		}
		for _, m := range closes {
			c.Ev("told", "%s %v", k.end, m.Allow)
			panicked := w.panicOn != "" && (w.panicAt == "on" && w.on[w.panicOn] || w.panicAt == "off" && w.off[w.panicOn])
			if !m.HasErr && tell {
				c.Violf("told-nothing", "%s (ended by %s): the close message has no error", k.r.ID, k.end)
			}
			if !m.Allow && !panicked {
				c.Violf("no-reconnect", "%s (ended by %s): the close message does not allow to reconnect", k.r.ID, k.end)
			}
			if m.Allow && k.end == "panic" {
				c.Violf("reconnect", "%s: the close message allows to reconnect after a panic in a callback", k.r.ID)
			}
		}
		k.r.judgeBad(k.r.ID)
	}
	// the transport is released
	for _, k := range ks {
		k.r.Conn.Close()
		k.r.Far.Close()
		k.r.Far.cancel()
	}
	if c.Chance(20) {
		srv.Cancel()
	}
	c.allEnded("all connections have ended and are released")
	if srv.Kept != nil && !c.failed() && c.Until(time.Minute, func() bool { return w.joining.Load() == 0 }) {
		c.released(srv.Kept, 0, "all connections have ended")
		runtime.KeepAlive(srv)
	}
}

func last(ms []Msg, n int) []Msg {
	if len(ms) > n {
		ms = ms[len(ms)-n:]
	}
	return ms
}

// run21 leaves much pending on a connection and ends it.
func run21(c *Case, w *world21, join bool, k *conn21, T time.Duration) {
	r := k.r
	if k.end == "handshake" {
		c.Count("end.handshake", 1)
		switch c.Intn(5) {
		case 0:
			_ = r.Raw([]byte("garbage\x1e"))
		case 1:
			_ = r.Raw([]byte(`{"protocol":"none","version":1}` + "\x1e"))
		case 2:
			_ = r.Raw([]byte(`{"protoc`))
		case 3:
			r.Conn.Close()
		}
		return
	}
	_ = r.Raw(handshakeReq(r.proto.Name()))
	c.Until(20*time.Second, func() bool {
		_, ok := r.Handshake()
		e, _ := r.Ended()
		d, _ := r.Served.Done()
		return ok || e || d
	})
	if _, ok := r.Handshake(); !ok {
		return
	}
	if k.end != "silence" {
		r.KeepAlive(min(2*time.Second, T/2))
	}
	// first round trip
	_ = r.Send(Msg{Type: 1, ID: "first", Target: "Hi", Args: []any{"x"}})
	c.Until(10*time.Second, func() bool {
		e, _ := r.Ended()
		d, _ := r.Served.Done()
		return len(r.Completions("first")) > 0 || e || d
	})
	if k.open = len(r.Completions("first")) > 0; !k.open {
		return
	}
	ops := c.Range(0, 10)
	for i := 0; i < ops; i++ {
		id := fmt.Sprint(i)
		if c.Chance(15) {
			id = ""
		}
		s := "s" + fmt.Sprint(i)
		items := func(n int) {
			for j := 0; j < n; j++ {
				_ = r.Send(Msg{Type: 2, ID: s, Item: fmt.Sprint(j)})
			}
			if c.Chance(20) {
				_ = r.Send(Msg{Type: 3, ID: s})
			}
		}
		kind := c.Intn(9)
		c.Ev(fmt.Sprintf("op%d.%s", kind, k.end), "%s %s", r.ID, id)
		switch kind {
		case 0:
			c.Count("pending.call", 1)
			_ = r.Send(Msg{Type: 1, ID: id, Target: "Sleep", Args: []any{pick(c, 0, 100, 5000, 100000)}})
		case 1:
			c.Count("pending.call", 1)
			_ = r.Send(Msg{Type: 1, ID: id, Target: "UntilGone", Args: []any{}})
		case 2:
			c.Count("pending.stream", 1)
			_ = r.Send(Msg{Type: 4, ID: "n" + fmt.Sprint(i), Target: "Never", Args: []any{}})
			if c.Chance(20) {
				_ = r.Send(Msg{Type: 5, ID: "n" + fmt.Sprint(i)})
			}
		case 3:
			c.Count("pending.stream", 1)
			_ = r.Send(Msg{Type: 4, ID: "e" + fmt.Sprint(i), Target: "Endless", Args: []any{pick(c, 0, 20, 500), pick(c, 0, 1, 10), c.Bool()}})
		case 4:
			c.Count("pending.upload", 1)
			_ = r.Send(Msg{Type: 1, ID: "r" + fmt.Sprint(i), Target: "Read", Streams: []string{s}})
			items(c.Intn(5))
		case 5:
			c.Count("pending.upload", 1)
			_ = r.Send(Msg{Type: 1, ID: "i" + fmt.Sprint(i), Target: pick(c, "Ignore", "Later"), Streams: []string{s}})
			items(c.Intn(4))
		case 6:
			c.Count("pending.async", 1)
			_ = r.Send(Msg{Type: 1, ID: id, Target: "Late", Args: []any{c.Bool()}})
		case 7:
			c.Count("pending.stream", 1)
			_ = r.Send(Msg{Type: 4, ID: "u" + fmt.Sprint(i), Target: "Up", Streams: []string{s}})
			items(c.Intn(4))
		case 8:
			_ = r.Send(Msg{Type: 1, ID: id, Target: "Spam", Args: []any{c.Intn(30)}})
		}
		if c.Chance(30) {
			time.Sleep(c.Dur(0, 100*time.Millisecond))
		}
	}
	if c.Chance(25) && k.end != "silence" && k.end != "panic" && k.end != "shutdown" && k.end != "write" {
		k.stalled = true
		c.Count("stalled", 1)
		r.Far.out.Stall()
		if c.Bool() {
			_ = r.Send(Msg{Type: 1, ID: "spam", Target: "Spam", Args: []any{3}})
			_ = r.Send(Msg{Type: 1, ID: "hi2", Target: "Hi", Args: []any{"x"}})
		}
		time.Sleep(c.Dur(0, time.Second))
	}
	time.Sleep(c.Dur(0, 300*time.Millisecond))
	k.at = c.Now()
	if k.end != "shutdown" && k.end != "panic" {
		c.Count("end."+k.end, 1)
	}
	// the loop has much to read when it ends
	var flood []Msg
	if c.Chance(25) {
		c.Count("flood", 1)
		flood = make([]Msg, c.Range(22, 90))
		for i := range flood {
			flood[i] = Msg{Type: 6}
		}
		if c.Bool() || k.end == "abort" {
			_ = r.Send(flood...)
		}
	}
	if join && c.Bool() {
		// while it ends the application puts it into a group, over and over
		c.Count("joining", 1)
		w.mu.Lock()
		g := w.groups
		w.mu.Unlock()
		w.joining.Add(1)
		go func() {
			defer w.joining.Add(-1)
			for i := 0; i < 40000; i++ {
				if i%100 == 0 {
					if d, _ := r.Served.Done(); d {
						return
					}
				}
				g.AddToGroup([]string{"room", "den", "room", "hall"}[i%4], r.ID)
				if i%5000 == 4999 {
					time.Sleep(time.Second)
				}
			}
		}()
	}
	switch k.end {
	case "close":
		r.Conn.Close()
	case "half":
		r.Conn.CloseWrite()
	case "reset":
		r.Conn.Reset()
	case "closemsg":
		m := Msg{Type: 7}
		if c.Bool() {
			m.HasErr, m.Error = true, "bye"
		}
		_ = r.Send(append([]Msg{m}, flood...)...)
	case "garbage":
		if r.proto.Name() == "json" {
			_ = r.Raw([]byte("{]\x1e"))
		} else {
			_ = r.Raw([]byte("\x04\xff\xff\xff\xff"))
		}
	case "protocol":
		_ = r.Send(append([]Msg{pick(c, Msg{Type: 2, ID: "nostream", Item: "x"}, Msg{Type: 3, ID: "nobody", HasRes: true, Result: 1})}, flood...)...)
	case "abort":
		_ = r.Send(append([]Msg{{Type: 1, Target: "Bye", Args: []any{}}}, flood...)...)
	case "hubclose":
		k.text, k.allow = pick(c, "", "go away", c.genText()), c.Bool()
		_ = r.Send(append([]Msg{{Type: 1, ID: pick(c, "", "shut"), Target: "Shut", Args: []any{k.text, k.allow}}}, flood...)...)
		c.Until(min(15*time.Minute, c.Patience()), func() bool {
			d, _ := r.Served.Done()
			return d || len(r.Find(func(m Msg) bool { return m.Type == 7 })) > 0
		})
		time.Sleep(c.Dur(0, time.Second))
		r.Conn.Close()
	case "context":
		r.Far.cancel()
	case "write":
		// something has to be written
		_ = r.Send(Msg{Type: 1, Target: "Spam", Args: []any{20}})
	case "panic":
		c.Count("end.panic", 1)
	}
}

// client21: pending calls of a library client.
func client21(c *Case) {
	c.Count("client", 1)
	proto := c.pickProto()
	T := c.Dur(5*time.Second, 60*time.Second)
	type link struct {
		p    *Peer
		conn *Conn
	}
	var mu sync.Mutex
	var links []*link
	end := pick(c, "stop", "stop", "cancel", "close", "half", "reset", "write", "closemsg", "garbage", "silence", "context", "handshake", "stop-early")
	reconnect := c.Chance(35)
	cut := 0
	if end == "write" {
		cut = c.Range(40, 2000)
	}
	up, down := c.RandCond(pick(c, 0, 20*time.Millisecond)), c.RandCond(pick(c, 0, 20*time.Millisecond))
	up.CutAfter = cut
	up.Once = c.Bool()
	var dials atomic.Int32
	var keep *kept
	dial := func() *link {
		k := int(dials.Add(1))
		p, conn := c.RawServer(fmt.Sprintf("s%d", k), proto, up, down)
		l := &link{p, conn}
		mu.Lock()
		links = append(links, l)
		mu.Unlock()
		return l
	}
	accept := func(l *link) bool {
		if end == "handshake" {
			c.Count("end.handshake", 1)
			switch c.Intn(5) {
			case 0:
				_ = l.p.Raw([]byte("garbage\x1e"))
			case 1:
				_ = l.p.Raw([]byte(`{"error":"no"}` + "\x1e"))
			case 2:
				_ = l.p.Raw([]byte(`{`))
			case 3:
				l.p.conn.Close()
			}
			return false
		}
		if !l.p.AcceptHandshake() {
			return false
		}
		if end != "silence" {
			l.p.KeepAlive(2 * time.Second)
		}
		return true
	}
	opts := []opt{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(c.Dur(time.Second, 20*time.Second)), signalr.HandshakeTimeout(10 * time.Second),
		signalr.StreamBufferCapacity(uint(c.Range(1, 10))), signalr.WithReceiver(&C05Recv{c, newCallLog()})}
	first := dial()
	if reconnect {
		c.Count("reconnect", 1)
		var n atomic.Int32
		keep = &kept{}
		opts = append(opts, constBackoff(c.Dur(10*time.Millisecond, 2*time.Second)), signalr.WithConnector(func() (signalr.Connection, error) {
			if n.Add(1) == 1 {
				return keep.wrap("s1", first.conn), nil
			}
			if c.Chance(20) {
				return nil, fmt.Errorf("no connection")
			}
			l := dial()
			go accept(l)
			return keep.wrap(fmt.Sprintf("s%d", n.Load()), l.conn), nil
		}))
	} else {
		opts = append(opts, signalr.WithConnection(first.conn))
	}
	cl := c.Client(proto, opts...)
	c.Sample("client, end %s, reconnect %v, timeout %v", end, reconnect, T)
	if c.Bool() {
		ch := make(chan signalr.ClientState, c.Intn(3))
		stop := cl.C.ObserveStateChanged(ch)
		go func() {
			for range ch {
			}
		}()
		defer stop()
	}
	wctx, wcancel := context.WithTimeout(context.Background(), time.Hour)
	defer wcancel()
	waits := cl.C.WaitForState(wctx, pick(c, signalr.ClientConnected, signalr.ClientClosed))
	_ = waits
	cl.C.Start()
	if end == "stop-early" {
		c.Count("end.stop-early", 1)
		time.Sleep(c.Dur(0, 50*time.Millisecond))
	} else {
		go accept(first)
		c.Until(20*time.Second, func() bool { return cl.C.State() != signalr.ClientConnecting })
	}
	// pending calls
	var outs []*Outcomes
	var feeds sync.WaitGroup
	stopFeeds := make(chan struct{})
	var ups []chan string
	ops := c.Range(0, 8)
	for i := 0; i < ops; i++ {
		kind := c.Intn(5)
		c.Ev(fmt.Sprintf("call%d.%s", kind, end), "%d", i)
		switch kind {
		case 0:
			c.Count("pending.call", 1)
			outs = append(outs, c.Collect(cl.C.Invoke("Wait", i)))
		case 1:
			outs = append(outs, c.CollectErr(cl.C.Send("Do", i)))
		case 2:
			c.Count("pending.stream", 1)
			outs = append(outs, c.Collect(cl.C.PullStream("Pull", i)))
		default:
			c.Count("pending.upload", 1)
			ch := make(chan string, c.Intn(3))
			outs = append(outs, c.Collect(cl.C.PushStreams("Push", i, ch)))
			// items until the end; the channel is closed, or just left, or left with items
			k := c.Intn(6)
			shut := c.Chance(30)
			if !shut {
				ups = append(ups, ch)
			}
			feeds.Add(1)
			go func() {
				defer feeds.Done()
				for j := 0; j < k; j++ {
					select {
					case ch <- fmt.Sprint(j):
					case <-stopFeeds:
						return
					}
				}
				if shut {
					close(ch)
				}
			}()
		}
		if c.Chance(30) {
			time.Sleep(c.Dur(0, 50*time.Millisecond))
		}
	}
	// some items of the pulled streams, and a few answers
	if end != "handshake" && end != "stop-early" {
		time.Sleep(c.Dur(0, 100*time.Millisecond))
		for _, m := range first.p.Msgs() {
			if m.ID == "" {
				continue
			}
			if m.Type == 4 {
				for j := 0; j < c.Intn(5); j++ {
					_ = first.p.Send(Msg{Type: 2, ID: m.ID, Item: j})
				}
			}
			if c.Chance(20) && (m.Type == 1 || m.Type == 4) {
				_ = first.p.Send(Msg{Type: 3, ID: m.ID})
			}
		}
		for j := 0; j < c.Intn(4); j++ {
			_ = first.p.Send(Msg{Type: 1, Target: "Take", Args: []any{"t", j}})
		}
	}
	stalled := false
	if c.Chance(20) && end != "write" {
		stalled = true
		c.Count("stalled", 1)
		first.conn.out.Stall()
		outs = append(outs, c.CollectErr(cl.C.Send("Stalled", 1)))
	}
	time.Sleep(c.Dur(0, 200*time.Millisecond))
	begin := c.Now()
	stops := func() {
		c.Count("end.stop", 1)
		if !c.Within(3*time.Minute, cl.C.Stop) {
			c.Violf("stop-hangs", "Stop (end %s, stalled %v) has not returned at %v", end, stalled, c.Now())
		}
	}
	p := first.p
	var flood []Msg
	if c.Chance(25) {
		c.Count("flood", 1)
		flood = make([]Msg, c.Range(22, 90))
		for i := range flood {
			flood[i] = pick(c, Msg{Type: 6}, Msg{Type: 1, Target: "Take", Args: []any{"flood", i}})
		}
		if end != "closemsg" {
			if c.Bool() {
				go func() { _ = p.Send(flood...) }()
			} else {
				_ = p.Send(flood...)
			}
		}
	}
	switch end {
	case "stop", "stop-early":
		stops()
	case "cancel":
		cl.Cancel()
	case "close":
		c.Count("end.close", 1)
		p.conn.Close()
	case "half":
		p.conn.CloseWrite()
	case "reset":
		p.conn.Reset()
	case "write":
		for i := 0; i < 40; i++ {
			outs = append(outs, c.CollectErr(cl.C.Send("Do", i, strings.Repeat("x", 100))))
		}
	case "closemsg":
		m := Msg{Type: 7}
		if c.Bool() {
			m.HasErr, m.Error = true, "bye"
		}
		m.Allow, m.HasAllow = true, c.Bool()
		m.Allow = m.HasAllow
		_ = p.Send(append([]Msg{m}, flood...)...)
	case "garbage":
		if proto.Name() == "json" {
			_ = p.Raw([]byte("{]\x1e"))
		} else {
			_ = p.Raw([]byte("\x04\xff\xff\xff\xff"))
		}
	case "context":
		first.conn.cancel()
	}
	if !reconnect {
		limit := 4 * time.Minute
		if !c.Until(limit, func() bool { return cl.C.State() == signalr.ClientClosed }) {
			c.Violf("not-closed", "the client (end %s at %v, stalled %v) is still %s at %v", end, begin, stalled, stateName(cl.C.State()), c.Now())
			return
		}
	} else if end != "stop" && end != "stop-early" {
		time.Sleep(c.Dur(0, 10*time.Second))
		stops()
	}
	close(stopFeeds)
	feeds.Wait()
	for i, o := range outs {
		if !c.Until(3*time.Minute, o.Closed) {
			c.Violf("pending", "call %d has no outcome after the client ended (%s)", i, end)
		}
	}
	// the transport is released
	mu.Lock()
	for _, l := range links {
		l.p.conn.Close()
		l.conn.Close()
		l.conn.cancel()
	}
	mu.Unlock()
	wcancel()
	c.allEnded(fmt.Sprintf("the client (end %s, reconnect %v) has closed and its connections are released", end, reconnect))
	_ = ups
	if keep != nil && !c.failed() && c.Chance(40) {
		// the client may keep its last connection
		c.released(keep, 1, "the client has closed")
		runtime.KeepAlive(cl)
	}
}
