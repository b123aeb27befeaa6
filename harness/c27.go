package sigverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C27", Quick: 12000, Thorough: 600000, Run: runC27, Long: longC27,
		Rule: "A case is one live connection on which calls of all kinds are made and come to an end: answered, refused, failing, panicking, not serializable, canceled before, while and after they stream, uploads which are read, left unread beyond the timeout, refused, calls without id, calls of the server, waits and observations which are met, given up or canceled, with and without reconnecting. Some calls stay pending. When all others have ended, the goroutines of the library are compared with those of the connection before the calls, as many uploads as the limit allows are started, and everything still pending must go on. The long cases compare the memory which is in use after many such calls, and after many connections, with that after twice as many.",
		Need: []string{"server", "client", "pending", "slots", "reconnect", "ev:same", "op.refused", "op.unread", "op.cancel", "op.precancel", "op.panic", "op.unser", "op.upload", "op.observer", "op.wait", "op.pullfail", "op.pushfail", "op.sendfail", "op.invokefail", "long-life", "heap", "net", "net.client", "net.closed", "collected"}})
}

// Hub27 has methods which come to an end, whatever the caller does.
type Hub27 struct {
	signalr.Hub
	w *world27
}

type world27 struct {
	release chan struct{}
	extra   atomic.Int32 // goroutines of the application
}

func (h *Hub27) Hi(s string) string   { return "hi " + s }
func (h *Hub27) Multi() (string, int) { return "m", 1 }
func (h *Hub27) Void(s string)        {}
func (h *Hub27) Boom(s string) string {
	panic("boom " + s)
}
func (h *Hub27) BoomStream(s string) <-chan string {
	panic("boom " + s)
}
func (h *Hub27) Unser() interface{} { return func() {} }
func (h *Hub27) UnserStream() <-chan interface{} {
	ch := make(chan interface{}, 2)
	ch <- "good"
	ch <- func() {}
	close(ch)
	return ch
}
func (h *Hub27) Async(ms int) <-chan string {
	ch := make(chan string, 1)
	go func() {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		ch <- "async"
	}()
	return ch
}
func (h *Hub27) AsyncClosed() <-chan string {
	ch := make(chan string)
	close(ch)
	return ch
}

// Stream sends n items, and gives up when nobody receives them.
func (h *Hub27) Stream(n, ms, first int) <-chan string {
	time.Sleep(time.Duration(first) * time.Millisecond)
	ch := make(chan string)
	go func() {
		for i := 0; i < n; i++ {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			select {
			case ch <- fmt.Sprint(i):
			case <-time.After(time.Minute):
				return
			}
		}
		close(ch)
	}()
	return ch
}

// Mute streams nothing and does not end.
func (h *Hub27) Mute() <-chan string { return make(chan string) }

func (h *Hub27) Read(in <-chan string) int {
	n := 0
	for range in {
		n++
	}
	return n
}

// Later does not read its upload at all.
func (h *Hub27) Later(in <-chan string) string { return "later" }

// Relay streams its upload.
func (h *Hub27) Relay(in <-chan string) <-chan string {
	ch := make(chan string)
	go func() {
		defer close(ch)
		for x := range in {
			select {
			case ch <- x:
			case <-time.After(time.Minute):
			}
		}
	}()
	return ch
}

func (h *Hub27) Back(n int, group string) {
	for i := 0; i < n; i++ {
		h.Clients().Caller().Send("on", i)
		h.Clients().Client(h.ConnectionID()).Send("on", i)
		h.Clients().Group(group).Send("on", i)
	}
	h.Groups().AddToGroup(group, h.ConnectionID())
	if n%3 > 0 {
		h.Groups().AddToGroup(group+"'", h.ConnectionID())
	}
	if n%2 == 1 {
		h.Groups().RemoveFromGroup(group, h.ConnectionID())
		h.Groups().RemoveFromGroup(group+"'", h.ConnectionID())
	}
	h.Items().Store("last", n)
}

// Hold is pending until the case releases it.
func (h *Hub27) Hold() string {
	<-h.w.release
	return "held"
}

// HoldStream is a stream which is pending until the case releases it.
func (h *Hub27) HoldStream() <-chan string {
	ch := make(chan string)
	go func() {
		ch <- "one"
		<-h.w.release
		ch <- "two"
		close(ch)
	}()
	return ch
}

func runC27(c *Case) {
	if c.Chance(6) {
		net27(c)
		return
	}
	if c.Bool() {
		steadyClient27(c)
		return
	}
	steadyServer27(c)
}

// sameAs waits until not more goroutines of the library are left than before.
func (c *Case) sameAs(base []string, what string) {
	var now []string
	// more than once: what has just started pinging is no leak
	if c.Until(15*time.Minute, func() bool { now = c.libGoroutines(); return len(now) <= len(base) }) {
		c.Ev("same", "%d", len(base))
		return
	}
	frames := func(g string) string {
		_, rest, _ := strings.Cut(g, "\n")
		return rest
	}
	old := map[string]int{}
	for _, g := range base {
		old[sig27(frames(g))]++
	}
	var more []string
	for _, g := range now {
		s := sig27(frames(g))
		if old[s] > 0 {
			old[s]--
			continue
		}
		more = append(more, short(g, 700))
	}
	c.Violf("left", "%s: %d goroutines of the library, %d before the calls, e.g. %s", what, len(now), len(base), strings.Join(more[:min(2, len(more))], " || "))
}

// sig27 is a stack without addresses.
func sig27(stack string) string {
	var b strings.Builder
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		l, _, _ = strings.Cut(l, "(0x")
		l, _, _ = strings.Cut(l, " in goroutine")
		b.WriteString(l + ";")
	}
	return b.String()
}

// net27: connections over TCP, as NewNetConnection makes them with the context of the application, which lives on.
func net27(c *Case) {
	c.Count("net", 1)
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	k := &kept{}
	if c.Bool() {
		w := &world27{release: make(chan struct{})}
		srv := c.Server(signalr.TimeoutInterval(20*time.Second), signalr.HandshakeTimeout(10*time.Second), signalr.HubFactory(func() signalr.HubInterface { return &Hub27{w: w} }))
		time.Sleep(time.Second)
		base := c.libGoroutines()
		n := c.Range(1, 5)
		c.Sample("%d net connections at a server", n)
		for i := 0; i < n; i++ {
			func() {
				mine, theirs := c.Pair(fmt.Sprint("n", i), c.RandCond(10*time.Millisecond), c.RandCond(10*time.Millisecond))
				p := c.NewPeer(mine, c.pickProto(), "client").Start()
				m := c.memConn(theirs)
				conn := signalr.NewNetConnection(k.context(ctx, theirs.name), m)
				served := make(chan struct{})
				go func() {
					_ = srv.S.Serve(conn)
					close(served)
				}()
				end := pick(c, "close", "half", "closemsg", "garbage", "silence", "nohandshake", "badhandshake")
				switch end {
				case "nohandshake":
				case "badhandshake":
					_ = p.Raw([]byte("{\x1e"))
				default:
					if e := p.Connect(); e != "" {
						c.Violf("connect-failed", "%s", e)
						return
					}
					_ = p.Send(Msg{Type: 1, ID: "1", Target: "Back", Args: []any{c.Range(0, 3), "g"}})
					c.Until(0, func() bool { return len(p.Completions("1")) > 0 })
				}
				c.Ev("net."+end, "")
				switch end {
				case "close":
					mine.Close()
				case "half":
					mine.CloseWrite()
				case "closemsg":
					_ = p.Send(Msg{Type: 7})
				case "garbage":
					_ = p.Raw([]byte("\x04\xff\xff\xff\xff{]\x1e"))
				}
				if !c.Within(0, func() { <-served }) {
					c.Violf("no-end", "net connection %d (%s) is served forever", i, end)
					return
				}
				// the peer or the application closes it, or nobody
				switch c.Intn(3) {
				case 0:
					mine.Close()
				case 1:
					_ = m.Close()
				case 2:
					c.Count("net.closed", 1)
					if !c.Until(30*time.Second, func() bool { e, _ := p.Ended(); return e }) {
						c.Violf("still-open", "net connection %d (%s) is not served anymore, but still open", i, end)
						return
					}
				}
			}()
			if c.failed() {
				return
			}
		}
		c.sameAs(base, "all net connections have ended")
		c.released(k, 0, "all net connections have ended")
		return
	}
	c.Count("net.client", 1)
	c.Sample("net connections of a client")
	proto := c.pickProto()
	var mu sync.Mutex
	var ps []*Peer
	cl := c.Client(proto, signalr.HandshakeTimeout(10*time.Second), signalr.TimeoutInterval(20*time.Second), constBackoff(100*time.Millisecond), signalr.WithConnector(func() (signalr.Connection, error) {
		mu.Lock()
		i := len(ps)
		p, theirs := c.RawServer(fmt.Sprint("n", i), proto, c.RandCond(0), c.RandCond(0))
		ps = append(ps, p)
		mu.Unlock()
		return signalr.NewNetConnection(k.context(ctx, theirs.name), c.memConn(theirs)), nil
	}))
	cl.C.Start()
	n := c.Range(2, 8)
	var base []string
	for i := 0; i < n; i++ {
		var p *Peer
		if !c.Until(time.Minute, func() bool {
			mu.Lock()
			defer mu.Unlock()
			if len(ps) > i {
				p = ps[i]
			}
			return p != nil
		}) {
			c.Violf("no-reconnect", "the client does not connect for the %d. time", i+1)
			return
		}
		if i > 0 && i < n-1 && c.Chance(25) {
			c.Ev("net.nohandshake", "")
			if c.Bool() {
				_ = p.Raw([]byte("{]\x1e"))
			}
			continue // given up by the client
		}
		if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, time.Minute) {
			c.Violf("not-connected", "connection %d", i)
			return
		}
		time.Sleep(3 * time.Second)
		if i == 0 {
			base = c.libGoroutines()
		}
		if i == n-1 {
			p.KeepAlive(5 * time.Second)
			break
		}
		switch end := pick(c, "close", "half", "closemsg", "garbage", "silence"); end {
		case "close":
			p.conn.Close()
		case "half":
			p.conn.CloseWrite()
		case "closemsg":
			_ = p.Send(Msg{Type: 7, Allow: true, HasAllow: true})
		case "garbage":
			_ = p.Raw([]byte("\x04\xff\xff\xff\xff{]\x1e"))
		}
	}
	c.sameAs(base, "the client has reconnected over net connections")
	c.released(k, 2, "the client has reconnected over net connections")
}

func steadyServer27(c *Case) {
	c.Count("server", 1)
	w := &world27{release: make(chan struct{})}
	limit := pick(c, 0, 1, 2, 5, 100)
	recvT := c.Dur(20*time.Millisecond, 2*time.Second)
	capacity := c.Range(1, 5)
	opts := []opt{signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(c.Dur(time.Second, 5*time.Minute)), signalr.ChanReceiveTimeout(recvT),
		signalr.StreamBufferCapacity(uint(capacity)), signalr.HubFactory(func() signalr.HubInterface { return &Hub27{w: w} }), signalr.MaxConcurrentStreams(uint(limit))}
	srv := c.Server(opts...)
	r := srv.Connect("c", c.pickProto(), c.RandCond(pick(c, 0, 20*time.Millisecond)), c.RandCond(pick(c, 0, 20*time.Millisecond)))
	if r == nil {
		return
	}
	r.KeepAlive(time.Minute)
	call := func(m Msg) { _ = r.Send(m) }
	ended := func(id string) bool { return len(r.Completions(id)) > 0 }
	call(Msg{Type: 1, ID: "first", Target: "Hi", Args: []any{"x"}})
	if !c.Until(0, func() bool { return ended("first") }) {
		c.Violf("not-served", "the first call is not answered")
		return
	}
	// calls which stay pending
	var pending []string
	for i := c.Intn(4); i > 0; i-- {
		c.Count("pending", 1)
		id := fmt.Sprint("p", i)
		pending = append(pending, id)
		if c.Bool() {
			call(Msg{Type: 1, ID: id, Target: "Hold", Args: []any{}})
		} else {
			call(Msg{Type: 4, ID: id, Target: "HoldStream", Args: []any{}})
		}
	}
	time.Sleep(3 * time.Second)
	base := c.libGoroutines()
	ops := c.Range(1, 25)
	c.Sample("server, limit %d, %d calls, %d pending", limit, ops, len(pending))
	var wg sync.WaitGroup
	// uploads in progress, never more than the limit
	slots := make(chan struct{}, max(limit, 1))
	takeSlot := func() func() {
		if limit == 0 {
			return func() {}
		}
		slots <- struct{}{}
		return func() { <-slots }
	}
	for i := 0; i < ops; i++ {
		id := fmt.Sprint("o", i)
		s := fmt.Sprint("s", i)
		kind := c.Intn(17)
		n := c.Intn(8)
		d1, d2 := c.Dur(0, 300*time.Millisecond), c.Dur(0, 300*time.Millisecond)
		ms := pick(c, 0, 1, 50)
		noID := c.Chance(10)
		flip := c.Bool()
		c.Ev(fmt.Sprintf("op%d", kind), "%s", id)
		op := func() {
			must := func(what string) {
				if !c.Until(10*time.Minute, func() bool { return ended(id) }) {
					c.Violf("no-end", "%s %s has no completion", what, id)
				}
			}
			if noID && kind < 5 {
				call(Msg{Type: 1, Target: pick2(flip, "Hi", "Nope"), Args: []any{"x"}})
				call(Msg{Type: 1, Target: pick2(flip, "Boom", "Unser"), Args: []any{"x"}[:pick2(flip, 1, 0)]})
				return
			}
			switch kind {
			case 0:
				call(Msg{Type: 1, ID: id, Target: pick2(flip, "Hi", "Void"), Args: []any{"x"}})
				must("call")
			case 1:
				c.Count("op.refused", 1)
				call(Msg{Type: pick2(flip, 1, 4), ID: id, Target: "Nope", Args: []any{"x"}})
				must("refused call")
			case 2:
				c.Count("op.panic", 1)
				call(Msg{Type: pick2(flip, 1, 4), ID: id, Target: pick2(flip, "Boom", "BoomStream"), Args: []any{"x"}})
				must("panicking call")
			case 3:
				c.Count("op.unser", 1)
				call(Msg{Type: pick2(flip, 1, 4), ID: id, Target: pick2(flip, "Unser", "UnserStream"), Args: []any{}})
				must("call without serializable result")
			case 4:
				call(Msg{Type: 1, ID: id, Target: pick2(flip, "Async", "AsyncClosed"), Args: []any{ms}[:pick2(flip, 1, 0)]})
				must("async call")
			case 5:
				call(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{n, ms, 0}})
				must("stream")
			case 6, 7:
				// canceled while it streams, or when it has already ended
				c.Count("op.cancel", 1)
				call(Msg{Type: 4, ID: id, Target: pick2(flip, "Stream", "Mute"), Args: []any{n, ms, 0}[:pick2(flip, 3, 0)]})
				time.Sleep(d1)
				call(Msg{Type: 5, ID: id})
				if n > 4 {
					call(Msg{Type: 5, ID: id})
				}
				must("canceled stream")
			case 8:
				// canceled before it streams
				c.Count("op.precancel", 1)
				call(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{n, ms, 200}})
				call(Msg{Type: 5, ID: id})
				must("stream canceled early")
			case 9:
				call(Msg{Type: 5, ID: id}) // nothing to cancel
			case 10, 11:
				c.Count("op.upload", 1)
				defer takeSlot()()
				call(Msg{Type: pick2(kind == 10, 1, 4), ID: id, Target: pick2(kind == 10, "Read", "Relay"), Streams: []string{s}})
				for j := 0; j < n; j++ {
					call(Msg{Type: 2, ID: s, Item: fmt.Sprint(j)})
					if flip {
						time.Sleep(d1 / 10)
					}
				}
				m := Msg{Type: 3, ID: s}
				if n == 3 {
					m.HasErr, m.Error = true, "upload failed"
				}
				call(m)
				must("upload")
			case 12:
				// more items than the hub takes
				c.Count("op.unread", 1)
				defer takeSlot()()
				call(Msg{Type: 1, ID: id, Target: "Later", Streams: []string{s}})
				for j := 0; j < capacity+n; j++ {
					call(Msg{Type: 2, ID: s, Item: fmt.Sprint(j)})
				}
				must("unread upload")
				c.Until(10*time.Minute, func() bool { return len(r.Completions(s)) == n })
				time.Sleep(d2)
				call(Msg{Type: 3, ID: s})
				time.Sleep(time.Second)
			case 13:
				c.Count("op.refused", 1)
				call(Msg{Type: 1, ID: id, Target: pick2(flip, "Nope", "Read"), Args: []any{"too many"}, Streams: []string{s}})
				for j := 0; j < n; j++ {
					call(Msg{Type: 2, ID: s, Item: fmt.Sprint(j)})
				}
				call(Msg{Type: 3, ID: s})
				must("refused upload")
			case 14:
				call(Msg{Type: 1, ID: id, Target: "Back", Args: []any{n, id}})
				must("call")
			case 15:
				call(Msg{Type: 1, ID: id, Target: "Hi", Args: []any{[]any{1}}})
				must("call with a wrong argument")
			case 16:
				call(Msg{Type: 4, ID: id, Target: "Hi", Args: []any{"x"}})
				must("stream of one item")
			}
		}
		if c.Chance(60) {
			wg.Add(1)
			go func() { defer wg.Done(); op() }()
			if c.Chance(30) {
				time.Sleep(c.Dur(0, 50*time.Millisecond))
			}
		} else {
			op()
		}
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the calls did not finish")
		return
	}
	if e, _ := r.Ended(); e {
		c.Violf("ended", "the connection has ended: %v", last(r.Msgs(), 3))
		return
	}
	time.Sleep(time.Second)
	c.sameAs(base, "all calls on the connection have ended")
	// all places are free
	if limit > 0 && limit <= 5 && !c.failed() {
		c.Count("slots", 1)
		for i := 0; i < limit; i++ {
			call(Msg{Type: 1, ID: fmt.Sprint("u", i), Target: "Read", Streams: []string{fmt.Sprint("us", i)}})
		}
		for i := 0; i < limit; i++ {
			call(Msg{Type: 2, ID: fmt.Sprint("us", i), Item: "x"})
			call(Msg{Type: 3, ID: fmt.Sprint("us", i)})
		}
		for i := 0; i < limit; i++ {
			id := fmt.Sprint("u", i)
			if !c.Until(0, func() bool { return ended(id) }) || r.Completions(id)[0].Error != "" {
				c.Violf("slots", "upload %d of %d allowed ones after the calls: %v", i+1, limit, r.Completions(id))
				break
			}
		}
	}
	// what is pending goes on
	close(w.release)
	for _, id := range pending {
		if !c.Until(0, func() bool { return ended(id) }) || r.Completions(id)[0].Error != "" {
			c.Violf("pending", "the pending call %s yielded %v", id, r.Completions(id))
		}
	}
	r.judgeBad(r.ID)
}

func pick2[T any](b bool, x, y T) T {
	if b {
		return x
	}
	return y
}

// steadyClient27: the calls of a library client.
func steadyClient27(c *Case) {
	c.Count("client", 1)
	proto := c.pickProto()
	up, down := c.RandCond(pick(c, 0, 20*time.Millisecond)), c.RandCond(pick(c, 0, 20*time.Millisecond))
	var mu sync.Mutex
	var p *Peer
	var conn *Conn
	seed := c.U64()
	dials := 0
	connect := func() (signalr.Connection, error) {
		mu.Lock()
		dials++
		id := fmt.Sprint("s", dials)
		mu.Unlock()
		np, nc := c.RawServer(id, proto, up, down)
		var k atomic.Uint64
		np.onMsg = func(m Msg) {
			// answers depend on the target
			n := int((seed + k.Add(1)*7) % 5)
			slow := time.Duration((seed+k.Load()*13)%4) * 20 * time.Millisecond
			go func() {
				time.Sleep(slow)
				switch {
				case m.Type != 1 && m.Type != 4:
				case m.Target == "value":
					_ = np.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "v"})
				case m.Target == "void":
					_ = np.Send(Msg{Type: 3, ID: m.ID})
				case m.Target == "error":
					_ = np.Send(Msg{Type: 3, ID: m.ID, HasErr: true, Error: "wrong"})
				case m.Target == "items", m.Target == "itemserr":
					for i := 0; i < n; i++ {
						_ = np.Send(Msg{Type: 2, ID: m.ID, Item: i})
					}
					e := Msg{Type: 3, ID: m.ID}
					if m.Target == "itemserr" {
						e.HasErr, e.Error = true, "wrong"
					}
					_ = np.Send(e)
				}
			}()
		}
		mu.Lock()
		p, conn = np, nc
		mu.Unlock()
		go func() {
			if np.AcceptHandshake() {
				np.KeepAlive(time.Minute)
			}
		}()
		return nc, nil
	}
	reconnect := c.Chance(40)
	opts := []opt{signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(c.Dur(time.Second, 5*time.Minute)), signalr.HandshakeTimeout(10 * time.Second),
		signalr.StreamBufferCapacity(uint(c.Range(1, 6))), signalr.WithReceiver(&C05Recv{c, newCallLog()}), signalr.ChanReceiveTimeout(c.Dur(time.Second, 5*time.Second))}
	if reconnect {
		opts = append(opts, constBackoff(c.Dur(10*time.Millisecond, 2*time.Second)), signalr.WithConnector(connect))
	} else {
		cn, _ := connect()
		opts = append(opts, signalr.WithConnection(cn))
	}
	cl := c.Client(proto, opts...)
	// observations of the start, some of which nobody receives from
	type obs struct {
		ch   chan signalr.ClientState
		stop context.CancelFunc
	}
	var observers []obs
	for i := c.Intn(4); i > 0; i-- {
		ch := make(chan signalr.ClientState, c.Intn(2))
		observers = append(observers, obs{ch, cl.C.ObserveStateChanged(ch)})
	}
	cl.C.Start()
	cl.AwaitState(signalr.ClientConnected, 0)
	if o := c.Collect(cl.C.Invoke("value", "first")); !c.Until(0, o.Closed) {
		c.Violf("not-served", "the first call is not answered")
		return
	}
	// calls which stay pending
	var pending []*Outcomes
	npend := 0
	if !reconnect {
		npend = c.Intn(4)
	}
	for i := npend; i > 0; i-- {
		c.Count("pending", 1)
		if c.Bool() {
			pending = append(pending, c.Collect(cl.C.Invoke("hold", i)))
		} else {
			pending = append(pending, c.Collect(cl.C.PullStream("hold", i)))
		}
	}
	time.Sleep(3 * time.Second)
	for _, o := range observers {
		// ends also when a state waits to be received
		o.stop()
	}
	time.Sleep(time.Second)
	for i, o := range observers {
		for k := 0; ; k++ {
			select {
			case _, ok := <-o.ch:
				if ok && k < cap(o.ch) {
					continue
				}
				if ok {
					c.Violf("observer", "observation %d of capacity %d delivers a state after it has been canceled", i, cap(o.ch))
				}
			default:
				c.Violf("observer", "observation %d of capacity %d is not closed after it has been canceled", i, cap(o.ch))
			}
			break
		}
	}
	base := c.libGoroutines()
	ops := c.Range(1, 25)
	rounds := 1
	if reconnect {
		rounds = c.Range(1, 5)
	}
	c.Sample("client, %d calls in %d rounds, %d pending", ops, rounds, len(pending))
	bad := func() any { return func() {} }
	var wg sync.WaitGroup
	for round := 0; round < rounds && !c.failed(); round++ {
		if round > 0 {
			c.Count("reconnect", 1)
			mu.Lock()
			old, oldp := conn, p
			k := dials
			mu.Unlock()
			if c.Bool() {
				oldp.conn.Close()
			} else {
				_ = oldp.Send(Msg{Type: 7, Allow: true, HasAllow: true})
			}
			if !c.Until(0, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return dials > k && cl.C.State() == signalr.ClientConnected
			}) {
				c.Violf("no-reconnect", "the client does not reconnect, it is %s", stateName(cl.C.State()))
				return
			}
			// the transport of the old connection is released
			oldp.conn.Close()
			old.Close()
			old.cancel()
		}
		for i := 0; i < ops; i++ {
			kind := c.Intn(13)
			n := c.Intn(6)
			flip := c.Bool()
			state := pick(c, signalr.ClientConnected, signalr.ClientClosed, signalr.ClientCreated)
			d := c.Dur(0, 200*time.Millisecond)
			c.Ev(fmt.Sprintf("call%d", kind), "%d", i)
			op := func() {
				over := func(what string, o *Outcomes) {
					if !c.Until(10*time.Minute, o.Closed) {
						c.Violf("no-end", "%s has no outcome", what)
					}
				}
				switch kind {
				case 0:
					over("Invoke", c.Collect(cl.C.Invoke(pick2(flip, "value", "void"), n)))
				case 1:
					over("Invoke", c.Collect(cl.C.Invoke("error", n)))
				case 2:
					c.Count("op.invokefail", 1)
					over("Invoke", c.Collect(cl.C.Invoke("value", bad())))
				case 3:
					over("Send", c.CollectErr(cl.C.Send(pick2(flip, "void", "error"), n)))
				case 4:
					c.Count("op.sendfail", 1)
					over("Send", c.CollectErr(cl.C.Send("void", bad())))
				case 5, 6:
					over("PullStream", c.Collect(cl.C.PullStream(pick2(flip, "items", "itemserr"), n)))
				case 7:
					c.Count("op.pullfail", 1)
					over("PullStream", c.Collect(cl.C.PullStream("items", bad())))
				case 8, 9:
					c.Count("op.upload", 1)
					ch := make(chan string, n)
					for j := 0; j < n; j++ {
						ch <- fmt.Sprint(j)
					}
					close(ch)
					over("PushStreams", c.Collect(cl.C.PushStreams(pick2(flip, "value", "void"), n, ch)))
				case 10:
					c.Count("op.pushfail", 1)
					ch := make(chan string, n)
					over("PushStreams", c.Collect(cl.C.PushStreams("value", bad(), ch)))
				case 11:
					c.Count("op.wait", 1)
					ctx, cancel := context.WithCancel(context.Background())
					o := c.CollectErr(cl.C.WaitForState(ctx, state))
					time.Sleep(d)
					cancel()
					over("WaitForState", o)
				case 12:
					c.Count("op.observer", 1)
					ch := make(chan signalr.ClientState, n)
					stop := cl.C.ObserveStateChanged(ch)
					time.Sleep(d)
					stop()
					if flip {
						stop()
					}
					if !c.Within(time.Minute, func() {
						for range ch {
						}
					}) {
						c.Violf("observer", "an observation is not closed after it has been canceled")
					}
				}
				if n == 5 {
					mu.Lock()
					q := p
					mu.Unlock()
					_ = q.Send(Msg{Type: 1, Target: "Take", Args: []any{"t", n}}, Msg{Type: 1, ID: fmt.Sprint("q", round, "-", i), Target: "Nope", Args: []any{}})
				}
			}
			if c.Chance(60) {
				wg.Add(1)
				go func() { defer wg.Done(); op() }()
				if c.Chance(30) {
					time.Sleep(c.Dur(0, 50*time.Millisecond))
				}
			} else {
				op()
			}
		}
		if !c.Within(0, wg.Wait) {
			c.Violf("hang", "the calls did not finish")
			return
		}
	}
	if s := cl.C.State(); s != signalr.ClientConnected {
		c.Violf("ended", "the client is %s: %v", stateName(s), cl.C.Err())
		return
	}
	time.Sleep(time.Second)
	c.sameAs(base, fmt.Sprintf("all calls of the client have ended (%d rounds)", rounds))
	// what is pending goes on
	for _, m := range p.Find(func(m Msg) bool { return m.Target == "hold" }) {
		_ = p.Send(Msg{Type: 3, ID: m.ID})
	}
	for i, o := range pending {
		if !c.Until(0, o.Closed) {
			c.Violf("pending", "the pending call %d has no outcome", i)
		}
		got, _, _ := o.Get()
		for _, v := range got {
			if v.Error != nil {
				c.Violf("pending", "the pending call %d yielded %v", i, v.Error)
			}
		}
	}
	p.judgeBad("client")
}

type noLogger struct{}

func (noLogger) Log(...interface{}) error { return nil }

// leanConn is a connection which remembers nothing.
type leanConn struct {
	id     string
	ctx    context.Context
	cancel context.CancelFunc
	in     *io.PipeReader
	out    *io.PipeWriter
}

func (l *leanConn) ConnectionID() string        { return l.id }
func (l *leanConn) SetConnectionID(id string)   { l.id = id }
func (l *leanConn) Context() context.Context    { return l.ctx }
func (l *leanConn) Read(p []byte) (int, error)  { return l.in.Read(p) }
func (l *leanConn) Write(p []byte) (int, error) { return l.out.Write(p) }

// leanPair returns a connection and its other side.
func (c *Case) leanPair(id string) (*leanConn, *leanConn) {
	ar, bw := io.Pipe()
	br, aw := io.Pipe()
	ctx, cancel := context.WithCancel(context.Background())
	return &leanConn{id, ctx, cancel, ar, aw}, &leanConn{id, ctx, cancel, br, bw}
}

func (l *leanConn) close() {
	l.cancel()
	_ = l.in.CloseWithError(io.EOF)
	_ = l.out.Close()
}

// leanRead calls f for each message received after the handshake record.
func (l *leanConn) leanRead(proto Proto, f func(Msg)) {
	var buf []byte
	b := make([]byte, 4096)
	hs := false
	for {
		n, err := l.in.Read(b)
		buf = append(buf, b[:n]...)
		for {
			if !hs {
				i := strings.IndexByte(string(buf), 0x1e)
				if i < 0 {
					break
				}
				buf = buf[i+1:]
				hs = true
				f(Msg{})
				continue
			}
			m, k, derr := proto.Decode(buf)
			if k == 0 {
				break
			}
			buf = append([]byte(nil), buf[k:]...)
			if derr == nil {
				f(m)
			}
		}
		if err != nil {
			return
		}
	}
}

func heap27() uint64 {
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

// grows measures the memory in use while work goes on. What the first units leave behind (caches, buffers) does not
// count: it is a leak when it grows each time.
func (c *Case) grows(what string, n int, work func(from, n int) bool) {
	if !work(0, n/2) {
		return
	}
	from := n / 2
	before := heap27()
	var per []string
	for round := 0; round < 4; round++ {
		if !work(from, n) {
			return
		}
		from += n
		after := heap27()
		each := (float64(after) - float64(before)) / float64(n)
		per = append(per, fmt.Sprintf("%.1f", each))
		if each < 16 {
			c.Count("heap", 1)
			c.Note("%s: %v bytes each", what, per)
			return
		}
		before = after
	}
	c.Violf("grows", "%s: %v bytes more in use for each of %d", what, per, n)
}

func longC27(c *Case) {
	c.Count("long-life", 1)
	longServer27(c)
	longClient27(c)
	longMany27(c)
}

func longServer27(c *Case) {
	w := &world27{release: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	srv, err := signalr.NewServer(ctx, signalr.TimeoutInterval(100*time.Hour), signalr.KeepAliveInterval(100*time.Hour), signalr.ChanReceiveTimeout(100*time.Millisecond),
		signalr.HubFactory(func() signalr.HubInterface { return &Hub27{w: w} }), signalr.MaxConcurrentStreams(50), signalr.Logger(noLogger{}, false))
	if err != nil {
		c.Violf("new", "%v", err)
		return
	}
	for _, proto := range protos {
		ours, theirs := c.leanPair("c")
		go func() { _ = srv.Serve(theirs) }()
		var mu sync.Mutex
		done := 0
		go ours.leanRead(proto, func(m Msg) {
			if m.Type == 3 {
				mu.Lock()
				done++
				mu.Unlock()
			}
		})
		_, _ = ours.Write(handshakeReq(proto.Name()))
		send := func(ms ...Msg) {
			for _, m := range ms {
				_, _ = ours.Write(proto.Encode(m))
			}
		}
		want := 0
		for kind := 0; kind < 14 && !c.failed(); kind++ {
			c.grows(fmt.Sprintf("server, %s, calls of kind %d which have ended", proto.Name(), kind), 1500, func(from, n int) bool {
				for i := from; i < from+n; i++ {
					id, s := fmt.Sprint("o", kind, "-", i), fmt.Sprint("s", kind, "-", i)
					want++
					switch kind {
					case 0:
						send(Msg{Type: 1, ID: id, Target: "Hi", Args: []any{"x"}})
					case 1:
						send(Msg{Type: 1, ID: id, Target: "Nope", Args: []any{}})
					case 2:
						send(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{2, 0, 0}})
					case 3:
						send(Msg{Type: 4, ID: id, Target: "Mute", Args: []any{}}, Msg{Type: 5, ID: id})
					case 4:
						send(Msg{Type: 1, ID: id, Target: "Read", Streams: []string{s}}, Msg{Type: 2, ID: s, Item: "x"}, Msg{Type: 3, ID: s})
					case 5:
						send(Msg{Type: 1, ID: id, Target: "Nope", Streams: []string{s}}, Msg{Type: 2, ID: s, Item: "x"}, Msg{Type: 3, ID: s})
					case 6:
						send(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{1, 0, 30}}, Msg{Type: 5, ID: id})
					case 7:
						send(Msg{Type: 1, ID: id, Target: "Back", Args: []any{1, id}})
					case 8:
						send(Msg{Type: 4, ID: id, Target: "BoomStream", Args: []any{"x"}})
					case 9:
						send(Msg{Type: 5, ID: id})
						send(Msg{Type: 4, ID: id, Target: "UnserStream", Args: []any{}})
					case 10:
						send(Msg{Type: 4, ID: id, Target: "Relay", Streams: []string{s}}, Msg{Type: 2, ID: s, Item: "x"}, Msg{Type: 3, ID: s, HasErr: true, Error: "no"})
					case 11:
						send(Msg{Type: 4, ID: id, Target: "Hi", Args: []any{"x"}})
					case 12:
						send(Msg{Type: 4, ID: id, Target: "Nope", Args: []any{}})
					case 13:
						send(Msg{Type: 4, ID: id, Target: "Multi", Args: []any{}})
					}
					if i%20 == 19 && !c.Until(0, func() bool { mu.Lock(); defer mu.Unlock(); return done >= want-19 }) {
						c.Violf("no-end", "%d of %d calls have ended", done, want)
						return false
					}
				}
				if !c.Until(0, func() bool { mu.Lock(); defer mu.Unlock(); return done == want }) {
					c.Violf("no-end", "%d of %d calls have ended", done, want)
					return false
				}
				time.Sleep(2 * time.Minute)
				return true
			})
		}
		ours.close()
		if c.failed() {
			return
		}
	}
	runtime.KeepAlive(srv)
}

func longClient27(c *Case) {
	proto := c.pickProto()
	ours, theirs := c.leanPair("c")
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	cl, err := signalr.NewClient(ctx, signalr.WithConnection(theirs), formatOf(proto),
		signalr.TimeoutInterval(100*time.Hour), signalr.KeepAliveInterval(100*time.Hour), signalr.Logger(noLogger{}, false))
	if err != nil {
		c.Violf("new", "%v", err)
		return
	}
	go ours.leanRead(proto, func(m Msg) {
		var out []Msg
		switch {
		case m.Type == 0:
			_, _ = ours.Write([]byte("{}\x1e"))
		case m.Type == 1 && m.Target == "value":
			out = []Msg{{Type: 3, ID: m.ID, HasRes: true, Result: "v"}}
		case m.Type == 1 && m.Target == "error":
			out = []Msg{{Type: 3, ID: m.ID, HasErr: true, Error: "wrong"}}
		case m.Type == 1:
			out = []Msg{{Type: 3, ID: m.ID}}
		case m.Type == 4:
			out = []Msg{{Type: 2, ID: m.ID, Item: "x"}, {Type: 3, ID: m.ID}}
		}
		for _, m := range out {
			_, _ = ours.Write(proto.Encode(m))
		}
	})
	cl.Start()
	if err := <-cl.WaitForState(context.Background(), signalr.ClientConnected); err != nil {
		c.Violf("not-connected", "%v", err)
		return
	}
	for kind := 0; kind < 9 && !c.failed(); kind++ {
		c.grows(fmt.Sprintf("client, %s, calls of kind %d which have ended", proto.Name(), kind), 1500, func(from, n int) bool {
			ok := c.Within(0, func() {
				for i := from; i < from+n; i++ {
					switch kind {
					case 0:
						for range cl.Invoke("value", i) {
						}
					case 1:
						for range cl.Invoke("error", i) {
						}
					case 2:
						for range cl.Send("void", i) {
						}
					case 3:
						for range cl.PullStream("items", i) {
						}
					case 4:
						ch := make(chan int, 1)
						ch <- i
						close(ch)
						for range cl.PushStreams("value", ch) {
						}
					case 5:
						for range cl.Invoke("value", func() {}) {
						}
					case 6:
						for range cl.PullStream("items", func() {}) {
						}
						for range cl.PushStreams("value", func() {}, make(chan int)) {
						}
					case 7:
						ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
						<-cl.WaitForState(ctx, signalr.ClientClosed)
						cancel()
					case 8:
						ch := make(chan signalr.ClientState)
						cl.ObserveStateChanged(ch)()
					}
				}
				time.Sleep(2 * time.Minute)
			})
			if !ok {
				c.Violf("no-end", "the calls do not end")
			}
			return ok
		})
	}
	ours.close()
	cl.Stop()
}

// longMany27: connections which have ended.
func longMany27(c *Case) {
	w := &world27{release: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	srv, err := signalr.NewServer(ctx, signalr.TimeoutInterval(100*time.Hour), signalr.KeepAliveInterval(100*time.Hour),
		signalr.HubFactory(func() signalr.HubInterface { return &Hub27{w: w} }), signalr.Logger(noLogger{}, false))
	if err != nil {
		c.Violf("new", "%v", err)
		return
	}
	per, err := signalr.NewServer(ctx, signalr.TimeoutInterval(100*time.Hour), signalr.KeepAliveInterval(100*time.Hour),
		signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub27{w: w} }), signalr.Logger(noLogger{}, false))
	if err != nil {
		c.Violf("new", "%v", err)
		return
	}
	proto := c.pickProto()
	errNo := errors.New("no completion")
	c.grows("connections which have ended", 500, func(from, n int) bool {
		for i := from; i < from+n; i++ {
			ours, theirs := c.leanPair(fmt.Sprint("c", i))
			s := srv
			if i%2 == 0 {
				s = per
			}
			served := make(chan struct{})
			go func() { _ = s.Serve(theirs); close(served) }()
			done := make(chan error, 1)
			go func() {
				ours.leanRead(proto, func(m Msg) {
					if m.Type == 3 {
						select {
						case done <- nil:
						default:
						}
					}
				})
				select {
				case done <- errNo:
				default:
				}
			}()
			if i%5 == 4 {
				// no handshake
				ours.close()
			} else {
				_, _ = ours.Write(handshakeReq(proto.Name()))
				_, _ = ours.Write(proto.Encode(Msg{Type: 1, ID: "1", Target: "Back", Args: []any{i % 4, theirs.id}}))
				if <-done != nil {
					c.Violf("no-end", "connection %d is not served", i)
					return false
				}
				_, _ = ours.Write(proto.Encode(Msg{Type: 7}))
			}
			if !c.Within(0, func() { <-served }) {
				c.Violf("no-end", "connection %d is served forever", i)
				return false
			}
			ours.close()
		}
		time.Sleep(2 * time.Minute)
		return true
	})
	runtime.KeepAlive(srv)
	runtime.KeepAlive(per)
}
