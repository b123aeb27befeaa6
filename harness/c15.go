package sigverif

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C15", Quick: 150000, Thorough: 5000000, Run: runC15,
		Rule: "A case is a server with 1..4 connections, or a client, with random timeout (0.2..60 s), keep-alive and handshake intervals in virtual time; the peer completes the handshake early, just in time, bytewise, late or never, then sends messages of every kind at gaps from zero to just below the timeout interval, and falls silent; the library has traffic of its own or none, and the peer may stop reading for a while.",
		Need: []string{"server", "client", "hs.late", "hs.never", "hs.partial", "hs.intime", "silent", "restarted", "pings", "ev:msg.ping", "ev:msg.inv", "ev:msg.item", "ev:msg.other", "stall", "busy", "blocked", "blocked.client", "blocked.silent"}})
}

// Hub15 only records that it was called.
type Hub15 struct {
	signalr.Hub
	w *world15
}

type world15 struct {
	c     *Case
	mu    sync.Mutex
	calls map[string]int
}

func (h *Hub15) called() {
	h.w.mu.Lock()
	h.w.calls[h.ConnectionID()]++
	h.w.mu.Unlock()
}
func (h *Hub15) OnConnected(string)    { h.called() }
func (h *Hub15) OnDisconnected(string) { h.called() }
func (h *Hub15) Hi(x string) string {
	h.called()
	return x
}
func (h *Hub15) Up(in <-chan string) string {
	h.called()
	for range in {
	}
	return "end"
}
func (h *Hub15) Long(ms int) string {
	h.called()
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return "long"
}

func (c *Case) tol() time.Duration {
	if c.Real {
		return 3 * time.Second
	}
	return 5 * time.Millisecond
}

func runC15(c *Case) {
	T := c.Dur(200*time.Millisecond, 60*time.Second)
	K := c.Dur(50*time.Millisecond, 20*time.Second)
	H := c.Dur(100*time.Millisecond, 20*time.Second)
	opts := []opt{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(K), signalr.HandshakeTimeout(H)}
	if c.Chance(40) {
		c.Count("client", 1)
		c.Sample("client, T %v K %v H %v", T, K, H)
		client15(c, T, K, H, opts)
		return
	}
	c.Count("server", 1)
	w := &world15{c: c, calls: map[string]int{}}
	if c.Chance(15) {
		blocked15(c, w)
		return
	}
	n := c.Range(1, 4)
	c.Sample("server, %d connections, T %v K %v H %v", n, T, K, H)
	srv := c.Server(append(opts, signalr.HubFactory(func() signalr.HubInterface { return &Hub15{w: w} }))...)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("c%d", i)
		proto := c.pickProto()
		cond := c.RandCond(0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := srv.Dial(id, proto, cond, Cond{})
			dialed := c.Now()
			ended := func() (bool, time.Duration) { return r.Served.Done() }
			if !handshake15(c, r.Peer, handshakeReq(proto.Name()), H, dialed, ended) {
				time.Sleep(c.tol() + time.Second)
				w.mu.Lock()
				k := w.calls[id]
				w.mu.Unlock()
				if k != 0 {
					c.Violf("hub-call", "%s did not complete its handshake in time, but hub methods were called %d times", id, k)
				}
				r.Conn.Close()
				return
			}
			live15(c, r.Peer, r.Far.out, T, K, ended, true, id, c.Now())
			r.Conn.Close()
		}()
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
	}
}

// handshake15 sends b in one of several ways; true if it was complete in time.
func handshake15(c *Case, p *Peer, b []byte, H time.Duration, since time.Duration, ended func() (bool, time.Duration)) bool {
	must := func(in bool) bool {
		if in {
			return true
		}
		if !c.Until(H+time.Minute, func() bool { e, _ := ended(); return e }) {
			c.Violf("handshake-timeout", "without handshake the connection is still open after %v (handshake timeout %v)", c.Now()-since, H)
			return false
		}
		_, at := ended()
		if at < since+H {
			c.Violf("handshake-early", "the handshake was given up after %v, the handshake timeout is %v", at-since, H)
		}
		if at > since+H+c.tol() {
			c.Violf("handshake-timeout", "without handshake the connection ended after %v, the handshake timeout is %v", at-since, H)
		}
		return false
	}
	switch c.Intn(12) {
	case 0:
		c.Count("hs.never", 1)
		return must(false)
	case 1:
		c.Count("hs.partial", 1)
		for i := 0; i < len(b)-1; i++ {
			_ = p.Raw(b[i : i+1])
			time.Sleep(H / time.Duration(c.Range(10, 60)))
			if e, _ := ended(); e {
				break
			}
		}
		return must(false)
	case 2:
		c.Count("hs.late", 1)
		time.Sleep(since + H + c.tol() - c.Now())
		_ = p.Raw(append(b, p.proto.Encode(Msg{Type: 1, Target: "Hi", Args: []any{"x"}})...))
		return must(false)
	case 3, 4:
		c.Count("hs.intime", 1)
		if !c.Real {
			at := since + H - time.Duration(c.Range(1, 50))*time.Millisecond - c.Now()
			k := c.Intn(len(b))
			_ = p.Raw(b[:k])
			time.Sleep(at)
			_ = p.Raw(b[k:])
			return true
		}
	}
	c.Count("hs.intime", 1)
	_ = p.Raw(b)
	return true
}

// live15 sends messages with gaps below the timeout interval, then falls silent. out is what the library writes.
func live15(c *Case, p *Peer, out *half, T, K time.Duration, ended func() (bool, time.Duration), server bool, who string, start time.Duration) {
	last := start
	n := c.Intn(8)
	upOpen := ""
	busy := c.Chance(30)
	if busy {
		c.Count("busy", 1)
	}
	stallFrom, stallTo := time.Duration(-1), time.Duration(-1)
	step := func(d time.Duration) bool {
		time.Sleep(d)
		if e, at := ended(); e {
			c.Violf("dropped-early", "%s: last message received at %v, timeout interval %v, but the connection ended at %v", who, last, T, at)
			return false
		}
		return true
	}
	if server && busy && c.Bool() {
		// a method which runs longer than the timeout does not matter
		_ = p.Send(Msg{Type: 1, Target: "Long", Args: []any{int((T + T/2) / time.Millisecond)}})
		last = c.Now()
	}
	for i := 0; i < n; i++ {
		gap := c.Dur(0, T)
		if c.Chance(40) {
			gap = T - time.Duration(c.Range(1, 20))*time.Millisecond
		}
		if c.Real {
			gap = T / 2
		}
		if gap < 0 {
			gap = 0
		}
		if !step(max(0, gap-(c.Now()-last))) {
			return
		}
		c.Count("restarted", 1)
		switch c.Intn(6) {
		case 0, 1:
			c.Ev("msg.ping", "")
			_ = p.Send(Msg{Type: 6})
		case 2:
			c.Ev("msg.inv", "")
			m := Msg{Type: 1, Target: "Hi", Args: []any{fmt.Sprint(i)}}
			if busy && server {
				m.ID = fmt.Sprintf("b%d", i)
			}
			_ = p.Send(m)
		case 3:
			c.Ev("msg.item", "")
			if !server {
				_ = p.Send(Msg{Type: 6})
				break
			}
			if upOpen == "" {
				upOpen = "up"
				_ = p.Send(Msg{Type: 1, ID: "u", Target: "Up", Streams: []string{"up"}})
			} else {
				_ = p.Send(Msg{Type: 2, ID: "up", Item: "x"})
			}
		case 4:
			c.Ev("msg.other", "")
			_ = p.Send(Msg{Type: 5, ID: "nobody"}) // cancels nothing
		case 5:
			c.Ev("msg.inv", "")
			m := Msg{Type: 1, Target: "NoSuchMethod", Args: []any{}}
			if busy && server {
				m.ID = fmt.Sprintf("n%d", i)
			}
			_ = p.Send(m)
		}
		last = c.Now()
		if c.Chance(10) && stallFrom < 0 && i < n-1 {
			// the peer does not read for a while, but still sends
			c.Count("stall", 1)
			stallFrom = c.Now()
			out.Stall()
			d := c.Dur(0, T-T/10)
			if d > T-20*time.Millisecond {
				d = T / 2
			}
			if c.Real {
				d = T / 2
			}
			if !step(d) {
				return
			}
			out.Unstall()
			stallTo = c.Now()
			_ = p.Send(Msg{Type: 6})
			last = c.Now()
		}
	}
	// silence
	c.Count("silent", 1)
	ok := c.Until(T+2*time.Minute, func() bool { e, _ := ended(); return e })
	e, at := ended()
	if !ok || !e {
		c.Violf("not-dropped", "%s: last message received at %v, timeout interval %v, still open at %v", who, last, T, c.Now())
		return
	}
	if at < last+T {
		c.Violf("dropped-early", "%s: last message received at %v, timeout interval %v, but the connection ended at %v", who, last, T, at)
	}
	if at > last+T+c.tol() {
		c.Violf("dropped-late", "%s: last message received at %v, timeout interval %v, but the connection ended only at %v", who, last, T, at)
	}
	// pings
	out.mu.Lock()
	rec := append([]writeRec(nil), out.rec...)
	out.mu.Unlock()
	prev := start
	for _, x := range rec {
		if x.at < start {
			continue
		}
		if x.at > at {
			break
		}
		check15(c, who, prev, x.at, K, stallFrom, stallTo)
		prev = x.at
	}
	check15(c, who, prev, at, K, stallFrom, stallTo)
	c.Count("pings", len(p.Find(func(m Msg) bool { return m.Type == 6 })))
}

func check15(c *Case, who string, from, to, K, stallFrom, stallTo time.Duration) {
	if stallFrom >= 0 && from <= stallTo && to >= stallFrom {
		return
	}
	if to-from > K+c.tol() {
		c.Violf("no-ping", "%s: nothing was sent from %v to %v, the keep-alive interval is %v", who, from, to, K)
	}
}

func client15(c *Case, T, K, H time.Duration, opts []opt) {
	proto := c.pickProto()
	p, conn := c.RawServer("c", proto, Cond{}, c.RandCond(0))
	recv := &C05Recv{c, newCallLog()}
	cl := c.Client(proto, append(opts, signalr.WithConnection(c.lib(conn)), signalr.WithReceiver(recv))...)
	var mu sync.Mutex
	var at time.Duration
	closed := false
	cl.C.Start()
	since := c.Now()
	go func() {
		ch := make(chan signalr.ClientState, 10)
		cancel := cl.C.ObserveStateChanged(ch)
		defer cancel()
		for cl.C.State() != signalr.ClientClosed {
			<-ch
		}
		mu.Lock()
		closed, at = true, c.Now()
		mu.Unlock()
	}()
	ended := func() (bool, time.Duration) { mu.Lock(); defer mu.Unlock(); return closed, at }
	if !c.Until(0, func() bool { _, ok := p.Handshake(); return ok }) {
		c.Violf("no-handshake", "the client sends no handshake")
		return
	}
	if !handshake15(c, p, []byte("{}\x1e"), H, since, ended) {
		p.conn.Close()
		return
	}
	at0 := c.Now()
	if !cl.AwaitState(signalr.ClientConnected, 5*time.Second) {
		c.Violf("no-connect", "the handshake was in time, the client is %s: %v", stateName(cl.C.State()), cl.C.Err())
		return
	}
	live15(c, p, conn.out, T, K, ended, false, "client", at0)
	if cl.C.Err() == nil && !errors.Is(cl.C.Err(), nil) {
		c.Violf("no-error", "the client timed out without an error")
	}
	p.conn.Close()
}

func (h *Hub15) Sleepy(ms int, in <-chan string) string {
	h.called()
	time.Sleep(time.Duration(ms) * time.Millisecond)
	for range in {
	}
	return "end"
}

// blocked15: upload items which are not taken, or items of a stream which the caller does not read, keep the library
// busy. A peer which is alive is not dropped, it gets its pings, and a silent one is dropped in time.
func blocked15(c *Case, w *world15) {
	c.Count("blocked", 1)
	T := c.Dur(500*time.Millisecond, 4*time.Second)
	R := c.Dur(500*time.Millisecond, 8*time.Second)
	K := c.Dur(100*time.Millisecond, 4*time.Second)
	opts := []opt{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(K), signalr.ChanReceiveTimeout(R), signalr.StreamBufferCapacity(1)}
	every := c.Dur(T/10, T-T/10)
	if c.Real {
		every = T / 3
	}
	silent := !c.Real && c.Chance(30)
	var p *Peer
	var out *half
	var ended func() (bool, time.Duration)
	item := Msg{Type: 2, ID: "up", Item: "x"}
	var start time.Duration
	if c.Bool() {
		srv := c.Server(append(opts, signalr.HubFactory(func() signalr.HubInterface { return &Hub15{w: w} }))...)
		r := srv.Connect("c", c.pickProto(), c.RandCond(0), Cond{})
		if r == nil {
			return
		}
		start = c.Now()
		p, out, ended = r.Peer, r.Far.out, r.Served.Done
		if !silent {
			p.KeepAlive(every)
		}
		_ = p.Send(Msg{Type: 1, ID: "s", Target: "Sleepy", Args: []any{20000}, Streams: []string{"up"}})
	} else {
		c.Count("blocked.client", 1)
		proto := c.pickProto()
		q, conn := c.RawServer("c", proto, Cond{}, c.RandCond(0))
		cl := c.Client(proto, append(opts, signalr.WithConnection(c.lib(conn)))...)
		var mu sync.Mutex
		var at time.Duration
		closed := false
		cl.C.Start()
		if !q.AcceptHandshake() {
			c.Violf("no-handshake", "the client sends no handshake")
			return
		}
		start = c.Now()
		go func() {
			<-cl.C.WaitForState(context.Background(), signalr.ClientClosed)
			mu.Lock()
			closed, at = true, c.Now()
			mu.Unlock()
		}()
		p, out = q, conn.out
		ended = func() (bool, time.Duration) { mu.Lock(); defer mu.Unlock(); return closed, at }
		if !silent {
			p.KeepAlive(every)
		}
		if !cl.AwaitState(signalr.ClientConnected, T/2) {
			c.Violf("not-connected", "the client is not connected %v after the handshake", T/2)
			return
		}
		_ = cl.C.PullStream("Stream") // nobody reads it
		if !c.Until(T/2, func() bool {
			for _, m := range p.Find(func(m Msg) bool { return m.Type == 4 }) {
				item.ID = m.ID
				return true
			}
			return false
		}) {
			return
		}
	}
	last := c.Now()
	for i := c.Range(1, 8); i > 0; i-- {
		if p.Send(item) == nil {
			last = c.Now()
		}
		if c.Bool() {
			time.Sleep(c.Dur(0, T/2))
		}
	}
	c.Ev("blocked", "T %v K %v R %v ping every %v", T, K, R, every)
	if silent {
		c.Count("blocked.silent", 1)
		c.Until(10*(T+R), func() bool { e, _ := ended(); return e })
		e, at := ended()
		if !e || at > last+T+10*R {
			c.Violf("not-dropped", "the peer sent its last message at %v (timeout interval %v, channel receive timeout %v) and is still connected", last, T, R)
			return
		}
		if at < last+T {
			c.Violf("dropped-early", "last message received at %v, timeout interval %v, but the connection ended at %v", last, T, at)
		}
	} else {
		time.Sleep(c.Dur(0, 30*time.Second))
		if e, at := ended(); e {
			c.Violf("dropped-early", "the peer sends at least every %v, the timeout interval is %v, but the connection ended at %v (channel receive timeout %v)", every, T, at, R)
			return
		}
	}
	end := c.Now()
	if e, at := ended(); e {
		end = at
	}
	out.mu.Lock()
	rec := append([]writeRec(nil), out.rec...)
	out.mu.Unlock()
	prev := start
	for _, x := range rec {
		if x.at >= start && x.at <= end {
			check15(c, "busy library", prev, x.at, K, -1, -1)
			prev = x.at
		}
	}
	check15(c, "busy library", prev, end, K, -1, -1)
}
