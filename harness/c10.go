package sigverif

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C10", Quick: 30000, Thorough: 1000000, Run: runC10,
		Rule: "A case is a server (hub factory, simple factory, shared hub or per-connection factory; callbacks immediate, slow, sending or aborting) with 1..10 connections that shake hands well or badly (other protocol, garbage, cut, silent, closed early, too large), make calls, also of lifecycle methods by name, and end by close, reset, close message, garbage, silence, abort from a method or from OnConnected, a cancelled connection context, a failing write, server shutdown or a panicking callback, apart or at the same instant; sends address them while connected and after the end.",
		Need: []string{"ev:OnConnected", "ev:OnDisconnected", "good", "bad-handshake", "end.close", "end.reset", "end.closemsg", "end.garbage", "end.silence", "end.abort", "end.abort-early", "end.context", "end.write-error", "end.shutdown", "end.panic", "reachable", "after-end", "forged"}})
}

type conn10 struct {
	id    string
	good  bool // a proper handshake was sent
	fuzzy bool // it is open whether the handshake succeeded
	r     *RawClient
	end   string
	slow  time.Duration
	abort bool
	panicOn,
	sendOn bool

	mu          sync.Mutex
	on, off     []time.Duration
	running     int
	onRet       bool
	served      bool
	servedAt    time.Duration
	wantForeign int
}

type world10 struct {
	c     *Case
	mu    sync.Mutex
	conns map[string]*conn10
	bad   int
}

var cur10 atomic.Pointer[world10]

// Hub10 records its callbacks.
type Hub10 struct {
	signalr.Hub
	inst string // per connection id for the per-connection factory
}

func (h *Hub10) find(id, what string) *conn10 {
	w := cur10.Load()
	w.mu.Lock()
	k := w.conns[id]
	w.mu.Unlock()
	if k == nil {
		w.c.Violf("foreign-id", "%s was called with unknown connection id %q", what, id)
	} else if h.inst != "shared" && h.ConnectionID() != id {
		w.c.Violf("wrong-id", "%s was called with connection id %q, in a hub of connection %q", what, id, h.ConnectionID())
	}
	return k
}

func (h *Hub10) OnConnected(id string) {
	w := cur10.Load()
	w.c.Ev("OnConnected", "%s", id)
	k := h.find(id, "OnConnected")
	if k == nil {
		return
	}
	k.mu.Lock()
	k.on = append(k.on, w.c.Now())
	k.mu.Unlock()
	if k.slow > 0 {
		time.Sleep(k.slow)
	}
	if k.sendOn && h.inst != "shared" {
		h.Clients().Caller().Send("hello", id)
		h.Groups().AddToGroup("g", id)
	}
	if k.abort && h.inst != "shared" {
		h.Abort()
	}
	if k.panicOn {
		panic("OnConnected " + id)
	}
	k.mu.Lock()
	k.onRet = true
	k.mu.Unlock()
}

func (h *Hub10) OnDisconnected(id string) {
	w := cur10.Load()
	w.c.Ev("OnDisconnected", "%s", id)
	k := h.find(id, "OnDisconnected")
	if k == nil {
		return
	}
	k.mu.Lock()
	k.off = append(k.off, w.c.Now())
	k.mu.Unlock()
	if k.slow > 0 {
		time.Sleep(k.slow)
	}
}

func (h *Hub10) Ping(tag string) string { return "pong-" + tag }
func (h *Hub10) Bye()                   { h.Abort() }
func (h *Hub10) Wait(ms int) string {
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return "done"
}

func runC10(c *Case) {
	w := &world10{c: c, conns: map[string]*conn10{}}
	cur10.Store(w)
	var o opt
	kind := c.Intn(4)
	switch kind {
	case 0:
		o = signalr.HubFactory(c.slowly(func() signalr.HubInterface { return &Hub10{} }))
	case 1:
		o = signalr.SimpleHubFactory(&Hub10{})
	case 2:
		o = signalr.UseHub(&Hub10{inst: "shared"})
	case 3:
		o = signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface { return &Hub10{inst: id} })
	}
	srv := c.Server(o, signalr.HandshakeTimeout(5*time.Second), signalr.TimeoutInterval(20*time.Second))
	n := c.Range(1, 10)
	shutdown := c.Chance(30)
	shutdownAt := c.Dur(0, 200*time.Millisecond)
	c.Sample("hub kind %d, %d connections, shutdown %v", kind, n, shutdown)
	panics := false
	conns := make([]*conn10, n)
	for i := range conns {
		k := &conn10{id: fmt.Sprintf("k%d-%d", c.Index, i)}
		if c.Chance(25) {
			k.slow = c.Dur(0, 50*time.Millisecond)
		}
		k.sendOn = c.Chance(40)
		k.end = pick(c, "close", "reset", "closemsg", "garbage", "silence", "abort", "context", "write-error", "none")
		k.good = c.Chance(75)
		if k.good && kind != 2 && c.Chance(7) {
			k.abort, k.end = true, "abort-early"
		}
		if k.good && c.Chance(2) {
			k.panicOn, k.end = true, "panic"
			panics = true
		}
		conns[i] = k
		w.conns[k.id] = k
	}
	var wg sync.WaitGroup
	over := func(k *conn10) bool { d, _ := k.r.Served.Done(); return d }
	for i, k := range conns {
		wg.Add(1)
		at := time.Duration(0)
		if c.Bool() {
			at = c.Dur(0, 100*time.Millisecond)
		}
		proto := c.pickProto()
		up, down := c.RandCond(0), c.RandCond(0)
		if k.end == "write-error" && k.good {
			down.CutAfter = c.Range(4, 60)
			k.fuzzy = true // the cut may hit the handshake or what follows it
		}
		kindBad := c.Intn(7)
		stay := c.Dur(0, 200*time.Millisecond)
		calls := c.Range(0, 3)
		forged := c.Chance(25)
		// Dial here, so that the case stays deterministic
		go func() {
			defer wg.Done()
			time.Sleep(at)
			k.mu.Lock()
			k.r = srv.Dial(k.id, proto, up, down)
			r := k.r
			k.mu.Unlock()
			if !k.good {
				c.Count("bad-handshake", 1)
				switch kindBad {
				case 0:
					_ = r.Raw([]byte(`{"protocol":"xml","version":1}` + "\x1e"))
				case 1:
					_ = r.Raw([]byte("hello\x1e"))
				case 2:
					_ = r.Raw([]byte(`{"protocol":"json","vers`))
					r.Conn.Close()
				case 3: // silent until the timeout
				case 4:
					r.Conn.Close()
				case 5:
					_ = r.Raw([]byte(`{"protocol":"json","version":1}`)) // no end
				case 6:
					_ = r.Raw([]byte(`{"protocol":"` + strings.Repeat("x", 40000) + "\"}\x1e"))
				}
				c.Until(time.Minute, func() bool { return over(k) })
				r.Conn.Close()
				return
			}
			c.Count("good", 1)
			_ = r.Raw(handshakeReq(proto.Name()))
			if !c.Until(time.Minute, func() bool { _, ok := r.Handshake(); return ok || over(k) }) {
				c.Violf("no-handshake", "connection %s: no handshake response", k.id)
				return
			}
			if _, ok := r.Handshake(); !ok || over(k) {
				k.fuzzy = true
			}
			if k.end != "silence" {
				r.KeepAlive(4 * time.Second)
			}
			for j := 0; j < calls; j++ {
				id := fmt.Sprint(j)
				_ = r.Send(Msg{Type: 1, ID: id, Target: "Ping", Args: []any{id}})
				if forged {
					c.Count("forged", 1)
					t := pick(c, "OnConnected", "onDisconnected", "Initialize", "ONCONNECTED")
					_ = r.Send(Msg{Type: 1, ID: "f" + id, Target: t, Args: []any{pick[any](c, "forged", k.id, nil)}})
				}
				if c.Bool() {
					c.Until(time.Minute, func() bool { return len(r.Completions(id)) > 0 || over(k) })
				}
			}
			if c.Chance(20) {
				_ = r.Send(Msg{Type: 1, ID: "w", Target: "Wait", Args: []any{3000}})
			}
			time.Sleep(stay)
			if k.end == "none" || k.end == "abort-early" || k.end == "panic" {
				return
			}
			if !over(k) {
				c.Count("end."+k.end, 1)
				c.Ev("end."+k.end, "%s", k.id)
			}
			switch k.end {
			case "close":
				r.Conn.Close()
			case "reset":
				r.Conn.Reset()
			case "closemsg":
				_ = r.Send(Msg{Type: 7, Error: pick(c, "", "bye"), HasErr: true})
			case "garbage":
				_ = r.Raw([]byte("\xff\xff\xff\xff\xff\xff\xff\x1e"))
			case "silence":
				time.Sleep(21 * time.Second)
			case "abort":
				_ = r.Send(Msg{Type: 1, Target: "Bye"})
				if kind == 2 {
					// a shared hub may abort another connection
					_ = r.Send(Msg{Type: 7})
				}
			case "context":
				r.Far.cancel()
			case "write-error":
				_ = r.Send(Msg{Type: 1, ID: "we", Target: "Ping", Args: []any{"we" + strings.Repeat("x", 80)}})
			}
			if !c.Until(time.Minute, func() bool { return over(k) }) {
				c.Violf("serve-hangs", "connection %s ended by %s: Serve has not returned", k.id, k.end)
			}
		}()
		_ = i
	}
	if shutdown {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(shutdownAt)
			c.Count("end.shutdown", 1)
			srv.Cancel()
		}()
	}
	// server code sends all the time
	stop := make(chan struct{})
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		pause := 5 * time.Millisecond
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			case <-time.After(pause):
				if i == 60 {
					pause = 300 * time.Millisecond
				}
			}
			srv.S.HubClients().All().Send("tick", i)
			srv.S.HubClients().Group("g").Send("gtick", i)
			k := conns[i%n]
			srv.S.HubClients().Client(k.id).Send("ctick", i)
			if i > 4000 {
				return
			}
		}
	}()
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
		return
	}
	// who is still connected is reachable
	time.Sleep(time.Second)
	tag := "probe"
	type probe struct {
		k *conn10
		n int
	}
	live := []*conn10{}
	for _, k := range conns {
		k.mu.Lock()
		if k.onRet && !over(k) && len(k.off) == 0 {
			live = append(live, k)
		}
		k.mu.Unlock()
	}
	for _, k := range live {
		srv.S.HubClients().Client(k.id).Send(tag, k.id)
	}
	for _, k := range live {
		k := k
		if !c.Until(10*time.Second, func() bool {
			return over(k) || len(k.r.Find(func(m Msg) bool { return m.Type == 1 && m.Target == tag })) > 0
		}) {
			c.Violf("unreachable", "connection %s has had its connect callback but does not receive sends", k.id)
		}
		c.Count("reachable", 1)
	}
	// the rest ends by shutdown
	close(stop)
	<-sent
	if c.Bool() || panics {
		srv.Cancel()
		c.Count("end.shutdown", 1)
	} else {
		for _, k := range conns {
			k.r.Conn.Close()
		}
	}
	if !c.Until(2*time.Minute, func() bool {
		for _, k := range conns {
			if !over(k) {
				return false
			}
		}
		return true
	}) {
		c.Violf("serve-hangs", "not every Serve has returned at the end")
		return
	}
	time.Sleep(time.Second)
	// nothing is written to ended connections
	endAt := c.Now()
	for i := 0; i < 3; i++ {
		srv.S.HubClients().All().Send("late", i)
		srv.S.HubClients().Group("g").Send("late", i)
		for _, k := range conns {
			srv.S.HubClients().Client(k.id).Send("late", i)
		}
	}
	time.Sleep(10 * time.Second)
	for _, k := range conns {
		_, at := k.r.Served.Done()
		half := k.r.Far.out
		half.mu.Lock()
		rec := append([]writeRec(nil), half.rec...)
		half.mu.Unlock()
		margin := time.Duration(0)
		if c.Real {
			margin = time.Second
		}
		c.Count("after-end", 1)
		for _, x := range rec {
			if x.at > at+margin {
				c.Violf("send-after-end", "connection %s (end %s): Serve returned at %v, at %v the server wrote %q", k.id, k.end, at, x.at, x.data)
				break
			}
		}
		k.mu.Lock()
		on, off := len(k.on), len(k.off)
		k.mu.Unlock()
		switch {
		case !k.good:
			if on != 0 || off != 0 {
				c.Violf("callback-without-handshake", "connection %s failed its handshake, but OnConnected ran %d and OnDisconnected %d times", k.id, on, off)
			}
		case k.fuzzy || shutdown || panics:
			// shutdown may hit the handshake
			if on > 1 || off != on {
				c.Violf("callbacks", "connection %s (end %s): OnConnected ran %d times, OnDisconnected %d times", k.id, k.end, on, off)
			}
			if h, ok := k.r.Handshake(); ok && h == "{}" && len(k.r.Find(func(m Msg) bool { return m.Type == 3 })) > 0 && on != 1 {
				c.Violf("callbacks", "connection %s (end %s) was served: OnConnected ran %d times, OnDisconnected %d times", k.id, k.end, on, off)
			}
		default:
			if on != 1 || off != 1 {
				c.Violf("callbacks", "connection %s (end %s): OnConnected ran %d times, OnDisconnected %d times", k.id, k.end, on, off)
			}
		}
		if k.end == "abort-early" && k.good {
			c.Count("end.abort-early", on)
		}
		if k.panicOn {
			c.Count("end.panic", on)
		}
		if k.sendOn && on == 1 && kind != 2 && !k.fuzzy && k.end == "close" && !shutdown && !panics {
			if len(k.r.Find(func(m Msg) bool { return m.Type == 1 && m.Target == "hello" })) != 1 {
				// the connection may have gone while the callback slept
				if len(k.off) > 0 && c.slowHub == 0 && k.off[0] > k.on[0]+k.slow {
					c.Violf("unreachable", "connection %s did not receive what its own connect callback sent", k.id)
				}
			}
		}
	}
	_ = endAt
}
