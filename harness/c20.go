package sigverif

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
)

func init() {
	register(&Prop{ID: "C20", Quick: 1200, Thorough: 100000, Run: runC20, Freeze: 40 * time.Second,
		Rule: "The library and the harness are built with the race detector. A case is either a storm (a server with one of its hub kinds and lifetime managers, 1..4 raw connections and 0..3 library clients on pipes, websockets or Server-Sent Events, the clients with or without reconnect, and for each of them, the server and the hub methods several goroutines which use every operation of the public API at the same time while connections break, come back, are aborted and stopped), or a workload of another property. In storms the harness does not synchronize its goroutines and the in-memory network hides its synchronization, so that only what the library (and its callers' documented obligations) orders is ordered. A report counts if the innermost frame outside of the Go library and other modules of at least one of its accesses is in the library.",
		Need: []string{"storm", "borrowed", "op:invoke", "op:send", "op:pull", "op:push", "op:state", "op:observe", "op:wait", "op:err", "op:stop", "op:hub", "op:all", "op:client", "op:group", "op:add", "op:remove", "op:caller", "op:items", "op:abort", "op:cut", "op:upload", "op:stream", "op:recv", "op:cancel", "op:connected", "op:disconnected", "lib-client", "raw-client", "redis", "pipe", "ws", "sse", "hub:shared", "hub:factory", "hub:perconn", "reconnect"}})
}

// addRaces turns new reports of the race detector into violations; all others belong to other properties.
func (c *Case) addRaces() {
	if c.Prop != "C20" {
		return
	}
	c.viols = nil
	for _, r := range newRaces() {
		key, lib := judgeRace(r)
		if !lib {
			c.counters["reports-outside-the-library"]++
			c.counters["outside:"+key]++
			continue
		}
		c.viols = append(c.viols, Violation{key, "data race:\n" + r})
	}
}

var borrowed20 = strings.Fields("C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C22 C23")

func runC20(c *Case) {
	if c.Chance(60) {
		storm20(c)
		return
	}
	id := pick(c, borrowed20...)
	c.Count("borrowed", 1)
	c.Ev("run:"+id, "")
	registry[id].Run(c)
}

var ops20 = strings.Fields("invoke send pull push state observe wait err stop hub all client group add remove caller items abort cut upload stream recv cancel connected disconnected late panic bytes start")

type world20 struct {
	c    *Case
	end  time.Time
	ids  []string
	slow int
	n    [40]atomic.Int64
}

// did counts without synchronizing anything
func (w *world20) did(op string) {
	for i, o := range ops20 {
		if o == op {
			raceOff()
			w.n[i].Add(1)
			raceOn()
			return
		}
	}
	panic("harness: op " + op)
}

func (w *world20) over() bool { return time.Now().After(w.end) }
func (w *world20) nap()       { time.Sleep(w.c.Dur(0, 40*time.Millisecond)) }

// use does something with what a hub or the server offers.
func (w *world20) use(clients signalr.HubClients, groups signalr.GroupManager) {
	c := w.c
	g := pick(c, "g1", "g2", "g3")
	id := w.ids[c.Intn(len(w.ids))]
	switch c.Intn(6) {
	case 0:
		w.did("all")
		clients.All().Send("On", "all", c.Intn(9))
	case 1:
		w.did("client")
		clients.Client(id).Send("On", "client", []string{"x"})
	case 2, 3:
		w.did("group")
		clients.Group(g).Send("On", "group", map[string]any{"a": 1})
	case 4:
		if groups != nil {
			w.did("add")
			groups.AddToGroup(g, id)
		}
	case 5:
		if groups != nil {
			w.did("remove")
			groups.RemoveFromGroup(g, id)
		}
	}
}

// Hub20 uses its context without any synchronization of its own.
type Hub20 struct {
	signalr.Hub
	w *world20
}

func (h *Hub20) OnConnected(id string) {
	h.w.did("connected")
	h.Groups().AddToGroup("g1", id)
	h.Items().Store("k", id)
	h.w.use(h.Clients(), h.Groups())
}

func (h *Hub20) OnDisconnected(id string) {
	h.w.did("disconnected")
	h.Items().Load("k")
	h.w.use(h.Clients(), h.Groups())
}

func (h *Hub20) Echo(v any) any { return v }
func (h *Hub20) Void()          {}
func (h *Hub20) Panic()         { h.w.did("panic"); panic("x") }

func (h *Hub20) Many(n int) string {
	h.w.did("hub")
	for i := 0; i < n; i++ {
		switch h.w.c.Intn(6) {
		case 0:
			h.w.did("caller")
			h.Clients().Caller().Send("On", "caller", 1)
		case 1:
			h.w.did("items")
			h.Items().Store("k", i)
			h.Items().Load("k")
			h.Items().Delete("k")
		case 2:
			_ = h.ConnectionID()
			_ = h.Context().Err()
			info, dbg := h.Logger()
			_ = info.Log("a", 1)
			_ = dbg.Log("a", 1)
		default:
			h.w.use(h.Clients(), h.Groups())
		}
	}
	return h.ConnectionID()
}

// Late uses the hub after the method returned.
func (h *Hub20) Late(n int) {
	go func() {
		time.Sleep(time.Duration(n) * time.Millisecond)
		h.w.did("late")
		h.Many(3)
	}()
}

func (h *Hub20) Abort2(ms int) {
	time.Sleep(time.Duration(ms) * time.Millisecond)
	h.w.did("abort")
	h.Abort()
}

func (h *Hub20) Sleep(ms int) int {
	select {
	case <-time.After(time.Duration(ms) * time.Millisecond):
	case <-h.Context().Done():
	}
	return ms
}

// Bytes owns its argument.
func (h *Hub20) Bytes(b []byte, m map[string]any) []byte {
	h.w.did("bytes")
	res := append([]byte(nil), b...)
	go func() {
		h.w.nap()
		for i := range b {
			b[i]++
		}
		for k := range m {
			m[k] = 0
		}
	}()
	return res
}

func (h *Hub20) Stream(n, ms, capacity int) <-chan any {
	h.w.did("stream")
	ch := make(chan any, max(0, min(capacity, 10)))
	done := h.Context().Done()
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- []int{i}:
			case <-done:
				return
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
	}()
	return ch
}

func (h *Hub20) Upload(tag string, in <-chan any, in2 <-chan int) int {
	h.w.did("upload")
	n := 0
	for in != nil || in2 != nil {
		select {
		case v, ok := <-in:
			if !ok {
				in = nil
				continue
			}
			if m, ok := v.([]any); ok && len(m) > 0 {
				m[0] = 1
			}
		case _, ok := <-in2:
			if !ok {
				in2 = nil
				continue
			}
		}
		n++
		if h.w.slow > 0 && n%3 == 0 {
			time.Sleep(time.Duration(h.w.slow) * time.Millisecond)
		}
	}
	return n
}

// Recv20 is a client's receiver.
type Recv20 struct {
	signalr.Receiver
	w *world20
}

func (r *Recv20) On(kind string, v any) {
	r.w.did("recv")
	if m, ok := v.(map[string]any); ok {
		m["a"] = 2 // it is ours
	}
	if r.w.over() || kind == "caller" || !r.w.c.Chance(20) {
		return
	}
	s := r.Server()
	if r.w.c.Bool() {
		go func() { drain20(s.Invoke("Echo", 1)) }()
	} else {
		s.Send("Void")
	}
}

func drain20[T any](ch <-chan T) {
	for range ch {
	}
}

func (w *world20) rawActor(p *RawClient, k int) {
	c := w.c
	n := 0
	for !w.over() {
		w.nap()
		n++
		id := fmt.Sprintf("%d-%d", k, n)
		var err error
		switch c.Intn(12) {
		case 0:
			err = p.Send(Msg{Type: 1, ID: id, Target: "Echo", Args: []any{"x"}})
		case 1:
			err = p.Send(Msg{Type: 1, ID: id, Target: "Many", Args: []any{3}})
		case 2:
			err = p.Send(Msg{Type: 1, Target: "Late", Args: []any{c.Intn(500)}})
		case 3:
			err = p.Send(Msg{Type: 1, ID: id, Target: "Bytes", Args: []any{"AAECAwQFBgc=", map[string]any{"a": "b"}}})
		case 4, 5:
			err = p.Send(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{c.Intn(20), c.Intn(30), c.Intn(5)}})
			if c.Bool() {
				w.nap()
				w.did("cancel")
				err = p.Send(Msg{Type: 5, ID: id})
			}
		case 6, 7:
			a, b := "a"+id, "b"+id
			err = p.Send(Msg{Type: 1, ID: id, Target: "Upload", Args: []any{"t"}, Streams: []string{a, b}})
			for i := c.Intn(20); i > 0 && err == nil; i-- {
				if c.Bool() {
					err = p.Send(Msg{Type: 2, ID: a, Item: []any{i}})
				} else {
					err = p.Send(Msg{Type: 2, ID: b, Item: i})
				}
			}
			if c.Chance(85) {
				err = p.Send(Msg{Type: 3, ID: a}, Msg{Type: 3, ID: b})
			}
		case 8:
			err = p.Send(Msg{Type: 1, ID: id, Target: "Sleep", Args: []any{c.Intn(1000)}})
		case 9:
			err = p.Send(Msg{Type: 6})
		case 10:
			err = p.Send(Msg{Type: 1, ID: id, Target: pick(c, "Nope", "Panic", "Echo")})
		case 11:
			if c.Chance(10) {
				w.did("abort")
				err = p.Send(Msg{Type: 1, ID: id, Target: "Abort2", Args: []any{c.Intn(50)}})
			} else if c.Chance(10) {
				w.did("cut")
				pick(c, p.Conn.Close, p.Conn.Reset)()
			}
		}
		if err != nil {
			return
		}
	}
}

func (w *world20) libActor(cl *Cli, stop bool) {
	c := w.c
	for !w.over() {
		w.nap()
		switch c.Intn(14) {
		case 0:
			w.did("invoke")
			v := map[string]any{"a": []int{1, 2}}
			for r := range cl.C.Invoke("Echo", v) {
				if m, ok := r.Value.(map[string]any); ok {
					m["a"] = 1
				}
			}
			v["a"] = 3 // the call is over
		case 1:
			w.did("invoke")
			go drain20(cl.C.Invoke("Sleep", c.Intn(2000)))
		case 2:
			w.did("send")
			v := []int{1}
			drain20(cl.C.Send("Echo", v))
			v[0] = 2
		case 3:
			w.did("send")
			cl.C.Send(pick(c, "Many", "Late", "Sleep"), c.Intn(4))
		case 4, 5:
			w.did("pull")
			go drain20(cl.C.PullStream("Stream", c.Intn(20), c.Intn(20), c.Intn(4)))
		case 6, 7:
			w.did("push")
			a, b := make(chan any, c.Intn(3)), make(chan int, c.Intn(3))
			go drain20(cl.C.PushStreams("Upload", "t", a, b))
			n, m, end := c.Intn(15), c.Intn(15), w.end.Add(time.Second)
			go func() {
				defer close(a)
				for ; n > 0; n-- {
					select {
					case a <- []int{n}:
					case <-time.After(time.Until(end)):
						return
					}
				}
			}()
			go func() {
				defer close(b)
				for ; m > 0; m-- {
					select {
					case b <- m:
					case <-time.After(time.Until(end)):
						return
					}
				}
			}()
		case 8:
			w.did("state")
			_ = cl.C.State()
		case 9:
			w.did("err")
			_ = cl.C.Err()
		case 10:
			w.did("wait")
			ctx, cancel := context.WithTimeout(context.Background(), c.Dur(0, time.Second))
			ch := cl.C.WaitForState(ctx, pick(c, signalr.ClientConnected, signalr.ClientClosed, signalr.ClientConnecting))
			go func() {
				<-ch
				cancel()
			}()
		case 11:
			w.did("observe")
			ch := make(chan signalr.ClientState, c.Intn(2))
			cancel := cl.C.ObserveStateChanged(ch)
			go drain20(ch)
			d := c.Dur(0, time.Second)
			go func() {
				time.Sleep(d)
				cancel()
			}()
		case 12:
			w.did("invoke")
			go drain20(cl.C.Invoke(pick(c, "Many", "Nope", "Panic"), 2))
		case 13:
			if stop && c.Chance(10) {
				w.did("stop")
				if c.Bool() {
					cl.Cancel()
				} else {
					cl.C.Stop()
				}
				if c.Bool() {
					return
				}
			}
		}
	}
}

func storm20(c *Case) {
	c.Count("storm", 1)
	c.quiet = true
	w := &world20{c: c, end: time.Now().Add(c.Dur(time.Second, 6*time.Second)), ids: []string{"nobody"}}
	nRaw, nLib := c.Range(1, 4), c.Intn(4)
	if c.Chance(20) {
		w.slow = c.Intn(300)
	}
	for i := 0; i < nRaw; i++ {
		w.ids = append(w.ids, fmt.Sprintf("raw%d", i))
	}
	for i := 0; i < nLib; i++ {
		w.ids = append(w.ids, fmt.Sprintf("lib%d", i))
	}
	T := c.Dur(2*time.Second, 20*time.Second)
	party := []opt{signalr.TimeoutInterval(T), signalr.KeepAliveInterval(T / 10), signalr.ChanReceiveTimeout(c.Dur(5*time.Millisecond, time.Second)),
		signalr.StreamBufferCapacity(uint(c.Range(1, 4))), signalr.MaxConcurrentStreams(uint(pick(c, 0, 2, 100))),
		signalr.WithAlternateMethodName("Echo", "echo"), signalr.EnableDetailedErrors(c.Bool())}
	sopts := append([]opt{}, party...)
	switch c.Intn(4) {
	case 0:
		c.Count("hub:shared", 1)
		sopts = append(sopts, signalr.UseHub(&Hub20{w: w}))
	case 1:
		c.Count("hub:perconn", 1)
		sopts = append(sopts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub20{w: w} }))
	default:
		c.Count("hub:factory", 1)
		sopts = append(sopts, signalr.HubFactory(func() signalr.HubInterface { return &Hub20{w: w} }))
	}
	srvs := []*Srv{}
	if c.Chance(20) {
		c.Count("redis", 1)
		r := c.newRedis(c.Dur(0, 3*time.Millisecond))
		cl := r.client()
		for i := c.Range(1, 2); i > 0; i-- {
			srvs = append(srvs, c.Server(append(sopts, ext.WithRedisHubLifetimeManager(cl, yieldLogger{c}))...))
		}
	} else {
		srvs = append(srvs, c.Server(sopts...))
	}
	srv := srvs[0]
	var env *HTTPEnv
	var hc *http.Client
	httpEnv := func() *HTTPEnv {
		if env == nil {
			h, _ := c.route(srv, "/hub")
			env = c.HTTP(srv, h, "/hub")
			hc = env.Client()
		}
		return env
	}
	c.Ev("storm", "%d raw, %d lib", nRaw, nLib)
	cond := func() Cond { return c.RandCond(pick(c, 0, 5*time.Millisecond)) }
	// server actors
	for i := c.Range(1, 3); i > 0; i-- {
		s := srvs[c.Intn(len(srvs))]
		go func() {
			for !w.over() {
				w.nap()
				w.use(s.S.HubClients(), nil)
			}
		}()
	}
	for i := 0; i < nRaw; i++ {
		c.Count("raw-client", 1)
		id := fmt.Sprintf("raw%d", i)
		s := srvs[c.Intn(len(srvs))]
		proto := c.pickProto()
		go func() {
			for !w.over() {
				up, down := cond(), cond()
				p := s.Dial(id, proto, up, down)
				if p.Peer.Connect() != "" {
					return
				}
				n := c.Range(1, 3)
				for k := 1; k < n; k++ {
					go w.rawActor(p, k)
				}
				w.rawActor(p, 0)
				if c.Chance(30) {
					p.Conn.Close()
				}
				w.nap()
			}
		}()
	}
	for i := 0; i < nLib; i++ {
		c.Count("lib-client", 1)
		proto := c.pickProto()
		id := fmt.Sprintf("lib%d", i)
		s := srvs[c.Intn(len(srvs))]
		tr := c.Intn(3)
		var last atomic.Pointer[Conn]
		var connect func() (signalr.Connection, error)
		if tr == 0 {
			c.Count("pipe", 1)
			connect = func() (signalr.Connection, error) {
				a, b := c.Pair(id, cond(), cond())
				last.Store(a)
				s.Serve(b)
				return a, nil
			}
		} else {
			e := httpEnv()
			t := signalr.TransportWebSockets
			if tr == 2 {
				t = signalr.TransportServerSentEvents
				proto = jsonProto{}
				c.Count("sse", 1)
			} else {
				c.Count("ws", 1)
			}
			connect = func() (signalr.Connection, error) {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				_ = cancel
				return signalr.NewHTTPConnection(ctx, e.URL, signalr.WithHTTPClient(hc), signalr.WithTransports(t))
			}
		}
		copts := append([]opt{signalr.WithReceiver(&Recv20{w: w})}, party...)
		if c.Chance(60) {
			c.Count("reconnect", 1)
			copts = append(copts, signalr.WithConnector(connect), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(20 * time.Millisecond) }))
		} else {
			conn, err := connect()
			if err != nil {
				continue
			}
			copts = append(copts, signalr.WithConnection(conn))
		}
		cl := c.Client(proto, copts...)
		if c.Bool() {
			cl.C.Start()
			w.did("start")
		} else {
			d := c.Dur(0, 300*time.Millisecond)
			go func() { time.Sleep(d); cl.C.Start(); w.did("start") }()
		}
		stop := c.Chance(40)
		for k := c.Range(1, 4); k > 0; k-- {
			go w.libActor(cl, stop)
		}
		if tr == 0 && c.Chance(40) {
			go func() {
				for !w.over() {
					time.Sleep(c.Dur(0, 3*time.Second))
					x := last.Load()
					if x != nil {
						w.did("cut")
						pick(c, x.peer.Close, x.peer.Reset)()
					}
				}
			}()
		}
	}
	if c.Chance(15) {
		time.Sleep(c.Dur(0, time.Until(w.end)))
		srv.Cancel()
	}
	time.Sleep(time.Until(w.end) + 2*time.Second)
	for _, s := range srvs {
		s.Cancel()
	}
	time.Sleep(5 * time.Second)
	c.runCleanups()
	time.Sleep(2 * T)
	for i, o := range ops20 {
		raceOff()
		n := w.n[i].Load()
		raceOn()
		if n > 0 {
			c.Count("op:"+o, int(n))
			c.Ev("op:"+o, "")
		}
	}
}
