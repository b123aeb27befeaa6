package sigverif

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C24", Quick: 12000, Thorough: 500000, Run: runC24,
		Rule: "A case lets many goroutines of a server (sends to all, to groups, to single connections, results, stream items, errors, pings) or of a client (all kinds of calls, upload items, pings) write to the same connections at once, with values of any content and size, over transports which deliver a write in pieces so that concurrent writes would mix, and which take their time, while calls are cancelled, streams end and connections are shut down. A strict decoder and a protocol automaton read every byte the library writes.",
		Need: []string{"server", "client", "ev:send", "ev:shutdown", "ev:upload", "ev:stream", "big", "overlap", "held-up"}})
}

// text24 makes a text whose content follows from its tag.
func text24(c *Case, tag string) string {
	s := tag + ":"
	switch c.Intn(8) {
	case 0:
		s += strings.Repeat(pick(c, "x", "é", "\x1e", "\n", "{}", "世", "\\\"", "\xf0\x9f\x98\x80"), c.Range(1, 300))
	case 1:
		s += strings.Repeat("b", pick(c, 127, 128, 255, 256, 4096, 16384-20, 20000, c.Range(100, 30000)))
		c.Count("big", 1)
	}
	return s + ":" + tag
}

func ok24(s, tag string) bool {
	return strings.HasPrefix(s, tag+":") && strings.HasSuffix(s, ":"+tag)
}

func runC24(c *Case) {
	if c.Chance(40) {
		client24(c)
		return
	}
	c.Count("server", 1)
	K := pick(c, 20*time.Millisecond, 100*time.Millisecond, 5*time.Second)
	max := uint(1 << 20)
	srv, _ := c.echoServer(signalr.KeepAliveInterval(K), signalr.MaximumReceiveMessageSize(max), signalr.StreamBufferCapacity(uint(pick(c, 1, 10, 100))), signalr.MaxConcurrentStreams(1000))
	n := c.Range(1, 4)
	type peer24 struct {
		r    *RawClient
		cut  bool // we broke it
		slow bool // its writes are held up
		want int
	}
	var ps []*peer24
	for i := 0; i < n; i++ {
		down := c.RandCond(pick(c, 0, 20*time.Millisecond))
		down.Chop = c.Chance(80)
		r := srv.Connect(fmt.Sprintf("c%d", i), c.pickProto(), c.RandCond(pick(c, 0, 10*time.Millisecond)), down)
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		ps = append(ps, &peer24{r: r})
		_ = r.Send(Msg{Type: 1, ID: "first", Target: "Tag", Args: []any{"first", 0}})
		if !c.Until(0, func() bool { return len(r.Completions("first")) > 0 }) {
			c.Violf("not-served", "the first call is not answered")
			return
		}
		srv.S.HubClients() // warm
		if down.Chop && c.Chance(20) {
			c.Count("held-up", 1)
			r.Far.out.mu.Lock()
			r.Far.out.pauses = c.Range(1, 4)
			r.Far.out.mu.Unlock()
			ps[i].slow = true
		}
	}
	shutdown := c.Chance(35)
	c.Sample("server, %d connections, keep alive %v, shutdown %v", n, K, shutdown)
	var wg sync.WaitGroup
	var mu sync.Mutex
	inFlight := 0
	enter := func() {
		mu.Lock()
		inFlight++
		if inFlight > 1 {
			c.Count("overlap", 1)
		}
		mu.Unlock()
	}
	leave := func() { mu.Lock(); inFlight--; mu.Unlock() }
	// server side senders
	for g := 0; g < c.Range(1, 5); g++ {
		sends := c.Range(1, 25)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < sends; i++ {
				tag := fmt.Sprintf("g%d.%d", g, i)
				v := text24(c, tag)
				c.Ev("send", "%s", tag)
				enter()
				switch c.Intn(3) {
				case 0:
					srv.S.HubClients().All().Send("On", tag, v)
				case 1:
					srv.S.HubClients().Client(fmt.Sprintf("c%d", c.Intn(n))).Send("On", tag, v)
				case 2:
					srv.S.HubClients().All().Send("On", tag, v, map[string]any{"k": []any{1, v}}, c.bytesN(c.Intn(300)))
				}
				leave()
				if c.Chance(30) {
					time.Sleep(c.Dur(0, 20*time.Millisecond))
				}
			}
		}()
	}
	// calls and streams of the peers
	for pi, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			calls := c.Range(0, 15)
			for i := 0; i < calls; i++ {
				id := fmt.Sprintf("%d.%d", pi, i)
				switch c.Intn(7) {
				case 0, 1:
					_ = p.r.Send(Msg{Type: 1, ID: id, Target: "Echo", Args: []any{"t" + id, c.Intn(20), text24(c, "e")}})
				case 2, 3:
					c.Ev("stream", "%s", id)
					_ = p.r.Send(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{"t" + id, c.Range(1, 40), c.Intn(3), c.Intn(5)}})
					if c.Chance(30) {
						time.Sleep(c.Dur(0, 50*time.Millisecond))
						_ = p.r.Send(Msg{Type: 5, ID: id})
					}
				case 4:
					_ = p.r.Send(Msg{Type: 1, ID: id, Target: pick(c, "Panic", "NoSuch", "Unser", "Tag"), Args: []any{"t" + id, 0}})
				case 5:
					c.Ev("upload", "%s", id)
					_ = p.r.Send(Msg{Type: 4, ID: id, Target: "Upstream", Args: []any{"t" + id}, Streams: []string{"s" + id}})
					for k := 0; k < c.Intn(8); k++ {
						_ = p.r.Send(Msg{Type: 2, ID: "s" + id, Item: fmt.Sprintf("t%s/%d", id, k)})
					}
					_ = p.r.Send(Msg{Type: 3, ID: "s" + id})
				case 6:
					_ = p.r.Send(Msg{Type: 4, ID: id, Target: pick(c, "UnserStream", "PanicStream", "StreamInt"), Args: []any{"t" + id, 3}})
				}
				if c.Chance(30) {
					time.Sleep(c.Dur(0, 30*time.Millisecond))
				}
			}
			if c.Chance(15) {
				p.cut = true
				if c.Bool() {
					p.r.Conn.Reset()
				} else {
					p.r.Conn.Close()
				}
			}
		}()
	}
	if shutdown {
		time.Sleep(c.Dur(0, 300*time.Millisecond))
		c.Ev("shutdown", "")
		srv.Cancel()
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the senders did not finish")
		return
	}
	time.Sleep(10 * time.Second)
	if shutdown {
		time.Sleep(30 * time.Second)
	} else {
		// everything is written in one piece before the end
		srv.Cancel()
		time.Sleep(30 * time.Second)
	}
	for i, p := range ps {
		p.r.judgeBad(fmt.Sprintf("server to c%d", i))
		if p.cut {
			continue
		}
		if k := p.r.Partial(); k > 0 && !p.slow {
			c.Violf("incomplete", "the server's last message to c%d is incomplete (%d bytes)", i, k)
		}
		next := map[string]int{}
		for _, m := range p.r.Msgs() {
			switch m.Type {
			case 1:
				tag, _ := m.Args[0].(string)
				v, _ := m.Args[1].(string)
				if m.Target != "On" || !ok24(v, tag) {
					c.Violf("altered", "a send arrived as %s", short(canon(m.Args), 300))
				}
			case 2:
				if s, ok := m.Item.(string); ok {
					if want := fmt.Sprintf("t%s/%d", m.ID, next[m.ID]); s != want {
						c.Violf("order", "stream %s: item %q where %q should be", m.ID, s, want)
					}
					next[m.ID]++
				}
			}
		}
	}
}

// client24 : a library client writes.
func client24(c *Case) {
	c.Count("client", 1)
	K := pick(c, 20*time.Millisecond, 100*time.Millisecond, 5*time.Second)
	proto := c.pickProto()
	up := c.RandCond(pick(c, 0, 20*time.Millisecond))
	up.Chop = c.Chance(80)
	p, theirs := c.RawServer("s", proto, up, c.RandCond(pick(c, 0, 10*time.Millisecond)))
	cl := c.Client(proto, signalr.WithConnection(c.lib(theirs)), signalr.KeepAliveInterval(K), signalr.MaximumReceiveMessageSize(1<<20))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("not-connected", "the client does not connect: %v", cl.C.Err())
		return
	}
	p.KeepAlive(4 * time.Second)
	slow := up.Chop && c.Chance(20)
	if slow {
		c.Count("held-up", 1)
		theirs.out.mu.Lock()
		theirs.out.pauses = c.Range(1, 4)
		theirs.out.mu.Unlock()
	}
	// answers come at random
	var amu sync.Mutex
	answer := func(ms ...Msg) { _ = p.Send(ms...) }
	rnd := c.Sub(77)
	p.onMsg = func(m Msg) {
		if m.ID == "" || m.Type != 1 && m.Type != 4 {
			return
		}
		amu.Lock()
		k, d := rnd.IntN(8), time.Duration(rnd.IntN(50))*time.Millisecond
		amu.Unlock()
		go func() {
			time.Sleep(d)
			switch {
			case m.Type == 4:
				for i := 0; i < k; i++ {
					answer(Msg{Type: 2, ID: m.ID, Item: i})
				}
				answer(Msg{Type: 3, ID: m.ID})
			case k == 0:
				answer(Msg{Type: 3, ID: m.ID, HasErr: true, Error: "no"})
			default:
				answer(Msg{Type: 3, ID: m.ID, HasRes: true, Result: k})
			}
		}()
	}
	goroutines := c.Range(1, 8)
	stop := c.Chance(35)
	c.Sample("client, %d goroutines, stop %v", goroutines, stop)
	var wg sync.WaitGroup
	var mu sync.Mutex
	inFlight := 0
	enter := func() {
		mu.Lock()
		inFlight++
		if inFlight > 1 {
			c.Count("overlap", 1)
		}
		mu.Unlock()
	}
	leave := func() { mu.Lock(); inFlight--; mu.Unlock() }
	type up24 struct {
		tag string
		n   int
	}
	for g := 0; g < goroutines; g++ {
		ops := c.Range(1, 15)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < ops; i++ {
				tag := fmt.Sprintf("g%d.%d", g, i)
				v := text24(c, tag)
				enter()
				switch c.Intn(6) {
				case 0, 1:
					c.Ev("send", "%s", tag)
					o := c.CollectErr(cl.C.Send("Do", tag, v))
					c.Until(time.Second, o.Closed)
				case 2:
					o := c.Collect(cl.C.Invoke("Do", tag, v))
					if c.Bool() {
						c.Until(time.Second, o.Closed)
					}
				case 3:
					c.Ev("stream", "%s", tag)
					c.Collect(cl.C.PullStream("Do", tag, v))
				default:
					c.Ev("upload", "%s", tag)
					n, m := c.Intn(10), c.Intn(10)
					a, b := make(chan string), make(chan int, 3)
					o := c.Collect(cl.C.PushStreams("Up", tag, v, a, b))
					wg.Add(2)
					feed := func(k int, send func(int) bool, end func()) {
						defer wg.Done()
						defer end()
						for j := 0; j < k; j++ {
							if !send(j) {
								return
							}
						}
					}
					go feed(n, func(j int) bool {
						select {
						case a <- text24(c, fmt.Sprintf("%s/%d", tag, j)):
							return true
						case <-time.After(20 * time.Second):
							return false
						}
					}, func() { close(a) })
					go feed(m, func(j int) bool {
						select {
						case b <- j:
							return true
						case <-time.After(20 * time.Second):
							return false
						}
					}, func() { close(b) })
					_ = o
				}
				leave()
				if c.Chance(30) {
					time.Sleep(c.Dur(0, 30*time.Millisecond))
				}
			}
		}()
	}
	if stop {
		time.Sleep(c.Dur(0, 300*time.Millisecond))
		c.Ev("shutdown", "")
		if c.Bool() {
			cl.C.Stop()
		} else {
			cl.Cancel()
		}
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the callers did not finish")
		return
	}
	time.Sleep(time.Minute)
	if !stop {
		cl.Cancel()
	}
	time.Sleep(10 * time.Second)
	p.judgeBad("client")
	if k := p.Partial(); k > 0 && !slow {
		c.Violf("incomplete", "the client's last message is incomplete (%d bytes)", k)
	}
	// items of an upload come in order, and only after its call
	streams := map[string]string{} // stream id -> tag
	kind := map[string]int{}
	next := map[string]int{}
	for _, m := range p.Msgs() {
		switch m.Type {
		case 1, 4:
			tag, _ := m.Args[0].(string)
			v, _ := m.Args[1].(string)
			if !ok24(v, tag) || len(m.Args) != 2 {
				c.Violf("altered", "a call arrived as %s", short(canon(m.Args), 300))
			}
			for i, s := range m.Streams {
				streams[s], kind[s] = tag, i
			}
		case 2:
			tag, ok := streams[m.ID]
			if !ok {
				c.Violf("stray-item", "a stream item for %q came before its call", m.ID)
				continue
			}
			want := next[m.ID]
			next[m.ID]++
			if kind[m.ID] == 0 {
				s, _ := m.Item.(string)
				if !ok24(s, fmt.Sprintf("%s/%d", tag, want)) {
					c.Violf("order", "upload %s: item %s where %d should be", tag, short(s, 100), want)
				}
			} else if canon(m.Item) != canon(want) {
				c.Violf("order", "upload %s: item %v where %d should be", tag, m.Item, want)
			}
		}
	}
}
