package sigverif

import (
	"bytes"
	"fmt"
	"net/http"
	"slices"
	"sync"
	"syscall"
	"time"

	"github.com/philippseith/signalr"
)

// long.go: connections which live long or carry a lot, servers which see many connections. One case of each run per
// property. They find what only shows after many operations: counters which wrap, places and ids which are not freed.

func init() {
	for id, f := range map[string]func(c *Case){
		"C02": longC02, "C03": longC03, "C04": longC04, "C07": longC07, "C09": longC09, "C10": longC10, "C12": longC12, "C14": longC14,
		"C15": longC15, "C17": longC17, "C18": longC18, "C24": longC24} {
		registry[id].Long = f
		registry[id].Need = append(registry[id].Need, "long-life")
	}
}

// longC02 : many invocations of all kinds on one connection, some of them in progress for a long time.
func longC02(c *Case) {
	const n = 25000
	srv, e := c.echoServer()
	r := srv.Connect("c", c.pickProto(), Cond{}, Cond{})
	if r == nil {
		return
	}
	r.KeepAlive(4 * time.Second)
	var mu sync.Mutex
	got := map[string]Msg{}
	twice := ""
	r.mu.Lock()
	r.onMsg = func(m Msg) {
		if m.Type == 3 {
			mu.Lock()
			if _, ok := got[m.ID]; ok {
				twice = m.ID
			}
			got[m.ID] = m
			mu.Unlock()
		}
	}
	r.mu.Unlock()
	for i := 0; i < n; i++ {
		id, tag := fmt.Sprint(i), fmt.Sprint("t", i)
		m := Msg{Type: 1, ID: id, Target: "Tag", Args: []any{tag, 0}}
		switch {
		case i%5000 == 0:
			m.Args[1] = 50000
		case i%7 == 1:
			m.Target, m.Args = "Add", []any{tag, i, 1}
		case i%7 == 2:
			m.Target, m.Args = "Nothing", []any{tag}
		case i%7 == 3:
			m.Type, m.Target, m.Args = 4, "StreamInt", []any{tag, 2}
		}
		if r.Send(m) != nil {
			break
		}
		if i%100 == 99 {
			c.Until(0, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(got) >= i-10
			})
		}
	}
	c.Until(0, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) == n })
	mu.Lock()
	defer mu.Unlock()
	if len(got) != n || twice != "" {
		c.Violf("long", "%d invocations on one connection yielded %d completions (twice: %q)", n, len(got), twice)
	}
	for i := 0; i < n; i++ {
		id, tag := fmt.Sprint(i), fmt.Sprint("t", i)
		m := got[id]
		ok := m.Error == "" && m.Result == "result-"+tag
		switch {
		case i%5000 == 0:
		case i%7 == 1:
			ok = m.Error == "" && canon(m.Result) == canon(i+1)
		case i%7 == 2:
			ok = m.Error != ""
		case i%7 == 3:
			ok = m.Error == "" && !m.HasRes
		}
		if k := len(e.log.get(tag)); !ok || k != 1 && i%7 != 2 || i%5000 != 0 && i%7 == 2 && k != 0 {
			c.Violf("long", "invocation %d of many was executed %d times and yielded %s", i, k, short(canon(m), 200))
			break
		}
	}
	r.judgeBad("server")
}

// CountHub counts the items of uploads.
type CountHub struct {
	signalr.Hub
}

// Count returns the number of items before the first one out of order.
func (h *CountHub) Count(in <-chan int) int {
	n := 0
	for x := range in {
		if x == n {
			n++
		}
	}
	return n
}
func (h *CountHub) Plus(a, b int) int { return a + b }

func (h *CountHub) Hold(in <-chan int, after <-chan int) int {
	for range after {
	}
	n := 0
	for range in {
		n++
	}
	return n
}

func vals(o *Outcomes) []string {
	rs, _, _ := o.Get()
	var got []string
	for _, r := range rs {
		if r.Error != nil {
			got = append(got, "error "+r.Error.Error())
			continue
		}
		got = append(got, canon(r.Value))
	}
	return got
}

// longC03 : a stream with very many items, and very many streams.
func longC03(c *Case) {
	srv, _ := c.echoServer()
	proto := c.pickProto()
	mine, theirs := c.Pair("c", Cond{}, Cond{})
	srv.Serve(theirs)
	cl := c.Client(proto, signalr.WithConnection(c.lib(mine)))
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	pull := func(n int) {
		k := 0
		for r := range cl.C.PullStream("StreamInt", "t", n) {
			if r.Error != nil || canon(r.Value) != canon(k) {
				c.Violf("long", "item %d of %d is %v, %v", k, n, r.Value, r.Error)
				return
			}
			k++
		}
		if k != n {
			c.Violf("long", "a stream of %d items yielded %d", n, k)
		}
	}
	// one stream stays open all the time: whatever the client numbers its calls with, no later call may get
	// the number of a call which is still running
	const slow = 90
	slowly := c.Collect(cl.C.PullStream("Stream", "slow", slow, 1000, 0))
	if !c.Within(0, func() {
		pull(70000)
		for i := 0; i < 1500 && !c.failed(); i++ {
			pull(3)
			if i%50 == 0 {
				time.Sleep(time.Second)
			}
		}
		for i := 0; i < 70000 && !c.failed(); i++ {
			r := <-cl.C.Invoke("Add", "t", i, 1)
			if r.Error != nil || canon(r.Value) != canon(i+1) {
				c.Violf("long", "call %d beside an open stream yielded %v, %v", i, r.Value, r.Error)
			}
			if i%2000 == 0 {
				time.Sleep(time.Second)
			}
		}
	}) {
		c.Violf("long", "a stream does not end")
	}
	if !c.Until(0, slowly.Closed) {
		c.Violf("long", "the slow stream does not end")
	}
	var want []string
	for i := 0; i < slow; i++ {
		want = append(want, canon(fmt.Sprintf("slow/%d", i)))
	}
	if got := vals(slowly); !slices.Equal(got, want) {
		c.Violf("long", "a stream of %d items which was open beside very many calls yielded %d items %v", slow, len(got), got)
	}
	c.Count("beside-open", 1)
}

// longC04 : an upload with very many items, and very many uploads.
func longC04(c *Case) {
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &CountHub{} }), signalr.MaxConcurrentStreams(3))
	proto := c.pickProto()
	mine, theirs := c.Pair("c", Cond{}, Cond{})
	srv.Serve(theirs)
	cl := c.Client(proto, signalr.WithConnection(c.lib(mine)))
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	push := func(n int) {
		ch := make(chan int, 10)
		res := cl.C.PushStreams("Count", ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-time.After(c.Patience()):
				c.Violf("long", "item %d of %d is not taken", i, n)
				return
			}
		}
		close(ch)
		var all []signalr.InvokeResult
		for r := range res {
			all = append(all, r)
		}
		if len(all) != 1 || all[0].Error != nil || canon(all[0].Value) != canon(n) {
			c.Violf("long", "an upload of %d items yielded %v", n, all)
		}
	}
	// one upload stays open all the time
	open := make(chan int)
	kept := c.Collect(cl.C.PushStreams("Count", open))
	if !c.Within(2*c.Patience(), func() {
		push(70000)
		for i := 0; i < 1500 && !c.failed(); i++ {
			push(3)
			if i%50 == 0 {
				open <- i / 50
			}
		}
		for i := 0; i < 70000 && !c.failed(); i++ {
			r := <-cl.C.Invoke("Plus", i, 1)
			if r.Error != nil || canon(r.Value) != canon(i+1) {
				c.Violf("long", "call %d beside an open upload yielded %v, %v", i, r.Value, r.Error)
			}
		}
		push(3)
		open <- 30
		close(open)
	}) {
		c.Violf("long", "an upload does not end")
		return
	}
	if !c.Until(0, kept.Closed) {
		c.Violf("long", "the upload which was open all the time does not end")
	}
	if got := vals(kept); !slices.Equal(got, []string{canon(31)}) {
		c.Violf("long", "the upload of 31 items which was open beside very many calls yielded %v", got)
	}
	c.Count("beside-open", 1)
}

// longC09 : many connections, many groups, many sends.
func longC09(c *Case) {
	srv, _ := c.echoServer()
	const n = 60
	var mu sync.Mutex
	got := make([]map[string]int, n)
	rs := make([]*RawClient, n)
	for i := range rs {
		r := srv.Connect(fmt.Sprint("c", i), c.pickProto(), Cond{}, Cond{})
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		got[i] = map[string]int{}
		r.mu.Lock()
		r.onMsg = func(m Msg) {
			if m.Type == 1 && len(m.Args) == 1 {
				mu.Lock()
				got[i][fmt.Sprint(m.Args[0])]++
				mu.Unlock()
			}
		}
		r.mu.Unlock()
		rs[i] = r
		_ = r.Send(Msg{Type: 1, ID: "first", Target: "Tag", Args: []any{"first", 0}})
		if !c.Until(0, func() bool { return len(r.Completions("first")) > 0 }) {
			c.Violf("long", "connection %d is not served", i)
			return
		}
	}
	hub := srv.S.HubClients()
	member := func(g, i int) bool { return (i+g)%7 == 0 }
	gm := srv.groups(c)
	if gm == nil {
		return
	}
	const groups = 400
	for g := 0; g < groups; g++ {
		for i := range rs {
			gm.AddToGroup(fmt.Sprint("g", g), fmt.Sprint("c", i))
			if !member(g, i) {
				gm.RemoveFromGroup(fmt.Sprint("g", g), fmt.Sprint("c", i))
			}
		}
	}
	want := make([]map[string]int, n)
	for i := range want {
		want[i] = map[string]int{}
	}
	k := 0
	send := func(s func(tag string), to func(i int) bool) {
		k++
		tag := fmt.Sprint("s", k)
		s(tag)
		for i := range rs {
			if to(i) {
				want[i][tag] = 1
			}
		}
	}
	for round := 0; round < 300; round++ {
		g, i := c.Intn(groups), c.Intn(n)
		send(func(t string) { hub.Group(fmt.Sprint("g", g)).Send("On", t) }, func(j int) bool { return member(g, j) })
		send(func(t string) { hub.Client(fmt.Sprint("c", i)).Send("On", t) }, func(j int) bool { return i == j })
		if round%10 == 0 {
			send(func(t string) { hub.All().Send("On", t) }, func(int) bool { return true })
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(10 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	for i := range rs {
		if canon(got[i]) != canon(want[i]) {
			for t := range want[i] {
				if got[i][t] != 1 {
					c.Violf("long", "connection %d got %s %d times", i, t, got[i][t])
					return
				}
			}
			for t := range got[i] {
				if want[i][t] != 1 {
					c.Violf("long", "connection %d got %s, which was not for it", i, t)
					return
				}
			}
		}
	}
}

// groups gets the group manager of the server from a hub.
func (s *Srv) groups(c *Case) signalr.GroupManager {
	ch := make(chan signalr.GroupManager, 1)
	grabGroups.Store(c, ch)
	defer grabGroups.Delete(c)
	r := s.Connect("groups", c.pickProto(), Cond{}, Cond{})
	if r == nil {
		return nil
	}
	_ = r.Send(Msg{Type: 1, Target: "Grab"})
	var g signalr.GroupManager
	if !c.Until(0, func() bool {
		select {
		case g = <-ch:
			return true
		default:
			return false
		}
	}) {
		c.Violf("long", "a call is not executed")
	}
	r.Conn.Close()
	time.Sleep(time.Second)
	return g
}

var grabGroups sync.Map

// Grab hands over the group manager.
func (h *EchoHub) Grab() {
	if ch, ok := grabGroups.Load(h.e.c); ok {
		ch.(chan signalr.GroupManager) <- h.Groups()
	}
}

type countCallbacks struct {
	mu      sync.Mutex
	on, off map[string]int
}

// LifeHub counts its callbacks.
type LifeHub struct {
	signalr.Hub
	k *countCallbacks
}

func (h *LifeHub) OnConnected(id string) {
	h.k.mu.Lock()
	h.k.on[id]++
	h.k.mu.Unlock()
}
func (h *LifeHub) OnDisconnected(id string) {
	h.k.mu.Lock()
	h.k.off[id]++
	h.k.mu.Unlock()
}
func (h *LifeHub) Quit() { h.Abort() }

// longC10 : a server which sees many connections come and go.
func longC10(c *Case) {
	const n = 2500
	k := &countCallbacks{on: map[string]int{}, off: map[string]int{}}
	hub := signalr.HubFactory(func() signalr.HubInterface { return &LifeHub{k: k} })
	if c.Bool() {
		hub = signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &LifeHub{k: k} })
	}
	srv := c.Server(hub)
	last := &RawClient{}
	for i := 0; i < n && !c.failed(); i++ {
		r := srv.Connect(fmt.Sprint("c", i), c.pickProto(), Cond{}, Cond{})
		if r == nil {
			return
		}
		if last.Conn != nil {
			switch i % 4 {
			case 0:
				last.Conn.Close()
			case 1:
				last.Conn.Reset()
			case 2:
				_ = last.Send(Msg{Type: 1, Target: "Quit"})
			case 3:
				_ = last.Send(Msg{Type: 7})
			}
		}
		if i == n/2 {
			last = &RawClient{} // this one stays for a while
			r.KeepAlive(4 * time.Second)
			continue
		}
		last = r
	}
	time.Sleep(2 * time.Second)
	srv.Cancel()
	time.Sleep(10 * time.Second)
	k.mu.Lock()
	defer k.mu.Unlock()
	for i := 0; i < n; i++ {
		id := fmt.Sprint("c", i)
		if k.on[id] != 1 || k.off[id] != 1 {
			c.Violf("long", "for connection %d of %d OnConnected ran %d times and OnDisconnected %d times", i, n, k.on[id], k.off[id])
			return
		}
	}
	if len(k.on) != n || len(k.off) != n {
		c.Violf("long", "%d connections, but callbacks for %d and %d", n, len(k.on), len(k.off))
	}
}

// longC12 : very many pending calls when the connection ends.
func longC12(c *Case) {
	const n = 1000
	proto := c.pickProto()
	p, conn := c.RawServer("c", proto, Cond{}, Cond{})
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	p.KeepAlive(4 * time.Second)
	var os []*Outcomes
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0, 1:
			os = append(os, c.Collect(cl.C.Invoke("x", i)))
		case 2:
			os = append(os, c.CollectErr(cl.C.Send("x", i)))
		case 3:
			os = append(os, c.Collect(cl.C.PullStream("x", i)))
		}
	}
	time.Sleep(3 * time.Second)
	cpu := cpuTime()
	switch c.Intn(4) {
	case 0:
		p.conn.Close()
	case 1:
		p.conn.Reset()
	case 2:
		cl.Cancel()
	case 3:
		_ = p.Send(Msg{Type: 7, Error: "bye", HasErr: true})
	}
	time.Sleep(30 * time.Second)
	// In a busy loop, each of the calls takes a time slice of the scheduler, 10 ms
	if d := cpuTime() - cpu; d > n*4*time.Millisecond {
		c.Violf("busy", "when the connection ended, %d pending calls took %v of CPU time: they wait for their results in busy loops", n, d)
	}
	for i, o := range os {
		v, closed, _ := o.Get()
		if !closed || len(v) != 1 || v[0].Error == nil {
			c.Violf("long", "pending call %d of %d yielded %s (closed %v)", i, n, show12(v), closed)
			return
		}
	}
}

// cpuTime is the CPU time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// longC14 : a client which has to reconnect again and again.
func longC14(c *Case) {
	const n = 400
	proto := c.pickProto()
	peers := make(chan *Peer, 1)
	cl := c.Client(proto, signalr.WithConnector(func() (signalr.Connection, error) {
		p, conn := c.RawServer("c", proto, Cond{}, Cond{})
		peers <- p
		return conn, nil
	}), constBackoff(100*time.Millisecond))
	cl.C.Start()
	pending := c.Collect(cl.C.Invoke("x", "pending"))
	for i := 0; i < n; i++ {
		var p *Peer
		if !c.Until(time.Minute, func() bool {
			select {
			case p = <-peers:
				return true
			default:
				return false
			}
		}) {
			c.Violf("long", "after %d connections the connector is not asked again: %s, %v", i, stateName(cl.C.State()), cl.C.Err())
			return
		}
		if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, time.Minute) {
			c.Violf("long", "connection %d does not become connected: %s, %v", i, stateName(cl.C.State()), cl.C.Err())
			return
		}
		p.mu.Lock()
		p.onMsg = func(m Msg) {
			if m.Type == 1 && len(m.Args) > 0 && m.Args[0] != "pending" {
				go func() { _ = p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: m.Args[0]}) }()
			}
		}
		p.mu.Unlock()
		v := fmt.Sprint("v", i)
		o := c.Collect(cl.C.Invoke("x", v))
		c.Until(time.Minute, o.Closed)
		if vals, closed, _ := o.Get(); !closed || len(vals) != 1 || vals[0].Value != v {
			c.Violf("long", "a call on connection %d yielded %s", i, show12(vals))
			return
		}
		switch c.Intn(3) {
		case 0:
			p.conn.Close()
		case 1:
			p.conn.Reset()
		case 2:
			_ = p.Send(Msg{Type: 7, Allow: true, HasAllow: true})
		}
		if !c.Until(time.Minute, func() bool { return cl.C.State() != signalr.ClientConnected }) {
			c.Violf("long", "the client does not notice the end of connection %d", i)
			return
		}
	}
	if v, closed, _ := pending.Get(); !closed || len(v) != 1 || v[0].Error == nil {
		c.Violf("long", "the call of the first connection yielded %s (closed %v)", show12(v), closed)
	}
	if !c.Within(20*time.Second, cl.C.Stop) {
		c.Violf("long", "Stop has not returned")
	}
}

// longC15 : two days without any traffic of the application.
func longC15(c *Case) {
	if c.Real {
		return
	}
	proto := c.pickProto()
	srv, _ := c.echoServer()
	mine, theirs := c.Pair("c", Cond{}, Cond{})
	served := srv.Serve(theirs)
	cl := c.Client(proto, signalr.WithConnection(c.lib(mine)))
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	for h := 0; h < 48; h++ {
		time.Sleep(time.Hour)
		if d, _ := served.Done(); d || cl.C.State() != signalr.ClientConnected {
			c.Violf("long", "after %d hours the idle connection has ended: %v", h+1, cl.C.Err())
			return
		}
	}
	for who, half := range map[string]*half{"client": mine.out, "server": theirs.out} {
		half.mu.Lock()
		last := half.rec[0].at
		for _, x := range half.rec[1:] {
			if gap := x.at - last; gap > 5*time.Second+c.tol() {
				c.Violf("long", "the %s has been silent for %v until %v", who, gap, x.at)
				break
			}
			last = x.at
		}
		half.mu.Unlock()
	}
	o := c.Collect(cl.C.Invoke("Tag", "t", 0))
	c.Until(0, o.Closed)
	if v, _, _ := o.Get(); len(v) != 1 || v[0].Value != "result-t" {
		c.Violf("long", "after two idle days a call yields %s", show12(v))
	}
}

// longC17 : many streams, cancelled or complete.
func longC17(c *Case) {
	const n, places = 3000, 4
	e := &hubEnv{c, newCallLog()}
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &EchoHub{e: e} }), signalr.MaxConcurrentStreams(places))
	r := srv.Connect("c", c.pickProto(), Cond{}, Cond{})
	if r == nil {
		return
	}
	r.KeepAlive(4 * time.Second)
	for i := 0; i < n && !c.failed(); i++ {
		id := fmt.Sprint("i", i)
		if i%2 == 0 {
			_ = r.Send(Msg{Type: 4, ID: id, Target: "Stream", Args: []any{id, 1000000, 1, 0}})
			if i%3 == 0 {
				time.Sleep(time.Duration(i%7) * time.Millisecond)
			}
			_ = r.Send(Msg{Type: 5, ID: id})
		} else {
			_ = r.Send(Msg{Type: 1, ID: id, Target: "Collect", Args: []any{id}, Streams: []string{"s" + id}}, Msg{Type: 2, ID: "s" + id, Item: "x"}, Msg{Type: 3, ID: "s" + id})
		}
		if !c.Until(time.Minute, func() bool { return len(r.Completions(id)) > 0 }) {
			c.Violf("long", "stream %d of many is not completed", i)
			return
		}
		if m := r.Completions(id)[0]; m.Error != "" || i%2 == 1 && m.Result != "x;" {
			c.Violf("long", "stream %d of many was completed with %q, %v", i, m.Error, m.Result)
			return
		}
	}
	// all places are free
	for i := 0; i <= places; i++ {
		id := fmt.Sprint("p", i)
		_ = r.Send(Msg{Type: 1, ID: id, Target: "Collect", Args: []any{id}, Streams: []string{"s" + id}})
	}
	time.Sleep(time.Second)
	for i := 0; i <= places; i++ {
		if k := len(r.Completions(fmt.Sprint("p", i))); k != i/places {
			c.Violf("long", "after %d streams, number %d of %d open ones was completed %d times", n, i, places, k)
		}
	}
	r.judgeBad("server")
}

// longC18 : the default limit, again and again.
func longC18(c *Case) {
	if c.Real {
		return
	}
	h := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &EchoHub{e: &hubEnv{c, newCallLog()}} }), signalr.HandshakeTimeout(20*time.Second))
	handler, _ := c.route(h, "/hub")
	env := c.HTTP(h, handler, "/hub")
	cl := env.Client()
	ids := map[string]bool{}
	for round := 0; round < 3; round++ {
		for i := 0; i < 1010; i++ {
			st, body, _, err := env.Do(cl, "POST", env.URL+"/negotiate?negotiateVersion=1", nil, nil)
			want := http.StatusOK
			if i >= 1000 {
				want = http.StatusTooManyRequests
			}
			if err != nil || st != want {
				c.Violf("long", "round %d: negotiate number %d: %d, %v", round, i, st, err)
				return
			}
			if st == http.StatusOK && ids[body] {
				c.Violf("long", "round %d: negotiate number %d repeats %s", round, i, body)
				return
			}
			ids[body] = true
		}
		time.Sleep(time.Minute)
	}
}

// longC24 : very many ids on one connection.
func longC24(c *Case) {
	const n = 66000
	proto := c.pickProto()
	p, conn := c.RawServer("c", proto, Cond{}, Cond{})
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	p.KeepAlive(4 * time.Second)
	p.mu.Lock()
	p.onMsg = func(m Msg) {
		if m.Type == 1 && m.ID != "" {
			_ = p.Send(Msg{Type: 3, ID: m.ID})
		}
	}
	p.mu.Unlock()
	first := c.Collect(cl.C.PullStream("first"))
	for i := 0; i < n/100; i++ {
		var os []*Outcomes
		for j := 0; j < 100; j++ {
			switch {
			case j == 7:
				ch := make(chan int)
				close(ch)
				os = append(os, c.Collect(cl.C.PushStreams("up", ch)))
			default:
				os = append(os, c.CollectErr(cl.C.Send("x", i)))
			}
		}
		if !c.Until(0, func() bool {
			for _, o := range os {
				if !o.Closed() {
					return false
				}
			}
			return true
		}) {
			c.Violf("long", "a call after %d calls does not end", i*100)
			break
		}
		if len(p.Bad()) > 0 {
			break
		}
	}
	if first.Closed() {
		c.Violf("long", "the first call ended without an answer")
	}
	p.judgeBad("client")
}

// longC07 : values nested millions of levels deep, in messages the size limit admits.
func longC07(c *Case) {
	const depth = 12_000_000
	srv, _ := c.echoServer(signalr.MaximumReceiveMessageSize(1 << 28))
	good := srv.Connect("good", c.pickProto(), Cond{}, Cond{})
	if good == nil {
		return
	}
	good.KeepAlive(4 * time.Second)
	for i, x := range []struct {
		p    Proto
		deep rawDeep
	}{{msgpackProto{}, rawDeep{depth, "[", "]", 0x91}}, {msgpackProto{}, rawDeep{depth / 2, `{"a":`, "}", 0x81}}, {jsonProto{}, rawDeep{depth, "[", "]", 0x91}}} {
		var deep any = x.deep
		if x.p.Name() == "messagepack" {
			deep = x.deep.mp()
		}
		enc := func(id, target string) []byte {
			if x.p.Name() == "json" {
				v := bytes.Replace(jsonProto{}.Encode(Msg{Type: 1, ID: id, Target: target, Args: []any{"t", "DEEP"}}), []byte(`"DEEP"`), append(bytes.Repeat([]byte("["), depth), bytes.Repeat([]byte("]"), depth)...), 1)
				return v
			}
			return x.p.Encode(Msg{Type: 1, ID: id, Target: target, Args: []any{"t", deep}})
		}
		r := srv.Connect(fmt.Sprintf("bad%d", i), x.p, Cond{}, Cond{})
		if r == nil {
			return
		}
		_ = r.Raw(enc("deep", "Tag"))
		c.Until(5*time.Minute, func() bool { d, _ := r.Served.Done(); return d || len(r.Completions("deep")) > 0 })
		r.Conn.Close()
		// a client whose server does that
		p, conn := c.RawServer(fmt.Sprintf("s%d", i), x.p, Cond{}, Cond{})
		cl := c.Client(x.p, signalr.WithConnection(conn), signalr.MaximumReceiveMessageSize(1<<28), signalr.WithReceiver(&C05Recv{c, newCallLog()}))
		go p.AcceptHandshake()
		cl.C.Start()
		cl.AwaitState(signalr.ClientConnected, 0)
		_ = p.Raw(enc("", "Take"))
		time.Sleep(time.Second)
		cl.Cancel()
		p.conn.Close()
	}
	_ = good.Send(Msg{Type: 1, ID: "g", Target: "Tag", Args: []any{"t", 0}})
	c.Until(0, func() bool { return len(good.Completions("g")) > 0 })
	if cs := good.Completions("g"); len(cs) != 1 || cs[0].Result != "result-t" {
		c.Violf("long", "after messages with deep values on other connections a call is answered by %v", cs)
	}
}
