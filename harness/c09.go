package sigverif

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C09", Quick: 60000, Thorough: 1500000, Run: runC09,
		Rule: "A case is a server with 2..8 connections (raw peers and library clients, JSON and MessagePack) which come, go in several ways, and come back under the same id, while 1..5 actors (hub methods called by the connections, server code with HubClients, goroutines with the GroupManager and Clients of a hub, connect callbacks) add, remove and send to all, caller, one connection and groups, at the same instant or apart, with known and unknown names, repeated adds and removes, and connections that do not read for a while.",
		Need: []string{"must", "mustnot", "ev:all", "ev:caller", "ev:client", "ev:group", "ev:add", "ev:remove", "rejoined", "lib-client", "raw-client", "concurrent", "stalled", "storm", "rush"}})
}

type op09 struct {
	kind       string // all, caller, client, group, add, remove
	group      string
	conn       string
	tag        string
	args       []any
	via        string
	caller     *conn09
	start, ret int64 // logical time
	vs, vr     time.Duration
	done       bool
}

type conn09 struct {
	id         string
	lib        bool
	raw        *RawClient
	far        *Conn
	served     *Served
	cl         *Cli
	mu         sync.Mutex
	got        []Msg
	dial       int64 // logical time before the dial
	dialV      time.Duration
	up         int64 // logical time when it was surely connected
	closing    int64 // logical time when it began to end, 0: never
	closingV   time.Duration
	gone       int64 // logical time when Serve had returned
	stalled    bool
	autoGroups []string
}

type world09 struct {
	c     *Case
	clock atomic.Int64
	mu    sync.Mutex
	ops   []*op09
	conns []*conn09
	byID  map[string]*conn09 // the current one
	run   map[int]*op09
	nrun  int
	ctxs  []hubCtx09
}

type hubCtx09 struct {
	clients signalr.HubClients
	groups  signalr.GroupManager
}

func (w *world09) tick() int64 { return w.clock.Add(1) }

func (w *world09) exec(o *op09, clients signalr.HubClients, groups signalr.GroupManager) {
	w.mu.Lock()
	w.ops = append(w.ops, o)
	w.mu.Unlock()
	o.vs = w.c.Now()
	o.start = w.tick()
	switch o.kind {
	case "all":
		clients.All().Send("Take", o.args...)
	case "caller":
		clients.Caller().Send("Take", o.args...)
	case "client":
		clients.Client(o.conn).Send("Take", o.args...)
	case "group":
		clients.Group(o.group).Send("Take", o.args...)
	case "add":
		groups.AddToGroup(o.group, o.conn)
	case "remove":
		groups.RemoveFromGroup(o.group, o.conn)
	}
	o.ret = w.tick()
	o.vr = w.c.Now()
	w.mu.Lock()
	o.done = true
	w.mu.Unlock()
	w.c.Ev(o.kind, "%s via %s group %q conn %q tag %s", o.kind, o.via, o.group, o.conn, o.tag)
}

// Hub09 executes operations inside of hub methods.
type Hub09 struct {
	signalr.Hub
	w *world09
}

func (h *Hub09) Op(n int) {
	h.w.mu.Lock()
	o := h.w.run[n]
	h.w.mu.Unlock()
	if o != nil {
		h.w.exec(o, h.Clients(), h.Groups())
	}
}
func (h *Hub09) Capture() {
	h.w.mu.Lock()
	h.w.ctxs = append(h.w.ctxs, hubCtx09{h.Clients(), h.Groups()})
	h.w.mu.Unlock()
}
func (h *Hub09) OnConnected(id string) {
	h.w.mu.Lock()
	k := h.w.byID[id]
	h.w.mu.Unlock()
	if k == nil {
		return
	}
	for _, g := range k.autoGroups {
		h.w.exec(&op09{kind: "add", group: g, conn: id, via: "OnConnected"}, h.Clients(), h.Groups())
	}
}
func (h *Hub09) Bye() { h.Abort() }

type recv09 struct {
	k *conn09
}

func (r *recv09) Take(tag string, v interface{}) {
	r.k.mu.Lock()
	r.k.got = append(r.k.got, Msg{Type: 1, Target: "Take", Args: []any{tag, v}})
	r.k.mu.Unlock()
}

func (w *world09) connect(srv *Srv, id string, lib bool, autos []string) *conn09 {
	c := w.c
	k := &conn09{id: id, lib: lib, autoGroups: autos, dial: w.tick(), dialV: c.Now()}
	w.mu.Lock()
	if w.byID[id] != nil {
		c.Count("rejoined", 1)
	}
	w.byID[id] = k
	w.conns = append(w.conns, k)
	w.mu.Unlock()
	if lib {
		c.Count("lib-client", 1)
		proto := c.pickProto()
		mine, theirs := c.Pair(id, Cond{}, Cond{Frag: Frag(c.Intn(int(fragCount)))})
		k.far = theirs
		k.served = srv.Serve(theirs)
		k.cl = c.Client(proto, signalr.WithConnection(c.lib(mine)), signalr.WithReceiver(&recv09{k}))
		k.cl.C.Start()
		if !k.cl.AwaitState(signalr.ClientConnected, 0) {
			c.Violf("no-connect", "library client %s did not connect", id)
			return nil
		}
		o := c.Collect(k.cl.C.Invoke("Op", -1))
		if !c.Until(0, o.Closed) {
			c.Violf("no-answer", "library client %s gets no answer", id)
			return nil
		}
	} else {
		c.Count("raw-client", 1)
		r := srv.Connect(id, c.pickProto(), Cond{}, Cond{})
		if r == nil {
			return nil
		}
		k.raw, k.far, k.served = r, r.Far, r.Served
		r.KeepAlive(4 * time.Second)
		_ = r.Send(Msg{Type: 1, ID: "hello", Target: "Op", Args: []any{-1}})
		if !c.Until(0, func() bool { return len(r.Completions("hello")) > 0 }) {
			c.Violf("no-answer", "connection %s gets no answer", id)
			return nil
		}
	}
	if len(autos) > 0 {
		// what the connect callback adds
		c.Until(0, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			n := 0
			for _, o := range w.ops {
				if o.via == "OnConnected" && o.conn == id && o.start > k.dial && o.done {
					n++
				}
			}
			return n >= len(autos)
		})
	}
	k.up = w.tick()
	return k
}

func (w *world09) end(k *conn09, how int) {
	c := w.c
	w.mu.Lock()
	k.closingV = c.Now()
	k.closing = w.tick()
	w.mu.Unlock()
	if k.lib {
		k.cl.Cancel()
		k.far.Close()
	} else {
		switch how {
		case 0:
			k.raw.Conn.Close()
		case 1:
			k.raw.Conn.Reset()
		case 2:
			_ = k.raw.Send(Msg{Type: 7})
		case 3:
			_ = k.raw.Raw([]byte("\x00\x01garbage\x1e"))
		case 4:
			_ = k.raw.Send(Msg{Type: 1, Target: "Bye"})
		}
	}
	if !c.Until(0, func() bool { d, _ := k.served.Done(); return d }) {
		c.Violf("serve-hangs", "Serve for %s did not return after ending it (way %d)", k.id, how)
		return
	}
	w.mu.Lock()
	k.gone = w.tick()
	w.mu.Unlock()
}

func runC09(c *Case) {
	if c.Chance(5) {
		storm09(c)
		return
	}
	w := &world09{c: c, byID: map[string]*conn09{}, run: map[int]*op09{}}
	srv := c.Server(signalr.HubFactory(c.slowly(func() signalr.HubInterface { return &Hub09{w: w} })))
	groups := []string{"g1", "g2", "", "grüppe"}[:c.Range(1, 4)]
	if c.Chance(50) {
		// names which differ only a little are different names
		groups = append(groups, pick(c, "G1", "g1 ", " g1", "g", "g11", "c0", "*", "g1\x00", "GRÜPPE", "g/1", "g%31"))
	}
	nc := c.Range(2, 8)
	libs := 0
	ids := make([]string, nc)
	for i := range ids {
		ids[i] = fmt.Sprintf("c%d", i)
		lib := c.Chance(20)
		if lib {
			libs++
		}
		var autos []string
		if c.Chance(30) {
			autos = []string{pick(c, groups...)}
		}
		if w.connect(srv, ids[i], lib, autos) == nil {
			return
		}
	}
	// contexts of hubs, used outside of hub methods
	for i := 0; i < 2; i++ {
		k := w.conns[c.Intn(nc)]
		if k.lib {
			o := c.Collect(k.cl.C.Invoke("Capture"))
			c.Until(0, o.Closed)
		} else {
			_ = k.raw.Send(Msg{Type: 1, ID: fmt.Sprintf("cap%d", i), Target: "Capture"})
			c.Until(0, func() bool { return len(k.raw.Completions(fmt.Sprintf("cap%d", i))) > 0 })
		}
	}
	w.mu.Lock()
	ctxs := append([]hubCtx09(nil), w.ctxs...)
	w.mu.Unlock()
	var serial atomic.Int64
	genOp := func() *op09 {
		o := &op09{kind: pick(c, "all", "caller", "client", "client", "group", "group", "group", "add", "add", "add", "remove", "remove")}
		o.group = pick(c, groups...)
		if c.Chance(5) {
			o.group = "nogroup"
		}
		o.conn = pick(c, ids...)
		if c.Chance(7) {
			o.conn = pick(c, "nobody", "", "c")
		}
		o.tag = fmt.Sprintf("op%d", serial.Add(1))
		o.args = []any{o.tag, c.genValue(2)}
		if libs == 0 && c.Chance(20) {
			o.args = pick(c, []any{o.tag}, []any{o.tag, 1, nil, "x"}, []any{o.tag, []any{}, map[string]any{}})
		}
		return o
	}
	var opMu sync.Mutex
	opID := 0
	do := func(o *op09) {
		switch x := c.Intn(10); {
		case x < 5 || o.kind == "caller":
			// by a hub method
			w.mu.Lock()
			var cands []*conn09
			for _, k := range w.byID {
				if k.closing == 0 && k.up > 0 {
					cands = append(cands, k)
				}
			}
			w.mu.Unlock()
			if len(cands) == 0 {
				return
			}
			k := cands[0]
			for _, x := range cands { // map order must not matter
				if x.id < k.id {
					k = x
				}
			}
			if c.Bool() {
				best := uint64(0)
				for _, x := range cands {
					if h := splitmix(uint64(len(o.tag)) + uint64(x.id[1])*7919 + uint64(serial.Load())); h > best {
						best, k = h, x
					}
				}
			}
			o.via, o.caller = "hub of "+k.id, k
			opMu.Lock()
			opID++
			n := opID
			opMu.Unlock()
			w.mu.Lock()
			w.run[n] = o
			w.mu.Unlock()
			if k.lib {
				k.cl.C.Send("Op", n)
			} else {
				_ = k.raw.Send(Msg{Type: 1, Target: pick(c, "Op", "op"), Args: []any{n}})
			}
		case x < 8 && o.kind != "add" && o.kind != "remove":
			o.via = "server"
			w.exec(o, srv.S.HubClients(), nil)
		default:
			o.via = "context"
			if len(ctxs) == 0 {
				return
			}
			h := ctxs[c.Intn(len(ctxs))]
			w.exec(o, h.clients, h.groups)
		}
	}
	na := c.Range(1, 5)
	if na > 1 {
		c.Count("concurrent", 1)
	}
	c.Sample("%d connections (%d library clients), %d groups, %d actors", nc, libs, len(groups), na)
	var wg sync.WaitGroup
	for a := 0; a < na; a++ {
		wg.Add(1)
		n := c.Range(3, 15)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if c.Chance(40) {
					time.Sleep(c.Dur(0, 20*time.Millisecond))
				} else {
					c.Yield()
				}
				do(genOp())
			}
		}()
	}
	// connections which end and return
	if c.Chance(70) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := c.Range(1, 4); i > 0; i-- {
				time.Sleep(c.Dur(0, 40*time.Millisecond))
				id := ids[c.Intn(nc)]
				w.mu.Lock()
				k := w.byID[id]
				w.mu.Unlock()
				if k.closing != 0 || k.stalled {
					continue
				}
				w.end(k, c.Intn(5))
				if c.Chance(60) && k.gone != 0 {
					if c.Bool() {
						time.Sleep(c.Dur(0, 20*time.Millisecond))
					}
					lib := c.Chance(20) && libs > 0
					var autos []string
					if c.Chance(30) {
						autos = []string{pick(c, groups...)}
					}
					if w.connect(srv, id, lib, autos) == nil {
						return
					}
				}
			}
		}()
	}
	// a connection which does not read for a while
	if c.Chance(30) {
		k := w.conns[c.Intn(nc)]
		if !k.lib {
			k.stalled = true
			c.Count("stalled", 1)
			k.far.out.Stall()
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(c.Dur(0, 3*time.Second))
				k.far.out.Unstall()
			}()
		}
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("actors-hang", "an operation did not return")
		return
	}
	// let it settle, then verify the final membership by one more send to each group, and to all
	time.Sleep(time.Second)
	for _, g := range groups {
		o := &op09{kind: "group", group: g, via: "server", tag: fmt.Sprintf("op%d", serial.Add(1))}
		o.args = []any{o.tag, "final"}
		w.exec(o, srv.S.HubClients(), nil)
	}
	o := &op09{kind: "all", via: "server", tag: fmt.Sprintf("op%d", serial.Add(1))}
	o.args = []any{o.tag, "final"}
	w.exec(o, srv.S.HubClients(), nil)
	time.Sleep(time.Second)
	if c.Real {
		time.Sleep(2 * time.Second)
	}
	w.judge()
}

// definitely tells whether k was connected during all of o, possibly whether it was connected at any time of it.
func (w *world09) connected(k *conn09, o *op09) (definitely, possibly bool) {
	margin := time.Duration(0)
	if w.c.Real {
		margin = 2 * time.Second
	}
	definitely = k.up > 0 && k.up < o.start && (k.closing == 0 || k.closingV > o.vr+margin)
	// A send may be still on its way when it has returned, but not longer than the instant
	possibly = k.dialV <= o.vr+margin && (k.gone == 0 || k.gone > o.start)
	return
}

func (w *world09) member(k *conn09, group string, o *op09) (definitely, possibly bool) {
	margin := time.Duration(0)
	if w.c.Real {
		margin = 2 * time.Second
	}
	var adds, removes []*op09
	for _, x := range w.ops {
		if x.group == group && x.conn == k.id {
			switch x.kind {
			case "add":
				// only an add during the life of this connection
				if (k.gone == 0 || x.start < k.gone) && (!x.done || x.ret > k.dial) {
					adds = append(adds, x)
				}
			case "remove":
				removes = append(removes, x)
			}
		}
	}
	for _, a := range adds {
		if a.done && a.start > k.up && k.up > 0 || a.via == "OnConnected" && a.done {
			if a.ret < o.start {
				ok := true
				for _, r := range removes {
					if !(r.done && r.ret < a.start) && !(r.vs > o.vr+margin) {
						ok = false
					}
				}
				definitely = definitely || ok
			}
		}
		if a.vs <= o.vr+margin {
			ok := true
			for _, r := range removes {
				if r.done && a.done && r.start > a.ret && r.ret < o.start {
					ok = false
				}
			}
			possibly = possibly || ok
		}
	}
	return
}

func (w *world09) judge() {
	c := w.c
	w.mu.Lock()
	defer w.mu.Unlock()
	byTag := map[string]*op09{}
	for _, o := range w.ops {
		if o.tag != "" {
			byTag[o.tag] = o
		}
	}
	for _, k := range w.conns {
		name := fmt.Sprintf("connection %s (dialed at %v)", k.id, k.dialV)
		k.mu.Lock()
		got := append([]Msg(nil), k.got...)
		k.mu.Unlock()
		if k.raw != nil {
			got = k.raw.Find(func(m Msg) bool { return m.Type == 1 || m.Type == 4 })
			k.raw.judgeBad(name)
			if e, at := k.raw.Ended(); e && k.closing == 0 {
				c.Violf("lost", "%s was ended at %v", name, at)
			}
		}
		if k.closing == 0 {
			if d, at := k.served.Done(); d {
				c.Violf("lost", "Serve of %s returned at %v", name, at)
			}
		}
		counts := map[string]int{}
		for _, m := range got {
			tag := ""
			if len(m.Args) > 0 {
				tag, _ = m.Args[0].(string)
			}
			o := byTag[tag]
			if o == nil || o.start == 0 {
				c.Violf("unknown-send", "%s received %v which nobody sent", name, m)
				continue
			}
			counts[tag]++
			if m.Target != "Take" || canon(m.Args) != canon(o.args) {
				c.Violf("args", "%s: tag %s sent with %s, received %s(%s)", name, tag, canon(o.args), m.Target, canon(m.Args))
			}
		}
		for _, o := range w.ops {
			if o.tag == "" || o.kind == "add" || o.kind == "remove" {
				continue
			}
			must, may := w.connected(k, o)
			switch o.kind {
			case "caller":
				must, may = must && o.caller == k, may && (o.caller == k || o.caller.id == k.id && o.caller.closing != 0)
			case "client":
				must, may = must && o.conn == k.id, may && o.conn == k.id
			case "group":
				d, p := w.member(k, o.group, o)
				must, may = must && d, may && p
			}
			n := counts[o.tag]
			desc := fmt.Sprintf("%s (group %q, connection %q, via %s, at %v, tag %s)", o.kind, o.group, o.conn, o.via, o.vs, o.tag)
			switch {
			case must && n == 0:
				c.Violf("not-delivered", "%s did not receive the send to %s", name, desc)
			case !may && n > 0:
				c.Violf("wrong-target", "%s received the send to %s", name, desc)
			case n > 1:
				c.Violf("repeated", "%s received the send to %s %d times", name, desc, n)
			}
			if must {
				c.Count("must", 1)
			} else if !may {
				c.Count("mustnot", 1)
			}
		}
	}
}

// storm09: connections enter and leave the same groups at the same moment, while others stay in them.
func storm09(c *Case) {
	srv, _ := c.echoServer()
	n := c.Range(2, 4)
	var mu sync.Mutex
	got := map[string]map[string]int{} // by connection, tag
	rs := make([]*RawClient, n+1)
	for i := range rs {
		id := fmt.Sprint("c", i)
		r := srv.Connect(id, c.pickProto(), Cond{}, Cond{})
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		mine := map[string]int{}
		mu.Lock()
		got[id] = mine
		mu.Unlock()
		r.mu.Lock()
		r.onMsg = func(m Msg) {
			if m.Type == 1 && len(m.Args) == 1 {
				mu.Lock()
				mine[fmt.Sprint(m.Args[0])]++
				mu.Unlock()
			}
		}
		r.mu.Unlock()
		_ = r.Send(Msg{Type: 1, ID: "first", Target: "Tag", Args: []any{"first", 0}})
		if !c.Until(0, func() bool { return len(r.Completions("first")) > 0 }) {
			c.Violf("storm", "connection %d is not served", i)
			return
		}
		rs[i] = r
	}
	gm := srv.groups(c)
	if gm == nil {
		return
	}
	hub := srv.S.HubClients()
	groups := []string{"g"}
	if c.Bool() {
		groups = append(groups, "h")
	}
	stays := c.Bool() // c0 is a member of all groups all the time
	if stays {
		for _, g := range groups {
			gm.AddToGroup(g, "c0")
		}
	}
	member := map[string]bool{} // by group and connection
	c.Sample("storm of %d connections on %v", n, groups)
	sent := 0
	for round := c.Range(3, 12); round > 0 && !c.failed(); round-- {
		c.Count("storm", 1)
		var wg sync.WaitGroup
		final := make([]map[string]bool, n+1)
		for i := 1; i <= n; i++ {
			final[i] = map[string]bool{}
			steps := c.Range(1, 12)
			wg.Add(1)
			go func() {
				defer wg.Done()
				id := fmt.Sprint("c", i)
				for k := 0; k < steps; k++ {
					g := pick(c, groups...)
					in := c.Bool()
					if in {
						gm.AddToGroup(g, id)
					} else {
						gm.RemoveFromGroup(g, id)
					}
					final[i][g] = in
				}
			}()
		}
		var during []string
		for k := c.Intn(4); k > 0; k-- {
			sent++
			tag := fmt.Sprint("d", sent)
			during = append(during, tag)
			hub.Group(pick(c, groups...)).Send("On", tag)
		}
		if !c.Within(0, wg.Wait) {
			c.Violf("actors-hang", "a group operation did not return")
			return
		}
		for i := 1; i <= n; i++ {
			for g, in := range final[i] {
				member[g+" "+fmt.Sprint("c", i)] = in
			}
		}
		time.Sleep(time.Millisecond)
		for _, g := range groups {
			sent++
			tag := fmt.Sprint("s", sent)
			hub.Group(g).Send("On", tag)
			time.Sleep(10 * time.Millisecond)
			mu.Lock()
			for i := 0; i <= n; i++ {
				id := fmt.Sprint("c", i)
				want := 0
				if member[g+" "+id] || i == 0 && stays {
					want = 1
				}
				if k := got[id][tag]; k != want {
					c.Violf("storm", "after connections entered and left group %s at the same moment, a send to it reached %s %d times instead of %d", g, id, k, want)
				}
			}
			mu.Unlock()
		}
		mu.Lock()
		for _, tag := range during {
			if k := got["c0"][tag]; stays && k != 1 {
				c.Violf("storm", "while others entered and left, a send to a group reached the member c0 %d times", k)
			}
			for id := range got {
				if got[id][tag] > 1 {
					c.Violf("storm", "while connections entered and left, a send to a group reached %s %d times", id, got[id][tag])
				}
			}
		}
		mu.Unlock()
	}
	if !c.failed() && c.Chance(60) {
		rush09(c, hub, gm, &mu, got)
	}
	for i, r := range rs {
		r.judgeBad(fmt.Sprint("connection ", i))
	}
}

// rush09: c1 leaves many groups while c2 enters each of them at the very same moment, in lockstep, again and again.
func rush09(c *Case, hub signalr.HubClients, gm signalr.GroupManager, mu *sync.Mutex, got map[string]map[string]int) {
	groups := make([]string, c.Range(20, 120))
	for i := range groups {
		groups[i] = fmt.Sprint("rush", i)
		gm.AddToGroup(groups[i], "c1")
	}
	leaver, enterer := "c1", "c2"
	for round := 0; round < 2 && !c.failed(); round++ {
		var step [2]atomic.Int64
		var wg sync.WaitGroup
		move := func(me int, f func(g string)) {
			defer wg.Done()
			for i, g := range groups {
				step[me].Store(int64(i + 1))
				for step[1-me].Load() < int64(i+1) {
					runtime.Gosched()
				}
				f(g)
			}
		}
		wg.Add(2)
		go move(0, func(g string) { gm.RemoveFromGroup(g, leaver) })
		go move(1, func(g string) { gm.AddToGroup(g, enterer) })
		if !c.Within(0, wg.Wait) {
			c.Violf("actors-hang", "a group operation did not return")
			return
		}
		for i, g := range groups {
			hub.Group(g).Send("On", fmt.Sprint("r", round, "-", i))
		}
		time.Sleep(100 * time.Millisecond)
		mu.Lock()
		for i, g := range groups {
			c.Count("rush", 1)
			tag := fmt.Sprint("r", round, "-", i)
			for id := range got {
				want := 0
				if id == enterer {
					want = 1
				}
				if k := got[id][tag]; k != want {
					c.Violf("storm", "after %s left group %s and %s entered it at the same moment, a send to it reached %s %d times instead of %d", leaver, g, enterer, id, k, want)
					break
				}
			}
		}
		mu.Unlock()
		leaver, enterer = enterer, leaver
	}
}
