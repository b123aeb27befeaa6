package sigverif

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
	"github.com/redis/go-redis/v9"
)

func init() {
	register(&Prop{ID: "C22", Quick: 15000, Thorough: 300000, Run: runC22,
		Rule: "A case is 1..3 server instances with the Redis lifetime manager on one in-memory Redis (RESP2 or RESP3, latency up to 5 ms, connections to it sometimes cut) with 2..8 connections (raw peers and library clients, JSON and MessagePack) spread over them, which come, go and come back under the same id on any instance, in 1..3 rounds of 1..5 actors (hub methods, server code, hub contexts used elsewhere, connect callbacks) that add, remove and send to all, caller, one connection and groups from any instance; an instance may be stopped, or started late.",
		Need: []string{"must", "mustnot", "must.own", "must.other", "ev:all", "ev:caller", "ev:client", "ev:group", "ev:add", "ev:remove", "rejoined", "lib-client", "raw-client", "cut", "stopped", "late", "ev:redis:publish"}})
}

type op22 struct {
	op09
	srv    int
	unsure bool
	round  int
}

type conn22 struct {
	conn09
	srv      int
	unsureUp bool // it ended while Redis was out of reach
}

type world22 struct {
	c     *Case
	clock atomic.Int64
	mu    sync.Mutex
	ops   []*op22
	conns []*conn22
	byID  map[string]*conn22
	run   map[int]*op22
	nrun  int
	srvs  []*Srv
	dead  map[int]bool
	ctxs  []hubCtx09
	ctxAt []int
	round int
	cut   bool // Redis connections are cut in this round
	slack time.Duration
}

func (w *world22) tick() int64 { return w.clock.Add(1) }

func (w *world22) exec(o *op22, clients signalr.HubClients, groups signalr.GroupManager) {
	w.mu.Lock()
	w.ops = append(w.ops, o)
	o.unsure, o.round = w.cut, w.round
	w.mu.Unlock()
	o.vs = w.c.Now()
	o.start = w.tick()
	switch o.kind {
	case "all":
		clients.All().Send("Take", o.args...)
	case "caller":
		clients.Caller().Send("Take", o.args...)
	case "client":
		clients.Client(o.conn).Send("Take", o.args...)
	case "group":
		clients.Group(o.group).Send("Take", o.args...)
	case "add":
		groups.AddToGroup(o.group, o.conn)
	case "remove":
		groups.RemoveFromGroup(o.group, o.conn)
	}
	w.mu.Lock()
	o.ret = w.tick()
	o.vr = w.c.Now()
	o.done = true
	w.mu.Unlock()
	w.c.Ev(o.kind, "%s on %d via %s group %q conn %q tag %s", o.kind, o.srv, o.via, o.group, o.conn, o.tag)
}

// Hub22 executes operations inside of hub methods.
type Hub22 struct {
	signalr.Hub
	w   *world22
	srv int
}

func (h *Hub22) Op(n int) {
	h.w.mu.Lock()
	o := h.w.run[n]
	h.w.mu.Unlock()
	if o != nil {
		h.w.exec(o, h.Clients(), h.Groups())
	}
}
func (h *Hub22) Capture() {
	h.w.mu.Lock()
	h.w.ctxs = append(h.w.ctxs, hubCtx09{h.Clients(), h.Groups()})
	h.w.ctxAt = append(h.w.ctxAt, h.srv)
	h.w.mu.Unlock()
}
func (h *Hub22) OnConnected(id string) {
	h.w.mu.Lock()
	k := h.w.byID[id]
	h.w.mu.Unlock()
	if k == nil {
		return
	}
	for _, g := range k.autoGroups {
		o := &op22{srv: h.srv}
		o.kind, o.group, o.conn, o.via = "add", g, id, "OnConnected"
		h.w.exec(o, h.Clients(), h.Groups())
	}
}

func (w *world22) connect(id string, at int, lib bool, autos []string) *conn22 {
	c := w.c
	srv := w.srvs[at]
	k := &conn22{srv: at}
	k.id, k.lib, k.autoGroups, k.dial, k.dialV = id, lib, autos, w.tick(), c.Now()
	w.mu.Lock()
	if w.byID[id] != nil {
		c.Count("rejoined", 1)
	}
	w.byID[id] = k
	w.conns = append(w.conns, k)
	w.mu.Unlock()
	if lib {
		c.Count("lib-client", 1)
		proto := c.pickProto()
		mine, theirs := c.Pair(id, Cond{}, Cond{Frag: Frag(c.Intn(int(fragCount)))})
		k.far = theirs
		k.served = srv.Serve(theirs)
		k.cl = c.Client(proto, signalr.WithConnection(c.lib(mine)), signalr.WithReceiver(&recv09{&k.conn09}))
		k.cl.C.Start()
		if !k.cl.AwaitState(signalr.ClientConnected, 0) {
			c.Violf("no-connect", "library client %s did not connect", id)
			return nil
		}
		o := c.Collect(k.cl.C.Invoke("Op", -1))
		if !c.Until(0, o.Closed) {
			c.Violf("no-answer", "library client %s gets no answer", id)
			return nil
		}
	} else {
		c.Count("raw-client", 1)
		r := srv.Connect(id, c.pickProto(), Cond{}, Cond{})
		if r == nil {
			return nil
		}
		k.raw, k.far, k.served = r, r.Far, r.Served
		r.KeepAlive(4 * time.Second)
		_ = r.Send(Msg{Type: 1, ID: "hello", Target: "Op", Args: []any{-1}})
		if !c.Until(0, func() bool { return len(r.Completions("hello")) > 0 }) {
			c.Violf("no-answer", "connection %s gets no answer", id)
			return nil
		}
	}
	if len(autos) > 0 {
		c.Until(0, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			n := 0
			for _, o := range w.ops {
				if o.via == "OnConnected" && o.conn == id && o.start > k.dial && o.done {
					n++
				}
			}
			return n >= len(autos)
		})
	}
	w.mu.Lock()
	k.up = w.tick()
	w.mu.Unlock()
	return k
}

func (w *world22) closing(k *conn22) {
	w.mu.Lock()
	k.closingV = w.c.Now()
	k.closing = w.tick()
	k.unsureUp = k.unsureUp || w.cut
	w.mu.Unlock()
}

func (w *world22) gone(k *conn22) bool {
	if !w.c.Until(0, func() bool { d, _ := k.served.Done(); return d }) {
		w.c.Violf("serve-hangs", "Serve for %s did not return after its end", k.id)
		return false
	}
	w.mu.Lock()
	k.unsureUp = k.unsureUp || w.cut
	k.gone = w.tick()
	w.mu.Unlock()
	return true
}

func (w *world22) end(k *conn22, how int) {
	w.closing(k)
	switch {
	case k.lib:
		k.cl.Cancel()
		k.far.Close()
	case how == 0:
		k.raw.Conn.Close()
	case how == 1:
		k.raw.Conn.Reset()
	default:
		_ = k.raw.Send(Msg{Type: 7})
	}
	w.gone(k)
}

func (w *world22) liveSrv() []int {
	var l []int
	for i := range w.srvs {
		if !w.dead[i] {
			l = append(l, i)
		}
	}
	return l
}

func runC22(c *Case) {
	delay := pick(c, 0, 0, time.Millisecond, 5*time.Millisecond)
	slack := time.Duration(0)
	if delay > 0 {
		slack = 10 * time.Second
	}
	w := &world22{c: c, byID: map[string]*conn22{}, run: map[int]*op22{}, dead: map[int]bool{}, slack: slack}
	red := c.newRedis(delay)
	nsrv := c.Range(1, 3)
	var shared *redis.Client
	if c.Chance(20) {
		// several servers of one process on one client
		shared = red.client()
	}
	start := func() {
		cl := shared
		if cl == nil {
			cl = red.client()
		}
		i := len(w.srvs)
		w.srvs = append(w.srvs, c.Server(ext.WithRedisHubLifetimeManager(cl, yieldLogger{c}),
			signalr.HubFactory(func() signalr.HubInterface { return &Hub22{w: w, srv: i} })))
	}
	for i := 0; i < nsrv; i++ {
		start()
	}
	// the managers end before their Redis does: go-redis holds a lock while it tries to connect again
	defer func() {
		for _, s := range w.srvs {
			s.Cancel()
		}
		time.Sleep(time.Second)
	}()
	groups := []string{"g1", "g2", "", "grüppe"}[:c.Range(1, 4)]
	if c.Chance(50) {
		groups = append(groups, pick(c, "G1", "g1 ", "g", "c0", "*", "g?", "[g]1", "g1\x00", "g:1", "members:g1", "all"))
	}
	nc := c.Range(2, 8)
	ids := make([]string, nc)
	libs := 0
	autos := func() []string {
		if c.Chance(30) {
			return []string{pick(c, groups...)}
		}
		return nil
	}
	for i := range ids {
		ids[i] = fmt.Sprintf("c%d", i)
		lib := c.Chance(20)
		if lib {
			libs++
		}
		if w.connect(ids[i], c.Intn(nsrv), lib, autos()) == nil {
			return
		}
	}
	var serial atomic.Int64
	capture := func() {
		k := w.conns[c.Intn(len(w.conns))]
		if k.closing != 0 {
			return
		}
		if k.lib {
			c.Until(0, c.Collect(k.cl.C.Invoke("Capture")).Closed)
		} else {
			id := fmt.Sprintf("cap%d", serial.Add(1))
			_ = k.raw.Send(Msg{Type: 1, ID: id, Target: "Capture"})
			c.Until(0, func() bool { return len(k.raw.Completions(id)) > 0 })
		}
	}
	genOp := func() *op22 {
		o := &op22{}
		o.kind = pick(c, "all", "caller", "client", "client", "group", "group", "group", "add", "add", "add", "remove", "remove")
		o.group = pick(c, groups...)
		if c.Chance(5) {
			o.group = "nogroup"
		}
		o.conn = pick(c, ids...)
		if c.Chance(7) {
			o.conn = pick(c, "nobody", "", "c")
		}
		o.tag = fmt.Sprintf("op%d", serial.Add(1))
		switch c.Intn(6) {
		case 0:
			if libs > 0 { // their receiver takes interface{}, which is a float64 for JSON
				o.args = []any{o.tag, pick(c, []any{1.5, -0.25, 1e300, "<&>", int64(-1 << 40)}...)}
				break
			}
			o.args = []any{o.tag, pick(c, []any{int64(math.MaxInt64), int64(1<<53 + 1), uint64(math.MaxUint64), int64(-1<<60 - 1), 1.5, 1e300, -0.25, "<&>", []any{int64(1<<53 + 3)}}...)}
		case 1:
			if libs == 0 {
				o.args = pick(c, []any{o.tag}, []any{o.tag, 1, nil, "x"}, []any{o.tag, []any{}, map[string]any{}})
				break
			}
			fallthrough
		default:
			o.args = []any{o.tag, c.genValue(2)}
		}
		return o
	}
	nextOp := 0
	do := func(o *op22) {
		switch x := c.Intn(10); {
		case x < 5 || o.kind == "caller":
			w.mu.Lock()
			var cands []*conn22
			for _, id := range ids {
				if k := w.byID[id]; k.closing == 0 && k.up > 0 {
					cands = append(cands, k)
				}
			}
			w.mu.Unlock()
			if len(cands) == 0 {
				return
			}
			k := cands[c.Intn(len(cands))]
			if (o.kind == "add" || o.kind == "remove") && c.Chance(60) {
				o.conn = k.id // as most hubs do
			}
			o.via, o.caller, o.srv = "hub of "+k.id, &k.conn09, k.srv
			w.mu.Lock()
			nextOp++
			n := nextOp
			w.run[n] = o
			w.mu.Unlock()
			if k.lib {
				k.cl.C.Send("Op", n)
			} else {
				_ = k.raw.Send(Msg{Type: 1, Target: "Op", Args: []any{n}})
			}
		case x < 8 && o.kind != "add" && o.kind != "remove":
			w.mu.Lock()
			o.srv = pick(c, w.liveSrv()...)
			s := w.srvs[o.srv]
			w.mu.Unlock()
			o.via = "server"
			w.exec(o, s.S.HubClients(), nil)
		default:
			o.via = "context"
			w.mu.Lock()
			var hs []int
			for i, at := range w.ctxAt {
				if !w.dead[at] {
					hs = append(hs, i)
				}
			}
			if len(hs) == 0 {
				w.mu.Unlock()
				return
			}
			i := hs[c.Intn(len(hs))]
			h := w.ctxs[i]
			o.srv = w.ctxAt[i]
			w.mu.Unlock()
			w.exec(o, h.clients, h.groups)
		}
	}
	settle := func() {
		time.Sleep(time.Second + 2*slack)
		if c.Real {
			time.Sleep(2 * time.Second)
		}
	}
	rounds := c.Range(1, 3)
	c.Sample("%d instances, %d connections (%d library clients), %d groups, %d rounds, redis delay %v", nsrv, nc, libs, len(groups), rounds, delay)
	for r := 0; r < rounds; r++ {
		w.mu.Lock()
		w.round, w.cut = r, false
		w.mu.Unlock()
		if r > 0 && c.Chance(20) && len(w.liveSrv()) > 1 {
			// one instance stops
			i := pick(c, w.liveSrv()...)
			var its []*conn22
			for _, k := range w.conns {
				if k.srv == i && k.closing == 0 {
					w.closing(k)
					its = append(its, k)
				}
			}
			w.mu.Lock()
			w.dead[i] = true
			w.mu.Unlock()
			c.Count("stopped", 1)
			c.Ev("stop", "instance %d", i)
			w.srvs[i].Cancel()
			for _, k := range its {
				if !w.gone(k) {
					return
				}
				if k.lib {
					k.cl.Cancel()
				}
			}
			for _, k := range its {
				if c.Chance(70) && w.connect(k.id, pick(c, w.liveSrv()...), false, autos()) == nil {
					return
				}
			}
		}
		if r > 0 && c.Chance(15) && len(w.srvs) < 4 {
			c.Count("late", 1)
			start()
			id := fmt.Sprintf("c%d", len(ids))
			ids = append(ids, id)
			if w.connect(id, len(w.srvs)-1, false, autos()) == nil {
				return
			}
		}
		capture()
		if r > 0 && c.Chance(30) && delay == 0 && !c.Real {
			w.mu.Lock()
			w.cut = true
			w.mu.Unlock()
		}
		na := c.Range(1, 5)
		var wg sync.WaitGroup
		for a := 0; a < na; a++ {
			wg.Add(1)
			n := c.Range(2, 8)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					if c.Chance(40) {
						time.Sleep(c.Dur(0, 20*time.Millisecond))
					} else {
						c.Yield()
					}
					do(genOp())
				}
			}()
		}
		if w.cut {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := c.Range(1, 2); i > 0; i-- {
					time.Sleep(c.Dur(0, 30*time.Millisecond))
					c.Count("cut", 1)
					c.Ev("cut", "redis connections")
					red.net.Cut(c.Bool())
				}
			}()
		}
		if c.Chance(60) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := c.Range(1, 3); i > 0; i-- {
					time.Sleep(c.Dur(0, 40*time.Millisecond))
					id := ids[c.Intn(nc)]
					w.mu.Lock()
					k := w.byID[id]
					skip := k.closing != 0 || k.up == 0
					w.mu.Unlock()
					if skip {
						continue
					}
					w.end(k, c.Intn(3))
					if c.Chance(60) && k.gone != 0 {
						if c.Bool() {
							time.Sleep(c.Dur(0, 20*time.Millisecond))
						}
						if w.connect(id, pick(c, w.liveSrv()...), c.Chance(20) && libs > 0, autos()) == nil {
							return
						}
					}
				}
			}()
		}
		if !c.Within(0, wg.Wait) {
			c.Violf("actors-hang", "an operation did not return")
			return
		}
		if c.failed() {
			return
		}
		settle()
		if w.cut {
			// let the clients find their connections to Redis again
			time.Sleep(30 * time.Second)
			w.mu.Lock()
			w.cut = false
			w.mu.Unlock()
		}
	}
	w.mu.Lock()
	w.round = rounds
	w.mu.Unlock()
	fin := func(kind, g string) {
		o := &op22{srv: pick(c, w.liveSrv()...)}
		o.kind, o.group, o.via, o.tag = kind, g, "server", fmt.Sprintf("op%d", serial.Add(1))
		o.args = []any{o.tag, "final"}
		w.exec(o, w.srvs[o.srv].S.HubClients(), nil)
	}
	for _, g := range groups {
		fin("group", g)
	}
	fin("all", "")
	settle()
	// a client answers what asks for an answer
	for _, k := range w.conns {
		if k.raw == nil || k.closing != 0 {
			continue
		}
		for _, m := range k.raw.Find(func(m Msg) bool { return m.Type == 1 && m.ID != "" }) {
			c.Count("answered", 1)
			_ = k.raw.Send(Msg{Type: 3, ID: m.ID, HasRes: true})
		}
	}
	time.Sleep(time.Second)
	if len(red.bad) > 0 {
		panic("harness: the Redis stand-in does not know " + red.bad[0])
	}
	w.judge()
}

// margin is how long after its start a send may be still on its way.
func (w *world22) margin(o *op22) time.Duration {
	m := w.slack
	if w.c.Real {
		m += 2 * time.Second
	}
	if o.unsure {
		m += 30 * time.Second
	}
	return m
}

func (w *world22) connected(k *conn22, o *op22) (definitely, possibly bool) {
	definitely = k.up > 0 && k.up < o.start && (k.closing == 0 || k.closingV > o.vr+w.margin(o)) && !o.unsure
	possibly = k.dialV <= o.vr+w.margin(o) && (k.gone == 0 || k.gone > o.start)
	return
}

func (w *world22) member(k *conn22, group string, o *op22) (definitely, possibly bool) {
	margin := w.margin(o)
	var adds, removes []*op22
	for _, x := range w.ops {
		if x.group == group && x.conn == k.id {
			switch x.kind {
			case "add":
				adds = append(adds, x)
			case "remove":
				removes = append(removes, x)
			}
		}
	}
	for _, a := range adds {
		own := a.srv == k.srv && (a.start > k.up && k.up > 0 || a.via == "OnConnected" && a.start > k.dial)
		if own && a.done && !a.unsure && a.ret < o.start && (k.closing == 0 || a.ret < k.closing) {
			ok := true
			for _, r := range removes {
				if !(r.done && r.ret < a.start) && !(r.vs > o.vr+margin) {
					ok = false
				}
			}
			definitely = definitely || ok
		}
		if a.vs > o.vr+margin {
			continue
		}
		ok := true
		for _, r := range removes {
			if r.done && a.done && !r.unsure && r.start > a.ret && r.ret < o.start {
				ok = false
			}
		}
		// what was added on the connection's own instance during its life ended with it
		for _, l := range w.conns {
			if l.id == k.id && l != k && l.srv == a.srv && !l.unsureUp && l.up > 0 && a.done && l.gone > 0 && l.gone < o.start &&
				(a.start > l.up || a.via == "OnConnected" && a.start > l.dial) && a.ret < l.closing {
				ok = false
			}
		}
		possibly = possibly || ok
	}
	return
}

func (w *world22) judge() {
	c := w.c
	w.mu.Lock()
	defer w.mu.Unlock()
	byTag := map[string]*op22{}
	for _, o := range w.ops {
		if o.tag != "" {
			byTag[o.tag] = o
		}
	}
	for _, k := range w.conns {
		name := fmt.Sprintf("connection %s (dialed to %d at %v)", k.id, k.srv, k.dialV)
		k.mu.Lock()
		got := append([]Msg(nil), k.got...)
		k.mu.Unlock()
		if k.raw != nil {
			got = k.raw.Find(func(m Msg) bool { return m.Type == 1 || m.Type == 4 })
			k.raw.judgeBad(name)
			if e, at := k.raw.Ended(); e && k.closing == 0 {
				c.Violf("lost", "%s was ended at %v", name, at)
			}
		}
		if k.closing == 0 {
			if d, at := k.served.Done(); d {
				c.Violf("lost", "Serve of %s returned at %v", name, at)
			}
		}
		counts := map[string]int{}
		for _, m := range got {
			tag := ""
			if len(m.Args) > 0 {
				tag, _ = m.Args[0].(string)
			}
			o := byTag[tag]
			if o == nil || o.start == 0 {
				c.Violf("unknown-send", "%s received %v which nobody sent", name, m)
				continue
			}
			counts[tag]++
			if m.Target != "Take" || canon(m.Args) != canon(o.args) {
				c.Violf("args", "%s: tag %s sent with %s, received %s(%s)", name, tag, canon(o.args), m.Target, canon(m.Args))
			}
		}
		for _, o := range w.ops {
			if o.tag == "" || o.kind == "add" || o.kind == "remove" {
				continue
			}
			must, may := w.connected(k, o)
			switch o.kind {
			case "caller":
				must, may = must && o.caller == &k.conn09, may && o.caller.id == k.id
			case "client":
				must, may = must && o.conn == k.id, may && o.conn == k.id
			case "group":
				d, p := w.member(k, o.group, o)
				must, may = must && d, may && p
			}
			n := counts[o.tag]
			desc := fmt.Sprintf("%s (group %q, connection %q, on %d via %s, at %v, tag %s)", o.kind, o.group, o.conn, o.srv, o.via, o.vs, o.tag)
			switch {
			case must && n == 0:
				where := "the sending"
				if o.srv != k.srv {
					where = "another"
				}
				c.Violf("not-delivered:"+where[:3], "%s on %s instance did not receive the send to %s", name, where, desc)
			case !may && n > 0:
				c.Violf("wrong-target", "%s received the send to %s", name, desc)
			case n > 1 && !o.unsure:
				c.Violf("repeated", "%s received the send to %s %d times", name, desc, n)
			}
			if must {
				c.Count("must", 1)
				if o.srv == k.srv {
					c.Count("must.own", 1)
				} else {
					c.Count("must.other", 1)
				}
			} else if !may {
				c.Count("mustnot", 1)
			}
		}
	}
}
