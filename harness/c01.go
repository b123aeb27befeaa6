package sigverif

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C01", Quick: 60000, Thorough: 1500000, Run: runC01,
		Rule: "A case is one client making 1..24 concurrent Invoke/Send calls (values, voids, errors, unknown methods, panics, delayed and asynchronous results) against a library server or a scripted peer that completes in random order and batching; some calls are made by the callbacks of a receiver through its Server(); connection delays, fragmentation, protocol and consumer speed are random.",
		Need: []string{"ev:value", "ev:error", "ev:void", "ev:send", "raw-server", "lib-server", "relay", "long"}})
}

type call01 struct {
	tag    string
	method string
	kind   string // value, error, void, multi
	send   bool
	want   string // canonical value
	err    string // substring of the error
	args   []any
	argRep string // canonical args the hub logs
	hub    bool   // the hub logs it
	o      *Outcomes
}

func (c *Case) genValue(depth int) any {
	switch c.Intn(10) {
	case 9:
		if c.Bool() {
			return nil
		}
		return ""
	case 0:
		return float64(c.Range(-1000, 1000))
	case 1:
		return pick(c, "", "a", "hällo wörld", "\u2028<&>\"\\", strings.Repeat("x", c.Range(1, 300)))
	case 2:
		return c.Bool()
	case 3:
		return float64(c.Range(-1000000, 1000000)) / 64
	case 4:
		if depth <= 0 {
			return "leaf"
		}
		a := []any{}
		for i := c.Intn(4); i > 0; i-- {
			a = append(a, c.genValue(depth-1))
		}
		return a
	case 5:
		if depth <= 0 {
			return "leaf"
		}
		m := map[string]any{}
		for i := c.Intn(4); i > 0; i-- {
			m[fmt.Sprintf("k%d", i)] = c.genValue(depth - 1)
		}
		return m
	default:
		return fmt.Sprintf("v%d", c.Intn(1000000))
	}
}

// Recv01 is a receiver which calls the server from its callbacks.
type Recv01 struct {
	signalr.Receiver
	mu    sync.Mutex
	issue []func(cl signalr.Client)
	c     *Case
}

func (r *Recv01) Relay(i int) {
	r.mu.Lock()
	f := r.issue[i]
	r.mu.Unlock()
	if r.Server() == nil {
		r.c.Violf("no-server", "a receiver which embeds Receiver has no server in its callback")
		return
	}
	f(r.Server())
}

func runC01(c *Case) {
	if c.Intn(200) == 0 {
		runC01long(c)
		return
	}
	proto := c.pickProto()
	raw := c.Chance(45)
	up, down := c.RandCond(40*time.Millisecond), c.RandCond(40*time.Millisecond)
	n := c.Range(1, 24)
	c.Sample("%s, raw server %v, %d calls, up %v/%v, down %v/%v", proto.Name(), raw, n, up.Frag, up.MaxDelay, down.Frag, down.MaxDelay)
	var log *callLog
	var cl *Cli
	var peer *Peer
	mine, theirs := c.Pair("c", up, down)
	recv := &Recv01{c: c}
	copts := []opt{signalr.WithConnection(c.lib(mine))}
	relays := c.Chance(25)
	if relays {
		copts = append(copts, signalr.WithReceiver(recv))
	}
	var srv *Srv
	if raw {
		c.Count("raw-server", 1)
		peer = c.NewPeer(theirs, proto, "server").Start()
		cl = c.Client(proto, copts...)
		cl.C.Start()
		if !peer.AcceptHandshake() {
			c.Violf("no-handshake", "client sent no handshake")
			return
		}
		peer.KeepAlive(4 * time.Second)
	} else {
		c.Count("lib-server", 1)
		var env *hubEnv
		srv, env = c.echoServer()
		log = env.log
		srv.Serve(theirs)
		cl = c.Client(proto, copts...)
		cl.C.Start()
	}
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: state %v err %v", cl.C.State(), cl.C.Err())
		return
	}
	if relays && !raw {
		// the server might reach the connection only after the first call
		if !c.Within(0, func() { <-cl.C.Invoke("NoArgs") }) {
			c.Violf("no-outcome", "the first call did not end")
			return
		}
	}
	calls := make([]*call01, n)
	for i := range calls {
		k := &call01{tag: fmt.Sprintf("t%d", i), hub: true}
		ms := pick(c, 0, 0, c.Intn(20), c.Intn(2000))
		switch c.Intn(10) {
		case 0, 1, 2:
			v := c.genValue(3)
			k.method, k.kind, k.want, k.args, k.argRep = "Echo", "value", canon(v), []any{k.tag, ms, v}, canon([]any{v})
			if v == nil {
				k.kind = "void"
			}
		case 3, 4:
			k.method, k.kind, k.want, k.args, k.argRep = pick(c, "Tag", "tag", "TAG"), "value", canon("result-"+k.tag), []any{k.tag, ms}, "[]"
		case 5:
			k.method, k.kind, k.args, k.argRep = "Void", "void", []any{k.tag, ms}, "[]"
		case 6:
			k.method, k.kind, k.args, k.hub, k.err = "NoSuchMethod"+k.tag, "error", []any{k.tag}, false, "NoSuchMethod"+k.tag
		case 7:
			k.method, k.kind, k.args, k.err, k.hub = "Add", "error", []any{k.tag, 1}, "", false
			if c.Bool() {
				k.args = []any{k.tag, 1, "x" + k.tag}
			}
		case 8:
			k.method, k.kind, k.want, k.args, k.argRep = "Async", "value", canon("result-"+k.tag), []any{k.tag, ms}, "[]"
		case 9:
			a, b := c.Range(-1000, 1000), c.Range(-1000, 1000)
			k.method, k.kind, k.want, k.args, k.argRep = "Add", "value", canon(a+b), []any{k.tag, a, b}, canon([]any{a, b})
			if raw {
				k.want = canon("result-" + k.tag)
			}
		}
		if raw && k.method == "Echo" && k.kind == "value" && k.want == "null" {
			k.kind = "void"
		}
		k.send = c.Chance(25)
		calls[i] = k
	}
	if raw {
		rawServer01(c, peer, calls)
	}
	// issue the calls from several goroutines
	gap := c.Chance(40)
	for i, k := range calls {
		if gap && c.Chance(30) {
			time.Sleep(c.Dur(0, 30*time.Millisecond))
		}
		lag := time.Duration(0)
		if c.Chance(20) {
			lag = c.Dur(0, 5*time.Second)
		}
		issue := func(cl signalr.Client) {
			if k.send {
				ch := cl.Send(k.method, k.args...)
				time.Sleep(lag)
				o := c.CollectErr(ch)
				c.mu.Lock()
				k.o = o
				c.mu.Unlock()
			} else {
				ch := cl.Invoke(k.method, k.args...)
				time.Sleep(lag)
				o := c.Collect(ch)
				c.mu.Lock()
				k.o = o
				c.mu.Unlock()
			}
		}
		recv.mu.Lock()
		recv.issue = append(recv.issue, issue)
		recv.mu.Unlock()
		switch {
		case !relays || c.Bool():
			go issue(cl.C)
		case raw:
			c.Count("relay", 1)
			_ = peer.Send(Msg{Type: 1, Target: "relay", Args: []any{i}})
		default:
			c.Count("relay", 1)
			srv.S.HubClients().All().Send("relay", i)
		}
	}
	get := func(k *call01) *Outcomes {
		c.mu.Lock()
		defer c.mu.Unlock()
		return k.o
	}
	ok := c.Until(0, func() bool {
		for _, k := range calls {
			if o := get(k); o == nil || !o.Closed() {
				return false
			}
		}
		return true
	})
	time.Sleep(3 * time.Second) // surplus outcomes or executions
	if s := cl.C.State(); s != signalr.ClientConnected && ok {
		c.Violf("disconnected", "the client left the connected state (%v, %v) during ordinary calls", s, cl.C.Err())
	}
	for _, k := range calls {
		what := fmt.Sprintf("%s(%s) tag %s", k.method, short(canon(k.args), 100), k.tag)
		o := get(k)
		if o == nil || !o.Closed() {
			c.Violf("no-outcome", "%s: channel never closed", what)
			continue
		}
		vals, _, _ := o.Get()
		if k.send {
			c.Ev("send", "%s -> %v", what, vals)
			if k.kind != "error" && len(vals) > 0 {
				c.Violf("send-error", "Send %s succeeded on the server but reported %v", what, vals)
			}
			if len(vals) > 1 {
				c.Violf("send-twice", "Send %s reported %d errors: %v", what, len(vals), vals)
			}
		} else {
			c.Ev(k.kind, "%s -> %v", what, vals)
			switch k.kind {
			case "value":
				if len(vals) != 1 {
					c.Violf("outcomes", "Invoke %s yielded %d outcomes instead of 1: %v", what, len(vals), vals)
				} else if vals[0].Error != nil {
					c.Violf("wrong-outcome", "Invoke %s yielded error %v", what, vals[0].Error)
				} else if g := canon(vals[0].Value); g != k.want {
					c.Violf("wrong-value", "Invoke %s yielded %s, want %s", what, short(g, 300), short(k.want, 300))
				}
			case "error":
				if len(vals) != 1 || vals[0].Error == nil || vals[0].Value != nil {
					c.Violf("outcomes", "Invoke %s should yield exactly one error, got %v", what, vals)
				} else if !strings.Contains(vals[0].Error.Error(), k.err) {
					c.Violf("wrong-error", "Invoke %s yielded error %q, want one about %q", what, vals[0].Error, k.err)
				}
			case "void":
				if len(vals) > 1 || len(vals) == 1 && (vals[0].Error != nil || vals[0].Value != nil) {
					c.Violf("outcomes", "Invoke %s of a method without result yielded %v", what, vals)
				}
			}
		}
		if log != nil {
			runs := log.get(k.tag)
			if k.hub {
				if len(runs) != 1 {
					c.Violf("executions", "%s was executed %d times", what, len(runs))
				} else if runs[0] != k.argRep {
					c.Violf("wrong-args", "%s was executed with %s, want %s", what, short(runs[0], 300), short(k.argRep, 300))
				}
			} else if len(runs) != 0 {
				c.Violf("executions", "%s was executed although it must be refused", what)
			}
		}
	}
	if peer != nil {
		peer.judgeBad("client")
		for _, k := range calls {
			inv := peer.Find(func(m Msg) bool { return m.Type == 1 && len(m.Args) > 0 && m.Args[0] == k.tag })
			if len(inv) != 1 {
				c.Violf("executions", "call %s was sent %d times", k.tag, len(inv))
			} else if canon(inv[0].Args) != canon(k.args) {
				c.Violf("wrong-args", "call %s was sent with %v, want %s", k.tag, inv[0], canon(k.args))
			}
		}
	}
}

// rawServer01 answers the calls in random order and batches.
func rawServer01(c *Case, p *Peer, calls []*call01) {
	byTag := map[string]*call01{}
	for _, k := range calls {
		byTag[k.tag] = k
	}
	ch := make(chan Msg, 1000)
	p.mu.Lock()
	p.onMsg = func(m Msg) {
		if m.Type == 1 {
			ch <- m
		}
	}
	p.mu.Unlock()
	stop := make(chan struct{})
	c.Cleanup(func() { close(stop) })
	go func() {
		var pending []Msg
		for {
			var t <-chan time.Time
			if len(pending) > 0 {
				t = time.After(c.Dur(0, 50*time.Millisecond))
			}
			select {
			case m := <-ch:
				pending = append(pending, m)
				continue
			case <-t:
			case <-stop:
				return
			}
			// answer a random subset in random order, in one write
			var batch []Msg
			for i := c.Range(1, len(pending)); i > 0; i-- {
				j := c.Intn(len(pending))
				m := pending[j]
				pending = append(pending[:j], pending[j+1:]...)
				if m.ID == "" {
					continue
				}
				tag, _ := m.Args[0].(string)
				k := byTag[tag]
				if k == nil {
					c.Violf("wrong-args", "the client sent a call with unknown tag: %v", m)
					continue
				}
				r := Msg{Type: 3, ID: m.ID}
				switch k.kind {
				case "value":
					r.HasRes = true
					if k.method == "Echo" {
						r.Result = m.Args[2]
					} else {
						r.Result = "result-" + tag
					}
				case "error":
					r.HasErr, r.Error = true, "error "+k.err+" of "+tag
				}
				batch = append(batch, r)
				if c.Chance(20) {
					batch = append(batch, Msg{Type: 6})
				}
			}
			if len(batch) > 0 {
				if p.Send(batch...) != nil {
					return
				}
			}
		}
	}()
}

// runC01long is a long history on one connection: thousands of calls, some of which stay pending until the end.
func runC01long(c *Case) {
	proto := c.pickProto()
	n := c.Range(300, 3000)
	if c.Chance(3) {
		n = 70000
	}
	c.Sample("%s, long history of %d calls", proto.Name(), n)
	c.Count("long", 1)
	p, conn := c.RawServer("c", proto, Cond{}, Cond{})
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)), signalr.TimeoutInterval(1000*time.Hour))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	var mu sync.Mutex
	var held []Msg
	ch := make(chan Msg, 1000)
	p.mu.Lock()
	p.msgs, p.comps = nil, map[string][]Msg{}
	p.onMsg = func(m Msg) {
		if m.Type == 1 {
			ch <- m
		}
	}
	p.mu.Unlock()
	reply := func(m Msg) Msg { return Msg{Type: 3, ID: m.ID, HasRes: true, Result: fmt.Sprint("r-", m.Args[0])} }
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case m := <-ch:
				if m.Args[1] == true {
					mu.Lock()
					held = append(held, m)
					mu.Unlock()
				} else if m.ID != "" && p.Send(reply(m)) != nil {
					return
				}
			case <-stop:
				return
			}
		}
	}()
	type call struct {
		tag string
		o   *Outcomes
	}
	var slow []call
	judge := func(k call) {
		vals, closed, _ := k.o.Get()
		if !closed || len(vals) != 1 || vals[0].Error != nil || vals[0].Value != "r-"+k.tag {
			c.Violf("wrong-value", "call %s in a history of %d calls: got %v (closed %v)", k.tag, n, vals, closed)
		}
	}
	for i := 0; i < n && !c.failed(); {
		var batch []call
		for j := c.Range(1, 60); j > 0 && i < n; j-- {
			tag := fmt.Sprintf("l%d", i)
			hold := len(slow) < 40 && (i == 0 || c.Intn(n) < 20)
			k := call{tag, c.Collect(cl.C.Invoke("m", tag, hold))}
			if hold {
				slow = append(slow, k)
			} else {
				batch = append(batch, k)
			}
			i++
		}
		c.Until(0, func() bool {
			for _, k := range batch {
				if !k.o.Closed() {
					return false
				}
			}
			return true
		})
		for _, k := range batch {
			judge(k)
		}
	}
	if !c.Until(0, func() bool { mu.Lock(); defer mu.Unlock(); return len(held) == len(slow) }) {
		c.Violf("executions", "%d of %d calls arrived", len(held), len(slow))
	}
	for _, j := range c.Perm(len(held)) {
		_ = p.Send(reply(held[j]))
	}
	c.Until(0, func() bool {
		for _, k := range slow {
			if !k.o.Closed() {
				return false
			}
		}
		return true
	})
	for _, k := range slow {
		judge(k)
	}
	p.judgeBad("client")
	c.Ev("long", "%d calls, %d pending", n, len(slow))
}
