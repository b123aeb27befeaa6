package sigverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C11", Quick: 30000, Thorough: 1000000, Run: runC11,
		Rule: "A case is a server (hub factory, simple factory, per-connection factory) with 1..6 connections, each making 3..30 concurrent calls that store and load items, ask for the connection id, send to the caller, keep the connection's context, or run until the context ends; connections end in several ways at any time and return under the same id.",
		Need: []string{"ev:set", "ev:get", "ev:who", "ev:caller", "ev:ctx", "ev:long", "kind.factory", "kind.simple", "kind.perconn", "rejoined", "instances", "ctx.ended", "ctx.alive"}})
}

type seen11 struct {
	id   string
	inst int64
	what string
	key  string // epoch of the connection if the call tells it
}

type ctx11 struct {
	key    string
	ctx    context.Context
	doneAt time.Duration
	done   bool
}

type world11 struct {
	c     *Case
	mu    sync.Mutex
	seen  []seen11
	ctxs  []*ctx11
	epoch map[string]string // connection id -> current epoch
	insts atomic.Int64
	made  map[int64]string
	long  map[string]bool
}

var cur11 atomic.Pointer[world11]

// Hub11 tells about its connection. key is the epoch of the connection that makes the call.
type Hub11 struct {
	signalr.Hub
	inst int64
}

func (h *Hub11) saw(what, key string) *world11 {
	w := cur11.Load()
	w.mu.Lock()
	w.seen = append(w.seen, seen11{h.ConnectionID(), h.inst, what, key})
	w.mu.Unlock()
	return w
}
func (h *Hub11) OnConnected(id string) {
	w := h.saw("OnConnected", "")
	w.mu.Lock()
	key := w.epoch[id]
	w.mu.Unlock()
	if v, ok := h.Items().Load("early"); ok {
		w.c.Violf("items", "OnConnected of %s found item early=%v of another connection", key, v)
	}
	h.Items().Store("early", key)
}
func (h *Hub11) OnDisconnected(id string) {
	h.saw("OnDisconnected", "")
}
func (h *Hub11) Set(key, name, val string) string {
	h.saw("Set", key).c.Yield()
	h.Items().Store(name, val)
	return h.ConnectionID()
}
func (h *Hub11) Get(key, name string) interface{} {
	h.saw("Get", key).c.Yield()
	v, _ := h.Items().Load(name)
	return v
}
func (h *Hub11) Who(key string) string {
	w := h.saw("Who", key)
	id := h.ConnectionID()
	w.c.Yield()
	return id
}
func (h *Hub11) Caller(key, tag string) {
	w := h.saw("Caller", key)
	p := h.Clients().Caller()
	w.c.Yield()
	p.Send("mine", key, tag)
}
func (h *Hub11) Ctx(key string) bool {
	w := h.saw("Ctx", key)
	ctx := h.Context()
	x := &ctx11{key: key, ctx: ctx}
	w.mu.Lock()
	w.ctxs = append(w.ctxs, x)
	w.mu.Unlock()
	go func() {
		<-ctx.Done()
		w.mu.Lock()
		x.done, x.doneAt = true, w.c.Now()
		w.mu.Unlock()
	}()
	return ctx.Err() == nil
}
func (h *Hub11) Long(key string) {
	w := h.saw("Long", key)
	w.mu.Lock()
	w.long[key] = true
	w.mu.Unlock()
	<-h.Context().Done()
	w.mu.Lock()
	w.long[key] = false
	w.mu.Unlock()
}
func (h *Hub11) Count(key string, in <-chan string) string {
	h.saw("Count", key)
	for range in {
	}
	return h.ConnectionID()
}
func (h *Hub11) Items3(key string) <-chan string {
	h.saw("Items3", key)
	ch := make(chan string, 1)
	id, ctx := h.ConnectionID(), h.Context()
	go func() {
		defer close(ch)
		for i := 0; i < 3; i++ {
			select {
			case ch <- id:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}
func (h *Hub11) Bye() { h.Abort() }

type conn11 struct {
	key      string // epoch
	id       string
	r        *RawClient
	items    map[string]string
	endStart time.Duration
	ended    bool
	callers  []string
}

func runC11(c *Case) {
	w := &world11{c: c, epoch: map[string]string{}, made: map[int64]string{}, long: map[string]bool{}}
	cur11.Store(w)
	kind := pick(c, "factory", "simple", "perconn", "perconn")
	c.Count("kind."+kind, 1)
	var o opt
	switch kind {
	case "factory":
		o = signalr.HubFactory(c.slowly(func() signalr.HubInterface { return &Hub11{inst: w.insts.Add(1)} }))
	case "simple":
		o = signalr.SimpleHubFactory(&Hub11{})
	case "perconn":
		o = signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface {
			c.Yield()
			n := w.insts.Add(1)
			w.mu.Lock()
			w.made[n] = id
			w.mu.Unlock()
			return &Hub11{inst: n}
		})
	}
	srv := c.Server(o)
	nc := c.Range(1, 6)
	c.Sample("%s, %d connections", kind, nc)
	var all []*conn11
	var allMu sync.Mutex
	margin := time.Duration(0)
	if c.Real {
		margin = 5 * time.Second
	}
	life := func(id string, n int, rnd func() int, rounds int) {
		for round := 0; round < rounds; round++ {
			k := &conn11{key: fmt.Sprintf("%s.%d", id, round), id: id, items: map[string]string{}}
			if round > 0 {
				c.Count("rejoined", 1)
			}
			w.mu.Lock()
			w.epoch[id] = k.key
			w.mu.Unlock()
			k.r = srv.Dial(id, c.pickProto(), c.RandCond(0), c.RandCond(0))
			allMu.Lock()
			all = append(all, k)
			allMu.Unlock()
			r := k.r
			if c.Bool() {
				if e := r.Connect(); e != "" {
					c.Violf("connect-failed", "%s: %s", k.key, e)
					return
				}
			} else {
				_ = r.Raw(handshakeReq(r.proto.Name())) // calls follow at once
			}
			r.KeepAlive(4 * time.Second)
			type exp struct {
				id   string
				want string
				what string
			}
			var exps []exp
			i := 0
			call := func(target string, want string, args ...any) string {
				i++
				cid := fmt.Sprint(i)
				_ = r.Send(Msg{Type: 1, ID: cid, Target: target, Args: append([]any{k.key}, args...)})
				exps = append(exps, exp{cid, want, target})
				return cid
			}
			await := func(cid string) {
				if !c.Until(0, func() bool { return len(r.Completions(cid)) > 0 }) {
					c.Violf("no-answer", "%s: call %s was not answered", k.key, cid)
				}
			}
			for j := 0; j < n; j++ {
				switch x := rnd() % 12; x {
				case 0, 1, 2:
					name := fmt.Sprintf("i%d", rnd()%4)
					val := fmt.Sprintf("%s/%s/%d", k.key, name, j)
					c.Ev("set", "%s %s", k.key, name)
					await(call("Set", canon(id), name, val))
					k.items[name] = val
				case 3, 4, 5:
					name := fmt.Sprintf("i%d", rnd()%4)
					c.Ev("get", "%s %s", k.key, name)
					var want any
					if v, ok := k.items[name]; ok {
						want = v
					}
					cid := call("Get", canon(want), name)
					if rnd()%2 == 0 {
						await(cid)
					}
				case 6, 7:
					c.Ev("who", "%s", k.key)
					call("Who", canon(id))
				case 8, 9:
					tag := fmt.Sprintf("%s#%d", k.key, j)
					c.Ev("caller", "%s", tag)
					k.callers = append(k.callers, tag)
					await(call("Caller", "", tag))
				case 10:
					c.Ev("ctx", "%s", k.key)
					call("Ctx", canon(true))
				case 11:
					c.Ev("long", "%s", k.key)
					_ = r.Send(Msg{Type: 1, Target: "Long", Args: []any{k.key}})
				}
				// an unanswered Get must not race with a later Set
				if len(exps) > 0 && exps[len(exps)-1].what == "Get" {
					await(exps[len(exps)-1].id)
				}
				if rnd()%3 == 0 {
					time.Sleep(time.Duration(rnd()%5000) * time.Microsecond)
				}
			}
			for _, e := range exps {
				await(e.id)
				cs := r.Completions(e.id)
				if len(cs) == 0 {
					continue
				}
				got := ""
				if cs[0].HasErr {
					got = "error " + cs[0].Error
				} else if e.want != "" {
					got = canon(cs[0].Result)
				}
				if got != e.want {
					key := "foreign-state"
					c.Violf(key, "%s: %s returned %s, want %s", k.key, e.what, got, e.want)
				}
			}
			if round == rounds-1 && rnd()%2 == 0 {
				return // stays
			}
			time.Sleep(time.Duration(rnd()%3000) * time.Microsecond)
			w.mu.Lock()
			k.endStart, k.ended = c.Now(), true
			// nothing has ended the context before
			for _, x := range w.ctxs {
				if x.key == k.key && x.done {
					c.Violf("context-early", "the context of %s was cancelled at %v, while the connection was alive", k.key, x.doneAt)
				}
			}
			w.mu.Unlock()
			switch rnd() % 5 {
			case 0:
				r.Conn.Close()
			case 1:
				r.Conn.Reset()
			case 2:
				_ = r.Send(Msg{Type: 7})
			case 3:
				_ = r.Send(Msg{Type: 1, Target: "Bye"})
			case 4:
				_ = r.Raw([]byte("\x00\x01garbage\x1e"))
			}
			if !c.Until(time.Minute, func() bool { d, _ := r.Served.Done(); return d }) {
				c.Violf("serve-hangs", "Serve of %s has not returned", k.key)
				return
			}
			if rnd()%2 == 0 {
				time.Sleep(time.Duration(rnd()%3000) * time.Microsecond)
			}
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < nc; i++ {
		id := fmt.Sprintf("k%d-%d", c.Index, i)
		n, rounds := c.Range(3, 15), c.Range(1, 3)
		sub := c.Sub(uint64(i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			life(id, n, func() int { return int(sub.Uint32() >> 1) }, rounds)
		}()
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
		return
	}
	time.Sleep(time.Second + margin)
	w.mu.Lock()
	defer w.mu.Unlock()
	byKey := map[string]*conn11{}
	for _, k := range all {
		byKey[k.key] = k
	}
	// contexts
	for _, x := range w.ctxs {
		k := byKey[x.key]
		switch {
		case k.ended && !x.done:
			c.Violf("context-late", "the connection %s ended at %v, its context is not cancelled a second later", k.key, k.endStart)
		case k.ended:
			c.Count("ctx.ended", 1)
			if x.doneAt < k.endStart {
				c.Violf("context-early", "the context of %s was cancelled at %v, before the connection ended at %v", k.key, x.doneAt, k.endStart)
			}
		case x.done:
			c.Violf("context-early", "the context of %s was cancelled at %v, but the connection is alive", k.key, x.doneAt)
		default:
			c.Count("ctx.alive", 1)
		}
	}
	for key, running := range w.long {
		if k := byKey[key]; running && k.ended {
			c.Violf("context-late", "a method of %s still waits for the end of its context", key)
		} else if !running && !k.ended {
			c.Violf("context-early", "the context of %s ended while the connection is alive", key)
		}
	}
	// who saw what
	inst := map[string]int64{} // epoch -> instance
	owner := map[int64]string{}
	for _, s := range w.seen {
		if s.key != "" && byKey[s.key].id != s.id {
			c.Violf("foreign-connection", "%s called by %s ran in a hub of connection %s", s.what, s.key, s.id)
		}
	}
	if kind == "perconn" {
		// callbacks do not tell their epoch: those of an id come in pairs
		type idInst struct {
			id   string
			inst int64
		}
		cb := map[idInst]map[string]int{}
		for _, s := range w.seen {
			if s.key != "" {
				if old, ok := inst[s.key]; ok && old != s.inst {
					c.Violf("instances", "calls of %s ran on hub instances %d and %d", s.key, old, s.inst)
				}
				inst[s.key] = s.inst
				if old, ok := owner[s.inst]; ok && old != s.key {
					c.Violf("instances", "hub instance %d served %s and %s", s.inst, old, s.key)
				}
				owner[s.inst] = s.key
			} else {
				x := idInst{s.id, s.inst}
				if cb[x] == nil {
					cb[x] = map[string]int{}
				}
				cb[x][s.what]++
			}
			if w.made[s.inst] != s.id {
				c.Violf("instances", "%s of connection %s ran on the hub made for connection %q", s.what, s.id, w.made[s.inst])
			}
		}
		for key, n := range inst {
			k := byKey[key]
			x := cb[idInst{k.id, n}]
			on, off := x["OnConnected"], x["OnDisconnected"]
			wantOff := 0
			if k.ended {
				wantOff = 1
			}
			c.Count("instances", 1)
			if on != 1 || off != wantOff {
				c.Violf("instances", "%s is served by hub instance %d, on which OnConnected ran %d and OnDisconnected %d times (ended %v)", key, n, on, off, k.ended)
			}
		}
	}
	// sends to the caller
	for _, k := range all {
		k.r.judgeBad(k.key)
		counts := map[string]int{}
		for _, m := range k.r.Find(func(m Msg) bool { return m.Type == 1 }) {
			if len(m.Args) != 2 || m.Target != "mine" || m.Args[0] != k.key {
				c.Violf("caller", "%s received %v, sent to the caller of another connection", k.key, m)
				continue
			}
			counts[fmt.Sprint(m.Args[1])]++
		}
		for _, t := range k.callers {
			if counts[t] != 1 && !(k.ended && counts[t] == 0) {
				c.Violf("caller", "%s received %d of the one send to the caller %s", k.key, counts[t], t)
			}
			if !strings.HasPrefix(t, k.key) {
				c.Violf("caller", "%s received %s", k.key, t)
			}
			delete(counts, t)
		}
		if len(counts) > 0 {
			c.Violf("caller", "%s received sends to the caller which it did not ask for: %v", k.key, counts)
		}
	}
}
