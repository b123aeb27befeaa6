package sigverif

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C04", Quick: 25000, Thorough: 800000, Run: runC04,
		Rule: "A case is 1..3 connections (library client with PushStreams, or raw peer) on a library server, or a library client on a recording raw server, with 1..6 concurrent uploads of 1..2 channels of strings, ints, structs or anything, 0..60 items each with random pauses, channel kinds, buffer capacities and reading speeds, plain arguments mixed with channels, and plain calls in between.",
		Need: []string{"lib-client", "raw-client", "raw-server", "upload.ok", "upload.error", "upload.early", "early-answer"}})
}

type upload04 struct {
	tag     string
	method  string
	args    []any   // plain arguments in order, nil for a channel
	argRep  string  // logged arguments
	streams [][]any // items per channel
	chans   []any   // channels for PushStreams
	want    string
	err     bool
	void    bool
	early   string // what the method reads after it has returned
	o       *Outcomes
	id      string
	sids    []string
}

func genUpload(c *Case, tag string) *upload04 {
	u := &upload04{tag: tag, argRep: "[]"}
	num := func() int {
		if c.Chance(6) {
			return c.Range(40, 60)
		}
		return pick(c, 0, 1, 2, c.Intn(8), c.Intn(20))
	}
	strs := func(k string) (xs []any, joined string) {
		for i, n := 0, num(); i < n; i++ {
			s := fmt.Sprintf("%s%s.%d", tag, k, i)
			xs = append(xs, s)
			joined += s + ";"
		}
		return
	}
	switch c.Intn(10) {
	case 8:
		xs, j := strs("e")
		u.method, u.args, u.streams, u.want, u.early = "CollectEarly", []any{tag, nil}, [][]any{xs}, canon("early-"+tag), "="+j
	default:
		xs, j := strs("a")
		u.method, u.args, u.streams, u.want = "Collect", []any{tag, nil}, [][]any{xs}, canon(j)
	case 1, 2:
		ys, j2 := strs("b")
		xs := []any{}
		j1 := ""
		for i, n := 0, num(); i < n; i++ {
			xs = append(xs, i*7)
			j1 += fmt.Sprint(i*7) + ";"
		}
		u.method, u.args, u.streams, u.want = "Collect2", []any{tag, nil, "x" + tag, nil}, [][]any{xs, ys}, canon([]any{j1, "x" + tag, j2})
		u.argRep = canon([]any{"x" + tag})
	case 3, 4:
		ms := pick(c, 0, 0, c.Intn(200))
		xs := []any{}
		for i, n := 0, min(num(), 20); i < n; i++ {
			xs = append(xs, map[string]any{"x": i, "y": tag})
		}
		u.method, u.args, u.streams, u.want = "CollectStruct", []any{nil, tag, ms}, [][]any{xs}, canon(xs)
		u.argRep = canon([]any{ms})
	case 5:
		xs, _ := strs("f")
		u.method, u.args, u.streams, u.err = "CollectFail", []any{tag, nil}, [][]any{xs}, true
	case 6:
		xs := []any{}
		for i, n := 0, num(); i < n; i++ {
			xs = append(xs, c.genValue(2))
		}
		u.method, u.args, u.streams, u.want = "CollectAny", []any{tag, nil}, [][]any{xs}, canon(xs)
	case 7:
		xs, j := strs("v")
		u.method, u.args, u.streams, u.void = "CollectVoid", []any{tag, nil}, [][]any{xs}, true
		u.argRep = canon([]any{j})
	}
	return u
}

// feed makes a channel of a random kind and sends the items with random pauses.
func (u *upload04) feed(c *Case, i int) any {
	items := u.streams[i]
	cp := c.Intn(4)
	pauses := make([]time.Duration, len(items)+1)
	if c.Chance(50) {
		for k := range pauses {
			if c.Chance(30) {
				pauses[k] = c.Dur(0, 100*time.Millisecond)
			}
		}
	}
	dir := c.Bool()
	switch {
	case u.method == "Collect2" && i == 0:
		ch := make(chan int, cp)
		go func() {
			for k, x := range items {
				time.Sleep(pauses[k])
				ch <- x.(int)
			}
			time.Sleep(pauses[len(items)])
			close(ch)
		}()
		if dir {
			return (<-chan int)(ch)
		}
		return ch
	case u.method == "CollectStruct":
		ch := make(chan point, cp)
		go func() {
			for k, x := range items {
				time.Sleep(pauses[k])
				m := x.(map[string]any)
				ch <- point{m["x"].(int), m["y"].(string)}
			}
			time.Sleep(pauses[len(items)])
			close(ch)
		}()
		return ch
	case u.method == "CollectAny":
		ch := make(chan interface{}, cp)
		go func() {
			for k, x := range items {
				time.Sleep(pauses[k])
				ch <- x
			}
			time.Sleep(pauses[len(items)])
			close(ch)
		}()
		return ch
	}
	ch := make(chan string, cp)
	go func() {
		for k, x := range items {
			time.Sleep(pauses[k])
			ch <- x.(string)
		}
		time.Sleep(pauses[len(items)])
		close(ch)
	}()
	if dir {
		return (<-chan string)(ch)
	}
	return ch
}

func (u *upload04) callArgs(c *Case) []any {
	r := []any{}
	s := 0
	for _, a := range u.args {
		if a == nil {
			r = append(r, u.feed(c, s))
			s++
		} else {
			r = append(r, a)
		}
	}
	return r
}

func (u *upload04) plainArgs() []any {
	r := []any{}
	for _, a := range u.args {
		if a != nil {
			r = append(r, a)
		}
	}
	return r
}

func (u *upload04) String() string {
	n := []int{}
	for _, s := range u.streams {
		n = append(n, len(s))
	}
	return fmt.Sprintf("%s%v with %v items", u.method, u.plainArgs(), n)
}

func runC04(c *Case) {
	if c.Chance(25) {
		runC04rawServer(c)
		return
	}
	capOpt := signalr.StreamBufferCapacity(uint(pick(c, 1, 2, 10, 50)))
	srv, env := c.echoServer(capOpt)
	nc := c.Range(1, 3)
	type conn struct {
		cl *Cli
		rc *RawClient
		us []*upload04
	}
	var conns []*conn
	for i := 0; i < nc; i++ {
		k := &conn{}
		up, down := c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond)
		proto := c.pickProto()
		if c.Chance(60) {
			c.Count("lib-client", 1)
			mine, theirs := c.Pair(fmt.Sprintf("c%d", i), up, down)
			srv.Serve(theirs)
			k.cl = c.Client(proto, signalr.WithConnection(c.lib(mine)))
			k.cl.C.Start()
			if !k.cl.AwaitState(signalr.ClientConnected, 0) {
				c.Violf("no-connect", "client never connected: %v", k.cl.C.Err())
				return
			}
		} else {
			c.Count("raw-client", 1)
			if k.rc = srv.Connect(fmt.Sprintf("c%d", i), proto, up, down); k.rc == nil {
				return
			}
			k.rc.KeepAlive(4 * time.Second)
		}
		for j, n := 0, c.Range(1, 6); j < n; j++ {
			u := genUpload(c, fmt.Sprintf("c%du%d", i, j))
			u.id = fmt.Sprint(j)
			k.us = append(k.us, u)
		}
		conns = append(conns, k)
	}
	c.Sample("%d connections, %d uploads on the first, e.g. %v", nc, len(conns[0].us), conns[0].us[0])
	var wg sync.WaitGroup
	for _, k := range conns {
		if k.rc != nil {
			wg.Add(1)
			r := c.Sub(5)
			go func() {
				defer wg.Done()
				// interleave the uploads at random
				type pos struct {
					u    *upload04
					s, i int
				}
				var open []*pos
				for _, u := range k.us {
					for s := range u.streams {
						u.sids = append(u.sids, fmt.Sprintf("%s-s%d", u.id, s))
						open = append(open, &pos{u, s, 0})
					}
				}
				started := map[*upload04]bool{}
				for len(open) > 0 {
					var batch []Msg
					for b := 1 + r.IntN(8); b > 0 && len(open) > 0; b-- {
						j := r.IntN(len(open))
						p := open[j]
						switch {
						case !started[p.u]:
							started[p.u] = true
							batch = append(batch, Msg{Type: 1, ID: p.u.id, Target: p.u.method, Args: p.u.plainArgs(), Streams: p.u.sids})
						case p.i < len(p.u.streams[p.s]):
							batch = append(batch, Msg{Type: 2, ID: p.u.sids[p.s], Item: p.u.streams[p.s][p.i]})
							p.i++
						default:
							batch = append(batch, Msg{Type: 3, ID: p.u.sids[p.s]})
							open = append(open[:j], open[j+1:]...)
						}
					}
					if k.rc.Send(batch...) != nil {
						return
					}
					if r.IntN(3) == 0 {
						time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
					}
				}
			}()
			continue
		}
		for _, u := range k.us {
			if c.Chance(30) {
				time.Sleep(c.Dur(0, 50*time.Millisecond))
			}
			args := u.callArgs(c)
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := c.Collect(k.cl.C.PushStreams(u.method, args...))
				c.mu.Lock()
				u.o = o
				c.mu.Unlock()
			}()
			if c.Chance(20) {
				c.Collect(k.cl.C.Invoke("Tag", "x"+u.tag, c.Intn(100)))
			}
		}
	}
	wg.Wait()
	out := func(u *upload04) *Outcomes {
		c.mu.Lock()
		defer c.mu.Unlock()
		return u.o
	}
	c.Until(0, func() bool {
		for _, k := range conns {
			for _, u := range k.us {
				if k.cl != nil {
					if !out(u).Closed() {
						return false
					}
				} else if len(k.rc.Completions(u.id)) == 0 {
					if e, _ := k.rc.Ended(); !e {
						return false
					}
				}
			}
		}
		return true
	})
	c.Until(0, func() bool {
		for _, k := range conns {
			for _, u := range k.us {
				if u.early != "" && len(env.log.get(u.tag+"!")) == 0 {
					return false
				}
			}
		}
		return true
	})
	time.Sleep(2 * time.Second)
	for ci, k := range conns {
		if k.cl != nil {
			if st := k.cl.C.State(); st != signalr.ClientConnected {
				c.Violf("disconnected", "client %d is %v: %v", ci, st, k.cl.C.Err())
			}
		} else if e, at := k.rc.Ended(); e {
			c.Violf("disconnected", "raw client %d: the server ended the connection at %v: %v", ci, at, k.rc.Find(func(m Msg) bool { return m.Type == 7 }))
		}
		for _, u := range k.us {
			what := fmt.Sprintf("client %d %v", ci, u)
			if runs := env.log.get(u.tag); len(runs) != 1 {
				c.Violf("executions", "%s: executed %d times", what, len(runs))
			} else if runs[0] != u.argRep {
				c.Violf("wrong-args", "%s: executed with %s, want %s", what, short(runs[0], 400), short(u.argRep, 400))
			}
			if u.early != "" {
				c.Ev("upload.early", "%s", what)
				if got := env.log.get(u.tag + "!"); len(got) != 1 || got[0] != canon([]any{u.early}) {
					c.Violf("items-altered", "%s: after returning, the method got %s, want %s", what, short(fmt.Sprint(got), 500), short(u.early, 500))
				}
			}
			if k.cl != nil {
				vals, closed, _ := out(u).Get()
				judgeUpload(c, what, u, vals, closed)
				continue
			}
			k.rc.judgeBad(what)
			var comps []Msg
			for _, m := range k.rc.Msgs() {
				switch {
				case m.Type == 2:
					c.Violf("stray-item", "%s: stray %v", what, m)
				case m.Type == 3 && m.ID == u.id:
					comps = append(comps, m)
				case m.Type == 3 && strings.HasPrefix(m.ID, u.id+"-s"):
					c.Violf("stream-refused", "%s: the server completed the upload stream: %v", what, m)
				}
			}
			if len(comps) != 1 {
				c.Violf("outcomes", "%s: %d completions: %v", what, len(comps), comps)
				continue
			}
			var vals []signalr.InvokeResult
			if comps[0].HasErr {
				vals = []signalr.InvokeResult{{Error: fmt.Errorf("%s", comps[0].Error)}}
			} else if comps[0].HasRes {
				vals = []signalr.InvokeResult{{Value: comps[0].Result}}
			}
			judgeUpload(c, what, u, vals, true)
		}
	}
}

func judgeUpload(c *Case, what string, u *upload04, vals []signalr.InvokeResult, closed bool) {
	if !closed {
		c.Violf("no-outcome", "%s: the channel never closed", what)
		return
	}
	switch {
	case u.err:
		c.Ev("upload.error", "%s", what)
		if len(vals) != 1 || vals[0].Error == nil {
			c.Violf("outcomes", "%s: should yield one error, got %v", what, vals)
		}
	case u.void:
		c.Ev("upload.void", "%s", what)
		if len(vals) > 1 || len(vals) == 1 && (vals[0].Error != nil || vals[0].Value != nil) {
			c.Violf("outcomes", "%s: should yield nothing, got %v", what, vals)
		}
	default:
		c.Ev("upload.ok", "%s", what)
		if len(vals) != 1 || vals[0].Error != nil {
			c.Violf("outcomes", "%s: should yield one value, got %v", what, vals)
		} else if g := canon(vals[0].Value); g != u.want {
			c.Violf("items-altered", "%s: the method got %s, want %s", what, short(g, 500), short(u.want, 500))
		}
	}
}

// runC04rawServer records what a library client uploads.
func runC04rawServer(c *Case) {
	c.Count("raw-server", 1)
	proto := c.pickProto()
	p, theirs := c.RawServer("c", proto, c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond))
	cl := c.Client(proto, signalr.WithConnection(c.lib(theirs)))
	cl.C.Start()
	if !p.AcceptHandshake() {
		c.Violf("no-handshake", "client sent no handshake")
		return
	}
	p.KeepAlive(4 * time.Second)
	cl.AwaitState(signalr.ClientConnected, 0)
	n := c.Range(1, 6)
	var us []*upload04
	// some calls are answered as soon as the server has them
	early := map[string]bool{}
	p.onMsg = func(m Msg) {
		if m.Type != 1 {
			return
		}
		for _, a := range m.Args {
			if tag, ok := a.(string); ok && early[tag] {
				p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "result-" + tag})
			}
		}
	}
	c.Sample("raw server, %d uploads", n)
	for i := 0; i < n; i++ {
		u := genUpload(c, fmt.Sprintf("u%d", i))
		if c.Chance(30) {
			early[u.tag] = true
			c.Count("early-answer", 1)
		}
		us = append(us, u)
	}
	for _, u := range us {
		args := u.callArgs(c)
		u.o = c.Collect(cl.C.PushStreams(u.method, args...))
		if c.Chance(30) {
			time.Sleep(c.Dur(0, 50*time.Millisecond))
		}
	}
	inv := func(u *upload04) []Msg {
		return p.Find(func(m Msg) bool {
			if m.Type != 1 {
				return false
			}
			for _, a := range m.Args {
				if a == u.tag {
					return true
				}
			}
			return false
		})
	}
	complete := func(u *upload04) bool {
		is := inv(u)
		if len(is) == 0 {
			return false
		}
		for _, s := range is[0].Streams {
			if len(p.Completions(s)) == 0 {
				return false
			}
		}
		return true
	}
	c.Until(0, func() bool {
		for _, u := range us {
			if !complete(u) {
				return false
			}
		}
		return true
	})
	for _, u := range us {
		what := u.String()
		is := inv(u)
		if len(is) != 1 {
			c.Violf("executions", "%s: invoked %d times", what, len(is))
			continue
		}
		m := is[0]
		if m.Target != u.method || canon(m.Args) != canon(u.plainArgs()) || len(m.Streams) != len(u.streams) || m.ID == "" {
			c.Violf("wrong-args", "%s: invoked by %v", what, m)
			continue
		}
		for si, s := range m.Streams {
			var got, want []string
			done := false
			for _, x := range p.Find(func(x Msg) bool { return x.ID == s && (x.Type == 2 || x.Type == 3) }) {
				switch {
				case done:
					c.Violf("after-completion", "%s stream %d: %v after its completion", what, si, x)
				case x.Type == 2:
					got = append(got, canon(x.Item))
					if x.Seq < m.Seq {
						c.Violf("before-invocation", "%s stream %d: item sent before the invocation", what, si)
					}
				default:
					done = true
					if x.HasErr {
						c.Violf("stream-error", "%s stream %d: completed by %v", what, si, x)
					}
				}
			}
			for _, x := range u.streams[si] {
				want = append(want, canon(x))
			}
			if !done {
				c.Violf("no-completion", "%s stream %d: never completed", what, si)
			}
			diffItems(c, fmt.Sprintf("%s stream %d", what, si), got, want)
		}
		c.Ev("upload.sent", "%s", what)
	}
	for i := len(us); i > 0; i-- {
		u := us[c.Intn(len(us))]
		if len(inv(u)) == 0 || u.id != "" {
			continue
		}
		if early[u.tag] {
			u.id = "done"
			continue
		}
		u.id = "done"
		p.Send(Msg{Type: 3, ID: inv(u)[0].ID, HasRes: true, Result: "result-" + u.tag})
	}
	time.Sleep(2 * time.Second)
	for _, u := range us {
		if early[u.tag] {
			u.id = "done"
		}
		vals, closed, _ := u.o.Get()
		if u.id == "done" {
			if !closed || len(vals) != 1 || vals[0].Value != "result-"+u.tag {
				c.Violf("outcomes", "%v: outcome %v (closed %v), want result-%s", u, vals, closed, u.tag)
			}
		} else if closed || len(vals) > 0 {
			c.Violf("outcomes", "%v: unanswered but yielded %v (closed %v)", u, vals, closed)
		}
	}
	for _, b := range p.Bad() {
		c.Violf("malformed", "%s", b)
	}
}
