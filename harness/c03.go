package sigverif

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C03", Quick: 30000, Thorough: 1000000, Run: runC03,
		Rule: "A case is 1..3 connections, each a library client (PullStream) or a raw peer (stream invocations) on a library server, or a library client on a scripted server that interleaves the items of its streams at random; 1..8 concurrent streams per connection with 0..150 items, random pauses of the producer, random speed of the consumer, buffer capacities, plain calls in between, and streams that end with an error (unknown method, panic, value that cannot be serialized).",
		Need: []string{"lib-client", "raw-client", "raw-server", "stream.ok", "stream.error", "slow-consumer", "very-slow", "nil", "ev:hub.StreamAny", "ev:hub.StreamPtr"}})
}

type stream03 struct {
	tag    string
	method string
	args   []any
	want   []string
	err    bool
	errSub string
	delay  time.Duration // consumer's pause per item
	o      *Outcomes
	id     string
}

func genStream(c *Case, tag string) *stream03 {
	s := &stream03{tag: tag}
	n := pick(c, 0, 1, 2, c.Intn(10), c.Intn(40))
	if c.Chance(5) {
		n = c.Range(100, 150)
	}
	ms := pick(c, 0, 0, 0, c.Intn(20))
	if n < 10 {
		ms = pick(c, 0, 0, c.Intn(300))
	}
	items := func(k int) {
		for i := 0; i < k; i++ {
			s.want = append(s.want, canon(fmt.Sprintf("%s/%d", tag, i)))
		}
	}
	switch c.Intn(14) {
	case 12:
		vals := []any{}
		for i := 0; i < n; i++ {
			var v any
			if !c.Chance(25) {
				v = c.genValue(2)
			} else {
				c.Count("nil", 1)
			}
			vals = append(vals, v)
			s.want = append(s.want, canon(v))
		}
		s.method, s.args = "StreamAny", []any{tag, vals}
	case 13:
		vals := []int{}
		for i := 0; i < n; i++ {
			v := c.Range(-3, 10)
			vals = append(vals, v)
			if v < 0 {
				s.want = append(s.want, "null")
			} else {
				s.want = append(s.want, canon(map[string]any{"x": v, "y": tag}))
			}
		}
		s.method, s.args = "StreamPtr", []any{tag, vals}
	case 0:
		s.method, s.args = "StreamInt", []any{tag, n}
		for i := 0; i < n; i++ {
			s.want = append(s.want, canon(i))
		}
	case 1:
		s.method, s.args = "ClosedStream", []any{tag}
	case 2:
		s.method, s.args, s.err, s.errSub = "Nope"+tag, []any{tag}, true, "Nope"+tag
	case 3:
		s.method, s.args, s.err, s.errSub = "PanicStream", []any{tag}, true, "panic-"+tag
	case 4:
		n = min(n, 5)
		s.method, s.args, s.err = "UnserStream", []any{tag, n}, true
		items(n)
	case 5:
		s.method, s.args = "Tag", []any{tag, ms}
		s.want = []string{canon("result-" + tag)}
	default:
		s.method, s.args = "Stream", []any{tag, n, ms, c.Intn(5)}
		items(n)
	}
	if c.Chance(35) {
		s.delay = c.Dur(0, 400*time.Millisecond)
		if n > 40 {
			s.delay = c.Dur(0, 30*time.Millisecond)
		}
	}
	return s
}

// verySlow : as long as its items fit into the stream's buffer, a consumer may take as long as it likes
func verySlow(c *Case, s *stream03, capacity int) {
	if s.delay > 0 && len(s.want) <= capacity && !c.Real && c.Chance(30) {
		s.delay = c.Dur(3*time.Second, 40*time.Second)
		c.Count("very-slow", 1)
	}
}

func collectSlow(c *Case, ch <-chan signalr.InvokeResult, delay time.Duration) *Outcomes {
	o := &Outcomes{}
	go func() {
		for {
			if delay > 0 {
				time.Sleep(delay)
			}
			r, ok := <-ch
			o.mu.Lock()
			o.at = c.Now()
			if !ok {
				o.closed = true
				o.mu.Unlock()
				return
			}
			o.Vals = append(o.Vals, r)
			o.mu.Unlock()
		}
	}()
	return o
}

// judgeStream checks what a PullStream channel delivered.
func judgeStream(c *Case, who string, s *stream03, vals []signalr.InvokeResult, closed bool) {
	what := fmt.Sprintf("%s %s%v", who, s.method, s.args)
	if !closed {
		c.Violf("stream-open", "%s: the channel never closed; got %d of %d items: %s", what, len(vals), len(s.want), short(fmt.Sprint(vals), 500))
		return
	}
	var items []string
	for i, v := range vals {
		if v.Error != nil {
			if i != len(vals)-1 {
				c.Violf("after-error", "%s: something follows the error: %v", what, short(fmt.Sprint(vals), 500))
			}
			if !s.err {
				c.Violf("stream-error", "%s: unexpected error %v after %d items", what, v.Error, i)
			} else if !strings.Contains(v.Error.Error(), s.errSub) {
				c.Violf("wrong-error", "%s: error %q does not name %q", what, v.Error, s.errSub)
			}
			continue
		}
		items = append(items, canon(v.Value))
	}
	if s.err && (len(vals) == 0 || vals[len(vals)-1].Error == nil) {
		c.Violf("no-error", "%s: the stream's error was not delivered: %v", what, short(fmt.Sprint(vals), 500))
	}
	diffItems(c, what, items, s.want)
	if s.err {
		c.Ev("stream.error", "%s: %d items", what, len(items))
	} else {
		c.Ev("stream.ok", "%s: %d items", what, len(items))
	}
}

func diffItems(c *Case, what string, got, want []string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Violf("items-lost", "%s: %d of %d items delivered, first missing %s", what, len(got), len(want), want[i])
			return
		case i >= len(want):
			c.Violf("items-surplus", "%s: surplus item %s", what, got[i])
			return
		case got[i] != want[i]:
			c.Violf("items-differ", "%s: item %d is %s, want %s", what, i, short(got[i], 200), short(want[i], 200))
			return
		}
	}
}

func runC03(c *Case) {
	if c.Chance(30) {
		runC03rawServer(c)
		return
	}
	capacity := pick(c, 1, 2, 10, 50)
	capOpt := signalr.StreamBufferCapacity(uint(capacity))
	srv, _ := c.echoServer(capOpt)
	nc := c.Range(1, 3)
	type conn struct {
		cl *Cli
		rc *RawClient
		ss []*stream03
	}
	var conns []*conn
	for i := 0; i < nc; i++ {
		k := &conn{}
		up, down := c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond)
		proto := c.pickProto()
		if c.Chance(60) {
			c.Count("lib-client", 1)
			mine, theirs := c.Pair(fmt.Sprintf("c%d", i), up, down)
			srv.Serve(theirs)
			k.cl = c.Client(proto, signalr.WithConnection(c.lib(mine)), capOpt)
			k.cl.C.Start()
			if !k.cl.AwaitState(signalr.ClientConnected, 0) {
				c.Violf("no-connect", "client never connected: %v", k.cl.C.Err())
				return
			}
		} else {
			c.Count("raw-client", 1)
			if k.rc = srv.Connect(fmt.Sprintf("c%d", i), proto, up, down); k.rc == nil {
				return
			}
			k.rc.KeepAlive(4 * time.Second)
		}
		n := c.Range(1, 8)
		for j := 0; j < n; j++ {
			s := genStream(c, fmt.Sprintf("c%ds%d", i, j))
			verySlow(c, s, capacity)
			s.id = fmt.Sprint(j)
			k.ss = append(k.ss, s)
		}
		conns = append(conns, k)
	}
	c.Sample("%d connections, %d streams on the first", nc, len(conns[0].ss))
	for _, k := range conns {
		for _, s := range k.ss {
			if c.Chance(30) {
				time.Sleep(c.Dur(0, 100*time.Millisecond))
			}
			if k.cl == nil {
				k.rc.Send(Msg{Type: 4, ID: s.id, Target: s.method, Args: s.args})
				continue
			}
			if s.delay > 0 {
				c.Count("slow-consumer", 1)
			}
			go func() {
				o := collectSlow(c, k.cl.C.PullStream(s.method, s.args...), s.delay)
				c.mu.Lock()
				s.o = o
				c.mu.Unlock()
			}()
			if c.Chance(20) {
				c.Collect(k.cl.C.Invoke("Tag", "x"+s.tag, c.Intn(100)))
			}
		}
	}
	out := func(s *stream03) *Outcomes {
		c.mu.Lock()
		defer c.mu.Unlock()
		return s.o
	}
	c.Until(0, func() bool {
		for _, k := range conns {
			for _, s := range k.ss {
				if k.cl != nil {
					if o := out(s); o == nil || !o.Closed() {
						return false
					}
				} else if len(k.rc.Completions(s.id)) == 0 {
					if e, _ := k.rc.Ended(); !e {
						return false
					}
				}
			}
		}
		return true
	})
	time.Sleep(2 * time.Second)
	for ci, k := range conns {
		if k.cl != nil {
			if st := k.cl.C.State(); st != signalr.ClientConnected {
				c.Violf("disconnected", "client %d is %v: %v", ci, st, k.cl.C.Err())
			}
			for _, s := range k.ss {
				var vals []signalr.InvokeResult
				closed := false
				if o := out(s); o != nil {
					vals, closed, _ = o.Get()
				}
				judgeStream(c, fmt.Sprintf("client %d", ci), s, vals, closed)
			}
			continue
		}
		k.rc.judgeBad(fmt.Sprintf("raw %d", ci))
		for _, s := range k.ss {
			what := fmt.Sprintf("raw %d %s%v", ci, s.method, s.args)
			var items []string
			done := false
			for _, m := range k.rc.Find(func(m Msg) bool { return m.ID == s.id }) {
				switch {
				case done:
					c.Violf("after-completion", "%s: %v after the completion", what, m)
				case m.Type == 2:
					items = append(items, canon(m.Item))
				case m.Type == 3:
					done = true
					if m.HasErr != s.err || m.HasRes && m.Result != nil {
						c.Violf("wrong-end", "%s: stream ended by %v", what, m)
					}
				}
			}
			if !done {
				c.Violf("stream-open", "%s: no completion, %d of %d items", what, len(items), len(s.want))
			}
			diffItems(c, what, items, s.want)
			c.Ev("rawstream", "%s: %d items", what, len(items))
		}
	}
}

func runC03rawServer(c *Case) {
	c.Count("raw-server", 1)
	proto := c.pickProto()
	p, theirs := c.RawServer("c", proto, c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond))
	capacity := pick(c, 1, 2, 10, 50)
	cl := c.Client(proto, signalr.WithConnection(c.lib(theirs)), signalr.StreamBufferCapacity(uint(capacity)))
	ch := make(chan Msg, 100)
	p.onMsg = func(m Msg) {
		if m.Type == 4 {
			ch <- m
		}
	}
	cl.C.Start()
	if !p.AcceptHandshake() {
		c.Violf("no-handshake", "client sent no handshake")
		return
	}
	p.KeepAlive(4 * time.Second)
	cl.AwaitState(signalr.ClientConnected, 0)
	n := c.Range(1, 8)
	c.Sample("raw server, %d streams", n)
	var ss []*stream03
	byTag := map[string]*stream03{}
	for i := 0; i < n; i++ {
		s := &stream03{tag: fmt.Sprintf("s%d", i), method: "M"}
		s.args = []any{s.tag}
		k := pick(c, 0, 1, c.Intn(12), c.Intn(60))
		for j := 0; j < k; j++ {
			s.want = append(s.want, canon(fmt.Sprintf("%s/%d", s.tag, j)))
		}
		if c.Chance(25) {
			s.err, s.errSub = true, "failed-"+s.tag
		}
		if c.Chance(40) {
			s.delay = c.Dur(0, 300*time.Millisecond)
		}
		verySlow(c, s, capacity)
		ss = append(ss, s)
		byTag[s.tag] = s
	}
	stop := make(chan struct{})
	c.Cleanup(func() { close(stop) })
	go func() {
		type run struct {
			s   *stream03
			id  string
			pos int
		}
		var runs []*run
		left := n
		for left > 0 {
			var t <-chan time.Time
			if len(runs) > 0 {
				t = time.After(c.Dur(0, 20*time.Millisecond))
			}
			select {
			case m := <-ch:
				tag, _ := m.Args[0].(string)
				if byTag[tag] == nil {
					c.Violf("wrong-args", "unexpected invocation %v", m)
					return
				}
				runs = append(runs, &run{s: byTag[tag], id: m.ID})
				continue
			case <-t:
			case <-stop:
				return
			}
			var batch []Msg
			for i := c.Range(1, 12); i > 0 && len(runs) > 0; i-- {
				j := c.Intn(len(runs))
				r := runs[j]
				if r.pos < len(r.s.want) {
					batch = append(batch, Msg{Type: 2, ID: r.id, Item: fmt.Sprintf("%s/%d", r.s.tag, r.pos)})
					r.pos++
				} else {
					m := Msg{Type: 3, ID: r.id}
					if r.s.err {
						m.HasErr, m.Error = true, r.s.errSub
					}
					batch = append(batch, m)
					runs = append(runs[:j], runs[j+1:]...)
					left--
				}
				if c.Chance(5) {
					batch = append(batch, Msg{Type: 6})
				}
			}
			if p.Send(batch...) != nil {
				return
			}
		}
	}()
	for _, s := range ss {
		if c.Chance(20) {
			time.Sleep(c.Dur(0, 50*time.Millisecond))
		}
		if s.delay > 0 {
			c.Count("slow-consumer", 1)
		}
		s.o = collectSlow(c, cl.C.PullStream(s.method, s.args...), s.delay)
	}
	c.Until(0, func() bool {
		for _, s := range ss {
			if !s.o.Closed() {
				return false
			}
		}
		return true
	})
	if st := cl.C.State(); st != signalr.ClientConnected {
		c.Violf("disconnected", "client is %v: %v", st, cl.C.Err())
	}
	for _, s := range ss {
		vals, closed, _ := s.o.Get()
		judgeStream(c, "client of raw server", s, vals, closed)
	}
	for _, b := range p.Bad() {
		c.Violf("malformed", "%s", b)
	}
}
