package sigverif

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C17", Quick: 30000, Thorough: 1000000, Run: runC17,
		Rule: "A case is one of three: upload streams opened, fed, refused, completed (also with errors) and abused in random order against a small, default or missing limit by raw peers or a library client, with a second connection using its own places; methods which read their upload stream with pauses around the channel receive timeout and with several buffer capacities; stream results of which many, also more than the limit, are cancelled at random moments, also twice, unknown and ended ones, while others run on.",
		Need: []string{"limit", "limit.lib", "limit.default", "limit.none", "slow", "slow.timeout", "slow.ok", "cancel", "cancel.many", "cancel.early", "ev:refused", "ev:opened", "ev:cancelled", "refused.item", "freed", "stalled"}})
}

func runC17(c *Case) {
	switch c.Intn(8) {
	case 0, 1:
		limit17(c)
	case 2:
		limitLib17(c)
	case 3, 4:
		slow17(c)
	default:
		cancel17(c)
	}
}

type up17 struct {
	id, tag string
	sids    []string
	items   [2][]any
	open    []bool
	refused bool
	two     bool
}

func (u *up17) want() string {
	join := func(xs []any) string {
		s := ""
		for _, x := range xs {
			s += fmt.Sprint(x) + ";"
		}
		return s
	}
	if u.two {
		return canon([]any{join(u.items[0]), "x", join(u.items[1])})
	}
	return canon(join(u.items[0]))
}

// limit17: a model of the open streams decides for each invocation whether it has to be refused.
func limit17(c *Case) {
	c.Count("limit", 1)
	limit := pick(c, 1, 1, 2, 2, 3, 4, 5, 7)
	var opts []opt
	ops := c.Range(5, 50)
	special := ""
	switch c.Intn(12) {
	case 0:
		limit, special, ops = 100, "limit.default", 140
	case 1:
		limit, special, ops = 0, "limit.none", c.Range(5, 140)
	}
	if special != "" {
		c.Count(special, 1)
	}
	if special != "limit.default" {
		opts = append(opts, signalr.MaxConcurrentStreams(uint(limit)))
	}
	srv, env := c.echoServer(opts...)
	nconn := c.Range(1, 2)
	c.Sample("limit %d, %d operations on each of %d connections", limit, ops, nconn)
	type peer17 struct {
		r   *RawClient
		ups []*up17
	}
	var peers []*peer17
	for i := 0; i < nconn; i++ {
		r := srv.Connect(fmt.Sprintf("c%d", i), c.pickProto(), c.RandCond(pick(c, 0, 20*time.Millisecond)), Cond{})
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		peers = append(peers, &peer17{r: r})
	}
	serial := 0
	used := func(p *peer17) (n int) {
		for _, u := range p.ups {
			for _, o := range u.open {
				if o {
					n++
				}
			}
		}
		return
	}
	var batch = map[*peer17][]Msg{}
	flush := func(p *peer17) {
		if len(batch[p]) > 0 {
			_ = p.r.Send(batch[p]...)
			batch[p] = nil
		}
	}
	for op := 0; op < ops; op++ {
		p := peers[c.Intn(len(peers))]
		var live, dead [][2]int // upload, stream
		for i, u := range p.ups {
			for s := range u.sids {
				if u.open[s] {
					live = append(live, [2]int{i, s})
				} else if u.refused {
					dead = append(dead, [2]int{i, s})
				}
			}
		}
		kind := c.Intn(10)
		if special != "" && c.Chance(80) {
			kind = 0
		}
		switch {
		case kind <= 3 || len(live)+len(dead) == 0:
			serial++
			u := &up17{id: fmt.Sprintf("i%d", serial), tag: fmt.Sprintf("u%d", serial), two: c.Chance(30)}
			n := 1
			if u.two {
				n = 2
			}
			for s := 0; s < n; s++ {
				u.sids = append(u.sids, fmt.Sprintf("s%d.%d", serial, s))
				u.open = append(u.open, false)
			}
			m := Msg{Type: 1, ID: u.id, Target: "Collect", Args: []any{u.tag}, Streams: u.sids}
			if u.two {
				m.Target, m.Args = "Collect2", []any{u.tag, "x"}
			}
			bad := c.Chance(15)
			if bad {
				// refused for another reason, takes no place
				switch c.Intn(3) {
				case 0:
					m.Target = "NoSuchMethod"
				case 1:
					m.Args = append(m.Args, "one more")
				default:
					m.Streams = append(append([]string{}, m.Streams...), u.sids[0]+"x")
				}
			}
			if bad || limit > 0 && used(p)+n > limit {
				u.refused = true
				c.Ev("refused", "%s %v", u.id, bad)
			} else {
				if limit > 0 && used(p)+n == limit && len(dead) > 0 {
					c.Count("freed", 1)
				}
				for s := range u.open {
					u.open[s] = true
				}
				c.Ev("opened", "%s %d/%d", u.id, used(p), limit)
			}
			p.ups = append(p.ups, u)
			batch[p] = append(batch[p], m)
		case kind <= 5 && len(live) > 0:
			l := live[c.Intn(len(live))]
			u := p.ups[l[0]]
			var x any = fmt.Sprintf("%s/%d", u.sids[l[1]], len(u.items[l[1]]))
			if u.two && l[1] == 0 {
				x = len(u.items[0])
			}
			u.items[l[1]] = append(u.items[l[1]], x)
			batch[p] = append(batch[p], Msg{Type: 2, ID: u.sids[l[1]], Item: x})
		case kind <= 7 && len(live) > 0:
			l := live[c.Intn(len(live))]
			u := p.ups[l[0]]
			u.open[l[1]] = false
			m := Msg{Type: 3, ID: u.sids[l[1]]}
			if c.Chance(25) {
				m.HasErr, m.Error = true, "gave up"
			}
			c.Ev("completed", "%s", m.ID)
			batch[p] = append(batch[p], m)
		case len(dead) > 0:
			// the peer did not know of the refusal yet
			l := dead[c.Intn(len(dead))]
			u := p.ups[l[0]]
			if u.two && l[1] == 0 {
				break
			}
			c.Count("refused.item", 1)
			batch[p] = append(batch[p], Msg{Type: 2, ID: u.sids[l[1]], Item: "late"})
		}
		if c.Chance(50) {
			flush(p)
		}
		if c.Chance(10) {
			time.Sleep(c.Dur(0, 100*time.Millisecond))
		}
	}
	for _, p := range peers {
		for _, u := range p.ups {
			for s := range u.sids {
				if u.open[s] || u.refused && c.Chance(50) {
					batch[p] = append(batch[p], Msg{Type: 3, ID: u.sids[s]})
				}
			}
		}
		flush(p)
		_ = p.r.Send(Msg{Type: 1, ID: "last", Target: "Tag", Args: []any{"last", 0}})
	}
	c.Until(20*time.Second, func() bool {
		for _, p := range peers {
			for _, u := range p.ups {
				if len(p.r.Completions(u.id)) == 0 {
					return false
				}
			}
			if len(p.r.Completions("last")) == 0 {
				return false
			}
		}
		return true
	})
	time.Sleep(100 * time.Millisecond)
	for ci, p := range peers {
		if e, _ := p.r.Ended(); e {
			c.Violf("disturbed", "connection %d (limit %d) was ended: %v", ci, limit, p.r.Find(func(m Msg) bool { return m.Type == 7 }))
			continue
		}
		p.r.judgeBad(fmt.Sprintf("connection %d", ci))
		for _, u := range p.ups {
			cs := p.r.Completions(u.id)
			if len(cs) != 1 {
				c.Violf("completions", "connection %d (limit %d): upload %s (refused %v) got %d completions", ci, limit, u.id, u.refused, len(cs))
				continue
			}
			ran := len(env.log.get(u.tag))
			if u.refused {
				if !cs[0].HasErr || cs[0].Error == "" || ran > 0 {
					c.Violf("not-refused", "connection %d (limit %d): upload %s above the limit was answered by %v and executed %d times", ci, limit, u.id, cs[0], ran)
				}
			} else if cs[0].HasErr {
				c.Violf("refused", "connection %d (limit %d): upload %s within the limit was answered by %v", ci, limit, u.id, cs[0])
			} else if got := canon(cs[0].Result); got != u.want() {
				c.Violf("items", "connection %d (limit %d): upload %s: the method got %s, want %s", ci, limit, u.id, short(got, 300), short(u.want(), 300))
			}
		}
		if n := len(p.r.Completions("last")); n != 1 {
			c.Violf("disturbed", "connection %d (limit %d): a call after the uploads was answered %d times", ci, limit, n)
		}
	}
}

// limitLib17 does the same with PushStreams.
func limitLib17(c *Case) {
	c.Count("limit.lib", 1)
	limit := pick(c, 1, 2, 3)
	srv, env := c.echoServer(signalr.MaxConcurrentStreams(uint(limit)))
	up, down := c.RandCond(20*time.Millisecond), c.RandCond(20*time.Millisecond)
	mine, theirs := c.Pair("c", up, down)
	srv.Serve(theirs)
	cl := c.Client(c.pickProto(), signalr.WithConnection(c.lib(mine)))
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	type push struct {
		tag  string
		ch   chan string
		o    *Outcomes
		want string
	}
	var open, refused []*push
	end := func(u *push) {
		close(u.ch)
		c.Until(5*time.Second, u.o.Closed)
		if vs, closed, _ := u.o.Get(); !closed || len(vs) != 1 || vs[0].Error != nil || vs[0].Value != u.want {
			c.Violf("disturbed", "upload %s yields %v (closed %v), want %s", u.tag, vs, closed, u.want)
		}
		// its completion has been processed for sure when the method has returned
		c.Ev("ended", "%s", u.tag)
	}
	for i, n := 0, c.Range(limit+1, 14); i < n && !c.failed(); i++ {
		u := &push{tag: fmt.Sprintf("u%d", i), ch: make(chan string, 100)}
		for k, m := 0, c.Intn(4); k < m; k++ {
			s := fmt.Sprintf("%s.%d", u.tag, k)
			u.want += s + ";"
			u.ch <- s
		}
		u.o = c.Collect(cl.C.PushStreams("Collect", u.tag, u.ch))
		if len(open) >= limit {
			c.Until(5*time.Second, u.o.Closed)
			if vs, closed, _ := u.o.Get(); !closed || len(vs) != 1 || vs[0].Error == nil || len(env.log.get(u.tag)) > 0 {
				c.Violf("not-refused", "upload %s beyond the limit of %d yields %v (closed %v), executed %d times", u.tag, limit, vs, closed, len(env.log.get(u.tag)))
				return
			}
			c.Ev("refused", "%s", u.tag)
			refused = append(refused, u)
		} else {
			c.Until(5*time.Second, func() bool { return len(env.log.get(u.tag)) > 0 })
			if vs, closed, _ := u.o.Get(); closed || len(env.log.get(u.tag)) != 1 {
				c.Violf("refused", "upload %s with %d open of %d yields %v (closed %v)", u.tag, len(open), limit, vs, closed)
				return
			}
			c.Ev("opened", "%s", u.tag)
			open = append(open, u)
		}
		if len(refused) > 0 && c.Chance(40) {
			// the caller goes on with a refused upload, or ends it
			u := refused[c.Intn(len(refused))]
			if c.Bool() {
				c.Count("refused.item", 1)
				u.ch <- "late"
			}
		}
		if len(open) > 0 && c.Chance(40) {
			k := c.Intn(len(open))
			x := open[k]
			if c.Bool() {
				s := x.tag + ".later"
				x.want += s + ";"
				x.ch <- s
			}
			open = append(open[:k], open[k+1:]...)
			end(x)
			c.Count("freed", 1)
		}
	}
	for _, u := range refused {
		close(u.ch)
	}
	for _, u := range open {
		end(u)
	}
	time.Sleep(time.Second)
	if st := cl.C.State(); st != signalr.ClientConnected {
		c.Violf("disturbed", "the client is %s: %v", stateName(st), cl.C.Err())
	}
}

// Hub17 reads upload streams slowly.
type Hub17 struct {
	EchoHub
}

// Slow waits the given milliseconds before it takes each item.
func (h *Hub17) Slow(tag string, pauses []int, in <-chan string) string {
	h.e.log.add(tag)
	s := ""
	for i := 0; ; i++ {
		if i < len(pauses) {
			time.Sleep(time.Duration(pauses[i]) * time.Millisecond)
		}
		x, ok := <-in
		if !ok {
			return s
		}
		h.e.log.add(tag+"!", x)
		s += x + ";"
	}
}

// slow17: items not taken for the receive timeout.
func slow17(c *Case) {
	c.Count("slow", 1)
	T := pick(c, 500*time.Millisecond, time.Second, 5*time.Second, c.Dur(200*time.Millisecond, 8*time.Second))
	buf := pick(c, 1, 1, 2, 3, 10)
	env := &hubEnv{c: c, log: newCallLog()}
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &Hub17{EchoHub{e: env}} }),
		signalr.ChanReceiveTimeout(T), signalr.StreamBufferCapacity(uint(buf)), signalr.TimeoutInterval(5*time.Hour))
	r := srv.Connect("c", c.pickProto(), c.RandCond(0), Cond{})
	if r == nil {
		return
	}
	// items are sent one after the other, the pauses of the method decide which of them has to wait
	n := c.Range(1, 14)
	pauses := make([]int, n+1)
	for i := range pauses {
		switch c.Intn(6) {
		case 0:
			pauses[i] = int(T/time.Millisecond) * c.Range(5, 9) / 10
		case 1:
			pauses[i] = int(T/time.Millisecond) * c.Range(11, 30) / 10
		case 2:
			pauses[i] = c.Intn(int(T / time.Millisecond))
		}
	}
	if c.Chance(15) {
		pauses[c.Intn(n)] = 600000
	}
	c.Sample("timeout %v, buffer %d, %d items, pauses %v ms", T, buf, n, pauses)
	_ = r.Send(Msg{Type: 1, ID: "1", Target: "Slow", Args: []any{"slow", pauses}, Streams: []string{"s"}})
	c.Until(0, func() bool { return len(env.log.get("slow")) > 0 })
	start := c.Now()
	// The model: the method is ready to take item i at ready(i); item i fits into the buffer when item i-buf-1
	// has been taken (the item before the first waits in the hands of the method), and it is handled after item i-1.
	taken := make([]time.Duration, 0, n)
	var sentAt []time.Duration
	timeoutAt := time.Duration(-1) // when the first item times out
	// margin: how near the decision is
	near := false
	handled := start
	ready := start
	var gap time.Duration
	for i := 0; i < n; i++ {
		if c.Chance(30) {
			gap = c.Dur(0, 2*T)
		} else {
			gap = 0
		}
		s := start
		if i > 0 {
			s = sentAt[i-1]
		}
		s += gap
		sentAt = append(sentAt, s)
		if handled < s {
			handled = s
		}
		// a place is free when item i-buf has been taken
		free := start
		if i-buf >= 0 {
			free = taken[i-buf]
		}
		if free < handled {
			free = handled
		}
		d := free - handled - T
		if d > -20*time.Millisecond && d < 20*time.Millisecond {
			near = true
		}
		if d > 0 {
			timeoutAt = handled + T
			break
		}
		handled = free
		// taken as soon as the method is ready and the item is there
		ready += time.Duration(pauses[i]) * time.Millisecond
		t := ready
		if t < handled {
			t = handled
		}
		taken = append(taken, t)
		ready = t
	}
	_ = near
	sent := 0
	for i, s := range sentAt {
		if d := s - c.Now(); d > 0 {
			time.Sleep(d)
		}
		if len(r.Completions("s")) > 0 {
			break
		}
		_ = r.Send(Msg{Type: 2, ID: "s", Item: fmt.Sprint(i)})
		sent++
	}
	if near {
		// too close to call, in real time also everything else would be
		c.Ev("near", "%d", n)
	}
	if timeoutAt >= 0 && !near {
		c.Count("slow.timeout", 1)
		c.Until(timeoutAt-c.Now()+10*time.Second, func() bool { return len(r.Completions("s")) > 0 })
		cs := r.Completions("s")
		if len(cs) == 0 || !cs[0].HasErr {
			c.Violf("not-told", "an upload item was not taken for %v (timeout at %v), but the peer was told %v", T, timeoutAt, cs)
			return
		}
		if cs[0].At < timeoutAt-c.tol() || cs[0].At > timeoutAt+c.tol() {
			c.Violf("told-time", "the peer was told at %v that an upload item was not taken, this should happen at %v (start %v, timeout %v, buffer %d, pauses %v)", cs[0].At, timeoutAt, start, T, buf, pauses)
		}
		c.Ev("told", "%v", T)
	} else if !near {
		c.Count("slow.ok", 1)
		if d := handled - c.Now(); d > 0 {
			time.Sleep(d)
		}
		if cs := r.Completions("s"); len(cs) > 0 {
			c.Violf("told-early", "all items are taken within %v, but the peer was told %v (start %v, buffer %d, pauses %v)", T, cs, start, buf, pauses)
			return
		}
		c.Ev("in-time", "%d", n)
	}
	// the connection goes on in either case
	_ = r.Send(Msg{Type: 3, ID: "s"}, Msg{Type: 1, ID: "after", Target: "Tag", Args: []any{"after", 0}})
	c.Until(time.Duration(n+3)*T+10*time.Second, func() bool { return len(r.Completions("after")) > 0 })
	if e, at := r.Ended(); e {
		c.Violf("ended", "the server ended the connection at %v because of a slow method", at)
		return
	}
	if len(r.Completions("after")) != 1 {
		c.Violf("blocked", "a call after a slow upload is not answered")
		return
	}
	if timeoutAt < 0 && !near {
		c.Until(0, func() bool { return len(r.Completions("1")) > 0 })
		want := ""
		for i := 0; i < sent; i++ {
			want += fmt.Sprint(i) + ";"
		}
		if cs := r.Completions("1"); len(cs) != 1 || cs[0].HasErr || cs[0].Result != want {
			c.Violf("items", "slow upload of %d items: %v", sent, cs)
		}
	}
	r.judgeBad("slow upload")
}

// cancel17: stream results are cancelled.
func cancel17(c *Case) {
	c.Count("cancel", 1)
	var opts []opt
	limit := pick(c, 0, 1, 2, 3, 100)
	if limit != 100 {
		opts = append(opts, signalr.MaxConcurrentStreams(uint(limit)))
	}
	srv, _ := c.echoServer(opts...)
	down := c.RandCond(pick(c, 0, 20*time.Millisecond))
	r := srv.Connect("c", c.pickProto(), c.RandCond(pick(c, 0, 20*time.Millisecond)), down)
	if r == nil {
		return
	}
	r.KeepAlive(4 * time.Second)
	n := c.Range(1, 12)
	if c.Chance(10) {
		n = c.Range(20, 130)
	}
	if limit > 0 && n > limit {
		c.Count("cancel.many", 1)
	}
	type st struct {
		id      string
		n       int
		cancel  bool
		mark    string
		idle    bool
		early   bool
		started time.Duration
	}
	var sts []*st
	stalled := false
	earlyPct := pick(c, 15, 15, 15, 80)
	c.Sample("%d stream results, limit %d", n, limit)
	marks := 0
	cancel := func(s *st, before ...Msg) {
		marks++
		s.cancel = true
		s.mark = fmt.Sprintf("mark%d", marks)
		ms := append(before, Msg{Type: 5, ID: s.id})
		if c.Chance(20) {
			ms = append(ms, Msg{Type: 5, ID: s.id})
		}
		ms = append(ms, Msg{Type: 1, ID: s.mark, Target: "Tag", Args: []any{s.mark, 0}})
		c.Ev("cancelled", "%s", s.id)
		_ = r.Send(ms...)
	}
	for i := 0; i < n; i++ {
		s := &st{id: fmt.Sprintf("st%d", i), started: c.Now()}
		s.n = pick(c, 3, 30, c.Range(1, 60))
		if c.Chance(8) {
			s.n = 1000
		}
		ms := pick(c, 1, 5, 20, 100)
		idle := 50000
		if c.Real {
			ms, idle = min(ms, 20), 5000
		}
		s.cancel = false
		sts = append(sts, s)
		target := "Stream"
		args := []any{"t" + s.id, s.n, ms, pick(c, 0, 1, 10)}
		if c.Chance(15) {
			// an upload stream which is echoed: nothing comes while nothing is sent
			s.idle = true
		}
		m := Msg{Type: 4, ID: s.id, Target: target, Args: args}
		if s.idle {
			m.Args = []any{"t" + s.id, 1, idle, 0}
		}
		if c.Chance(earlyPct) && !stalled {
			// cancelled before its method has returned the channel
			s.early = true
			c.Count("cancel.early", 1)
			cancel(s, m)
		} else {
			_ = r.Send(m)
		}
		if c.Chance(60) {
			time.Sleep(c.Dur(0, 200*time.Millisecond))
		}
		if !stalled && c.Chance(10) {
			stalled = true
			c.Count("stalled", 1)
			r.Far.out.Stall()
		} else if stalled && c.Chance(30) {
			stalled = false
			r.Far.out.Unstall()
		}
		if c.Chance(70) || n > 15 {
			x := sts[c.Intn(len(sts))]
			if n > 15 {
				x = s
			}
			// wait until it runs for sure
			if !stalled && !x.cancel && (x.idle || !c.Until(time.Second, func() bool {
				return r.Count(x.id) > 0
			})) {
				time.Sleep(100 * time.Millisecond)
			}
			if !x.cancel && !stalled {
				cancel(x)
			}
		}
		if c.Chance(10) {
			_ = r.Send(Msg{Type: 5, ID: pick(c, "unknown", "", "mark1", "st0x")})
		}
	}
	if stalled {
		r.Far.out.Unstall()
	}
	// what is not cancelled runs to its end
	pending := 0
	c.Until(0, func() bool {
		for pending < n && len(r.Completions(sts[pending].id)) > 0 {
			pending++
		}
		return pending == n
	})
	time.Sleep(time.Second)
	if e, at := r.Ended(); e {
		c.Violf("ended", "the server ended the connection at %v: %v", at, r.Find(func(m Msg) bool { return m.Type == 7 }))
		return
	}
	for _, s := range sts {
		if len(r.Completions(s.id)) != 1 {
			c.Violf("completions", "stream %s (cancelled %v, after %d others) got %d completions", s.id, s.cancel, n, len(r.Completions(s.id)))
			continue
		}
		var items []Msg
		after := 0
		marked, completed := false, false
		var cancelAt time.Duration
		for _, m := range r.Msgs() {
			switch {
			case m.Type == 3 && m.ID == s.mark && s.cancel:
				marked, cancelAt = true, m.At
			case m.ID == s.id && m.Type == 2:
				if completed {
					c.Violf("after-completion", "stream %s: item after its completion", s.id)
				}
				items = append(items, m)
				if marked {
					after++
				}
			case m.ID == s.id && m.Type == 3:
				completed = true
				if m.HasErr {
					c.Violf("error", "stream %s (cancelled %v): completed by %v", s.id, s.cancel, m)
				}
				if marked && !c.Real && m.At-cancelAt > 70*time.Second {
					c.Violf("late-completion", "stream %s: the cancel was processed at %v, its completion came at %v", s.id, cancelAt, m.At)
				}
			}
		}
		for i, m := range items {
			if m.Item != fmt.Sprintf("t%s/%d", s.id, i) {
				c.Violf("items", "stream %s: item %d is %v", s.id, i, m.Item)
				break
			}
		}
		want := s.n
		if s.idle {
			want = 1
		}
		switch {
		case s.cancel && !marked:
			c.Violf("mark", "stream %s: the call after the cancel was not answered", s.id)
		case s.cancel && after > 1:
			c.Violf("not-cancelled", "stream %s (of %d, limit %d): %d items after the cancel had been processed", s.id, n, limit, after)
		case !s.cancel && len(items) != want:
			c.Violf("items", "stream %s was not cancelled, but only %d of %d items came", s.id, len(items), want)
		}
		c.Ev(fmt.Sprintf("stream.%v", s.cancel), "%s %d of %d", s.id, len(items), want)
	}
	if strings.Contains(fmt.Sprint(r.Bad()), "malformed") {
		c.Violf("malformed", "%v", r.Bad())
	}
}
