package sigverif

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C14", Quick: 100000, Thorough: 3000000, Run: runC14,
		Rule: "A case is a client with a connector whose 1..6 attempts fail in the connector, in the handshake (error, garbage, silence, close) or yield a connection that lives for a while, during which 0..4 calls (and calls started while connecting) are answered, left pending or answered late on the old connection, and that ends by close, reset, close message with and without reconnect, garbage, silence or a failing write; the back-off is fixed, growing or ends; Stop or cancel may come at any time.",
		Need: []string{"try.connector", "try.hs-error", "try.hs-garbage", "try.hs-silent", "try.hs-close", "try.good", "end.close", "end.reset", "end.msg-allow", "end.msg-deny", "end.garbage", "end.silence", "end.write", "gaveup.backoff", "gaveup.deny", "gaveup.stop", "reconnected", "stale-answer", "restarted", "in-backoff", "ev:answered", "ev:pending"}})
}

type try14 struct {
	n     int
	kind  string
	end   string
	stay  time.Duration
	calls int
	p     *Peer
	conn  *Conn
	at    time.Duration // when the connector was called
	endAt time.Duration // when it failed or ended, as the peer knows
	up    bool          // the client was seen connected
}

type call14 struct {
	tag     string
	pending bool
	o       *Outcomes
	on      []int // attempts on which the invocation arrived
}

type backoff14 struct {
	c     *Case
	mu    sync.Mutex
	d     time.Duration
	grow  bool
	left  int // -1: never ends
	next  time.Duration
	calls int
	ended bool

	resets int
	due    func() bool // the last connection has worked
}

func (b *backoff14) NextBackOff() time.Duration {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls++
	if b.due() && b.resets == 0 {
		b.c.Violf("no-reset", "the back-off was not reset although the last connection had worked")
	}
	b.resets = 0
	if b.left == 0 {
		b.ended = true
		return backoff.Stop
	}
	if b.left > 0 {
		b.left--
	}
	if b.grow {
		b.d = b.d * 3 / 2
	}
	b.next = b.d
	return b.d
}
func (b *backoff14) Reset() {
	b.mu.Lock()
	b.resets++
	b.mu.Unlock()
}

func runC14(c *Case) {
	proto := c.pickProto()
	bo := &backoff14{c: c, d: c.Dur(0, 3*time.Second), grow: c.Bool(), left: -1}
	if c.Chance(15) {
		bo.left = c.Intn(4)
	}
	n := c.Range(1, 6)
	script := make([]*try14, n+1)
	for i := range script {
		t := &try14{n: i, kind: pick(c, "good", "good", "good", "connector", "hs-error", "hs-garbage", "hs-silent", "hs-close"), end: pick(c, "close", "reset", "msg-allow", "msg-deny", "garbage", "silence", "write"), stay: c.Dur(0, 3*time.Second), calls: c.Intn(5)}
		if t.end == "msg-deny" && c.Bool() {
			t.end = "msg-allow"
		}
		if i == n {
			t.kind, t.end = "good", "stop"
		}
		script[i] = t
	}
	stopEarly := time.Duration(-1)
	if c.Chance(15) {
		stopEarly = c.Dur(0, 20*time.Second)
	}
	c.Sample("%s, %d attempts, back-off %v grow %v left %d", proto.Name(), n, bo.d, bo.grow, bo.left)

	var mu sync.Mutex
	next := 0
	lastEnd := time.Duration(-1)
	denied := false
	stopped := time.Duration(-1)
	var reached []*try14
	var calls []*call14
	attempts := make(chan *try14, 100)
	bo.due = func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(reached) > 0 && reached[len(reached)-1].up && reached[len(reached)-1].stay > time.Millisecond && stopped < 0
	}
	var again func() (signalr.Connection, error) // used after the client was started again
	connector := func() (signalr.Connection, error) {
		now := c.Now()
		mu.Lock()
		f := again
		mu.Unlock()
		if f != nil {
			return f()
		}
		mu.Lock()
		defer mu.Unlock()
		if denied {
			c.Violf("connect-after-deny", "the connector was asked at %v although the server does not allow to reconnect", now)
		}
		if stopped >= 0 && now > stopped+time.Second {
			c.Violf("connect-after-stop", "the connector was asked at %v, the client was stopped at %v", now, stopped)
		}
		bo.mu.Lock()
		if bo.ended {
			c.Violf("connect-after-backoff", "the connector was asked at %v although the back-off has ended", now)
		}
		wait := bo.next
		bo.mu.Unlock()
		if next > 0 && lastEnd >= 0 {
			slack := 7 * time.Second // the close message may take its time
			if now < lastEnd+wait {
				c.Violf("no-backoff", "attempt %d at %v came earlier than the back-off of %v after the end at %v", next, now, wait, lastEnd)
			}
			if c.Real {
				slack += 5 * time.Second
			}
			if now > lastEnd+wait+slack {
				c.Violf("late", "attempt %d at %v came later than the back-off of %v after the end at %v", next, now, wait, lastEnd)
			}
		}
		if next >= len(script) {
			c.Violf("lost-again", "the connector was asked once more at %v, but the last connection is fine", now)
			return nil, errors.New("enough")
		}
		t := script[next]
		next++
		t.at = now
		reached = append(reached, t)
		c.Count("try."+t.kind, 1)
		c.Ev("try."+t.kind+"."+t.end, "%d", t.n)
		if t.kind == "connector" {
			lastEnd = now
			attempts <- t
			return nil, errors.New("server not reachable")
		}
		t.p, t.conn = c.RawServer(fmt.Sprintf("c%d", t.n), proto, c.RandCond(0), c.RandCond(0))
		attempts <- t
		return t.conn, nil
	}
	// The application handles invocations from the server
	recv := &C05Recv{c, newCallLog()}
	cl := c.Client(proto, signalr.WithConnector(connector), signalr.WithReceiver(recv), signalr.WithBackoff(func() backoff.BackOff {
		mu.Lock()
		defer mu.Unlock()
		if again != nil {
			return backoff.NewConstantBackOff(time.Second)
		}
		return bo
	}), signalr.HandshakeTimeout(5*time.Second), signalr.TimeoutInterval(10*time.Second))
	serial := 0
	issue := func(pending bool) *call14 {
		mu.Lock()
		serial++
		k := &call14{tag: fmt.Sprintf("t%d", serial), pending: pending}
		if pending {
			k.tag = fmt.Sprintf("p%d", serial)
		}
		calls = append(calls, k)
		mu.Unlock()
		k.o = c.Collect(cl.C.Invoke("M", k.tag))
		return k
	}
	ended := func(t *try14) {
		mu.Lock()
		t.endAt = c.Now()
		lastEnd = t.endAt
		mu.Unlock()
	}
	cl.C.Start()
	if stopEarly >= 0 {
		time.AfterFunc(stopEarly, func() {
			mu.Lock()
			stopped = c.Now()
			mu.Unlock()
			if c.Bool() {
				cl.C.Stop()
			} else {
				cl.Cancel()
			}
		})
	}
	isStopped := func() bool { mu.Lock(); defer mu.Unlock(); return stopped >= 0 }
	gaveUp := ""
	var old []*try14
	var waiting []*call14 // issued while the client was not connected
loop:
	for i := 0; ; i++ {
		if i > 0 && c.Chance(40) && !isStopped() && !denied {
			// in the middle of the back-off
			var d time.Duration
			state := func() (calls int, over bool) {
				bo.mu.Lock()
				defer bo.mu.Unlock()
				d = bo.next
				return bo.calls, bo.ended || isStopped()
			}
			c.Until(30*time.Second, func() bool { n, over := state(); return n >= i || over })
			if n, over := state(); n == i && !over && d > 10*time.Millisecond && (!c.Real || d > time.Second) {
				time.Sleep(d / 2)
				st := cl.C.State()
				if n, over := state(); n == i && !over && len(attempts) == 0 {
					if st != signalr.ClientConnecting {
						c.Violf("backoff-state", "after attempt %d, in the middle of the back-off of %v, the client is %s", i-1, d, stateName(st))
					}
					c.Count("in-backoff", 1)
					waiting = append(waiting, issue(false))
				}
			}
		}
		var t *try14
		ok := c.Until(2*time.Minute, func() bool {
			select {
			case t = <-attempts:
				return true
			default:
			}
			bo.mu.Lock()
			e := bo.ended
			bo.mu.Unlock()
			return e || isStopped() || denied
		})
		if t == nil {
			bo.mu.Lock()
			e := bo.ended
			bo.mu.Unlock()
			switch {
			case e:
				gaveUp = "backoff"
			case isStopped():
				gaveUp = "stop"
			case denied:
				gaveUp = "deny"
			}
			if !ok {
				c.Violf("not-reconnecting", "after attempt %d the connector was not asked again; the client is %s: %v", i-1, stateName(cl.C.State()), cl.C.Err())
				return
			}
			break
		}
		if t.kind == "connector" {
			continue
		}
		if c.Chance(25) {
			waiting = append(waiting, issue(false)) // waits for the connection
		}
		p := t.p
		if !c.Until(20*time.Second, func() bool { _, ok := p.Handshake(); return ok || isStopped() }) {
			c.Violf("no-handshake", "attempt %d: the client sends no handshake", t.n)
			return
		}
		switch t.kind {
		case "hs-error":
			_ = p.Raw([]byte(`{"error":"no"}` + "\x1e"))
			ended(t)
			continue
		case "hs-garbage":
			_ = p.Raw([]byte("xx\x1e"))
			ended(t)
			continue
		case "hs-close":
			p.conn.Close()
			ended(t)
			continue
		case "hs-silent":
			mu.Lock()
			t.endAt = t.at + 5*time.Second
			lastEnd = t.endAt
			mu.Unlock()
			continue
		}
		// a good one
		t2 := t
		p.onMsg = func(m Msg) {
			if m.Type == 1 && len(m.Args) > 0 {
				tag := fmt.Sprint(m.Args[0])
				mu.Lock()
				for _, k := range calls {
					if k.tag == tag {
						k.on = append(k.on, t2.n)
					}
				}
				mu.Unlock()
				if strings.HasPrefix(tag, "t") {
					_ = t2.p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: fmt.Sprintf("%d/%s", t2.n, tag)})
				}
			}
		}
		_ = p.Raw([]byte("{}\x1e"))
		if !c.Until(10*time.Second, func() bool { return cl.C.State() == signalr.ClientConnected || isStopped() }) {
			c.Violf("not-connected", "attempt %d is good, the client is %s: %v", t.n, stateName(cl.C.State()), cl.C.Err())
			return
		}
		if isStopped() {
			gaveUp = "stop"
			break
		}
		mu.Lock()
		t.up = true
		mu.Unlock()
		if t.n > 0 {
			c.Count("reconnected", 1)
		}
		if t.end != "silence" {
			p.KeepAlive(3 * time.Second)
		}
		// answers on old connections must not reach anybody
		for _, o := range old {
			if c.Bool() {
				c.Count("stale-answer", 1)
				for id := 1; id < 8; id++ {
					_ = o.p.Send(Msg{Type: 3, ID: fmt.Sprint(id), HasRes: true, Result: "stale"})
				}
				_ = o.p.Send(Msg{Type: 1, Target: "Take", Args: []any{fmt.Sprintf("stale%d", o.n), 1}})
			}
		}
		mine := waiting
		waiting = nil
		for j := t.calls; j > 0; j-- {
			mine = append(mine, issue(c.Chance(30)))
		}
		_ = p.Send(Msg{Type: 1, Target: "Take", Args: []any{fmt.Sprintf("take%d", t.n), 1}})
		if !c.Until(20*time.Second, func() bool {
			if isStopped() {
				return true
			}
			for _, k := range mine {
				if !k.pending && !k.o.Closed() {
					return false
				}
			}
			return len(recv.log.get(fmt.Sprintf("take%d", t.n))) > 0
		}) {
			c.Violf("not-working", "attempt %d: calls over the new connection do not work", t.n)
		}
		if !isStopped() {
			for _, k := range mine {
				v, closed, _ := k.o.Get()
				if k.pending {
					if closed && !isStopped() {
						c.Violf("wrong-answer", "attempt %d: the unanswered call %s yielded %s", t.n, k.tag, show12(v))
					}
					continue
				}
				want := fmt.Sprintf("%d/%s", t.n, k.tag)
				if len(v) != 1 || v[0].Value != want {
					if !isStopped() {
						c.Violf("wrong-answer", "attempt %d: call %s yielded %s, want %s", t.n, k.tag, show12(v), want)
					}
				}
				c.Ev("answered", "%s", k.tag)
			}
		}
		time.Sleep(t.stay)
		if isStopped() {
			gaveUp = "stop"
			break
		}
		if s := cl.C.State(); s != signalr.ClientConnected && t.stay < 9*time.Second {
			c.Violf("lost", "attempt %d: the connection is fine, but the client is %s: %v", t.n, stateName(s), cl.C.Err())
		}
		c.Count("end."+t.end, 1)
		mu.Lock()
		t.endAt = c.Now()
		lastEnd = t.endAt
		if t.end == "msg-deny" {
			denied = true
		}
		if t.end == "silence" {
			lastEnd = -1
		}
		mu.Unlock()
		switch t.end {
		case "close":
			p.conn.Close()
		case "reset":
			p.conn.Reset()
		case "msg-allow", "msg-deny":
			m := Msg{Type: 7, Allow: t.end == "msg-allow"}
			m.HasAllow = m.Allow || c.Bool()
			if c.Bool() {
				m.HasErr, m.Error = true, "restart"
			}
			_ = p.Send(m)
			if c.Bool() {
				p.conn.Close()
			}
		case "garbage":
			_ = p.Raw([]byte("\x02\xc1\xc1garbage\x1e"))
		case "silence":
		case "write":
			t.conn.out.mu.Lock()
			t.conn.out.cond.CutAfter = t.conn.out.total + 5
			t.conn.out.mu.Unlock()
			issue(true)
		case "stop":
			gaveUp = "stop"
			mu.Lock()
			stopped = c.Now()
			mu.Unlock()
			if c.Bool() {
				if !c.Within(20*time.Second, cl.C.Stop) {
					c.Violf("stop-hangs", "Stop has not returned")
				}
			} else {
				cl.Cancel()
			}
			break loop
		}
		old = append(old, t)
	}
	c.Count("gaveup."+gaveUp, 1)
	if !cl.AwaitState(signalr.ClientClosed, 30*time.Second) {
		c.Violf("not-closed", "the client should give up (%s), but is %s", gaveUp, stateName(cl.C.State()))
	}
	time.Sleep(30 * time.Second)
	if s := cl.C.State(); s != signalr.ClientClosed {
		c.Violf("not-closed", "the client gave up (%s), but later is %s", gaveUp, stateName(s))
	}
	if !c.Until(20*time.Second, func() bool {
		for _, k := range calls {
			if !k.o.Closed() {
				return false
			}
		}
		return true
	}) {
		c.Violf("call-hangs", "a call never ends")
	}
	for _, k := range calls {
		v, _, _ := k.o.Get()
		mu.Lock()
		on := append([]int(nil), k.on...)
		mu.Unlock()
		if len(on) > 1 {
			c.Violf("sent-twice", "call %s was sent on the connections %v", k.tag, on)
		}
		if k.pending {
			c.Ev("pending", "%s", k.tag)
		}
		if len(v) != 1 {
			c.Violf("outcomes", "call %s (sent on %v) yielded %s", k.tag, on, show12(v))
			continue
		}
		if v[0].Error == nil {
			if len(on) != 1 || k.pending || v[0].Value != fmt.Sprintf("%d/%s", on[0], k.tag) {
				c.Violf("wrong-answer", "call %s, sent on %v, yielded %v", k.tag, on, v[0].Value)
			}
		}
	}
	if (gaveUp == "deny" || gaveUp == "backoff") && stopEarly < 0 && c.Chance(60) {
		restart14(c, cl, proto, gaveUp, func(f func() (signalr.Connection, error)) { mu.Lock(); again = f; mu.Unlock() })
	}
	// nothing is written to a connection after the next one was asked for
	for i, t := range reached {
		if t.p == nil || i+1 >= len(reached) {
			continue
		}
		half := t.conn.out
		half.mu.Lock()
		for _, x := range half.rec {
			if x.at > reached[i+1].at {
				c.Violf("used-again", "connection %d ended, connection %d was asked for at %v, but at %v the client wrote %q to the old one", t.n, reached[i+1].n, reached[i+1].at, x.at, x.data)
				break
			}
		}
		half.mu.Unlock()
		if t.up {
			t.p.judgeBad(fmt.Sprintf("connection %d", t.n))
		}
	}
	for _, tag := range recv.log.tags() {
		if strings.HasPrefix(tag, "stale") {
			c.Violf("used-again", "the client executed %s, sent over a connection it had left", tag)
		}
	}
}

// restart14 starts a client which has given up again. It reconnects as before.
func restart14(c *Case, cl *Cli, proto Proto, why string, use func(func() (signalr.Connection, error))) {
	var mu sync.Mutex
	tries := make([]string, c.Range(0, 2))
	for i := range tries {
		tries[i] = pick(c, "connector", "hs-error", "hs-close", "end")
	}
	peers := make(chan *Peer, 10)
	n := 0
	use(func() (signalr.Connection, error) {
		mu.Lock()
		n++
		k := n
		mu.Unlock()
		if st := cl.C.State(); st != signalr.ClientConnecting {
			c.Violf("restart-state", "the client gave up (%s) and was started again; in attempt %d (%v) it is %s", why, k, tries, stateName(st))
		}
		if k <= len(tries) && tries[k-1] == "connector" {
			return nil, errors.New("server not reachable")
		}
		p, conn := c.RawServer(fmt.Sprintf("again%d", k), proto, c.RandCond(0), c.RandCond(0))
		peers <- p
		return conn, nil
	})
	c.Count("restarted", 1)
	c.Ev("restarted."+why, "%v", tries)
	c.Sample("started again, then %v", tries)
	cl.C.Start()
	var p *Peer
	for k := 0; k <= len(tries); k++ {
		try := "good"
		if k < len(tries) {
			try = tries[k]
		}
		if try == "connector" {
			continue
		}
		p = nil
		if !c.Until(time.Minute, func() bool {
			select {
			case p = <-peers:
			default:
			}
			return p != nil
		}) {
			c.Violf("restart", "the client gave up (%s) and was started again, but after %v it does not try to connect; it is %s: %v", why, tries[:k], stateName(cl.C.State()), cl.C.Err())
			return
		}
		if !c.Until(20*time.Second, func() bool { _, ok := p.Handshake(); return ok }) {
			c.Violf("restart", "after the restart, the client sends no handshake")
			return
		}
		switch try {
		case "hs-error":
			_ = p.Raw([]byte(`{"error":"no"}` + "\x1e"))
			continue
		case "hs-close":
			p.conn.Close()
			continue
		}
		_ = p.Raw([]byte("{}\x1e"))
		if !cl.AwaitState(signalr.ClientConnected, 10*time.Second) {
			c.Violf("restart", "after the restart, the client is not connected but %s: %v", stateName(cl.C.State()), cl.C.Err())
			return
		}
		if try == "end" {
			p.conn.Close()
		}
	}
	p.KeepAlive(3 * time.Second)
	o := c.Collect(cl.C.Invoke("M", "again"))
	var m Msg
	if !c.Until(20*time.Second, func() bool {
		ms := p.Find(func(m Msg) bool { return m.Type == 1 })
		if len(ms) > 0 {
			m = ms[0]
		}
		return len(ms) > 0
	}) {
		c.Violf("restart", "after the restart, a call is not sent; the client is %s", stateName(cl.C.State()))
		return
	}
	_ = p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "fine"})
	c.Until(20*time.Second, o.Closed)
	if v, _, _ := o.Get(); len(v) != 1 || v[0].Value != "fine" {
		c.Violf("restart", "after the restart, a call yields %s", show12(v))
	}
	if !c.Within(20*time.Second, cl.C.Stop) {
		c.Violf("stop-hangs", "Stop has not returned")
	}
	if !cl.AwaitState(signalr.ClientClosed, 10*time.Second) {
		c.Violf("not-closed", "the restarted client was stopped, but is %s", stateName(cl.C.State()))
	}
	p.judgeBad("restarted client")
}
