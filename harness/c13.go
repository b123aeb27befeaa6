package sigverif

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C13", Quick: 200000, Thorough: 5000000, Run: runC13,
		Rule: "A case is a client without connector whose peer accepts, refuses, garbles, delays or never answers the handshake, closes or resets before, in or after it, sends close messages, garbage or nothing, or does not read; meanwhile observers read at once, late or never and are cancelled, WaitForState is called for every state before, during and after the start with contexts that are cancelled at any time, State and Err are polled, and Stop is called 0..3 times at any time.",
		Need: []string{"hs.ok", "hs.error", "hs.garbage", "hs.silent", "hs.close", "hs.delayed", "hs.flash", "end.close", "end.msg", "end.garbage", "end.silent", "end.stall", "end.stop", "end.cancel", "wait.nil", "wait.err", "wait.deadline", "observer.eager", "observer.lazy", "observer.never", "connected", "ev:closed", "graceful", "storm"}})
}

func stateName(s signalr.ClientState) string {
	switch s {
	case signalr.ClientCreated:
		return "created"
	case signalr.ClientConnecting:
		return "connecting"
	case signalr.ClientConnected:
		return "connected"
	case signalr.ClientClosed:
		return "closed"
	}
	return fmt.Sprintf("state %d", s)
}

type wait13 struct {
	want      signalr.ClientState
	callAt    time.Duration
	ctx       context.Context
	cancelAt  time.Duration // 0: never
	mu        sync.Mutex
	done      bool
	err       error
	at        time.Duration
	stateThen signalr.ClientState // after the answer
	hsThen    bool                // the peer had answered the handshake
	ctxThen   bool                // the context was cancelled
	extra     bool                // something came after the first answer
}

func runC13(c *Case) {
	proto := c.pickProto()
	p, conn := c.RawServer("c", proto, c.RandCond(0), c.RandCond(pick(c, 0, 20*time.Millisecond)))
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)), signalr.HandshakeTimeout(5*time.Second), signalr.TimeoutInterval(15*time.Second))
	hs := pick(c, "ok", "ok", "ok", "ok", "delayed", "error", "garbage", "silent", "close", "flash", "flash")
	end := pick(c, "close", "msg", "garbage", "silent", "stall", "stop", "cancel")
	c.Count("hs."+hs, 1)
	c.Ev("case."+hs+"."+end, "")
	c.Sample("%s, handshake %s, end %s", proto.Name(), hs, end)

	var mu sync.Mutex // guards what follows
	hsSent := false
	stopCalled := false
	cancelCalled := false

	// observers
	type obs struct {
		kind   string
		ch     chan signalr.ClientState
		mu     sync.Mutex
		got    []signalr.ClientState
		closed bool
		cancel func()
		first  bool
	}
	var observers []*obs
	observe := func(first bool) {
		o := &obs{kind: pick(c, "eager", "lazy", "never"), first: first}
		if first && len(observers) == 0 {
			o.kind = "eager"
		}
		c.Count("observer."+o.kind, 1)
		o.ch = make(chan signalr.ClientState, pick(c, 0, 1, 10))
		if !c.Within(0, func() { o.cancel = cl.C.ObserveStateChanged(o.ch) }) {
			c.Violf("observe-hangs", "ObserveStateChanged has not returned")
			return
		}
		mu.Lock()
		observers = append(observers, o)
		mu.Unlock()
		if o.kind == "never" {
			return
		}
		lazy := time.Duration(0)
		if o.kind == "lazy" {
			lazy = c.Dur(0, 10*time.Second)
		}
		go func() {
			for s := range o.ch {
				o.mu.Lock()
				o.got = append(o.got, s)
				o.mu.Unlock()
				if lazy > 0 {
					time.Sleep(lazy)
				}
			}
			o.mu.Lock()
			o.closed = true
			o.mu.Unlock()
		}()
	}
	for i := c.Range(1, 3); i > 0; i-- {
		observe(true)
	}
	// waits
	var waits []*wait13
	wait := func() {
		w := &wait13{want: pick(c, signalr.ClientConnected, signalr.ClientConnected, signalr.ClientConnecting, signalr.ClientClosed, signalr.ClientCreated)}
		ctx, cancel := context.WithCancel(context.Background())
		c.Cleanup(cancel)
		if c.Chance(30) {
			d := c.Dur(0, 2*time.Second)
			w.cancelAt = c.Now() + d
			if c.Bool() {
				c.Count("wait.deadline", 1)
				ctx, cancel = context.WithTimeout(ctx, d)
				c.Cleanup(cancel)
			} else {
				time.AfterFunc(d, cancel)
			}
		}
		w.ctx = ctx
		w.callAt = c.Now()
		started := cl.C.State() != signalr.ClientCreated
		var ch <-chan error
		if !c.Within(0, func() { ch = cl.C.WaitForState(ctx, w.want) }) {
			c.Violf("wait-hangs", "WaitForState itself has not returned")
			return
		}
		_ = started
		mu.Lock()
		c.Ev("wait."+stateName(w.want), "")
		waits = append(waits, w)
		mu.Unlock()
		go func() {
			err := <-ch
			st := cl.C.State()
			mu.Lock()
			h := hsSent
			mu.Unlock()
			w.mu.Lock()
			w.done, w.err, w.at, w.stateThen, w.hsThen, w.ctxThen = true, err, c.Now(), st, h, ctx.Err() != nil
			w.mu.Unlock()
			for range ch {
				w.mu.Lock()
				w.extra = true
				w.mu.Unlock()
			}
		}()
	}
	for i := c.Intn(3); i > 0; i-- {
		wait()
	}
	// samples of the state
	sampling := make(chan struct{})
	sampled := make(chan struct{})
	var sampleMu sync.Mutex
	go func() {
		defer close(sampled)
		last := signalr.ClientCreated
		step := 100 * time.Microsecond
		for {
			s := cl.C.State()
			_ = cl.C.Err()
			sampleMu.Lock()
			if s < last {
				c.Violf("backwards", "the state went from %s to %s", stateName(last), stateName(s))
			}
			last = s
			sampleMu.Unlock()
			select {
			case <-sampling:
				return
			case <-time.After(step):
				step = min(step*3/2, time.Second)
			}
		}
	}()
	// storms: calls of WaitForState while the state changes
	storms := c.Chance(25)
	type stormy struct {
		want signalr.ClientState
		o    *Outcomes
	}
	var stormMu sync.Mutex
	var stormed []stormy
	var stormWg sync.WaitGroup
	storm := func(want signalr.ClientState) {
		if !storms {
			return
		}
		c.Count("storm", 1)
		calls := c.Range(5, 150)
		for g := 0; g < 2; g++ {
			stormWg.Add(1)
			go func() {
				defer stormWg.Done()
				var mine []stormy
				for i := 0; i < calls; i++ {
					mine = append(mine, stormy{want, c.CollectErr(cl.C.WaitForState(context.Background(), want))})
					if i > 3 && cl.C.State() == want {
						break
					}
				}
				stormMu.Lock()
				stormed = append(stormed, mine...)
				stormMu.Unlock()
			}()
		}
	}
	stormOver := func() {
		stormWg.Wait()
		stormMu.Lock()
		defer stormMu.Unlock()
		for i, x := range stormed {
			if !x.o.Closed() {
				c.Violf("wait-missed", "WaitForState(%s), called while the client was reaching this state, does not return: number %d of %d", stateName(x.want), i, len(stormed))
				break
			}
		}
		stormed = nil
	}
	// the peer
	go func() {
		if !c.Until(time.Hour, func() bool { _, ok := p.Handshake(); e, _ := p.Ended(); return ok || e }) {
			return
		}
		accept := func(b []byte) {
			mu.Lock()
			hsSent = true
			mu.Unlock()
			storm(signalr.ClientConnected)
			_ = p.Raw(b)
		}
		switch hs {
		case "ok":
			accept([]byte("{}\x1e"))
		case "delayed":
			time.Sleep(c.Dur(0, 4*time.Second))
			accept([]byte("{}\x1e"))
		case "flash":
			// the connection is good, and ends at once
			bad := []byte("\x01\xc1garbage\x1e")
			if c.Bool() {
				bad = p.proto.Encode(Msg{Type: 7})
			}
			accept(append([]byte("{}\x1e"), bad...))
			if c.Bool() {
				p.conn.Close()
			}
		case "error":
			_ = p.Raw([]byte(`{"error":"go away"}` + "\x1e"))
		case "garbage":
			_ = p.Raw([]byte("garbage\x1e"))
		case "silent":
		case "close":
			p.conn.Close()
		}
		if end != "silent" && (hs == "ok" || hs == "delayed") {
			p.KeepAlive(4 * time.Second)
		}
	}()
	p.onMsg = func(m Msg) {
		if m.Type == 1 && m.ID != "" {
			_ = p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "answer"})
		}
	}
	// start, with company
	var stops []chan struct{}
	stop := func() {
		ch := make(chan struct{})
		mu.Lock()
		stopCalled = true
		c.Ev("stop", "")
		stops = append(stops, ch)
		mu.Unlock()
		go func() { cl.C.Stop(); close(ch) }()
	}
	earlyStop := c.Chance(10)
	lateStops := c.Intn(3)
	cl.C.Start()
	startedAt := c.Now()
	if s := cl.C.State(); s == signalr.ClientCreated {
		c.Violf("not-started", "the state after Start is %s", stateName(s))
	}
	if earlyStop {
		if c.Bool() {
			time.Sleep(c.Dur(0, 6*time.Second))
		}
		stop()
	}
	for i := c.Intn(4); i > 0; i-- {
		if c.Bool() {
			time.Sleep(c.Dur(0, 3*time.Millisecond))
		}
		if c.Bool() {
			wait()
		} else {
			observe(false)
		}
	}
	// connected
	good := (hs == "ok" || hs == "delayed") && !earlyStop
	if good {
		if !cl.AwaitState(signalr.ClientConnected, 10*time.Second) {
			c.Violf("never-connected", "10 s after a good handshake the client is %s: %v", stateName(cl.C.State()), cl.C.Err())
			return
		}
		c.Count("connected", 1)
		time.Sleep(time.Millisecond)
		stormOver()
		o := c.Collect(cl.C.Invoke("Ping"))
		if !c.Until(5*time.Second, o.Closed) {
			c.Violf("call-not-sent", "a call on the connected client was not answered")
		} else if v, _, _ := o.Get(); len(v) != 1 || v[0].Value != "answer" {
			c.Violf("call-not-sent", "a call on the connected client yielded %s", show12(v))
		}
		for i := c.Intn(3); i > 0; i-- {
			wait()
		}
		if c.Bool() {
			time.Sleep(c.Dur(0, 3*time.Second))
		}
		if s := cl.C.State(); s != signalr.ClientConnected {
			c.Violf("left-connected", "the client is %s while the connection is fine: %v", stateName(s), cl.C.Err())
		}
	}
	// the end
	c.Count("end."+end, 1)
	endAt := c.Now()
	bound := 2 * time.Second // to be closed
	storm(signalr.ClientClosed)
	byeErr, undisturbed := false, lateStops == 0
	switch end {
	case "close":
		if c.Bool() {
			p.conn.Close()
		} else {
			p.conn.Reset()
		}
	case "msg":
		if good {
			byeErr = c.Bool()
			_ = p.Send(Msg{Type: 7, HasErr: byeErr, Error: "bye"})
		} else {
			p.conn.Close()
		}
	case "garbage":
		if good {
			_ = p.Raw([]byte("\x01\xc1garbage\x1e"))
		} else {
			p.conn.Close()
		}
	case "silent":
		bound = 17 * time.Second
	case "stall":
		conn.out.Stall()
		bound = 8 * time.Second
		stop()
	case "stop":
		bound = 8 * time.Second
		stop()
	case "cancel":
		bound = 8 * time.Second
		mu.Lock()
		cancelCalled = true
		mu.Unlock()
		cl.Cancel()
	}
	if c.Bool() {
		wait()
	}
	for ; lateStops > 0; lateStops-- {
		if c.Bool() {
			time.Sleep(c.Dur(0, 5*time.Millisecond))
		}
		stop()
	}
	if c.Real {
		bound += 5 * time.Second
	}
	if !cl.AwaitState(signalr.ClientClosed, bound+8*time.Second) {
		c.Violf("not-closed", "handshake %s, end %s at %v: the client is %s at %v", hs, end, endAt, stateName(cl.C.State()), c.Now())
		return
	}
	c.Ev("closed", "%v", cl.C.Err())
	if took := c.Now() - endAt; took > bound+time.Second {
		c.Violf("slow-close", "handshake %s, end %s at %v: the client was closed %v later", hs, end, endAt, took)
	}
	// every Stop returns
	for _, s := range stops {
		if !c.Within(20*time.Second, func() { <-s }) {
			c.Violf("stop-hangs", "handshake %s, end %s: Stop has not returned", hs, end)
			return
		}
	}
	if c.Bool() {
		if !c.Within(20*time.Second, cl.C.Stop) {
			c.Violf("stop-hangs", "Stop of a closed client has not returned")
			return
		}
	}
	time.Sleep(time.Second)
	if s := cl.C.State(); s != signalr.ClientClosed {
		c.Violf("left-closed", "the closed client became %s", stateName(s))
	}
	stormOver()
	wait()
	o := c.Collect(cl.C.Invoke("late"))
	if !c.Until(5*time.Second, o.Closed) || o.Errs() != 1 {
		v, _, _ := o.Get()
		c.Violf("late-call", "a call on the closed client yielded %s", show12(v))
	}
	graceful := good && end == "msg"
	if cl.C.Err() == nil && !graceful && hs != "flash" {
		c.Violf("no-error", "handshake %s, end %s: the closed client has no error", hs, end)
	}
	if err := cl.C.Err(); graceful && undisturbed {
		c.Count("graceful", 1)
		if !byeErr && err != nil {
			c.Violf("false-error", "the server closed the connection without error, but the error of the client is %v", err)
		}
		if byeErr && (err == nil || !strings.Contains(err.Error(), "bye")) {
			c.Violf("other-error", "the server closed the connection with the error bye, but the error of the client is %v", err)
		}
	}
	time.Sleep(3 * time.Second)
	close(sampling)
	<-sampled
	_ = stopCalled
	_ = cancelCalled
	mu.Lock()
	ws := append([]*wait13(nil), waits...)
	obss := append([]*obs(nil), observers...)
	mu.Unlock()
	for i, w := range ws {
		w.mu.Lock()
		desc := fmt.Sprintf("wait %d for %s, called at %v (started at %v), context cancelled at %v; handshake %s, end %s at %v; answer %v at %v, then %s", i, stateName(w.want), w.callAt, startedAt, w.cancelAt, hs, end, endAt, w.err, w.at, stateName(w.stateThen))
		switch {
		case !w.done:
			c.Violf("wait-hangs", "%s", desc)
		case w.extra:
			c.Violf("wait-twice", "%s: a second answer", desc)
		case w.err == nil:
			c.Count("wait.nil", 1)
			switch w.want {
			case signalr.ClientCreated:
				if w.callAt > startedAt {
					c.Violf("wait-lies", "%s", desc)
				}
			case signalr.ClientConnecting:
				if w.at < startedAt || w.callAt > endAt+bound {
					c.Violf("wait-lies", "%s", desc)
				}
			case signalr.ClientConnected:
				if !w.hsThen {
					c.Violf("wait-lies", "%s: the handshake was not answered", desc)
				}
			case signalr.ClientClosed:
				if w.stateThen != signalr.ClientClosed {
					c.Violf("wait-lies", "%s", desc)
				}
			}
		default:
			c.Count("wait.err", 1)
			notStarted := w.callAt <= startedAt
			cancelled := w.ctxThen
			if cancelled && !notStarted && w.stateThen != signalr.ClientClosed && w.at < endAt && !earlyStop && !errors.Is(w.err, w.ctx.Err()) {
				c.Violf("wait-error", "%s: the context ended with %v", desc, w.ctx.Err())
			}
			if !notStarted && !cancelled && w.stateThen != signalr.ClientClosed && w.at < endAt && !earlyStop {
				c.Violf("wait-error", "%s: the client was neither closed nor the context cancelled", desc)
			}
			if w.want == signalr.ClientConnected && !notStarted && w.cancelAt == 0 && w.callAt < endAt && good && w.at < endAt {
				c.Violf("wait-error", "%s: the client connected", desc)
			}
		}
		w.mu.Unlock()
	}
	for i, o := range obss {
		if o.kind == "eager" {
			o.mu.Lock()
			last := signalr.ClientCreated
			seen := map[signalr.ClientState]bool{}
			for _, s := range o.got {
				if s < last {
					c.Violf("observer", "observer %d saw %v", i, names13(o.got))
				}
				last = s
				seen[s] = true
			}
			if o.first {
				want := []signalr.ClientState{signalr.ClientConnecting, signalr.ClientClosed}
				if good {
					want = append(want, signalr.ClientConnected)
				} else if seen[signalr.ClientConnected] && !(hs == "ok" || hs == "delayed" || hs == "flash") {
					c.Violf("observer", "observer %d saw %v without a handshake", i, names13(o.got))
				}
				for _, s := range want {
					if !seen[s] {
						c.Violf("observer", "observer %d saw %v, not %s (handshake %s, end %s)", i, names13(o.got), stateName(s), hs, end)
					}
				}
			}
			o.mu.Unlock()
		}
		if !c.Within(10*time.Second, o.cancel) {
			c.Violf("cancel-hangs", "the CancelFunc of observer %d (%s) has not returned", i, o.kind)
			return
		}
		if o.kind != "never" && o.kind != "lazy" {
			if !c.Until(10*time.Second, func() bool { o.mu.Lock(); defer o.mu.Unlock(); return o.closed }) {
				c.Violf("observer-open", "the channel of observer %d was not closed by its CancelFunc", i)
			}
		}
	}
	p.conn.Close()
}

func names13(ss []signalr.ClientState) []string {
	r := make([]string, len(ss))
	for i, s := range ss {
		r[i] = stateName(s)
	}
	return r
}
