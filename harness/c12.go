package sigverif

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C12", Quick: 40000, Thorough: 1500000, Run: runC12,
		Rule: "A case is a client without reconnect with 1..12 calls of all four kinds in every phase (just issued, being written, partly answered, items or the result delivered, result unread, issued at the same instant as the end or after it), whose connection ends by server close, reset, close message with and without error, garbage, silence, Stop, cancel of its context, end of the transport context, or a write that fails.",
		Need: []string{"ev:invoke", "ev:send", "ev:pull", "ev:push", "end.close", "end.halfclose", "end.reset", "end.closemsg", "end.garbage", "end.silence", "end.stop", "end.cancel", "end.context", "end.write", "pending", "answered", "late", "racing", "rush"}})
}

type call12 struct {
	kind   string
	tag    string
	phase  string // pending, items, answered, error, late, racing
	items  int    // sent by the server
	lazy   time.Duration
	o      *Outcomes
	ansAt  time.Duration // when the server answered completely
	issued time.Duration
	up     chan string
}

// rush12 issues calls in a tight loop, and somewhere in it the connection ends: none of them may be forgotten.
func rush12(c *Case) {
	p, conn := c.RawServer("c", c.pickProto(), Cond{}, Cond{})
	cl := c.Client(p.proto, signalr.WithConnection(c.lib(conn)), signalr.ChanReceiveTimeout(5*time.Second))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	p.KeepAlive(4 * time.Second)
	workers := c.Range(1, 3)
	n := c.Range(20, 150)
	at := int64(c.Range(1, n*workers*9/10))
	how := pick(c, "close", "closemsg", "stop", "cancel", "context", "write")
	if how == "write" {
		conn.out.mu.Lock()
		conn.out.cond.CutAfter = conn.out.total + int(at)*60
		conn.out.mu.Unlock()
	}
	c.Sample("%d goroutines with %d calls each, end by %s at call %d", workers, n, how, at)
	var issued atomic.Int64
	type call struct {
		kind string
		nr   int64
		o    *Outcomes
	}
	all := make([][]call, workers)
	var wg sync.WaitGroup
	for w := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				k := call{kind: []string{"invoke", "send", "pull", "push"}[c.Intn(4)], nr: issued.Add(1)}
				switch k.kind {
				case "invoke":
					k.o = c.Collect(cl.C.Invoke("M", k.nr))
				case "send":
					k.o = c.CollectErr(cl.C.Send("M", k.nr))
				case "pull":
					k.o = c.Collect(cl.C.PullStream("M", k.nr))
				case "push":
					ch := make(chan int, 1)
					ch <- 1
					close(ch)
					k.o = c.Collect(cl.C.PushStreams("M", k.nr, ch))
				}
				all[w] = append(all[w], k)
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for issued.Load() < at {
			runtime.Gosched()
		}
		switch how {
		case "close":
			p.conn.Close()
		case "closemsg":
			_ = p.Send(Msg{Type: 7})
		case "stop":
			cl.C.Stop()
		case "cancel":
			cl.Cancel()
		case "context":
			conn.cancel()
		}
	}()
	if !c.Within(time.Minute, wg.Wait) {
		c.Violf("call-hangs", "a call issued around the end of the connection by %s (or Stop) did not return within a minute", how)
		return
	}
	if how == "write" {
		p.conn.Close()
	}
	if !cl.AwaitState(signalr.ClientClosed, time.Minute) {
		c.Violf("not-closed", "end by %s: a minute later the client is %v", how, cl.C.State())
		return
	}
	c.Until(30*time.Second, func() bool {
		for _, w := range all {
			for _, k := range w {
				if !k.o.Closed() {
					return false
				}
			}
		}
		return true
	})
	for _, w := range all {
		for _, k := range w {
			c.Count("rush", 1)
			vals, closed, _ := k.o.Get()
			if !closed {
				c.Violf("never-ends", "%s number %d of %d, end by %s at call %d: the channel is still open 30s after the client closed; got %s", k.kind, k.nr, n*workers, how, at, show12(vals))
				return
			}
			if len(vals) != 1 || vals[0].Error == nil {
				c.Violf("success-without-answer", "%s number %d of %d, end by %s at call %d: never answered, but ended with %s", k.kind, k.nr, n*workers, how, at, show12(vals))
				return
			}
		}
	}
	p.judgeBad("client")
}

func runC12(c *Case) {
	if c.Chance(4) {
		rush12(c)
		return
	}
	proto := c.pickProto()
	up, down := c.RandCond(0), c.RandCond(0)
	if c.Chance(25) {
		up, down = c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond)
	}
	how := pick(c, "close", "halfclose", "reset", "closemsg", "garbage", "silence", "stop", "cancel", "context", "write")
	c.Count("end."+how, 1)
	p, conn := c.RawServer("c", proto, up, down)
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)), signalr.TimeoutInterval(15*time.Second), signalr.ChanReceiveTimeout(5*time.Second))
	cl.C.Start()
	if !p.AcceptHandshake() {
		c.Violf("no-handshake", "client sent no handshake")
		return
	}
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	if how != "silence" {
		p.KeepAlive(4 * time.Second)
	}
	var mu sync.Mutex
	var calls []*call12
	serial := 0
	collect := func(ch <-chan signalr.InvokeResult, lazy time.Duration) *Outcomes {
		if lazy == 0 {
			return c.Collect(ch)
		}
		o := &Outcomes{}
		go func() {
			time.Sleep(lazy)
			for r := range ch {
				o.mu.Lock()
				o.Vals = append(o.Vals, r)
				o.mu.Unlock()
			}
			o.mu.Lock()
			o.closed, o.at = true, c.Now()
			o.mu.Unlock()
		}()
		return o
	}
	issue := func(phase string) *call12 {
		mu.Lock()
		serial++
		k := &call12{kind: pick(c, "invoke", "send", "pull", "push"), tag: fmt.Sprintf("t%d", serial), phase: phase, issued: c.Now()}
		calls = append(calls, k)
		mu.Unlock()
		if c.Chance(20) {
			k.lazy = c.Dur(0, 20*time.Second)
		}
		c.Ev(k.kind, "%s %s", k.tag, phase)
		switch k.kind {
		case "invoke":
			k.o = collect(cl.C.Invoke("M", k.tag), k.lazy)
		case "send":
			k.lazy = 0
			k.o = c.CollectErr(cl.C.Send("M", k.tag))
		case "pull":
			k.o = collect(cl.C.PullStream("M", k.tag), k.lazy)
		case "push":
			k.up = make(chan string, 100)
			for i := c.Intn(5); i > 0; i-- {
				k.up <- "x"
			}
			if c.Chance(30) {
				close(k.up)
			}
			k.o = collect(cl.C.PushStreams("M", k.tag, k.up), k.lazy)
		}
		return k
	}
	idOf := func(k *call12) string {
		var id string
		c.Until(0, func() bool {
			for _, m := range p.Find(func(m Msg) bool { return (m.Type == 1 || m.Type == 4) && len(m.Args) > 0 && m.Args[0] == k.tag }) {
				id = m.ID
			}
			e, _ := p.Ended()
			return id != "" || e
		})
		return id
	}
	n := c.Range(1, 8)
	for i := 0; i < n; i++ {
		k := issue(pick(c, "pending", "pending", "items", "answered", "error"))
		if k.phase == "pending" {
			continue
		}
		if c.Chance(30) {
			time.Sleep(c.Dur(0, 10*time.Millisecond))
		}
		id := idOf(k)
		if id == "" {
			c.Violf("not-sent", "call %s (%s) was never sent", k.tag, k.kind)
			return
		}
		if k.kind == "pull" {
			for j := c.Intn(4); j > 0; j-- {
				k.items++
				_ = p.Send(Msg{Type: 2, ID: id, Item: fmt.Sprintf("%s/%d", k.tag, k.items)})
			}
		}
		switch k.phase {
		case "answered":
			m := Msg{Type: 3, ID: id, HasRes: k.kind != "pull", Result: "result-" + k.tag}
			_ = p.Send(m)
			k.ansAt = c.Now()
			c.Count("answered", 1)
		case "error":
			_ = p.Send(Msg{Type: 3, ID: id, HasErr: true, Error: "error-" + k.tag})
			k.ansAt = c.Now()
		}
	}
	gap := c.Bool()
	if gap {
		time.Sleep(time.Second)
	}
	// the end, with calls issued at the same time
	var wg sync.WaitGroup
	for i := c.Intn(4); i > 0; i-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for y := c.Intn(4); y > 0; y-- {
				c.Yield()
			}
			issue("racing")
			c.Count("racing", 1)
		}()
	}
	endAt := c.Now()
	c.Sample("%s, %d calls, end by %s, up %v, down %v", proto.Name(), n, how, up, down)
	stopRet := make(chan struct{})
	stopped := false
	switch how {
	case "close":
		p.conn.Close()
	case "halfclose":
		p.conn.CloseWrite()
	case "reset":
		p.conn.Reset()
	case "closemsg":
		m := Msg{Type: 7}
		if c.Bool() {
			m.HasErr, m.Error = true, "server says bye"
		}
		if c.Bool() {
			m.HasAllow, m.Allow = true, true
		}
		_ = p.Send(m)
	case "garbage":
		if proto.Name() == "json" {
			_ = p.Raw([]byte("garbage\x1e"))
		} else {
			_ = p.Raw([]byte{3, 0xc1, 0xc1, 0xc1})
		}
	case "silence":
	case "stop":
		stopped = true
		go func() { cl.C.Stop(); close(stopRet) }()
	case "cancel":
		cl.Cancel()
	case "context":
		conn.cancel()
	case "write":
		conn.out.mu.Lock()
		conn.out.cond.CutAfter = conn.out.total + c.Range(1, 60)
		conn.out.mu.Unlock()
		_ = c.CollectErr(cl.C.Send("M", strings.Repeat("long", 30)))
	}
	if c.Bool() && how != "silence" {
		// and the transport goes away, too
		time.Sleep(c.Dur(100*time.Millisecond, 3*time.Second))
		p.conn.Close()
	}
	wg.Wait()
	if !cl.AwaitState(signalr.ClientClosed, time.Minute) {
		c.Violf("not-closed", "end by %s: a minute later the client is %v", how, cl.C.State())
		return
	}
	if stopped && !c.Within(time.Minute, func() { <-stopRet }) {
		c.Violf("stop-hangs", "Stop has not returned")
	}
	closedAt := c.Now()
	for i := c.Range(0, 3); i > 0; i-- {
		issue("late")
		c.Count("late", 1)
	}
	bound := 30 * time.Second
	c.Until(bound, func() bool {
		for _, k := range calls {
			if !k.o.Closed() {
				return false
			}
		}
		return true
	})
	for _, k := range calls {
		vals, closed, _ := k.o.Get()
		desc := fmt.Sprintf("%s %s (%s, %d items sent, lazy %v, issued at %v, answered at %v), end by %s at %v, closed at %v", k.kind, k.tag, k.phase, k.items, k.lazy, k.issued, k.ansAt, how, endAt, closedAt)
		if !closed {
			c.Violf("never-ends", "%s: the channel is still open %v after the client closed; got %s", desc, bound, show12(vals))
			continue
		}
		errs, errText := 0, ""
		var values []any
		for i, v := range vals {
			if v.Error != nil {
				errs++
				errText = v.Error.Error()
				if i != len(vals)-1 {
					c.Violf("after-error", "%s: something follows the error: %s", desc, show12(vals))
				}
			} else {
				values = append(values, v.Value)
			}
		}
		if errs > 1 {
			c.Violf("two-errors", "%s: %s", desc, show12(vals))
		}
		// no value that the server did not send
		for i, v := range values {
			want := any(fmt.Sprintf("%s/%d", k.tag, i+1))
			if k.kind == "invoke" || k.kind == "push" {
				want = "result-" + k.tag
				if k.phase != "answered" || i > 0 {
					want = "nothing"
				}
			} else if i >= k.items {
				want = "nothing"
			}
			if canon(v) != canon(want) {
				c.Violf("made-up", "%s: value %v, want %v", desc, v, want)
			}
		}
		switch k.phase {
		case "pending", "racing", "late", "items":
			c.Count("pending", 1)
			if errs != 1 {
				c.Violf("success-without-answer", "%s: ended without an error: %s", desc, show12(vals))
			}
		case "answered", "error":
			// Surely arrived before the end: much earlier, or the end came after it in the stream of bytes
			sure := gap || how == "halfclose" || how == "closemsg" || how == "garbage" || how == "silence"
			if !sure {
				break
			}
			wantVals := 0
			switch {
			case k.kind == "pull":
				wantVals = k.items
			case k.kind != "send" && k.phase == "answered":
				wantVals = 1
			}
			if k.kind == "pull" && k.lazy > 0 {
				// A consumer who does not read in time may lose items of a stream
				if k.phase == "error" && errs != 1 {
					c.Violf("lost-error", "%s: %s", desc, show12(vals))
				}
				break
			}
			if len(values) != wantVals {
				c.Violf("lost-result", "%s: the server's answer arrived before the end, delivered: %s", desc, show12(vals))
			}
			if k.phase == "error" && (errs != 1 || !strings.Contains(errText, "error-"+k.tag)) {
				c.Violf("lost-error", "%s: %s", desc, show12(vals))
			}
			if k.phase == "answered" && errs > 0 && k.lazy == 0 {
				c.Violf("error-for-success", "%s: %s", desc, show12(vals))
			}
		}
	}
	p.judgeBad("client")
}

func show12(vals []signalr.InvokeResult) string {
	var sb strings.Builder
	for _, v := range vals {
		if v.Error != nil {
			fmt.Fprintf(&sb, "[error %v]", v.Error)
		} else {
			fmt.Fprintf(&sb, "[%v]", v.Value)
		}
	}
	if sb.Len() == 0 {
		return "nothing"
	}
	return sb.String()
}
