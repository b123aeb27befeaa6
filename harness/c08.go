package sigverif

import (
	"context"
	"io"
	"net"
	"net/http"
	"os"

	"errors"
	"fmt"
	"github.com/cenkalti/backoff/v4"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C08", Quick: 12000, Thorough: 800000, Run: runC08,
		Rule: "A case is 1..3 raw peers and 0..2 library clients on one server, or a library client on a raw server, each with 1..15 ordinary invocations, streams and uploads mixed with panicking ones (strings, errors, runtime errors, structs, nil, texts with control characters and 20000 characters, errors which panic themselves, panics after a delay, while streams run, before and after reading uploads, with and without id, plain and as stream), with detailed errors on or off, with loggers which fail and panic.",
		Need: []string{"raw-client", "lib-client", "raw-server", "detailed", "plain-errors", "panic.noid", "panic.id", "panic.upload", "panic.stream", "panic.logger", "ordinary"}})
}

// panicLogger fails and panics now and then.
type panicLogger struct {
	c   *Case
	pct int
}

func (l panicLogger) Log(keyVals ...interface{}) error {
	l.c.Yield()
	x := int(splitmix(l.c.yield.Add(0x9e37)) >> 9 % 10000) // not from the source of the case's script
	if x%100 < l.pct {
		panic(fmt.Sprintf("panic in logger: %d values", len(keyVals)))
	}
	if x/100 < 20 {
		return errors.New("logger is full")
	}
	return nil
}

// logger08 : a panicking logger must not harm either.
func logger08(c *Case) opt {
	if c.Chance(15) {
		c.Count("panic.logger", 1)
		return signalr.Logger(panicLogger{c, pick(c, 1, 10, 100)}, c.Bool())
	}
	return signalr.Logger(yieldLogger{c}, c.Bool())
}

type panicStruct struct{ A, B int }

type badError struct{}

func (badError) Error() string { panic("error in error") }

type panicStringer struct{ tag string }

func (p panicStringer) String() string { return "stringer-" + p.tag }

const panicKinds = 22

// panicText is a part of the text of the panic of that kind.
func panicText(tag string, kind int) string {
	switch kind {
	case 0, 1:
		return "panic-" + tag
	case 2:
		return "nil map"
	case 3:
		return "index out of range [5]"
	case 4:
		return "{7 8}"
	case 5:
		return "nil"
	case 6:
		return "42"
	case 7:
		return "quote\" <&> \\ \x1e é 😀 \u2028 " + tag
	case 8:
		return "long-" + tag
	case 9:
		return "nil pointer"
	case 10:
		return "interface conversion"
	case 11:
		return ""
	case 12:
		return "100%d %s %!v(MISSING) " + tag
	case 13:
		return "stringer-" + tag
	case 14:
		return "first-" + tag + "\nsecond-" + tag
	}
	if kind >= 16 && kind < 16+len(sentinels08) {
		return sentinels08[kind-16].Error()
	}
	return "wrapped: tail-" + tag
}

// sentinels08 are errors which mean something to somebody.
var sentinels08 = []error{http.ErrAbortHandler, io.EOF, context.Canceled, net.ErrClosed, os.ErrDeadlineExceeded, backoff.Permanent(errors.New("permanent"))}

func doPanic(tag string, kind int) {
	switch kind {
	case 0:
		panic("panic-" + tag)
	case 1:
		panic(errors.New("panic-" + tag))
	case 2:
		var m map[string]int
		m[tag] = 1
	case 3:
		x := []int{1}
		fmt.Sprint(x[len(tag)-len(tag)+5])
	case 4:
		panic(panicStruct{7, 8})
	case 5:
		panic(nil)
	case 6:
		panic(42)
	case 7:
		panic(panicText(tag, kind))
	case 8:
		panic("long-" + tag + strings.Repeat("y", 20000))
	case 9:
		var p *panicStruct
		p.A = 1
	case 10:
		var x any = tag
		_ = x.(int)
	case 11:
		panic(badError{})
	case 12:
		panic(panicText(tag, kind))
	case 13:
		panic(panicStringer{tag})
	case 14:
		panic(errors.Join(errors.New("first-"+tag), errors.New("second-"+tag)))
	}
	if kind >= 16 && kind < 16+len(sentinels08) {
		panic(sentinels08[kind-16])
	}
	panic(fmt.Errorf("wrapped: %w", errors.New("tail-"+tag)))
}

// PanicKind panics in one of several ways.
func (h *EchoHub) PanicKind(tag string, kind, ms int) string {
	h.e.log.add(tag, kind)
	h.e.c.Ev("hub.PanicKind", "%s %d", tag, kind)
	h.sleep(ms)
	doPanic(tag, kind)
	return ""
}

// PanicAfterUpload reads its upload stream and panics.
func (h *EchoHub) PanicAfterUpload(tag string, in <-chan string) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.PanicAfterUpload", "%s", tag)
	for range in {
	}
	panic("panic-" + tag)
}

type panicRecv struct {
	c   *Case
	log *callLog
}

func (r *panicRecv) Boom(tag string, kind, ms int) {
	r.log.add(tag, kind)
	r.c.Ev("recv.Boom", "%s %d", tag, kind)
	time.Sleep(time.Duration(ms) * time.Millisecond)
	doPanic(tag, kind)
}
func (r *panicRecv) Fine(tag string, ms int) string {
	r.log.add(tag)
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return "result-" + tag
}

// judgePanic judges the error text of a panicking call.
func judgePanic(c *Case, what, text, want string, detailed bool) {
	if !strings.Contains(text, want) {
		c.Violf("panic-text", "%s: the error %q does not contain %q", what, short(text, 300), short(want, 100))
	}
	stack := strings.Contains(text, "goroutine ") && strings.Contains(text, ".go:")
	if stack != detailed {
		c.Violf("panic-stack", "%s: detailed errors %v, stack trace in the error %v: %q", what, detailed, stack, short(text, 400))
	}
	if !detailed && (strings.Contains(text, "goroutine ") || strings.Contains(text, ".go:")) {
		c.Violf("panic-stack", "%s: the error tells about the code: %q", what, short(text, 400))
	}
}

type panic08 struct {
	tag, id  string
	want     string
	typ      int
	upload   bool
	kindText string
}

func runC08(c *Case) {
	if c.Chance(20) {
		runC08recv(c)
		return
	}
	detailed := c.Bool()
	if detailed {
		c.Count("detailed", 1)
	} else {
		c.Count("plain-errors", 1)
	}
	srv, env := c.echoServer(logger08(c), signalr.EnableDetailedErrors(detailed), signalr.WithAlternateMethodName("Tag", "das.Etikett"), signalr.MaximumReceiveMessageSize(1<<20))
	nraw, nlib := c.Range(1, 3), c.Intn(3)
	c.Sample("detailed %v, %d raw peers, %d lib clients", detailed, nraw, nlib)
	type conn struct {
		*RawClient
		invs   []*inv02
		panics []*panic08
	}
	conns := make([]*conn, nraw)
	for i := range conns {
		r := srv.Connect(fmt.Sprintf("c%d", i), c.pickProto(), c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond))
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		conns[i] = &conn{RawClient: r}
		c.Count("raw-client", 1)
	}
	type lib struct {
		*Cli
		proto  Proto
		calls  []*stream03
		panics []*panic08
		outs   []*Outcomes
		pouts  []*Outcomes
	}
	libs := make([]*lib, nlib)
	for i := range libs {
		proto := c.pickProto()
		mine, theirs := c.Pair(fmt.Sprintf("l%d", i), c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond))
		srv.Serve(theirs)
		libs[i] = &lib{Cli: c.Client(proto, signalr.WithConnection(c.lib(mine)), logger08(c), signalr.MaximumReceiveMessageSize(1<<20)), proto: proto}
		libs[i].C.Start()
		if !libs[i].AwaitState(signalr.ClientConnected, 0) {
			c.Violf("no-connect", "client never connected: %v", libs[i].C.Err())
			return
		}
		c.Count("lib-client", 1)
	}
	// library clients: streams and panics at the same time
	for i, l := range libs {
		for j := c.Range(1, 8); j > 0; j-- {
			tag := fmt.Sprintf("l%dt%d", i, j)
			if c.Bool() {
				kind := c.Intn(panicKinds)
				p := &panic08{tag: tag, want: panicText(tag, kind)}
				var ch <-chan signalr.InvokeResult
				switch c.Intn(3) {
				case 0:
					ch = l.C.PullStream("PanicKind", tag, kind, pick(c, 0, c.Intn(500)))
					c.Count("panic.stream", 1)
				default:
					ch = l.C.Invoke("PanicKind", tag, kind, pick(c, 0, c.Intn(500)))
					c.Count("panic.id", 1)
				}
				l.panics = append(l.panics, p)
				l.pouts = append(l.pouts, c.Collect(ch))
			} else {
				s := genStream(c, tag)
				l.calls = append(l.calls, s)
				l.outs = append(l.outs, c.Collect(l.C.PullStream(s.method, s.args...)))
				c.Count("ordinary", 1)
			}
		}
	}
	var pings []Msg
	for ci, k := range conns {
		var ms []Msg
		for i := c.Range(1, 15); i > 0; i-- {
			tag := fmt.Sprintf("c%dt%d", ci, i)
			id := genID(c, i)
			if c.Chance(20) {
				id = ""
			}
			if c.Bool() {
				v := genInv(c, tag, id)
				k.invs = append(k.invs, v)
				ms = append(ms, v.m)
				c.Count("ordinary", 1)
				continue
			}
			p := &panic08{tag: tag, id: id, typ: pick(c, 1, 1, 4)}
			m := Msg{Type: p.typ, ID: id}
			if id == "" {
				c.Count("panic.noid", 1)
			} else {
				c.Count("panic.id", 1)
			}
			if c.Chance(20) {
				p.upload = true
				c.Count("panic.upload", 1)
				sid := "u" + tag
				p.want = "panic-" + tag
				m.Target, m.Args, m.Streams = pick(c, "PanicUpload", "PanicAfterUpload"), []any{tag}, []string{sid}
				ms = append(ms, m)
				for x := c.Intn(4); x > 0; x-- {
					ms = append(ms, Msg{Type: 2, ID: sid, Item: "x"})
				}
				ms = append(ms, Msg{Type: 3, ID: sid})
			} else {
				kind := c.Intn(panicKinds)
				p.want = panicText(tag, kind)
				m.Target, m.Args = "PanicKind", []any{tag, kind, pick(c, 0, 0, c.Intn(500))}
				ms = append(ms, m)
			}
			k.panics = append(k.panics, p)
		}
		for len(ms) > 0 {
			n := min(len(ms), c.Range(1, 4))
			if err := k.Send(ms[:n]...); err != nil {
				c.Violf("connection-lost", "raw %d: %v", ci, err)
				return
			}
			ms = ms[n:]
			if c.Chance(20) {
				time.Sleep(c.Dur(0, 100*time.Millisecond))
			}
		}
	}
	_ = pings
	c.Until(10*time.Minute, func() bool {
		for _, k := range conns {
			if e, _ := k.Ended(); e {
				return true
			}
			for _, v := range k.invs {
				if v.m.ID != "" && len(k.Completions(v.m.ID)) == 0 {
					return false
				}
			}
			for _, p := range k.panics {
				if p.id != "" && len(k.Completions(p.id)) == 0 || len(env.log.get(p.tag)) == 0 {
					return false
				}
			}
		}
		for _, l := range libs {
			for _, o := range append(append([]*Outcomes{}, l.outs...), l.pouts...) {
				if !o.Closed() {
					return false
				}
			}
		}
		return true
	})
	time.Sleep(6 * time.Second)
	for ci, k := range conns {
		who := fmt.Sprintf("raw %d/%s", ci, k.proto.Name())
		if e, at := k.Ended(); e {
			c.Violf("connection-lost", "%s: the server ended the connection at %v: %v", who, at, k.Find(func(m Msg) bool { return m.Type == 7 }))
		}
		for _, b := range k.Bad() {
			if !strings.Contains(b, "second completion") { // judged below
				c.Violf("malformed", "%s: %s", who, b)
			}
		}
		byID := map[string][]Msg{}
		for _, m := range k.Msgs() {
			switch m.Type {
			case 2, 3:
				byID[m.ID] = append(byID[m.ID], m)
			case 6:
			default:
				c.Violf("unexpected", "%s: unexpected message %v", who, m)
			}
		}
		for _, v := range k.invs {
			if v.m.ID != "" {
				judgeInv(c, who, v, byID[v.m.ID])
				delete(byID, v.m.ID)
			}
			if v.logged && len(env.log.get(v.tag)) != v.runs {
				c.Violf("executions", "%s: %v executed %d times, want %d", who, v.m, len(env.log.get(v.tag)), v.runs)
			}
		}
		for _, p := range k.panics {
			what := fmt.Sprintf("%s: panicking call %s (id %q, type %d, upload %v)", who, p.tag, p.id, p.typ, p.upload)
			if n := len(env.log.get(p.tag)); n != 1 {
				c.Violf("executions", "%s: executed %d times", what, n)
			}
			c.Ev("panic", "%s", what)
			if p.id == "" {
				continue
			}
			got := byID[p.id]
			delete(byID, p.id)
			switch {
			case len(got) == 2 && p.upload && p.typ == 1 && got[0].Type == 3 && got[0].HasErr && got[1].Type == 3 && !got[1].HasErr:
				c.Violf("panic-upload-twice", "%s: answered by %v", what, got)
				judgePanic(c, what, got[0].Error, p.want, detailed)
			case len(got) != 1 || got[0].Type != 3 || !got[0].HasErr:
				c.Violf("panic-answer", "%s: answered by %v instead of one completion with error", what, got)
			default:
				judgePanic(c, what, got[0].Error, p.want, detailed)
			}
		}
		for id, ms := range byID {
			c.Violf("unknown-id", "%s: messages for id %q, which the peer did not use: %v", who, id, ms)
		}
	}
	for i, l := range libs {
		who := fmt.Sprintf("client %d/%s", i, l.proto.Name())
		if st := l.C.State(); st != signalr.ClientConnected {
			c.Violf("disconnected", "%s is %v: %v", who, st, l.C.Err())
		}
		for j, s := range l.calls {
			vals, closed, _ := l.outs[j].Get()
			judgeStream(c, who, s, vals, closed)
		}
		for j, p := range l.panics {
			vals, closed, _ := l.pouts[j].Get()
			if !closed || len(vals) != 1 || vals[0].Error == nil {
				c.Violf("panic-answer", "%s: panicking call %s yielded %v (closed %v)", who, p.tag, vals, closed)
				continue
			}
			judgePanic(c, who+" "+p.tag, vals[0].Error.Error(), p.want, detailed)
		}
	}
}

// runC08recv is a client whose receiver panics.
func runC08recv(c *Case) {
	c.Count("raw-server", 1)
	detailed := c.Bool()
	proto := c.pickProto()
	n := c.Range(1, 15)
	c.Sample("raw server, %s, detailed %v, %d calls to the receiver", proto.Name(), detailed, n)
	p, conn := c.RawServer("c", proto, c.RandCond(30*time.Millisecond), c.RandCond(30*time.Millisecond))
	recv := &panicRecv{c, newCallLog()}
	cl := c.Client(proto, signalr.WithConnection(c.lib(conn)), logger08(c), signalr.WithReceiver(recv), signalr.EnableDetailedErrors(detailed), signalr.MaximumReceiveMessageSize(1<<20))
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	p.KeepAlive(4 * time.Second)
	out := c.Collect(cl.C.Invoke("pending", 1))
	type call struct {
		tag, id, want string
		fine          bool
	}
	var ks []*call
	for i := 0; i < n; i++ {
		k := &call{tag: fmt.Sprintf("t%d", i), id: genID(c, i)}
		if c.Chance(40) {
			k.id = ""
		}
		ms := pick(c, 0, 0, c.Intn(500))
		m := Msg{Type: 1, ID: k.id}
		if c.Chance(35) {
			k.fine = true
			m.Target, m.Args = "Fine", []any{k.tag, ms}
		} else {
			kind := c.Intn(panicKinds)
			k.want = panicText(k.tag, kind)
			m.Target, m.Args = "Boom", []any{k.tag, kind, ms}
			c.Count("panic.recv", 1)
		}
		if p.Send(m) != nil {
			c.Violf("connection-lost", "the client closed the connection: %v", cl.C.Err())
			return
		}
		ks = append(ks, k)
		if c.Chance(20) {
			time.Sleep(c.Dur(0, 100*time.Millisecond))
		}
	}
	c.Until(10*time.Minute, func() bool {
		for _, k := range ks {
			if len(recv.log.get(k.tag)) == 0 || k.id != "" && len(p.Completions(k.id)) == 0 {
				return false
			}
		}
		return true
	})
	// the pending call is still answered
	c.Until(0, func() bool { return len(p.Find(func(m Msg) bool { return m.Type == 1 })) > 0 })
	for _, m := range p.Find(func(m Msg) bool { return m.Type == 1 }) {
		_ = p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "done"})
	}
	c.Until(0, out.Closed)
	time.Sleep(6 * time.Second)
	if st := cl.C.State(); st != signalr.ClientConnected {
		c.Violf("disconnected", "the client is %v: %v", st, cl.C.Err())
	}
	if vals, _, _ := out.Get(); len(vals) != 1 || vals[0].Value != "done" {
		c.Violf("other-call", "the pending call of the client yielded %v", vals)
	}
	p.judgeBad("client")
	comps := 0
	for _, k := range ks {
		if r := len(recv.log.get(k.tag)); r != 1 {
			c.Violf("executions", "receiver call %s executed %d times", k.tag, r)
		}
		if k.id == "" {
			continue
		}
		cs := p.Completions(k.id)
		comps += len(cs)
		switch {
		case len(cs) != 1:
			c.Violf("panic-answer", "receiver call %s (id %q): completions %v", k.tag, k.id, cs)
		case k.fine:
			if cs[0].HasErr || cs[0].Result != "result-"+k.tag {
				c.Violf("other-call", "receiver call %s: %v", k.tag, cs[0])
			}
		case !cs[0].HasErr:
			c.Violf("panic-answer", "receiver call %s: %v", k.tag, cs[0])
		default:
			judgePanic(c, "receiver "+k.tag, cs[0].Error, k.want, detailed)
		}
	}
	if all := p.Find(func(m Msg) bool { return m.Type == 3 || m.Type == 2 || m.Type == 7 }); len(all) != comps {
		c.Violf("unknown-id", "messages nobody asked for: %v", all)
	}
	c.Ev("recv.done", "%d calls", n)
}
