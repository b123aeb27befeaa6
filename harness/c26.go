package sigverif

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C26", Quick: 15000, Thorough: 600000, Run: runC26,
		Rule: "A case makes a server or a client with a random list of options in a random order, among them repeated ones, nil, and in a part of the cases one which is not valid or belongs to the other party. A list with such an option has to be refused with an error and nothing may remain or have happened; otherwise the effective value of some of the settings - the last one given, or the documented default - is measured in virtual time from outside: handshake timeout, timeout interval, keep-alive interval, maximum receive message size, detailed errors, maximum number of upload streams, stream buffer capacity with its timeout, alternate names, offered transports, maximum number of negotiations, transfer format, back-off, receiver, connector.",
		Need: []string{"server", "client", "refused", "default", "set", "twice", "nil", "probe.handshake", "probe.silent", "probe.size", "probe.detail", "probe.streams", "probe.buffer", "probe.names", "probe.transports", "probe.negotiations", "probe.format", "probe.backoff", "probe.receiver", "hub.UseHub", "hub.HubFactory", "hub.SimpleHubFactory", "hub.PerConnectionHubFactory", "unlimited"}})
}

// Hub26 needs no fields of its own.
type Hub26 struct {
	signalr.Hub
}

func (h *Hub26) Echo(s string) string { return s }
func (h *Hub26) Boom() string         { panic("boom26") }
func (h *Hub26) Drain(in <-chan string) int {
	n := 0
	for range in {
		n++
	}
	return n
}
func (h *Hub26) Hold(ms int, in <-chan string) int {
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return h.Drain(in)
}

type Recv26 struct {
	signalr.Receiver
	mu    sync.Mutex
	calls []string
}

func (r *Recv26) Take(s string) {
	r.mu.Lock()
	r.calls = append(r.calls, s)
	r.mu.Unlock()
}
func (r *Recv26) got() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.calls...)
}

type conf26 struct {
	c       *Case
	kinds   []string
	opts    []opt
	set     map[string]bool
	H, T, K time.Duration
	R       time.Duration
	buf     int
	max     int
	streams int
	detail  bool
	names   map[string]string // alternate -> method
	// server
	trs []string
	neg int
	// client
	binary  bool
	backoff time.Duration // -1: stop, 0: default
	recv    *Recv26
}

func (f *conf26) add(kind string, o opt) {
	f.kinds = append(f.kinds, kind)
	f.opts = append(f.opts, o)
	if f.set[kind] {
		f.c.Count("twice", 1)
	}
	f.set[kind] = true
}

// shuffled changes the order of the options, but not that of options of one kind.
func (f *conf26) shuffled() []opt {
	byKind := map[string][]opt{}
	for i, k := range f.kinds {
		byKind[k] = append(byKind[k], f.opts[i])
	}
	var out []opt
	var names []string
	for _, i := range f.c.Perm(len(f.kinds)) {
		k := f.kinds[i]
		out = append(out, byKind[k][0])
		byKind[k] = byKind[k][1:]
		names = append(names, k)
	}
	f.c.Ev("options", "%v", names)
	return out
}

func (f *conf26) common() {
	c := f.c
	times := func(k string, g func()) {
		if c.Chance(45) {
			g()
			if c.Chance(25) {
				g()
			}
		}
	}
	times("H", func() { f.H = c.Dur(100*time.Millisecond, 40*time.Second); f.add("H", signalr.HandshakeTimeout(f.H)) })
	times("T", func() { f.T = c.Dur(500*time.Millisecond, 90*time.Second); f.add("T", signalr.TimeoutInterval(f.T)) })
	times("K", func() { f.K = c.Dur(100*time.Millisecond, 30*time.Second); f.add("K", signalr.KeepAliveInterval(f.K)) })
	times("R", func() { f.R = c.Dur(100*time.Millisecond, 20*time.Second); f.add("R", signalr.ChanReceiveTimeout(f.R)) })
	times("buf", func() { f.buf = pick(c, 1, 2, c.Range(3, 40)); f.add("buf", signalr.StreamBufferCapacity(uint(f.buf))) })
	times("max", func() {
		f.max = pick(c, 200, c.Range(200, 5000), c.Range(5000, 100000))
		f.add("max", signalr.MaximumReceiveMessageSize(uint(f.max)))
	})
	times("streams", func() {
		f.streams = pick(c, 0, 1, c.Range(2, 20), c.Range(100, 130))
		f.add("streams", signalr.MaxConcurrentStreams(uint(f.streams)))
	})
	times("detail", func() { f.detail = c.Bool(); f.add("detail", signalr.EnableDetailedErrors(f.detail)) })
	if c.Chance(20) {
		f.add("skip", signalr.InsecureSkipVerify(c.Bool()))
	}
	if c.Chance(20) {
		f.add("origins", signalr.AllowOriginPatterns([]string{"a.test"}))
	}
	for i := 0; i < 3; i++ {
		if c.Chance(15) {
			f.add("nil", nil)
			c.Count("nil", 1)
		}
	}
}

func newConf26(c *Case) *conf26 {
	return &conf26{c: c, set: map[string]bool{}, H: 15 * time.Second, T: 30 * time.Second, K: 15 * time.Second, R: 5 * time.Second, buf: 10, max: 1 << 15, streams: 100, names: map[string]string{}, neg: 1000}
}

// probe says that the setting is looked at.
func (f *conf26) probe(name, kind string) {
	f.c.Ev("probe."+name, "")
	if f.set[kind] {
		f.c.Count("set", 1)
	} else {
		f.c.Count("default", 1)
	}
}

func runC26(c *Case) {
	if c.Chance(45) {
		c.Count("client", 1)
		client26(c)
	} else {
		c.Count("server", 1)
		server26(c)
	}
}

var errOpt26 = errors.New("the manager can not be made")

type never26 struct {
	c *Case
	n atomic.Int64
}

func (v *never26) connect() (signalr.Connection, error) {
	v.n.Add(1)
	return nil, errors.New("no connection")
}

// nothing judges what an attempt to make a party has left.
func nothing26(c *Case, what string, ctx context.Context) {
	if ctx.Err() != nil {
		c.Violf("parent-canceled", "%s: the context of the application was cancelled", what)
	}
	c.Count("refused", 1)
	c.allEnded(what)
}

func server26(c *Case) {
	f := newConf26(c)
	f.common()
	if c.Chance(45) {
		f.neg = pick(c, 1, c.Range(2, 9), c.Range(1001, 1030))
		f.add("neg", signalr.MaxNegotiationConnections(f.neg))
	}
	f.trs = []string{"WebSockets", "ServerSentEvents"}
	if c.Chance(45) {
		f.trs = pick(c, []string{"WebSockets"}, []string{"ServerSentEvents"}, []string{"ServerSentEvents", "WebSockets"})
		var l []signalr.TransportType
		for _, t := range f.trs {
			l = append(l, signalr.TransportType(t))
		}
		f.add("transports", signalr.HTTPTransports(l...))
	}
	names := []string{"the.echo", "echo-echo", "ECHO2", "drain!"}
	for _, i := range c.Perm(len(names))[:c.Intn(len(names))] {
		m := pick(c, "Echo", "echo", "Drain")
		f.names[names[i]] = m
		f.add("names", signalr.WithAlternateMethodName(m, names[i]))
	}
	proto := &Hub26{}
	hub := pick(c, "UseHub", "HubFactory", "SimpleHubFactory", "PerConnectionHubFactory")
	mk := func(hub string) opt {
		switch hub {
		case "UseHub":
			return signalr.UseHub(proto)
		case "HubFactory":
			return signalr.HubFactory(func() signalr.HubInterface { return &Hub26{} })
		case "SimpleHubFactory":
			return signalr.SimpleHubFactory(proto)
		}
		return signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub26{} })
	}
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	f.add("logger", signalr.Logger(yieldLogger{c}, c.Bool()))
	never := &never26{c: c}
	if c.Chance(20) {
		what := "no hub"
		var o opt
		switch c.Intn(12) {
		case 0:
			hub = ""
		case 1:
			what, o = "StreamBufferCapacity(0)", signalr.StreamBufferCapacity(0)
		case 2:
			what, o = "MaximumReceiveMessageSize(0)", signalr.MaximumReceiveMessageSize(0)
		case 3:
			t := pick(c, signalr.TransportType("LongPolling"), "", "websockets", signalr.TransportWebTransports)
			what, o = fmt.Sprintf("HTTPTransports(%q)", t), signalr.HTTPTransports(pick(c, []signalr.TransportType{t}, []signalr.TransportType{signalr.TransportWebSockets, t}, []signalr.TransportType{t, signalr.TransportServerSentEvents})...)
		case 4:
			_, far := c.Pair("x", Cond{}, Cond{})
			what, o = "WithConnection", signalr.WithConnection(far)
		case 5:
			what, o = "WithConnector", signalr.WithConnector(never.connect)
		case 6:
			what, o = "WithReceiver", signalr.WithReceiver(&Recv26{})
		case 7:
			what, o = "WithBackoff", constBackoff(time.Second)
		case 8:
			what, o = "TransferFormat", signalr.TransferFormat(pick(c, signalr.TransferFormatText, signalr.TransferFormatBinary))
		case 9:
			what, o = "WithHttpConnection", signalr.WithHttpConnection(ctx, "http://host.test/hub")
		default:
			what, o = "WithHubLifetimeManager", signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) { return nil, errOpt26 })
		}
		if hub != "" {
			f.add("hub", mk(hub))
			f.add("bad", o)
		}
		c.Sample("server with %s among %v", what, f.kinds)
		_, err := signalr.NewServer(ctx, f.shuffled()...)
		if err == nil {
			c.Violf("not-refused", "NewServer accepts %s (options %v)", what, f.kinds)
			return
		}
		if what == "WithHubLifetimeManager" && !errors.Is(err, errOpt26) {
			c.Violf("error-lost", "NewServer returns %v instead of the error of the lifetime manager's constructor", err)
		}
		if never.n.Load() > 0 {
			c.Violf("not-refused", "the connector was called")
		}
		nothing26(c, "a refused NewServer with "+what, ctx)
		return
	}
	f.add("hub", mk(hub))
	c.Count("hub."+hub, 1)
	c.Sample("server, %s, options %v: H %v T %v K %v R %v buffer %d max %d streams %d detailed %v names %v transports %v negotiations %d", hub, f.kinds, f.H, f.T, f.K, f.R, f.buf, f.max, f.streams, f.detail, f.names, f.trs, f.neg)
	S, err := signalr.NewServer(ctx, f.shuffled()...)
	if err != nil {
		c.Violf("refused", "NewServer(%v) refuses valid options: %v", f.kinds, err)
		return
	}
	srv := &Srv{c: c, S: S, Ctx: ctx, Cancel: cancel}
	for i, n := 0, c.Range(1, 3); i < n && !c.failed(); i++ {
		f.probeServer(srv, fmt.Sprintf("c%d", i))
	}
}

func (f *conf26) probeServer(srv *Srv, id string) {
	c := f.c
	p := c.pickProto()
	dial := func() *RawClient { return srv.Connect(id, p, c.RandCond(0), Cond{}) }
	alive := func() *RawClient {
		r := dial()
		if r != nil {
			r.KeepAlive(f.T / 4)
		}
		return r
	}
	answer := func(r *RawClient, id string) (Msg, bool) {
		c.Until(0, func() bool { d, _ := r.Served.Done(); return d || len(r.Completions(id)) > 0 })
		if cs := r.Completions(id); len(cs) > 0 {
			return cs[0], true
		}
		return Msg{}, false
	}
	switch c.Intn(9) {
	case 0:
		f.probe("handshake", "H")
		r := srv.Dial(id, p, Cond{}, Cond{})
		at := c.Now()
		if c.Bool() {
			// as late and as large as it may be
			f.probe("handshake-late", "max")
			time.Sleep(f.H * time.Duration(c.Intn(90)) / 100)
			hs := fmt.Sprintf(`{"protocol":%q,"version":1`, p.Name())
			if n := c.Range(0, f.max) - len(hs) - 12; n > 0 {
				hs += `,"pad":"` + strings.Repeat("p", n) + `"`
			}
			_ = r.Raw([]byte(hs + "}\x1e"))
			c.Until(0, func() bool { _, ok := r.Handshake(); d, _ := r.Served.Done(); return ok || d })
			if h, ok := r.Handshake(); !ok || h != "{}" {
				c.Violf("handshake", "a handshake of %d bytes %v after the connection began is answered %q, the timeout is %v, the maximum size %d (%v)", len(hs), c.Now()-at, h, f.H, f.max, f.kinds)
			}
			r.Conn.Close()
			return
		}
		f.ends("handshake timeout", f.H, at, f.H, func() (bool, time.Duration) { return r.Served.Done() })
	case 1:
		f.probe("silent", pick(c, "T", "K"))
		r := srv.Dial(id, p, Cond{}, Cond{})
		at := c.Now()
		if r.Peer.Connect() != "" {
			c.Violf("connect-failed", "handshake failed")
			return
		}
		f.ends("timeout interval", f.T, at, f.T, func() (bool, time.Duration) { return r.Served.Done() })
		f.pings(r.Far.out, at)
	case 2:
		f.probe("size", "max")
		r := alive()
		if r == nil {
			return
		}
		mk := func(pad string) Msg { return Msg{Type: 1, ID: "s", Target: "Echo", Args: []any{pad}} }
		_, pad, b := sized(p, f.max, false, mk)
		_ = r.Raw(b)
		if m, ok := answer(r, "s"); !ok || m.HasErr || canon(m.Result) != canon(pad) {
			c.Violf("size", "a message of %d bytes was not answered, the maximum is %d (set %v): %v", len(b), f.max, f.set["max"], short(fmt.Sprint(m), 200))
			return
		}
		_, _, b = sized(p, f.max+1, true, func(pad string) Msg { return Msg{Type: 1, ID: "t", Target: "Echo", Args: []any{pad}} })
		_ = r.Raw(b)
		if _, ok := answer(r, "t"); ok {
			c.Violf("size", "a message of %d bytes was answered, the maximum is %d (set %v)", len(b), f.max, f.set["max"])
		}
		r.Conn.Close()
	case 3:
		f.probe("detail", "detail")
		r := alive()
		if r == nil {
			return
		}
		_ = r.Send(Msg{Type: 1, ID: "b", Target: "Boom", Args: []any{}})
		m, ok := answer(r, "b")
		if !ok || !m.HasErr || !strings.Contains(m.Error, "boom26") {
			c.Violf("panic", "the panic is answered by %v", m)
		} else if strings.Contains(m.Error, "goroutine ") != f.detail {
			c.Violf("detail", "detailed errors are %v (set %v), the error is %q", f.detail, f.set["detail"], short(m.Error, 200))
		}
		r.Conn.Close()
	case 4:
		f.probe("streams", "streams")
		r := alive()
		if r == nil {
			return
		}
		n := f.streams + c.Range(1, 3)
		if f.streams == 0 {
			c.Count("unlimited", 1)
			n = c.Range(100, 160)
		}
		for i := 0; i < n; i++ {
			_ = r.Send(Msg{Type: 1, ID: fmt.Sprintf("u%d", i), Target: "Drain", Args: []any{}, Streams: []string{fmt.Sprintf("s%d", i)}})
		}
		for i := f.streams; i < n && f.streams > 0; i++ {
			if m, ok := answer(r, fmt.Sprintf("u%d", i)); !ok || !m.HasErr {
				c.Violf("streams", "upload %d is not refused, the maximum is %d (set %v): %v", i+1, f.streams, f.set["streams"], m)
			}
		}
		for i := 0; i < n && !c.failed(); i++ {
			if f.streams > 0 && i >= f.streams {
				break
			}
			_ = r.Send(Msg{Type: 3, ID: fmt.Sprintf("s%d", i)})
			if m, ok := answer(r, fmt.Sprintf("u%d", i)); !ok || m.HasErr {
				c.Violf("streams", "upload %d of %d is refused, the maximum is %d (set %v): %v", i+1, n, f.streams, f.set["streams"], m)
			}
		}
		r.Conn.Close()
	case 5:
		if f.T <= 2*f.R || f.T < time.Second {
			return
		}
		f.probe("buffer", pick(c, "buf", "R"))
		r := alive()
		if r == nil {
			return
		}
		_ = r.Send(Msg{Type: 1, ID: "h", Target: "Hold", Args: []any{int(10*f.R/time.Millisecond) + 100000}, Streams: []string{"s"}})
		for i := 0; i < f.buf; i++ {
			_ = r.Send(Msg{Type: 2, ID: "s", Item: "x"})
		}
		// a call after the items of a full buffer is answered at once
		_ = r.Send(Msg{Type: 1, ID: "e", Target: "Echo", Args: []any{"e"}})
		c.Until(f.R/2, func() bool { return len(r.Completions("e")) > 0 })
		if len(r.Completions("e")) == 0 {
			c.Violf("buffer", "the buffer of %d (set %v) does not take %d items", f.buf, f.set["buf"], f.buf)
		}
		at := c.Now()
		_ = r.Send(Msg{Type: 2, ID: "s", Item: "y"})
		c.Until(f.R+time.Minute, func() bool { return len(r.Completions("s")) > 0 })
		d := time.Duration(0)
		if cs := r.Completions("s"); len(cs) > 0 {
			d = cs[0].At - at
		}
		if cs := r.Completions("s"); len(cs) == 0 || !cs[0].HasErr {
			c.Violf("buffer", "an item which the buffer of %d (set %v) can not take was not refused after %v (set %v): %v", f.buf, f.set["buf"], f.R, f.set["R"], cs)
		} else if d < f.R-c.tol() || d > f.R+c.tol() {
			c.Violf("buffer", "an item which the buffer of %d can not take was refused after %v, the timeout is %v (set %v)", f.buf, d, f.R, f.set["R"])
		}
		r.Conn.Close()
	case 6:
		f.probe("names", "names")
		r := alive()
		if r == nil {
			return
		}
		all := map[string]string{"Echo": "Echo", "eCHO": "Echo", "Drain": "Drain", "no.such": "", "EchoX": ""}
		for a, m := range f.names {
			all[a] = m
		}
		for i, a := range sortedKeys(all) {
			m := all[a]
			id := fmt.Sprintf("n%d", i)
			msg := Msg{Type: 1, ID: id, Target: a, Args: []any{"v" + id}}
			if m == "Drain" {
				msg.Args, msg.Streams = []any{}, []string{"s" + id}
			}
			_ = r.Send(msg)
			if m == "Drain" {
				_ = r.Send(Msg{Type: 3, ID: "s" + id})
			}
			want := canon("v" + id)
			if m == "Drain" {
				want = canon(0)
			}
			got, ok := answer(r, id)
			if m == "" && (!ok || !got.HasErr) {
				c.Violf("names", "the unknown target %s was answered by %v", a, got)
			} else if m != "" && (!ok || got.HasErr || canon(got.Result) != want) {
				c.Violf("names", "the target %s, a name of %s, was answered by %v (%v)", a, m, got, f.names)
			}
			if c.failed() {
				return
			}
		}
		r.Conn.Close()
	default:
		f.probeHTTP(srv, c.Bool())
	}
}

func (f *conf26) probeHTTP(srv *Srv, many bool) {
	c := f.c
	if f.set["http"] {
		return
	}
	f.set["http"] = true
	h, _ := c.route(srv, "/hub")
	e := c.HTTP(srv, h, "/hub")
	cl := e.Client()
	neg := func() (int, string) {
		st, body, _, err := e.Do(cl, "POST", e.URL+"/negotiate", nil, nil)
		if err != nil {
			c.Violf("negotiate", "%v", err)
		}
		return st, body
	}
	st, body := neg()
	if st != 200 {
		c.Violf("negotiate", "the first negotiation is answered with %d, the maximum is %d", st, f.neg)
		return
	}
	f.probe("transports", "transports")
	var resp struct {
		AvailableTransports []struct{ Transport string }
	}
	_ = json.Unmarshal([]byte(body), &resp)
	var got []string
	for _, t := range resp.AvailableTransports {
		got = append(got, t.Transport)
	}
	want := append([]string{}, f.trs...)
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Violf("transports", "the server offers %v instead of %v (set %v)", got, want, f.set["transports"])
	}
	if c.Bool() && has(f.trs, "WebSockets") {
		// the id is good for the handshake timeout at least
		f.probe("negotiated", "H")
		var ids struct{ ConnectionId string }
		_ = json.Unmarshal([]byte(body), &ids)
		time.Sleep(f.H * time.Duration(c.Intn(90)) / 100)
		ws, st, err := e.openWS(cl, e.URL+"?id="+ids.ConnectionId, nil)
		if err != nil {
			c.Violf("negotiated", "a negotiated id is refused (%d %v), the handshake timeout is %v (set %v, %v)", st, err, f.H, f.set["H"], f.kinds)
			return
		}
		_, err = ws.send(string(handshakeReq("json")))
		c.Until(0, func() bool { return ws.over() || ws.count() > 0 })
		if err != nil || ws.count() == 0 {
			c.Violf("negotiated", "a negotiated id is not served (%v), the handshake timeout is %v (set %v, %v)", err, f.H, f.set["H"], f.kinds)
		}
		ws.close()
		return
	}
	if !many || f.H < 5*time.Second || c.Real {
		return
	}
	f.probe("negotiations", "neg")
	for i := 2; i <= f.neg && !c.failed(); i++ {
		if st, _ := neg(); st != 200 {
			c.Violf("negotiations", "negotiation %d is answered with %d, the maximum is %d (set %v)", i, st, f.neg, f.set["neg"])
		}
	}
	if st, _ := neg(); st != http.StatusTooManyRequests && !c.failed() {
		c.Violf("negotiations", "negotiation %d is answered with %d, the maximum is %d (set %v)", f.neg+1, st, f.neg, f.set["neg"])
	}
}

// ends judges that a connection ends d after from.
func (f *conf26) ends(what string, d, from, wait time.Duration, ended func() (bool, time.Duration)) {
	c := f.c
	c.Until(wait+2*time.Minute, func() bool { e, _ := ended(); return e })
	e, at := ended()
	if !e {
		c.Violf("time", "the connection is open %v after its last message, the %s is %v (%v)", c.Now()-from, what, d, f.kinds)
	} else if at-from < d || at-from > d+c.tol() {
		c.Violf("time", "the connection ended %v after its last message, the %s is %v (%v)", at-from, what, d, f.kinds)
	}
}

// pings judges the gaps between the messages of the library from from up to the end.
func (f *conf26) pings(out *half, from time.Duration) {
	out.mu.Lock()
	rec := append([]writeRec(nil), out.rec...)
	out.mu.Unlock()
	prev := from
	for _, x := range rec {
		check15(f.c, fmt.Sprintf("options %v", f.kinds), prev, x.at, f.K, -1, 0)
		prev = x.at
		if x.at > from+f.T-f.c.tol() {
			return
		}
	}
	if f.set["K"] && f.K < f.T {
		// no ping comes before its time
		n, want := 0, int(f.T/f.K)
		for _, x := range rec {
			if x.at > from {
				n++
			}
		}
		if n > want+3 {
			f.c.Violf("pings", "%d messages within %v, the keep-alive interval is %v", n, f.T, f.K)
		}
	}
	check15(f.c, fmt.Sprintf("options %v", f.kinds), prev, from+f.T, f.K, -1, 0)
}

func client26(c *Case) {
	f := newConf26(c)
	f.common()
	if c.Chance(60) {
		for i, n := 0, c.Range(1, 2); i < n; i++ {
			f.binary = c.Bool()
			t := signalr.TransferFormatText
			if f.binary {
				t = signalr.TransferFormatBinary
			}
			f.add("format", signalr.TransferFormat(t))
		}
	}
	if c.Chance(60) {
		for i, n := 0, c.Range(1, 2); i < n; i++ {
			f.backoff = pick(c, -1, c.Dur(time.Millisecond, time.Minute), c.Dur(time.Millisecond, time.Hour))
			d := f.backoff
			if d < 0 {
				f.add("backoff", signalr.WithBackoff(func() backoff.BackOff { return &backoff.StopBackOff{} }))
			} else {
				f.add("backoff", constBackoff(d))
			}
		}
	}
	if c.Chance(50) {
		for i, n := 0, c.Range(1, 2); i < n; i++ {
			f.recv = &Recv26{}
			f.add("receiver", signalr.WithReceiver(f.recv))
		}
	}
	for _, a := range []string{"take.it", "TAKE2"} {
		if c.Bool() {
			f.names[a] = "Take"
			f.add("names", signalr.WithAlternateMethodName(pick(c, "Take", "take"), a))
		}
	}
	f.add("logger", signalr.Logger(yieldLogger{c}, c.Bool()))
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	p := protos[0]
	if f.binary {
		p = protos[1]
	}
	peer, conn := c.RawServer("c", p, Cond{}, Cond{})
	var calls []time.Duration
	var mu sync.Mutex
	failing := false
	connector := func() (signalr.Connection, error) {
		mu.Lock()
		defer mu.Unlock()
		calls = append(calls, c.Now())
		if failing || len(calls) > 1 {
			return nil, errors.New("unreachable")
		}
		return c.lib(conn), nil
	}
	called := func() []time.Duration {
		mu.Lock()
		defer mu.Unlock()
		return append([]time.Duration{}, calls...)
	}
	if c.Chance(20) {
		what := "no connection"
		var o opt
		base := true
		switch c.Intn(12) {
		case 0:
			base = false
		case 1:
			what, o = "StreamBufferCapacity(0)", signalr.StreamBufferCapacity(0)
		case 2:
			what, o = "MaximumReceiveMessageSize(0)", signalr.MaximumReceiveMessageSize(0)
		case 3:
			what, o = "TransferFormat(x)", signalr.TransferFormat(pick(c, signalr.TransferFormatType(""), "text", "json", "Binary "))
		case 4:
			what, o = "UseHub", signalr.UseHub(&Hub26{})
		case 5:
			what, o = "HubFactory", signalr.HubFactory(func() signalr.HubInterface { return &Hub26{} })
		case 6:
			what, o = "SimpleHubFactory", signalr.SimpleHubFactory(&Hub26{})
		case 7:
			what, o = "PerConnectionHubFactory", signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub26{} })
		case 8:
			what, o = "HTTPTransports", signalr.HTTPTransports(signalr.TransportWebSockets)
		case 9:
			what, o = "MaxNegotiationConnections", signalr.MaxNegotiationConnections(7)
		case 10:
			what, o = "WithHubLifetimeManager", signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) {
				c.Violf("not-refused", "a client makes a HubLifetimeManager")
				return nil, nil
			})
		default:
			what = "WithConnection and WithConnector"
			f.add("connection", signalr.WithConnection(conn))
			o = signalr.WithConnector(connector)
			base = false
		}
		if base {
			f.add("connection", pick(c, signalr.WithConnection(conn), signalr.WithConnector(connector)))
		}
		if o != nil {
			f.add("bad", o)
		}
		c.Sample("client with %s among %v", what, f.kinds)
		_, err := signalr.NewClient(ctx, f.shuffled()...)
		if err == nil {
			c.Violf("not-refused", "NewClient accepts %s (options %v)", what, f.kinds)
			return
		}
		time.Sleep(time.Second)
		if _, ok := peer.Handshake(); ok || len(called()) > 0 {
			c.Violf("not-refused", "NewClient with %s returned %v, but uses the connection", what, err)
		}
		conn.Close()
		nothing26(c, "a refused NewClient with "+what, ctx)
		return
	}
	mode := pick(c, "handshake", "silent", "use", "use", "use", "backoff", "backoff")
	withConnector := mode == "backoff" || mode == "use" && c.Bool()
	if withConnector {
		f.add("connection", signalr.WithConnector(connector))
	} else {
		f.add("connection", signalr.WithConnection(c.lib(conn)))
	}
	c.Sample("client, %s, options %v: H %v T %v K %v R %v max %d binary %v backoff %v names %v", mode, f.kinds, f.H, f.T, f.K, f.R, f.max, f.binary, f.backoff, f.names)
	cl, err := signalr.NewClient(ctx, f.shuffled()...)
	if err != nil {
		c.Violf("refused", "NewClient(%v) refuses valid options: %v", f.kinds, err)
		return
	}
	// nothing happens before Start
	if c.Chance(20) {
		time.Sleep(c.Dur(0, 2*time.Minute))
	}
	if _, ok := peer.Handshake(); ok || len(called()) > 0 || cl.State() != signalr.ClientCreated {
		c.Violf("early", "the client uses its connection before Start (state %s)", stateName(cl.State()))
		return
	}
	failing = mode == "backoff"
	watch := func() func() (bool, time.Duration) {
		var m sync.Mutex
		done, at := false, time.Duration(0)
		ch := cl.WaitForState(context.Background(), signalr.ClientClosed)
		go func() {
			<-ch
			m.Lock()
			done, at = true, c.Now()
			m.Unlock()
		}()
		return func() (bool, time.Duration) { m.Lock(); defer m.Unlock(); return done, at }
	}
	cl.Start()
	start := c.Now()
	switch mode {
	case "handshake":
		f.probe("handshake", "H")
		f.ends("handshake timeout", f.H, start, f.H, watch())
	case "silent":
		f.probe("silent", pick(c, "T", "K"))
		if !peer.AcceptHandshake() {
			c.Violf("connect-failed", "no handshake")
			return
		}
		at := c.Now()
		f.ends("timeout interval", f.T, at, f.T, watch())
		f.pings(conn.out, at)
	case "backoff":
		f.probe("backoff", "backoff")
		n := c.Range(2, 5)
		wait := time.Duration(n+1) * max(f.backoff, 20*time.Second)
		if f.backoff < 0 {
			wait = 10 * time.Minute
		}
		end := watch()
		c.Until(wait, func() bool { e, _ := end(); return e || len(called()) >= n })
		cs := called()
		switch {
		case f.backoff < 0:
			if e, _ := end(); !e || len(cs) != 1 {
				c.Violf("backoff", "the back-off ends at once, the client tried at %v, ended %v", cs, e)
			}
		case len(cs) < n:
			c.Violf("backoff", "the client tried at %v only, the back-off is %v (set %v)", cs, f.backoff, f.set["backoff"])
		default:
			for i := 1; i < n; i++ {
				d := cs[i] - cs[i-1]
				if f.backoff > 0 && (d < f.backoff || d > f.backoff+c.tol()) {
					c.Violf("backoff", "the client tried at %v, the back-off is %v", cs, f.backoff)
					break
				}
				// the default grows from 0.5 s by 1.5, randomized by half
				lo, hi := 250*time.Millisecond, 750*time.Millisecond
				for k := 1; k < i; k++ {
					lo, hi = lo*3/2, hi*3/2
				}
				if f.backoff == 0 && (d < lo-c.tol() || d > hi+c.tol()) {
					c.Violf("backoff", "with the default back-off the client tried at %v", cs)
					break
				}
			}
		}
	case "use":
		f.probe("format", "format")
		if !c.Until(0, func() bool { _, ok := peer.Handshake(); return ok }) {
			c.Violf("connect-failed", "no handshake")
			return
		}
		hs, _ := peer.Handshake()
		if want := fmt.Sprintf("%q", p.Name()); !strings.Contains(hs, want) {
			c.Violf("format", "the handshake is %s, expected %s (set %v)", hs, want, f.set["format"])
			return
		}
		peer.AcceptHandshake()
		peer.KeepAlive(f.T / 4)
		if f.recv != nil {
			f.probe("receiver", "receiver")
			targets := append([]string{"take", "Take", "nobody"}, sortedKeys(f.names)...)
			want := []string{}
			for _, t := range targets {
				_ = peer.Send(Msg{Type: 1, Target: t, Args: []any{t + "!"}})
				if t != "nobody" {
					want = append(want, t+"!")
				}
			}
			c.Until(0, func() bool { return len(f.recv.got()) >= len(want) })
			time.Sleep(10 * time.Millisecond)
			got := f.recv.got()
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Violf("receiver", "the receiver was called with %v, expected %v (names %v)", got, want, f.names)
				return
			}
		}
		f.probe("size", "max")
		over := c.Bool()
		o := c.Collect(cl.Invoke("m", "x"))
		var inv []Msg
		if !c.Until(0, func() bool { inv = peer.Find(func(m Msg) bool { return m.Type == 1 }); return len(inv) > 0 }) {
			c.Violf("no-call", "the invocation is not sent")
			return
		}
		mk := func(pad string) Msg { return Msg{Type: 3, ID: inv[0].ID, HasRes: true, Result: pad} }
		size := f.max
		if over {
			size++
		}
		_, pad, b := sized(p, size, over, mk)
		_ = peer.Raw(b)
		c.Until(0, o.Closed)
		vals := o.vals()
		if !over && (len(vals) != 1 || vals[0].Error != nil || canon(vals[0].Value) != canon(pad)) {
			c.Violf("size", "a result of %d bytes was not accepted, the maximum is %d (set %v): %v", len(b), f.max, f.set["max"], short(fmt.Sprint(vals), 200))
		}
		if over && len(vals) > 0 && vals[0].Error == nil {
			c.Violf("size", "a result of %d bytes was accepted, the maximum is %d (set %v)", len(b), f.max, f.set["max"])
		}
	}
	cancel()
	peer.conn.Close()
	c.Until(0, func() bool { return cl.State() == signalr.ClientClosed })
}
