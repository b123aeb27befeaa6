package sigverif

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/go-chi/chi/v5"
	"github.com/gorilla/mux"
	"github.com/julienschmidt/httprouter"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/router"
)

func init() {
	register(&Prop{ID: "C19", Quick: 4000, Thorough: 200000, Run: runC19,
		Rule: "A case connects library clients over websockets or Server-Sent Events, with negotiate version 0, 1 or none, through one of four routers, over an in-memory network which cuts and delays the bytes, to a server, and another client over an in-process connection to the same server. Both make the same concurrent calls, streams and uploads with values of any content and sizes up to the limit, and receive sends; the outcomes must be the same. Then the connection ends in one of many ways, and the ends of the hub's connection, of the HTTP requests, of the network connections and of everything the library started are judged.",
		Need: []string{"ev:t.ws", "ev:t.sse", "ev:neg.0", "ev:neg.1", "ev:neg.none", "ev:router.mux", "ev:router.chi", "ev:router.gorilla", "ev:router.httprouter", "ev:end.stop", "ev:end.cancel", "ev:end.abort", "ev:end.server", "ev:end.cut", "ev:end.reset", "ev:end.stall", "ev:end.http", "big", "headers", "factory", "fallback", "tls", "query", "cookie", "offer", "fallback.later", "reconnected", "send", "upload", "stream", "invoke", "lazy"}})
}

// route maps the hub of the server in one of the routers.
func (c *Case) route(srv *Srv, path string) (http.Handler, string) {
	switch c.Intn(4) {
	case 0:
		m := http.NewServeMux()
		srv.S.MapHTTP(signalr.WithHTTPServeMux(m), path)
		return m, "mux"
	case 1:
		m := chi.NewRouter()
		srv.S.MapHTTP(router.WithChiRouter(m), path)
		return m, "chi"
	case 2:
		m := mux.NewRouter()
		srv.S.MapHTTP(router.WithGorillaRouter(m), path)
		return m, "gorilla"
	default:
		m := httprouter.New()
		srv.S.MapHTTP(router.WithHttpRouter(m), path)
		return m, "httprouter"
	}
}

func listOf[T any](x ...T) []T { return x }

type world19 struct {
	mu      sync.Mutex
	on, off map[string]int
	order   []string
}

// Hub19 is an EchoHub which records its connections.
type Hub19 struct {
	EchoHub
	w *world19
}

func (h *Hub19) OnConnected(id string) {
	h.w.mu.Lock()
	h.w.on[id]++
	h.w.order = append(h.w.order, id)
	h.w.mu.Unlock()
}
func (h *Hub19) OnDisconnected(id string) {
	h.w.mu.Lock()
	h.w.off[id]++
	h.w.mu.Unlock()
}
func (h *Hub19) Who() string { return h.ConnectionID() }
func (h *Hub19) Quit()       { h.Abort() }

func (w *world19) ons() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.on)
}

// offs is the number of ended connections, and if any has ended twice or before it started.
func (w *world19) offs() (n int, bad string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for id, k := range w.off {
		n++
		if k > 1 || w.on[id] != 1 {
			bad = fmt.Sprintf("%s: OnConnected %d times, OnDisconnected %d times", id, w.on[id], k)
		}
	}
	return
}

// text19 is a text of size bytes at least, of any content.
func text19(c *Case, max int) string {
	unit := pick(c, "x", "é", "\n", "\r\n", "data: ", "\x1e", "\n\n", ":", " ", "\t", "\u2028", "😀", "\"\\", "\x00", "event: x\n", "<&>")
	most := max/(6*len(unit)) - 100 // encoded, the text might be six times as long
	n := min(most, pick(c, c.Intn(5), c.Intn(50), c.Intn(2000)))
	if c.Chance(25) {
		n = c.Range(1, most)
	}
	s := pick(c, "", " ", "data:", "\n") + strings.Repeat(unit, n) + pick(c, "", " ", "\n", "\r", "  \t ")
	if len(s) > 5000 {
		c.Count("big", 1)
	}
	return s
}

// op19 makes one call and returns its outcome.
func op19(c *Case, cl signalr.Client, tag string, op int, v any, text string, n int) string {
	show := func(o *Outcomes) string {
		if !c.Until(0, o.Closed) {
			return "no answer"
		}
		s := ""
		for _, r := range o.vals() {
			if r.Error != nil {
				s += "error " + r.Error.Error() + "\n"
			} else {
				s += canon(r.Value) + "\n"
			}
		}
		return s
	}
	switch op {
	case 0:
		return show(c.Collect(cl.Invoke("Echo", tag, 0, v)))
	case 1:
		return show(c.Collect(cl.Invoke("Echo", tag, n%30, text)))
	case 2:
		return show(c.Collect(cl.Invoke("Panic", tag, 0)))
	case 3:
		return show(c.Collect(cl.Invoke("NoSuch", tag)))
	case 4:
		return show(c.Collect(cl.Invoke("Struct", tag, point{n, text})))
	case 5:
		return show(c.Collect(cl.Invoke("Async", tag, n%50)))
	case 6:
		return show(c.Collect(cl.PullStream("Stream", tag, n, n%4, n%3)))
	case 7:
		return show(c.Collect(cl.PullStream("UnserStream", tag, n%10)))
	case 8, 9:
		in := make(chan any)
		o := c.Collect(cl.PushStreams("CollectAny", tag, in))
		go func() {
			defer close(in)
			for i := 0; i < n; i++ {
				x := v
				if i%3 == 1 {
					x = text
				}
				select {
				case in <- x:
				case <-time.After(c.Patience()):
					return
				}
			}
		}()
		return show(o)
	case 10:
		o := c.CollectErr(cl.Send("Void", tag, 0))
		if !c.Until(0, o.Closed) {
			return "no answer"
		}
		return fmt.Sprint(o.Errs())
	default:
		return show(c.Collect(cl.Invoke("Multi", tag, n)))
	}
}

func runC19(c *Case) {
	w := &world19{on: map[string]int{}, off: map[string]int{}}
	e := &hubEnv{c, newCallLog()}
	max := pick(c, 1<<15, 1<<15, 100000, 1<<20)
	T := c.Dur(10*time.Second, 60*time.Second)
	// without keep-alive messages: nothing may wait for further traffic
	lazy := !c.Real && c.Chance(35)
	if lazy {
		T = 30 * time.Minute
		c.Count("lazy", 1)
	}
	limits := []opt{signalr.MaximumReceiveMessageSize(uint(max)), signalr.TimeoutInterval(T), signalr.KeepAliveInterval(T / 3)}
	sopts := append([]opt{}, limits...)
	if c.Chance(25) {
		sopts = append(sopts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub19{EchoHub{e: e}, w} }))
	} else {
		sopts = append(sopts, signalr.HubFactory(func() signalr.HubInterface { return &Hub19{EchoHub{e: e}, w} }))
	}
	srv := c.Server(sopts...)
	path := pick(c, "/hub", "/a/b/hub", "/x")
	h, rname := c.route(srv, path)
	c.Ev("router."+rname, "")
	auth := c.Chance(25)
	if auth {
		c.Count("headers", 1)
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Header.Get("X-Auth") != "secret" {
				w.WriteHeader(401)
				return
			}
			inner.ServeHTTP(w, r)
		})
	}
	// what the application puts into the address comes with every request, as well as the cookies of the negotiation
	query := c.Chance(30)
	cookie := c.Chance(20)
	lacks := ""
	var lacksMu sync.Mutex
	if query || cookie {
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			miss := ""
			q := r.URL.Query()
			if query && (q.Get("tenant") != "a b&c" || q.Get("empty") != "" || !q.Has("empty")) {
				miss = "query of the address"
			}
			if cookie && strings.HasSuffix(r.URL.Path, "/negotiate") {
				http.SetCookie(w, &http.Cookie{Name: "sticky", Value: "node7"})
			} else if ck, err := r.Cookie("sticky"); cookie && r.Header.Get("Upgrade") != "" && (err != nil || ck.Value != "node7") {
				miss = "cookie of the negotiation"
			}
			if miss != "" {
				lacksMu.Lock()
				lacks = fmt.Sprintf("the request %s %s (%s) lacks the %s", r.Method, r.URL, r.Header.Get("Upgrade"), miss)
				lacksMu.Unlock()
			}
			inner.ServeHTTP(w, r)
		})
	}
	// a server which offers Server-Sent Events only, although it could serve websockets
	offer := c.Chance(10)
	if offer {
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if !strings.HasSuffix(r.URL.Path, "/negotiate") {
				inner.ServeHTTP(w, r)
				return
			}
			rec := httptest.NewRecorder()
			inner.ServeHTTP(rec, r)
			var m map[string]any
			if json.Unmarshal(rec.Body.Bytes(), &m) == nil {
				m["availableTransports"] = []any{map[string]any{"transport": "ServerSentEvents", "transferFormats": []any{"Text"}}}
				b, _ := json.Marshal(m)
				rec.Body = bytes.NewBuffer(b)
			}
			for k, v := range rec.Header() {
				if k != "Content-Length" {
					w.Header()[k] = v
				}
			}
			w.WriteHeader(rec.Code)
			_, _ = w.Write(rec.Body.Bytes())
		})
	}
	env := c.serveHTTP(srv, h, path, c.Chance(12))
	if env.tls {
		c.Count("tls", 1)
	}
	if query {
		c.Count("query", 1)
		env.URL += "?tenant=a+b%26c&empty="
	}
	if cookie {
		c.Count("cookie", 1)
	}
	delay := pick(c, 0, 0, 2*time.Millisecond, 20*time.Millisecond)
	env.net.cond = func() (Cond, Cond) {
		up, down := c.RandCond(delay), c.RandCond(delay)
		if env.tls {
			up.WriteLag, down.WriteLag = 0, 0 // TLS holds a mutex while it writes, which stops the virtual time
		}
		return up, down
	}
	ws := c.Bool() && !offer
	proto := c.pickProto()
	if !ws {
		proto = jsonProto{} // server sent events are text
	}
	neg := c.Intn(3)
	c.Ev([]string{"neg.0", "neg.1", "neg.none"}[neg], "")
	hc := env.Client()
	hdr := http.Header{"X-Auth": []string{"secret"}}
	connect := func(ctx context.Context) (signalr.Connection, error) {
		tr := []signalr.TransportType{signalr.TransportServerSentEvents}
		if ws {
			tr[0] = signalr.TransportWebSockets
		} else if offer {
			tr = append(tr, signalr.TransportWebSockets)
			c.Count("offer", 1)
		}
		switch {
		case auth && neg < 2:
			return signalr.NewHTTPConnection(ctx, env.URL, signalr.WithHTTPClient(hc), signalr.WithTransports(tr...), signalr.WithNegotiateVersion(neg), signalr.WithHTTPHeaders(func() http.Header { return hdr }))
		case auth:
			return signalr.NewHTTPConnection(ctx, env.URL, signalr.WithHTTPClient(hc), signalr.WithTransports(tr...), signalr.WithHTTPHeaders(func() http.Header { return hdr.Clone() }))
		case neg < 2:
			return signalr.NewHTTPConnection(ctx, env.URL, signalr.WithHTTPClient(hc), signalr.WithTransports(tr...), signalr.WithNegotiateVersion(neg))
		}
		return signalr.NewHTTPConnection(ctx, env.URL, signalr.WithHTTPClient(hc), signalr.WithTransports(tr...))
	}
	tname := "sse"
	if ws {
		tname = "ws"
	}
	c.Ev("t."+tname, "%s", proto.Name())
	rcv := &C05Recv{c, newCallLog()}
	reconnect := c.Chance(30)
	copts := append([]opt{signalr.WithReceiver(rcv)}, limits...)
	fallback, both := false, false
	if reconnect && c.Bool() {
		// the library chooses the transport
		c.Count("factory", 1)
		tr := signalr.WithTransports(signalr.TransportServerSentEvents)
		switch {
		case ws && c.Bool():
			tr = signalr.WithTransports(signalr.TransportWebSockets, signalr.TransportServerSentEvents)
			both = proto.Name() == "json" && c.Bool()
		case ws:
			tr = signalr.WithTransports(signalr.TransportWebSockets)
		case offer || c.Chance(40):
			fallback = !offer
			env.noWS.Store(!offer)
			if c.Bool() {
				tr = nil
			} else {
				tr = signalr.WithTransports(signalr.TransportServerSentEvents, signalr.TransportWebSockets)
			}
			c.Count("fallback", 1)
		}
		o := listOf(signalr.WithHTTPClient(hc), signalr.WithHTTPHeaders(func() http.Header { return hdr }), tr)
		if neg < 2 {
			o = append(o, signalr.WithNegotiateVersion(neg))
		}
		for i, j := range c.Perm(len(o)) {
			if i < j {
				o[i], o[j] = o[j], o[i]
			}
		}
		copts = append(copts, signalr.WithHttpConnection(env.ctx, env.URL, o...), constBackoff(500*time.Millisecond))
	} else if reconnect {
		copts = append(copts, signalr.WithConnector(func() (signalr.Connection, error) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			return connect(ctx)
		}), constBackoff(500*time.Millisecond))
	} else {
		ctx, cancel := context.WithCancel(context.Background())
		conn, err := connect(ctx)
		if err != nil {
			cancel()
			c.Violf("not-connected", "%s, negotiate version %d: %v", tname, neg, err)
			return
		}
		if c.Bool() {
			cancel() // it is for the creation of the connection only
		} else {
			c.Cleanup(cancel)
		}
		copts = append(copts, signalr.WithConnection(conn))
	}
	cl := c.Client(proto, copts...)
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, time.Minute) {
		c.Violf("not-connected", "%s, negotiate version %d, %s: the client is not connected: %v", tname, neg, rname, cl.C.Err())
		return
	}
	// the reference
	near, far := c.Pair("ref", Cond{Frag: FragAll}, Cond{Frag: FragAll})
	srv.Serve(far)
	ref := c.Client(proto, append([]opt{signalr.WithConnection(near), signalr.WithReceiver(&C05Recv{c, newCallLog()})}, limits...)...)
	ref.C.Start()
	if !ref.AwaitState(signalr.ClientConnected, time.Minute) {
		c.Violf("not-connected", "the in-process client is not connected: %v", ref.C.Err())
		return
	}
	who := c.Collect(cl.C.Invoke("Who"))
	most := time.Duration(0)
	if lazy {
		most = 2 * time.Minute
	}
	if !c.Until(most, who.Closed) || len(who.vals()) != 1 || who.vals()[0].Error != nil {
		c.Violf("first-call", "%s, negotiate version %d: the first call gives %v", tname, neg, who.vals())
		return
	}
	id := fmt.Sprint(who.vals()[0].Value)
	c.Sample("%s, %s, negotiate %d, %s, limit %d, auth %v, reconnect %v", tname, proto.Name(), neg, rname, max, auth, reconnect)

	var wg sync.WaitGroup
	var texts map[string]string
	type diff struct {
		op   int
		got  string
		want string
	}
	var mu sync.Mutex
	var diffs []diff
	late := ""
	for g := 0; g < c.Range(1, 5); g++ {
		k := c.Range(1, 6)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				op, n := c.Intn(12), c.Intn(12)
				if c.Chance(10) {
					n *= 10
				}
				v, text := c.genValue(3), text19(c, max)
				if (op == 8 || op == 9) && n*(6*len(text)+6*len(canon(v))+100) > max {
					n = c.Intn(4)
					text = text[:min(len(text), 100)]
				}
				tag := fmt.Sprintf("g%d.%d", g, i)
				c.Count([]string{"invoke", "invoke", "invoke", "invoke", "invoke", "invoke", "stream", "stream", "upload", "upload", "invoke", "invoke"}[op], 1)
				at := c.Now()
				got := op19(c, cl.C, tag, op, v, text, n)
				if took := c.Now() - at; lazy && took > 2*time.Minute {
					mu.Lock()
					late = fmt.Sprintf("operation %d took %v, keep-alive messages are sent every %v", op, took, T/3)
					mu.Unlock()
				}
				want := op19(c, ref.C, tag, op, v, text, n)
				if got != want {
					mu.Lock()
					diffs = append(diffs, diff{op, got, want})
					mu.Unlock()
				}
			}
		}()
	}
	sends := c.Range(0, 12)
	texts = map[string]string{}
	for i := 0; i < sends; i++ {
		texts[fmt.Sprint("s", i)] = text19(c, max)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < sends; i++ {
			tag := fmt.Sprint("s", i)
			srv.S.HubClients().Client(id).Send("Take", tag, texts[tag])
			c.Count("send", 1)
			if c.Chance(40) {
				time.Sleep(c.Dur(0, 100*time.Millisecond))
			}
		}
	}()
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
		return
	}
	for _, d := range diffs {
		c.Violf("differs", "%s, %s, negotiate %d, limit %d: operation %d gives\n  %s\ninstead of\n  %s", tname, proto.Name(), neg, max, d.op, short(d.got, 600), short(d.want, 600))
	}
	if late != "" {
		c.Violf("late", "%s, %s, negotiate %d: %s", tname, proto.Name(), neg, late)
	}
	if c.failed() {
		return
	}
	for tag, s := range texts {
		c.Until(time.Minute, func() bool { return len(rcv.log.get(tag)) > 0 })
		if got := rcv.log.get(tag); len(got) != 1 || got[0] != canon([]any{s}) {
			c.Violf("send", "%s, %s: a send of %s was received as %s", tname, proto.Name(), short(canon(s), 300), short(fmt.Sprint(got), 300))
			return
		}
	}
	if both {
		// when it reconnects, there are no websockets anymore
		env.noWS.Store(true)
		c.Count("fallback.later", 1)
	}
	end19(c, w, srv, env, cl, hc, id, tname, reconnect, T, ref)
	lacksMu.Lock()
	if lacks != "" {
		c.Violf("request", "%s, negotiate %d: %s", tname, neg, lacks)
	}
	lacksMu.Unlock()
	if c.failed() {
		return
	}
	if ups, sses := env.upgrades.Load(), env.events.Load(); ws && sses > 0 && !both || !ws && ups > 0 && !fallback {
		c.Violf("transport", "the client was told to use %s and made %d websocket and %d event requests", tname, ups, sses)
	}
	near.Close()
	far.Close()
	c.allEnded(tname)
	w.mu.Lock()
	defer w.mu.Unlock()
	for id := range w.on {
		if w.off[id] != 1 {
			c.Violf("callbacks", "%s: OnDisconnected ran %d times for a connection", tname, w.off[id])
		}
	}
}

func end19(c *Case, w *world19, srv *Srv, env *HTTPEnv, cl *Cli, hc *http.Client, id, tname string, reconnect bool, T time.Duration, ref *Cli) {
	// something pending
	pend := c.Bool()
	var outs []*Outcomes
	if pend {
		outs = append(outs, c.Collect(cl.C.PullStream("Stream", "p1", 100000, 20, 0)), c.Collect(cl.C.Invoke("Tag", "p2", 40000)))
		in := make(chan any)
		outs = append(outs, c.Collect(cl.C.PushStreams("CollectAny", "p3", in)))
		stop := make(chan struct{})
		c.Cleanup(func() { close(stop) })
		go func() {
			for {
				select {
				case in <- 1:
					time.Sleep(30 * time.Millisecond)
				case <-stop:
					return
				}
			}
		}()
		time.Sleep(c.Dur(0, time.Second))
	}
	how := pick(c, "stop", "cancel", "abort", "server", "cut", "reset", "stall", "http")
	if how == "stall" && (T > 10*time.Minute || env.tls) {
		how = "cut"
	}
	c.Ev("end."+how, "%s", tname)
	offs := func() int { n, _ := w.offs(); return n }
	notices := true // the client must leave its connection
	switch how {
	case "stop":
		if !c.Within(0, cl.C.Stop) {
			c.Violf("stop-hangs", "%s: Stop does not return", tname)
			return
		}
	case "cancel":
		cl.Cancel()
	case "abort":
		c.Collect(cl.C.Invoke("Quit"))
	case "server":
		srv.Cancel()
	case "cut", "reset":
		env.net.Cut(how == "reset")
	case "stall":
		// nothing gets through anymore
		env.net.mu.Lock()
		conns := append([]*memConn{}, env.net.conns...)
		env.net.mu.Unlock()
		for _, x := range conns {
			x.Conn.in.Stall()
			x.Conn.out.Stall()
		}
	case "http":
		_ = env.http.Close()
		env.net.mu.Lock()
		srvs := append([]*memConn{}, env.net.srvs...)
		env.net.mu.Unlock()
		for _, x := range srvs { // hijacked connections are not closed by http.Server.Close
			x.Conn.Close()
		}
	}
	at := c.Now()
	// the server ends its connection
	if !c.Until(3*T+time.Minute, func() bool { return offs() >= 1 }) {
		c.Violf("not-ended:"+how, "%s: after %s, the hub's connection has not ended", tname, how)
		return
	}
	// the client notices
	if notices {
		left := func() bool {
			s := cl.C.State()
			return s != signalr.ClientConnected || reconnect && w.ons() > 2
		}
		if !c.Until(3*T+time.Minute, left) {
			c.Violf("not-noticed:"+how, "%s: after %s, the client is still %s", tname, how, stateName(cl.C.State()))
			return
		}
	}
	c.Note("ended after %v", c.Now()-at)
	for i, o := range outs {
		if !c.Until(0, o.Closed) {
			c.Violf("pending:"+how, "%s: after %s, the pending call %d got no end", tname, how, i)
		}
	}
	if reconnect && (how == "cut" || how == "reset" || how == "abort") {
		// both sides work again
		if !cl.AwaitState(signalr.ClientConnected, 3*T+time.Minute) {
			c.Violf("no-reconnect:"+how, "%s: after %s, the client does not reconnect: %s %v", tname, how, stateName(cl.C.State()), cl.C.Err())
			return
		}
		o := c.Collect(cl.C.Invoke("Add", "again", 1, 2))
		if !c.Until(0, o.Closed) || len(o.vals()) != 1 || o.vals()[0].Error != nil {
			c.Violf("reconnect-dead", "%s: after %s and reconnecting, a call gives %v", tname, how, o.vals())
			return
		}
		c.Count("reconnected", 1)
		if !c.Within(0, cl.C.Stop) {
			c.Violf("stop-hangs", "%s: Stop does not return", tname)
			return
		}
	}
	// nothing is left
	if reconnect && how != "stop" && how != "cancel" {
		cl.Cancel()
	}
	env.cancel() // ends attempts to connect
	ref.Cancel()
	hc.CloseIdleConnections()
	if !c.Until(3*T+time.Minute, func() bool { hc.CloseIdleConnections(); return env.Active() == 0 }) {
		c.Violf("response-open:"+how, "%s: after %s, %d HTTP requests are still being handled", tname, how, env.Active())
		return
	}
	if !c.Until(3*T+time.Minute, func() bool { hc.CloseIdleConnections(); return env.net.OpenConns() == 0 }) {
		c.Violf("socket-open:"+how, "%s: after %s, %d ends of network connections are still open", tname, how, env.net.OpenConns())
		return
	}
	if _, bad := w.offs(); bad != "" {
		c.Violf("callbacks", "%s: %s", tname, bad)
	}
	srv.Cancel()
	cl.Cancel()
}

func (o *Outcomes) vals() []signalr.InvokeResult {
	v, _, _ := o.Get()
	return v
}
