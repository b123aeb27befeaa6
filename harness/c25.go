package sigverif

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C25", Quick: 12000, Thorough: 400000, Run: runC25,
		Rule: "A case sets up client connections to a scripted HTTP server which negotiates correctly or answers with error statuses, garbage, nothing, half an answer or a broken connection, offers any transports, and accepts, refuses, or leaves unanswered the upgrade or the event stream, over a network which cuts and delays the bytes, while the context of the set-up is cancelled before, during or after it, or never. The outcome is predicted from the script; the requests the server saw, the time after a cancellation, the use of the resulting connection in both directions and after the cancellation of the context, and what is left afterwards are judged.",
		Need: []string{"ok.ws", "ok.sse", "neg.status", "neg.json", "neg.break", "neg.hang", "neg.half", "neg.offer", "ws.status", "ws.hang", "ws.break", "ws.accept", "sse.status", "sse.hang", "sse.break", "cancel.before", "cancel.during", "cancel.after", "factory", "fallback", "refused", "cookie", "query", "headers", "token", "doer", "escaped", "no-common", "doer.fails"}})
}

type try25 struct {
	neg   int // requests
	id    string
	key   string // what the client has to present
	conns []string
	done  bool // the negotiation answered with an offer
}

type script25 struct {
	c      *Case
	neg    string
	status int
	offer  []string
	v      int // negotiate version of the answer
	ws     string
	sse    string
	cookie string
	path   string // escaped path of the hub
	query  url.Values
	hdr    bool
	negV   int // -1: none

	mu    sync.Mutex
	given map[string]bool // header values handed out
	tries []*try25
	bad   []string
	posts []string
	hangs atomic.Int64
	wsc   chan *websocket.Conn
	lines chan string
	end   chan struct{}
}

func (s *script25) wrong(format string, a ...any) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(format, a...))
	s.mu.Unlock()
}

func (s *script25) hang(r *http.Request) {
	s.hangs.Add(1)
	<-r.Context().Done()
	s.hangs.Add(-1)
	panic(http.ErrAbortHandler)
}

func (s *script25) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	c, what := s.c, fmt.Sprintf("%s %s", r.Method, r.URL)
	for k, v := range s.query {
		if strings.Join(r.URL.Query()[k], "|") != strings.Join(v, "|") {
			s.wrong("%s lacks %s=%q of the address", what, k, v)
		}
	}
	s.mu.Lock()
	known := s.given[r.Header.Get("X-Auth")]
	s.mu.Unlock()
	if s.hdr && !known {
		s.wrong("%s has the header X-Auth: %q, which is not what the header function returned", what, r.Header.Get("X-Auth"))
	}
	negPath := strings.TrimSuffix(s.path, "/") + "/negotiate"
	switch p := r.URL.EscapedPath(); p {
	case negPath:
		c.Ev("req.negotiate", "")
		s.negotiate(w, r, what)
	case s.path:
		id := r.URL.Query().Get("id")
		s.mu.Lock()
		var t *try25
		for _, x := range s.tries {
			if x.key == id {
				t = x
			}
		}
		s.mu.Unlock()
		if t == nil {
			s.wrong("%s presents the id %q, which was not negotiated", what, id)
			w.WriteHeader(404)
			return
		}
		kind := "post"
		switch {
		case strings.EqualFold(r.Header.Get("Upgrade"), "websocket"):
			kind = "ws"
		case r.Method == "GET":
			kind = "sse"
			if r.Header.Get("Accept") != "text/event-stream" {
				s.wrong("%s accepts %q", what, r.Header.Get("Accept"))
			}
		case r.Method != "POST":
			s.wrong("%s: unexpected method", what)
		}
		c.Ev("req."+kind, "")
		if kind != "post" {
			s.mu.Lock()
			if l := len(t.conns); l == 0 || t.conns[l-1] != kind || s.sse != "break" && s.ws != "break" {
				t.conns = append(t.conns, kind) // net/http repeats a GET when the connection breaks
			}
			s.mu.Unlock()
		}
		if s.cookie != "" && kind == "ws" {
			n := 0
			for _, ck := range r.Cookies() {
				if ck.Name == "node" && ck.Value == s.cookie {
					n++
				} else {
					s.wrong("%s presents the cookie %s=%q, which the server did not set", what, ck.Name, ck.Value)
				}
			}
			if n != 1 {
				s.wrong("%s presents the cookie of the negotiation %d times: %q", what, n, r.Header["Cookie"])
			}
		}
		switch kind {
		case "ws":
			s.upgrade(w, r)
		case "sse":
			s.stream(w, r)
		default:
			b, _ := io.ReadAll(r.Body)
			s.mu.Lock()
			s.posts = append(s.posts, string(b))
			s.mu.Unlock()
		}
	default:
		s.wrong("%s: the path is neither %s nor %s", what, s.path, negPath)
		w.WriteHeader(404)
	}
}

func (s *script25) negotiate(w http.ResponseWriter, r *http.Request, what string) {
	if r.Method != "POST" {
		s.wrong("%s: negotiates with %s", what, r.Method)
	}
	if v := r.URL.Query().Get("negotiateVersion"); s.negV >= 0 && v != fmt.Sprint(s.negV) || s.negV < 0 && v != "" {
		s.wrong("%s: negotiateVersion %q instead of %d", what, v, s.negV)
	}
	s.mu.Lock()
	n := len(s.tries)
	t := &try25{id: fmt.Sprintf("conn-%d", n)}
	t.key = t.id
	if s.v == 1 {
		t.key = fmt.Sprintf("token+/=%d", n)
	}
	s.tries = append(s.tries, t)
	s.mu.Unlock()
	if s.cookie != "" {
		http.SetCookie(w, &http.Cookie{Name: "node", Value: s.cookie, Path: "/", HttpOnly: true, MaxAge: 3600})
	}
	m := map[string]any{"connectionId": t.id}
	if s.v == 1 {
		m["connectionToken"], m["negotiateVersion"] = t.key, 1
	}
	var tr []any
	for _, o := range s.offer {
		tr = append(tr, map[string]any{"transport": o, "transferFormats": []string{"Text", "Binary"}})
	}
	m["availableTransports"] = tr
	b, _ := json.Marshal(m)
	switch s.neg {
	case "ok":
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write(b)
		s.mu.Lock()
		t.done = true
		s.mu.Unlock()
	case "status":
		w.WriteHeader(s.status)
		_, _ = w.Write(b)
	case "json":
		_, _ = w.Write([]byte(pick(s.c, "", "<html>", string(b[:len(b)-1]), "[]", `{"availableTransports":7}`, `{"connectionId":[]}`, "null", `{}`, `{"error":"no"}`)))
	case "break":
		panic(http.ErrAbortHandler)
	case "hang":
		s.hang(r)
	case "half":
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		_, _ = w.Write(b[:len(b)/2])
		_ = http.NewResponseController(w).Flush()
		s.hang(r)
	}
}

func (s *script25) upgrade(w http.ResponseWriter, r *http.Request) {
	switch s.ws {
	case "status":
		w.WriteHeader(s.status)
	case "break":
		panic(http.ErrAbortHandler)
	case "hang":
		s.hang(r)
	case "accept": // a wrong answer to the upgrade
		w.Header().Set("Connection", "Upgrade")
		w.Header().Set("Upgrade", "websocket")
		w.Header().Set("Sec-WebSocket-Accept", "bm90IHRoZSByaWdodCBrZXk=")
		w.WriteHeader(101)
	case "ok":
		ws, err := websocket.Accept(w, r, &websocket.AcceptOptions{InsecureSkipVerify: true})
		if err != nil {
			s.wrong("upgrade: %v", err)
			return
		}
		s.wsc <- ws
		<-s.end
		_ = ws.CloseNow()
	}
}

func (s *script25) stream(w http.ResponseWriter, r *http.Request) {
	switch s.sse {
	case "status":
		w.WriteHeader(s.status)
		_, _ = io.WriteString(w, "data: not what you wanted\n\n")
	case "break":
		panic(http.ErrAbortHandler)
	case "hang":
		s.hang(r)
	case "ok":
		w.Header().Set("Content-Type", "text/event-stream")
		_, _ = io.WriteString(w, ":\r\n\r\n")
		f := http.NewResponseController(w)
		_ = f.Flush()
		for {
			select {
			case l := <-s.lines:
				_, _ = io.WriteString(w, "data: "+l+"\n\n")
				_ = f.Flush()
			case <-s.end:
				return
			case <-r.Context().Done():
				return
			}
		}
	}
}

// doer25 is an application's HTTP client of another type.
type doer25 struct {
	cl   *http.Client
	n    atomic.Int64
	fail int64 // the request which fails
}

var errDoer25 = errors.New("doer failed")

func (d *doer25) Do(r *http.Request) (*http.Response, error) {
	if d.n.Add(1) == d.fail {
		return nil, errDoer25
	}
	return d.cl.Do(r)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// predict says how an attempt with the allowed transports ends: "ws", "sse", "error" or "hang".
func (s *script25) predict(allowed []string) string {
	switch s.neg {
	case "ok":
	case "hang", "half":
		return "hang"
	default:
		return "error"
	}
	end := func(kind, how string) string {
		switch how {
		case "ok":
			return kind
		case "hang":
			return how
		}
		return "error"
	}
	switch {
	case has(allowed, "WebSockets") && has(s.offer, "WebSockets"):
		return end("ws", s.ws)
	case has(allowed, "ServerSentEvents") && has(s.offer, "ServerSentEvents"):
		return end("sse", s.sse)
	}
	s.c.Count("no-common", 1)
	return "error"
}

func runC25(c *Case) {
	s := &script25{c: c, given: map[string]bool{}, wsc: make(chan *websocket.Conn, 10), lines: make(chan string), end: make(chan struct{}), negV: -1}
	ways := []string{"status", "break", "hang", "ok"}
	s.neg, s.ws, s.sse = "ok", "ok", "ok"
	switch c.Intn(6) {
	case 0:
		s.neg = pick(c, "status", "json", "break", "hang", "half")
	case 1, 2, 3:
		s.ws = pick(c, "status", "break", "hang", "accept", "ok")
		s.sse = ways[c.Intn(4)]
	}
	s.status = pick(c, 400, 401, 403, 404, 429, 500, 502, 503, 204, 202)
	s.offer = pick(c, []string{"WebSockets", "ServerSentEvents"}, []string{"ServerSentEvents", "WebSockets"}, []string{"WebSockets", "ServerSentEvents", "LongPolling"},
		[]string{"WebSockets"}, []string{"ServerSentEvents"}, []string{"LongPolling", "ServerSentEvents"}, []string{"LongPolling"}, []string{}, []string{"websockets", "WebTransports"})
	if len(s.offer) == 0 || !has(s.offer, "WebSockets") && !has(s.offer, "ServerSentEvents") {
		c.Count("neg.offer", 1)
	}
	s.v = c.Intn(2)
	if s.v == 1 {
		c.Count("token", 1)
	}
	if c.Chance(40) {
		s.negV = s.v
	}
	if c.Chance(30) {
		s.cookie = pick(c, "seven", "a-b_c", "x=y", "v 1")
		c.Count("cookie", 1)
	}
	for _, x := range []struct{ k, v string }{{"neg", s.neg}, {"ws", s.ws}, {"sse", s.sse}} {
		if x.v != "ok" {
			c.Count(x.k+"."+x.v, 1)
		}
	}
	s.path = pick(c, "/hub", "/hub/", "/a/b/hub", "/", "/a%2Fb/hub", "/caf%C3%A9", "/a%20b")
	if strings.Contains(s.path, "%") {
		c.Count("escaped", 1)
	}
	addr := "http://host.test" + s.path
	if s.path == "/" && c.Bool() {
		addr = "http://host.test"
	}
	if c.Chance(40) {
		s.query = pick(c, url.Values{"t": {"a b&c"}, "e": {""}}, url.Values{"x": {"1", "2"}}, url.Values{"access_token": {"a.b-c_d+/="}})
		addr += "?" + s.query.Encode()
		c.Count("query", 1)
	}

	env := &HTTPEnv{c: c, net: c.newMemNet(), handler: s}
	env.http = &http.Server{Handler: env, ErrorLog: nullLog}
	go func() { _ = env.http.Serve(env.net) }()
	delay := pick(c, 0, 0, 5*time.Millisecond, 100*time.Millisecond)
	env.net.cond = func() (Cond, Cond) { return c.RandCond(delay), c.RandCond(delay) }
	tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return env.net.Dial(ctx) }, DisableCompression: true}
	hc := &http.Client{Transport: tr}
	c.Cleanup(func() {
		_ = env.http.Close()
		_ = env.net.Close()
		env.net.Cut(false)
		tr.CloseIdleConnections()
	})

	// what the client may use
	allowed := pick(c, nil, nil, []string{"WebSockets"}, []string{"ServerSentEvents"}, []string{"WebSockets", "ServerSentEvents"}, []string{"ServerSentEvents", "WebSockets"})
	var doer *doer25
	if c.Chance(15) {
		allowed = []string{"ServerSentEvents"} // websockets need an http.Client
		doer = &doer25{cl: hc}
		c.Count("doer", 1)
		if c.Chance(30) {
			doer.fail = int64(c.Range(1, 2))
		}
	}
	shared := http.Header{}
	if c.Chance(50) {
		s.hdr = true
		c.Count("headers", 1)
	}
	var hn atomic.Int64
	sharedHdr := c.Bool()
	headers := func() http.Header {
		if sharedHdr {
			return shared
		}
		v := fmt.Sprintf("secret%d", hn.Add(1))
		s.mu.Lock()
		s.given[v] = true
		s.mu.Unlock()
		return http.Header{"X-Auth": {v}}
	}
	if sharedHdr {
		shared.Set("X-Auth", "secret")
		s.given["secret"] = true
	}
	var tts []signalr.TransportType
	for _, a := range allowed {
		tts = append(tts, signalr.TransportType(a))
	}
	factory := c.Bool()
	set := func(ctx context.Context) (signalr.Connection, error) {
		f := signalr.NewHTTPConnection
		if factory {
			f = signalr.HttpConnectionFactory
		}
		o0 := signalr.WithHTTPClient(hc)
		if doer != nil {
			o0 = signalr.WithHTTPClient(doer)
		}
		opts := listOf(o0)
		if s.hdr {
			opts = append(opts, signalr.WithHTTPHeaders(headers))
		}
		if s.negV >= 0 {
			opts = append(opts, signalr.WithNegotiateVersion(s.negV))
		}
		if len(tts) > 0 {
			opts = append(opts, signalr.WithTransports(tts...))
		}
		if c.Chance(20) {
			opts = append(opts, nil)
		}
		shuffled := opts[:0:0]
		for _, i := range c.Perm(len(opts)) {
			shuffled = append(shuffled, opts[i])
		}
		return f(ctx, addr, shuffled...)
	}
	all := allowed
	if len(all) == 0 {
		all = []string{"WebSockets", "ServerSentEvents"}
	}
	want := ""
	if factory {
		c.Count("factory", 1)
		want = "error"
		if has(all, "WebSockets") {
			want = s.predict([]string{"WebSockets"})
		}
		if want == "error" && has(all, "ServerSentEvents") {
			if want = s.predict([]string{"ServerSentEvents"}); want == "sse" && has(all, "WebSockets") {
				c.Count("fallback", 1)
			}
		}
	} else {
		want = s.predict(all)
	}
	doerFails := false
	if doer != nil && doer.fail > 0 && want != "hang" {
		// the first request or, if the negotiation succeeds, the second one fails
		if doer.fail == 1 || s.neg == "ok" && has(s.offer, "ServerSentEvents") {
			want = "error"
			doerFails = true
			c.Count("doer.fails", 1)
		}
	} else if doer != nil && doer.fail > 0 {
		doer.fail = 0
	}

	// the context of the set-up
	ctx, cancel := context.WithCancel(context.Background())
	c.Cleanup(cancel)
	how := pick(c, "never", "during", "after", "never", "before")
	if how == "before" && c.Bool() || want == "hang" {
		how = "during"
	}
	deadline := how == "during" && c.Chance(30)
	at := c.Dur(0, 3*time.Second)
	if c.Bool() {
		at = c.Dur(0, 4*delay+time.Millisecond)
	}
	c.Count("cancel."+how, 1)
	c.Ev("setup", "%s %v %s %s %v %v %s", s.neg, s.offer, s.ws, s.sse, allowed, factory, how)
	c.Sample("%s neg %s, offered %v, ws %s, sse %s; client allows %v (factory %v): expect %s; cancel %s", addr, s.neg, s.offer, s.ws, s.sse, allowed, factory, want, how)
	var canceled atomic.Int64
	switch {
	case how == "before":
		cancel()
		canceled.Store(1)
	case deadline:
		var cancel2 func()
		ctx, cancel2 = context.WithTimeout(ctx, at)
		c.Cleanup(cancel2)
		context.AfterFunc(ctx, func() { canceled.Store(int64(c.Now()) + 1) })
	case how == "during":
		go func() {
			time.Sleep(at)
			canceled.Store(int64(c.Now()) + 1)
			cancel()
		}()
	}
	type result struct {
		conn signalr.Connection
		err  error
		at   time.Duration
	}
	res := make(chan result, 1)
	go func() {
		conn, err := set(ctx)
		res <- result{conn, err, c.Now()}
	}()
	var r result
	if !c.Within(0, func() { r = <-res }) {
		c.Violf("hangs", "the set-up of a connection does not return; expected %s; context cancelled: %v", want, canceled.Load() > 0)
		return
	}
	// the websocket library might wait 3 seconds for the text of a refusal
	if t := canceled.Load(); t > 0 && r.at-time.Duration(t-1) > 5*time.Second+c.tol() {
		c.Violf("late", "the set-up returned %v after its context was cancelled at %v (deadline %v, at %v) (error %v)", r.at-time.Duration(t-1), time.Duration(t-1), deadline, at, r.err)
		return
	}
	s.mu.Lock()
	bad := append([]string{}, s.bad...)
	s.mu.Unlock()
	for _, b := range bad {
		c.Violf("request", "%s", b)
	}
	if sharedHdr && (len(shared) != 1 || len(shared["X-Auth"]) != 1 || shared.Get("X-Auth") != "secret") {
		c.Violf("headers-changed", "the application's headers were changed to %v", shared)
	}
	if c.failed() {
		return
	}
	// the requests
	neg, conns := 0, []string{}
	s.mu.Lock()
	for _, t := range s.tries {
		neg++
		conns = append(conns, t.conns...)
		if len(t.conns) > 1 {
			c.Violf("repeated", "one negotiation was used for the requests %v", t.conns)
		}
	}
	s.mu.Unlock()
	for _, k := range conns {
		name := map[string]string{"ws": "WebSockets", "sse": "ServerSentEvents"}[k]
		if !has(all, name) || !has(s.offer, name) {
			c.Violf("wrong-transport", "the client connected by %s; it may use %v, the server offers %v", name, all, s.offer)
		}
	}
	if len(conns) > 0 && has(all, "WebSockets") && has(s.offer, "WebSockets") && conns[0] != "ws" {
		c.Violf("preference", "the client connected by %v, although websockets are offered and allowed", conns)
	}
	if neg > 2 || neg > 1 && !factory || len(conns) > neg {
		c.Violf("requests", "%d negotiations and the connection requests %v", neg, conns)
	}
	if (r.conn == nil) == (r.err == nil) {
		c.Violf("result", "connection %v and error %v", r.conn, r.err)
	}
	if c.failed() {
		return
	}
	end := sync.OnceFunc(func() { close(s.end) })
	c.Cleanup(end)
	rest := func() {
		end()
		ok := c.Until(5*time.Minute, func() bool {
			tr.CloseIdleConnections()
			return env.net.OpenConns() == 0 && env.Active() == 0
		})
		if !ok {
			c.Violf("left-open", "expected %s, got error %v: %d ends of connections are open and %d requests (%d of them hanging) are being handled after the set-up has ended", want, r.err, env.net.OpenConns(), env.Active(), s.hangs.Load())
		}
		c.allEnded("set-up of an HTTP connection")
	}
	if r.err != nil {
		c.Count("refused", 1)
		c.Ev("refused", "%v", r.at)
		if (want == "ws" || want == "sse") && ctx.Err() == nil {
			c.Violf("refused", "the set-up failed, although the server accepts %s: %v", want, r.err)
			return
		}
		if doerFails && ctx.Err() == nil && !errors.Is(r.err, errDoer25) {
			c.Violf("error-lost", "the HTTP client failed with %v, the set-up with %v", errDoer25, r.err)
		}
		rest()
		return
	}
	// a connection: it has to be one the server has accepted
	if want == "error" || want == "hang" {
		c.Violf("accepted", "the set-up returned a connection, although the server does not accept one (negotiation %s %d, offers %v, websockets %s, events %s); client allows %v", s.neg, s.status, s.offer, s.ws, s.sse, all)
		return
	}
	if how == "before" {
		c.Violf("canceled-ok", "the set-up succeeded although its context was cancelled before")
		return
	}
	c.Count("ok."+want, 1)
	c.Ev("ok", "%s %v", want, r.at)
	s.mu.Lock()
	last := s.tries[len(s.tries)-1]
	s.mu.Unlock()
	if r.conn.ConnectionID() != last.id {
		c.Violf("connection-id", "ConnectionID is %q, the server negotiated %q", r.conn.ConnectionID(), last.id)
	}
	// the end of the set-up's context is not the end of the connection
	if how == "after" {
		cancel()
		if c.Bool() {
			time.Sleep(c.Dur(0, 5*time.Second))
		}
	}
	if r.conn.Context().Err() != nil {
		c.Violf("context", "the context of the connection has ended with that of the set-up (cancelled %s)", how)
		return
	}
	var ws *websocket.Conn
	if want == "ws" {
		if !c.Within(0, func() { ws = <-s.wsc }) {
			c.Violf("not-connected", "no websocket on the server")
			return
		}
	}
	buf := make([]byte, 4096)
	for i, n := 0, c.Range(1, 3); i < n; i++ {
		down, up := fmt.Sprintf("down %d {}", i), fmt.Sprintf("up %d {}", i)
		if how == "during" && i == 1 {
			time.Sleep(3 * time.Second)
		}
		ok := c.Within(0, func() {
			if ws != nil {
				_ = ws.Write(context.Background(), websocket.MessageText, []byte(down))
			} else {
				s.lines <- down
			}
			got := ""
			for len(got) < len(down) {
				k, err := r.conn.Read(buf)
				got += string(buf[:k])
				if err != nil {
					c.Violf("dead", "reading from the new %s connection (cancelled %s): %v", want, how, err)
					return
				}
			}
			if got != down {
				c.Violf("altered", "the server sent %q, the connection read %q", down, got)
			}
			k, err := r.conn.Write([]byte(up))
			if err != nil || k != len(up) {
				c.Violf("dead", "writing to the new %s connection (cancelled %s): %d, %v", want, how, k, err)
				return
			}
			rec := ""
			if ws != nil {
				_, b, err := ws.Read(context.Background())
				if err != nil {
					c.Violf("dead", "the server reads %v", err)
					return
				}
				rec = string(b)
			} else {
				s.mu.Lock()
				if len(s.posts) == i+1 {
					rec = s.posts[i]
				} else {
					rec = fmt.Sprintf("%q", s.posts)
				}
				s.mu.Unlock()
			}
			if rec != up {
				c.Violf("altered", "the connection wrote %q, the server got %q", up, rec)
			}
		})
		if !ok {
			c.Violf("dead", "the new %s connection does not transport messages (cancelled %s)", want, how)
		}
		if c.failed() {
			return
		}
	}
	// the server ends it
	if ws != nil {
		go func() { _ = ws.Close(websocket.StatusNormalClosure, "") }()
	} else {
		end()
	}
	if !c.Within(0, func() {
		for {
			if _, err := r.conn.Read(buf); err != nil {
				return
			}
		}
	}) {
		c.Violf("no-end", "the %s connection does not notice its end", want)
		return
	}
	rest()
}
