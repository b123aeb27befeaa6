package sigverif

import (
	"bufio"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C18", Quick: 60000, Thorough: 3000000, Run: runC18,
		Rule: "A history of negotiate, GET, POST and websocket requests (with pending, used, expired, unknown, missing and confused ids and tokens, wrong methods, origins, pauses and bursts of simultaneous attempts for one id) against a server over an in-memory network. A model of the ids says what must be admitted or refused; the hub's records say how often each id was admitted. Where the model cannot know (an id between one and two handshake timeouts old, or after a refused origin) either answer is accepted, but never twice.",
		Need: []string{"ev:admit.ws", "ev:admit.sse", "ev:admit.v1", "ev:admit.noid", "ev:refuse.used", "ev:refuse.active", "ev:refuse.unknown", "ev:refuse.expired", "ev:refuse.id-for-token", "ev:refuse.missing", "ev:refuse.origin", "ev:refuse.limit", "ev:refuse.method", "ev:origin.allowed", "burst", "burst.mixed", "post.early", "post.alone", "ev:post.broken"}})
}

type world18 struct {
	c    *Case
	mu   sync.Mutex
	conn map[string]int
}

// Hub18 counts the connections per id.
type Hub18 struct {
	signalr.Hub
	w *world18
}

func (h *Hub18) OnConnected(id string) {
	h.w.mu.Lock()
	h.w.conn[id]++
	h.w.mu.Unlock()
}
func (h *Hub18) Who() string { return h.ConnectionID() }

// httpPeer is a raw client over a websocket or SSE.
type httpPeer struct {
	c      *Case
	e      *HTTPEnv
	cl     *http.Client
	ws     *websocket.Conn
	url    string
	body   io.ReadCloser
	cancel context.CancelFunc
	mu     sync.Mutex
	buf    []byte
	msgs   []map[string]any
	ended  bool
	bad    string
}

func (p *httpPeer) feed(b []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.buf = append(p.buf, b...)
	for {
		i := strings.IndexByte(string(p.buf), 0x1e)
		if i < 0 {
			return
		}
		var m map[string]any
		if err := json.Unmarshal(p.buf[:i], &m); err != nil {
			p.bad = fmt.Sprintf("%q: %v", p.buf[:i], err)
		}
		p.msgs = append(p.msgs, m)
		p.buf = p.buf[i+1:]
	}
}

func (p *httpPeer) end() {
	p.mu.Lock()
	p.ended = true
	p.mu.Unlock()
}
func (p *httpPeer) over() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended
}
func (p *httpPeer) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.msgs)
}
func (p *httpPeer) find(f func(map[string]any) bool) map[string]any {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, m := range p.msgs {
		if f(m) {
			return m
		}
	}
	return nil
}

// send sends one text message, returns the HTTP status (200 for websockets).
func (p *httpPeer) send(s string) (int, error) {
	if p.ws != nil {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		if err := p.ws.Write(ctx, websocket.MessageText, []byte(s)); err != nil {
			return 0, err
		}
		return 200, nil
	}
	st, _, _, err := p.e.Do(p.cl, "POST", p.url, strings.NewReader(s), map[string]string{"Content-Type": "text/plain;charset=UTF-8"})
	return st, err
}

// close ends the connection from the client's side.
func (p *httpPeer) close() {
	if p.ws != nil {
		_ = p.ws.CloseNow()
	}
	p.cancel()
	if p.body != nil {
		_ = p.body.Close()
	}
}

// openWS tries a websocket. The status is that of the upgrade response.
func (e *HTTPEnv) openWS(cl *http.Client, url string, hdr http.Header) (*httpPeer, int, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	ws, resp, err := websocket.Dial(ctx, url, &websocket.DialOptions{HTTPClient: cl, HTTPHeader: hdr})
	st := 0
	if resp != nil {
		st = resp.StatusCode
	}
	if err != nil {
		cancel()
		return nil, st, err
	}
	p := &httpPeer{c: e.c, e: e, cl: cl, ws: ws, url: url, cancel: cancel}
	ws.SetReadLimit(1 << 22)
	go func() {
		for {
			_, b, err := ws.Read(ctx)
			if err != nil {
				break
			}
			p.feed(b)
		}
		p.end()
	}()
	e.c.Cleanup(p.close)
	return p, st, nil
}

// openSSE tries server sent events.
func (e *HTTPEnv) openSSE(cl *http.Client, url string, hdr map[string]string) (*httpPeer, int, error) {
	ctx, cancel := context.WithCancel(context.Background())
	req, err := http.NewRequestWithContext(ctx, "GET", url, nil)
	if err != nil {
		cancel()
		return nil, 0, err
	}
	req.Header.Set("Accept", "text/event-stream")
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	resp, err := cl.Do(req)
	if err != nil {
		cancel()
		return nil, 0, err
	}
	if resp.StatusCode != 200 {
		_ = resp.Body.Close()
		cancel()
		return nil, resp.StatusCode, nil
	}
	p := &httpPeer{c: e.c, e: e, cl: cl, url: url, body: resp.Body, cancel: cancel}
	go func() {
		defer cancel()
		rd := bufio.NewReader(resp.Body)
		for {
			line, err := rd.ReadString('\n')
			if s, ok := strings.CutPrefix(line, "data:"); ok && err == nil {
				p.feed([]byte(strings.TrimRight(strings.TrimPrefix(s, " "), "\r\n")))
			}
			if err != nil {
				break
			}
		}
		p.end()
	}()
	e.c.Cleanup(p.close)
	return p, 200, nil
}

// neg18 is a negotiated id.
type neg18 struct {
	id, key  string
	v1       bool
	created  time.Duration
	tries    int  // attempts which might have used it up without us knowing
	admitted bool // for sure
	peer     *httpPeer
}

type run18 struct {
	c       *Case
	w       *world18
	e       *HTTPEnv
	cl      *http.Client
	H       time.Duration
	max     int // 0 no limit
	skip    bool
	pats    []string
	negs    []*neg18
	mu      sync.Mutex
	ids     map[string]string
	noid    int
	nextID  int
	actives []*neg18
}

func runC18(c *Case) {
	r := &run18{c: c, w: &world18{c: c, conn: map[string]int{}}, ids: map[string]string{}}
	r.H = c.Dur(time.Second, 15*time.Second)
	r.max = pick(c, 0, 0, 1, 2, 3, 5)
	opts := []opt{signalr.HandshakeTimeout(r.H), signalr.SimpleHubFactory(&Hub18{w: r.w}), signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24 * time.Hour)}
	opts[1] = signalr.HubFactory(func() signalr.HubInterface { return &Hub18{w: r.w} })
	if r.max > 0 || c.Bool() {
		opts = append(opts, signalr.MaxNegotiationConnections(r.max))
	} else {
		r.max = 1000
	}
	trs := []signalr.TransportType{signalr.TransportWebSockets, signalr.TransportServerSentEvents}
	if c.Chance(30) {
		trs = [][]signalr.TransportType{{trs[0]}, {trs[1]}, {trs[1], trs[0]}}[c.Intn(3)]
		opts = append(opts, signalr.HTTPTransports(trs...))
	}
	switch c.Intn(4) {
	case 0:
		r.skip = true
		opts = append(opts, signalr.InsecureSkipVerify(true))
	case 1:
		r.pats = []string{"good.test", "*.ok.test"}
		opts = append(opts, signalr.AllowOriginPatterns(r.pats))
	}
	srv := c.Server(opts...)
	path := pick(c, "/hub", "/a/b/hub", "/x")
	h, _ := c.route(srv, path)
	r.e = c.HTTP(srv, h, path)
	delay := pick(c, 0, 0, time.Millisecond, 20*time.Millisecond)
	r.e.net.cond = func() (Cond, Cond) { return Cond{Frag: FragAll, MaxDelay: delay}, Cond{Frag: FragAll, MaxDelay: delay} }
	r.cl = r.e.Client()
	if c.Chance(15) {
		r.e.kept = &kept{}
	}
	n := c.Range(4, 16)
	if !c.Within(0, func() {
		for i := 0; i < n && !c.failed(); i++ {
			r.step(trs)
		}
		r.judge()
	}) {
		c.Violf("hang", "a request was not answered")
	}
}

func (r *run18) negotiate(trs []signalr.TransportType) *neg18 {
	c := r.c
	v1 := c.Bool()
	hdr := map[string]string{}
	q := ""
	if v1 {
		switch c.Intn(3) {
		case 0:
			q = "?negotiateVersion=1"
		case 1:
			hdr["negotiateVersion"] = "1"
		default:
			q, hdr["negotiateVersion"] = "?negotiateVersion=1", "1"
		}
	} else if c.Bool() {
		q = pick(c, "?negotiateVersion=0", "?negotiateVersion=", "?negotiateVersion=x", "?other=1")
	}
	st, body, h, err := r.e.Do(r.cl, "POST", r.e.URL+"/negotiate"+q, nil, hdr)
	if err != nil {
		c.Violf("negotiate-failed", "negotiate: %v", err)
		return nil
	}
	if st == 429 {
		c.Ev("refuse.limit", "%d", r.max)
		return &neg18{key: ""}
	}
	if st != 200 {
		c.Violf("negotiate-status", "negotiate was answered with %d", st)
		return nil
	}
	var resp struct {
		ConnectionID        string `json:"connectionId"`
		ConnectionToken     string `json:"connectionToken"`
		NegotiateVersion    int    `json:"negotiateVersion"`
		AvailableTransports []struct {
			Transport       string   `json:"transport"`
			TransferFormats []string `json:"transferFormats"`
		} `json:"availableTransports"`
	}
	if err := json.Unmarshal([]byte(body), &resp); err != nil || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
		c.Violf("negotiate-json", "negotiate answered %q: %v", body, err)
		return nil
	}
	n := &neg18{id: resp.ConnectionID, key: resp.ConnectionID, v1: v1}
	if v1 {
		n.key = resp.ConnectionToken
		if resp.NegotiateVersion != 1 || n.key == "" || n.key == n.id {
			c.Violf("token", "negotiate version 1 answered %q", body)
		}
	} else if resp.NegotiateVersion != 0 || resp.ConnectionToken != "" {
		c.Violf("version", "negotiate version 0 answered %q", body)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range []string{resp.ConnectionID, resp.ConnectionToken} {
		if x == "" && !v1 {
			continue
		}
		if b, err := base64.URLEncoding.DecodeString(x); err != nil && len(x) < 22 || err == nil && len(b) < 16 {
			c.Violf("guessable", "negotiate gave the id %q", x)
		}
		if old, ok := r.ids[x]; ok {
			c.Violf("id-twice", "negotiate gave the id %s twice (%s)", x, old)
		}
		r.ids[x] = "negotiated"
		for y := range r.ids {
			if y != x && len(y) == len(x) {
				same := 0
				for i := range x {
					if x[i] == y[i] {
						same++
					}
				}
				if same > len(x)*2/3 {
					c.Violf("guessable", "negotiate gave the ids %q and %q", x, y)
				}
			}
		}
	}
	got := []string{}
	for _, t := range resp.AvailableTransports {
		got = append(got, fmt.Sprint(t.Transport, t.TransferFormats))
	}
	want := []string{}
	for _, t := range trs {
		if t == signalr.TransportWebSockets {
			want = append(want, "WebSockets[Text Binary]")
		} else {
			want = append(want, "ServerSentEvents[Text]")
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Violf("transports", "negotiate offers %v, the server has %v", got, want)
	}
	return n
}

// pending says how many ids are pending at least and at most.
func (r *run18) pending() (lo, hi int) {
	for _, n := range r.negs {
		age := r.c.Now() - n.created
		if n.admitted {
			continue
		}
		if n.tries == 0 && age < r.H {
			lo++
		}
		if age <= 2*r.H {
			hi++
		}
	}
	return
}

// negotiates makes k simultaneous negotiations.
func (r *run18) negotiates(trs []signalr.TransportType, k int) {
	c := r.c
	start := c.Now()
	lo, hi := r.pending()
	var mu sync.Mutex
	var wg sync.WaitGroup
	ok, refused := 0, 0
	var res []*neg18
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := r.negotiate(trs)
			mu.Lock()
			defer mu.Unlock()
			if n == nil {
				return
			}
			if n.key == "" {
				refused++
				return
			}
			ok++
			res = append(res, n)
		}()
	}
	wg.Wait()
	lo2, _ := r.pending()
	if lo2 < lo {
		lo = lo2 // some may have expired meanwhile
	}
	if c.failed() {
		return
	}
	for _, n := range res {
		n.created = start
		r.negs = append(r.negs, n)
	}
	if r.max == 0 {
		if refused > 0 {
			c.Violf("limit-none", "negotiate was refused though there is no limit")
		}
		return
	}
	if lo+ok > r.max {
		c.Violf("limit-exceeded", "%d negotiations are pending, the limit is %d", lo+ok, r.max)
	}
	if refused > 0 && hi+ok < r.max {
		c.Violf("limit-early", "%d of %d negotiations were refused, at most %d were pending and the limit is %d", refused, k, hi, r.max)
	}
}

// attempt is a try to open a connection. It returns the admitted connection or nil.
func (r *run18) attempt(ws bool, key string, hdr map[string]string, pause time.Duration) (*httpPeer, string) {
	u := r.e.URL
	if key != "-" {
		u += "?id=" + key
	}
	var p *httpPeer
	var st int
	var err error
	if ws {
		h := http.Header{}
		for k, v := range hdr {
			h.Set(k, v)
		}
		p, st, err = r.e.openWS(r.cl, u, h)
	} else {
		p, st, err = r.e.openSSE(r.cl, u, hdr)
	}
	if p == nil {
		if st < 400 {
			return nil, fmt.Sprintf("not refused properly: status %d %v", st, err)
		}
		return nil, ""
	}
	time.Sleep(pause)
	_, err = p.send("{\"protocol\":\"json\",\"version\":1}\x1e")
	if err != nil {
		p.close()
		return nil, ""
	}
	r.c.Until(2*r.H+time.Second, func() bool { return p.over() || p.count() > 0 })
	if p.count() == 0 {
		if !p.over() {
			p.close()
			return nil, "neither served nor closed"
		}
		p.close()
		return nil, ""
	}
	return p, ""
}

// who asks the hub for its connection id.
func (r *run18) who(p *httpPeer) string {
	r.nextID++
	id := fmt.Sprintf("w%d", r.nextID)
	is := func(m map[string]any) bool { return m["invocationId"] == id && m["type"] == 3.0 }
	var st int
	var err error
	for try := 0; try < 20; try++ {
		st, err = p.send(`{"type":1,"invocationId":"` + id + `","target":"Who","arguments":[]}` + "\x1e")
		if st != 409 { // a POST is in progress
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	r.c.Until(time.Minute, func() bool { return p.over() || p.find(is) != nil })
	m := p.find(is)
	if m == nil {
		r.c.Violf("admitted-dead", "an admitted connection does not answer: status %d, %v, ended %v", st, err, p.over())
		return ""
	}
	return fmt.Sprint(m["result"])
}

func (r *run18) tname(ws bool) string {
	if ws {
		return "ws"
	}
	return "sse"
}

// brokenBody fails after some time.
type brokenBody struct{ after time.Duration }

func (b *brokenBody) Read([]byte) (int, error) {
	time.Sleep(b.after)
	return 0, errors.New("the network is gone")
}

// admit notes an admitted connection.
func (r *run18) admit(n *neg18, p *httpPeer, ws bool) {
	r.c.Ev("admit."+r.tname(ws), "")
	if n.v1 {
		r.c.Ev("admit.v1", "")
	}
	n.admitted, n.peer = true, p
	if id := r.who(p); id != n.id && !r.c.failed() {
		r.c.Violf("wrong-id", "the connection negotiated as %s (v1 %v) is %s for the hub (%s)", n.id, n.v1, id, r.tname(ws))
	}
	if !ws && !r.c.failed() && r.c.Chance(25) {
		// a POST which breaks off on its way does not count, and the ones after it do
		r.c.Ev("post.broken", "")
		part := `{"type":1,"invocationId":"lost","target":"Who","arguments":[]}` + "\x1e"
		part = part[:r.c.Range(1, len(part))]
		body := io.MultiReader(strings.NewReader(part), &brokenBody{r.c.Dur(0, 500*time.Millisecond)})
		st, _, _, err := r.e.Do(r.cl, "POST", p.url, body, map[string]string{"Content-Type": "text/plain;charset=UTF-8"})
		if err == nil && st < 400 {
			r.c.Violf("broken-post", "a POST which breaks off is answered as if it were complete")
		}
		if id := r.who(p); id != n.id && !r.c.failed() {
			r.c.Violf("broken-post", "after a POST which broke off, the connection %s is %s for the hub", n.id, id)
		}
	}
	if !r.c.failed() && r.c.Chance(40) {
		p.close()
		n.peer = nil
		time.Sleep(r.c.Dur(0, 2*r.H))
	}
}

// status says if n must be admitted, must be refused or if we do not know.
func (r *run18) status(n *neg18) (must, mustNot bool, why string) {
	age := r.c.Now() - n.created
	switch {
	case n.admitted && n.peer != nil && !n.peer.over():
		return false, true, "active"
	case n.admitted:
		return false, true, "used"
	case age > 2*r.H:
		return false, true, "expired"
	case n.tries == 0 && age+200*time.Millisecond < r.H:
		return true, false, "pending"
	}
	return false, false, "unknown"
}

func (r *run18) step(trs []signalr.TransportType) {
	c := r.c
	ws := c.Bool()
	var n *neg18
	if len(r.negs) > 0 {
		n = r.negs[c.Intn(len(r.negs))]
		if c.Chance(60) {
			n = r.negs[len(r.negs)-1]
		}
	}
	refused := func(what string, p *httpPeer, bad string) {
		if bad != "" {
			c.Violf("bad-refusal:"+what, "%s over %s: %s", what, r.tname(ws), bad)
		}
		if p != nil {
			c.Violf("admitted:"+what, "a connection with %s id was admitted over %s", what, r.tname(ws))
		}
		c.Ev("refuse."+what, "%s", r.tname(ws))
	}
	op := c.Intn(100)
	if n == nil && op >= 20 && op < 70 {
		op = 0
	}
	switch {
	case op < 20:
		k := pick(c, 1, 1, 1, 2, 4)
		r.negotiates(trs, k)
	case op < 35: // one attempt
		must, mustNot, why := r.status(n)
		pause := time.Duration(0)
		if c.Chance(20) {
			pause = c.Dur(0, r.H/3)
		}
		p, bad := r.attempt(ws, n.key, nil, pause)
		switch {
		case mustNot:
			refused(why, p, bad)
		case p == nil && must:
			c.Violf("refused-pending", "a pending id (age %v of %v) was refused over %s: %s", c.Now()-n.created, r.H, r.tname(ws), bad)
		case p != nil:
			r.admit(n, p, ws)
		default:
			n.tries++
		}
	case op < 55: // simultaneous attempts
		must, mustNot, why := r.status(n)
		k := c.Range(2, 5)
		kinds := make([]bool, k)
		mixed := false
		for i := range kinds {
			kinds[i] = c.Bool()
			mixed = mixed || kinds[i] != kinds[0]
		}
		var wg sync.WaitGroup
		ps := make([]*httpPeer, k)
		for i := range ps {
			d := pick(c, 0, 0, c.Dur(0, time.Millisecond))
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(d)
				ps[i], _ = r.attempt(kinds[i], n.key, nil, 0)
			}()
		}
		wg.Wait()
		c.Count("burst", 1)
		if mixed {
			c.Count("burst.mixed", 1)
		}
		in := 0
		for i, p := range ps {
			if p == nil {
				continue
			}
			in++
			if in == 1 && !mustNot {
				r.admit(n, p, kinds[i])
			}
		}
		switch {
		case in > 1:
			c.Violf("admitted-twice", "%d of %d simultaneous attempts for one id were admitted (ws %v)", in, k, kinds)
		case in == 1 && mustNot:
			c.Violf("admitted:"+why, "one of %d attempts with a %s id was admitted", k, why)
		case in == 0 && must:
			c.Violf("refused-pending", "none of %d simultaneous attempts for a pending id was admitted (ws %v)", k, kinds)
		case in == 0:
			n.tries++
		}
	case op < 60: // the connection id where the token is asked for
		if !n.v1 {
			return
		}
		p, bad := r.attempt(ws, n.id, nil, 0)
		refused("id-for-token", p, bad)
		if st, _, _, err := r.e.Do(r.cl, "POST", r.e.URL+"?id="+n.id, strings.NewReader("{}\x1e"), nil); err == nil && st < 400 {
			c.Violf("post-id", "a POST with the connection id instead of the token was answered with %d", st)
		}
	case op < 65: // a POST which comes before the event stream
		must, _, _ := r.status(n)
		if c.Chance(30) { // and alone
			st, _, _, err := r.e.Do(r.cl, "POST", r.e.URL+"?id="+n.key, strings.NewReader("{}\x1e"), nil)
			if n.admitted && n.peer != nil && n.peer.ws == nil {
				return // it's a message on a living connection
			}
			if err == nil && st < 400 {
				c.Violf("post-alone", "a POST for an id without a connection was answered with %d", st)
			}
			c.Count("post.alone", 1)
			return
		}
		if !must || c.Now()-n.created > r.H/2 {
			return
		}
		stc := make(chan int, 1)
		go func() {
			st, _, _, err := r.e.Do(r.cl, "POST", r.e.URL+"?id="+n.key, strings.NewReader("{\"protocol\":\"json\",\"version\":1}\x1e"), nil)
			if err != nil {
				st = -1
			}
			stc <- st
		}()
		time.Sleep(c.Dur(0, r.H/4))
		c.Count("post.early", 1)
		p, st, err := r.e.openSSE(r.cl, r.e.URL+"?id="+n.key, nil)
		if p == nil {
			c.Violf("refused-pending", "a pending id was refused for SSE after an early POST: %d %v", st, err)
			return
		}
		if st := <-stc; st != 200 {
			c.Violf("early-post", "an early POST was answered with %d, though the event stream came in time", st)
			return
		}
		c.Until(0, func() bool { return p.over() || p.count() > 0 })
		if p.count() == 0 {
			c.Violf("early-post", "the handshake of an early POST was not answered")
			return
		}
		r.admit(n, p, false)
	case op < 75: // foreign ids
		key := pick(c, "nonsense", strings.Repeat("A", 22)+"==", "-", "", "%00", "..%2f")
		what := "unknown"
		if key == "-" || key == "" {
			what = "missing"
			if ws {
				// no negotiation is needed for this
				p, bad := r.attempt(true, key, nil, 0)
				if p == nil {
					c.Violf("refused-noid", "a websocket without negotiation was refused: %s", bad)
					return
				}
				r.noid++
				c.Ev("admit.noid", "")
				if id := r.who(p); id == "" || r.ids[id] != "" {
					c.Violf("noid-id", "a websocket without negotiation has the id %q of another one", id)
				} else {
					r.ids[id] = "websocket"
				}
				p.close()
				return
			}
		}
		if c.Chance(30) {
			st, _, _, err := r.e.Do(r.cl, "POST", r.e.URL+"?id="+strings.Replace(key, "-", "", 1), strings.NewReader("{}\x1e"), nil)
			if err == nil && st < 400 {
				c.Violf("post-"+what, "a POST with %s id was answered with %d", what, st)
			}
			c.Ev("refuse."+what, "post")
			return
		}
		p, bad := r.attempt(ws, key, nil, 0)
		refused(what, p, bad)
	case op < 83: // wrong methods
		var st int
		var err error
		id := ""
		if n != nil {
			id = "?id=" + n.key
		}
		what := ""
		switch c.Intn(3) {
		case 0:
			what = pick(c, "GET", "PUT", "DELETE", "PATCH")
			st, _, _, err = r.e.Do(r.cl, what, r.e.URL+"/negotiate", nil, nil)
			what += " negotiate"
		case 1:
			what = pick(c, "PUT", "DELETE", "PATCH")
			st, _, _, err = r.e.Do(r.cl, what, r.e.URL+id, strings.NewReader("{}\x1e"), nil)
		default:
			what = "plain GET"
			st, _, _, err = r.e.Do(r.cl, "GET", r.e.URL+id, nil, map[string]string{"Accept": pick(c, "text/html", "*/*", "")})
		}
		if err == nil && st < 400 {
			c.Violf("method", "%s was answered with %d", what, st)
		}
		c.Ev("refuse.method", "%s", what)
	case op < 92: // origins
		o := pick(c, "http://evil.test", "https://host.test.evil", "http://good.test", "https://a.ok.test", "http://host.test", "http://good.test.evil", "http://ok.test")
		ok := r.skip || o == "http://host.test"
		if len(r.pats) > 0 && (o == "http://good.test" || o == "https://a.ok.test") {
			ok = true
		}
		key := "-"
		if n != nil && c.Bool() {
			if must, _, _ := r.status(n); must {
				key = n.key
			}
		}
		p, bad := r.attempt(true, key, map[string]string{"Origin": o}, 0)
		if !ok {
			if p != nil {
				c.Violf("origin", "a websocket from the origin %s was admitted (patterns %v)", o, r.pats)
			}
			if bad != "" {
				c.Violf("bad-refusal:origin", "origin %s: %s", o, bad)
			}
			c.Ev("refuse.origin", "%s", o)
			if key != "-" {
				n.tries++
			}
			return
		}
		if p == nil {
			c.Violf("origin-refused", "a websocket from the allowed origin %s was refused (patterns %v): %s", o, r.pats, bad)
			return
		}
		c.Ev("origin.allowed", "%s", o)
		if key != "-" {
			r.admit(n, p, true)
			return
		}
		r.noid++
		p.close()
	default:
		time.Sleep(pick(c, c.Dur(0, r.H), r.H*2+time.Second))
	}
}

// judge compares the hub's records.
func (r *run18) judge() {
	c := r.c
	if c.failed() {
		return
	}
	time.Sleep(time.Second)
	r.w.mu.Lock()
	conn := map[string]int{}
	for k, v := range r.w.conn {
		conn[k] = v
	}
	r.w.mu.Unlock()
	for _, n := range r.negs {
		k := conn[n.id]
		delete(conn, n.id)
		if k > 1 {
			c.Violf("connected-twice", "the hub was connected %d times for one negotiated id", k)
		}
		if k != 1 && n.admitted || k > 0 && !n.admitted && n.tries == 0 {
			c.Violf("connected", "admitted %v, but the hub was connected %d times", n.admitted, k)
		}
	}
	total := 0
	for id, k := range conn {
		total += k
		if k > 1 {
			c.Violf("connected-twice", "the hub was connected %d times for the id %s", k, id)
		}
	}
	if total != r.noid {
		c.Violf("connected-foreign", "%d connections without negotiated id reached the hub, %d were made", total, r.noid)
	}
	c.Count("negotiated", len(r.negs))
	if r.e.kept == nil || c.failed() {
		return
	}
	// everything ends
	r.cl.CloseIdleConnections()
	r.e.net.Cut(c.Bool())
	if !c.Until(0, func() bool { return r.e.Active() == 0 }) {
		return // C21 judges that
	}
	time.Sleep(time.Minute)
	c.released(r.e.kept, 0, "all connections have ended")
	runtime.KeepAlive(r)
}
