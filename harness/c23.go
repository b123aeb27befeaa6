package sigverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C23", Quick: 60000, Thorough: 3000000, Run: runC23,
		Rule: "A case is one of two: up to four connections open to a server with handshakes of every kind (good ones in many spellings, unknown protocols with names of any characters, malformed, incomplete, oversized and missing ones, each cut in pieces and followed by messages in the same bytes), or a client meets a server which answers the handshake in one of these ways. The hub's records, the bytes of the response and the client's states and errors are judged.",
		Need: []string{"ev:server.good", "ev:server.unsupported", "ev:server.malformed", "ev:server.partial", "ev:server.silent", "ev:server.oversized", "ev:client.good", "ev:client.refused", "ev:client.malformed", "ev:client.partial", "ev:client.silent", "ev:client.reconnect", "pipelined", "executed"}})
}

// Hub23 records when which connection runs hub code.
type Hub23 struct {
	signalr.Hub
	w *world23
}

type world23 struct {
	c    *Case
	mu   sync.Mutex
	runs map[string][]string
}

func (w *world23) add(id, what string) {
	w.c.Ev("hub", "%s %s", id, what)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.runs[id] = append(w.runs[id], what)
}
func (w *world23) get(id string) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.runs[id]...)
}

func (h *Hub23) OnConnected(id string)    { h.w.add(id, "OnConnected") }
func (h *Hub23) OnDisconnected(id string) { h.w.add(id, "OnDisconnected") }
func (h *Hub23) Hi(x string) string {
	h.w.add(h.ConnectionID(), "Hi "+x)
	return "hi " + x
}

func runC23(c *Case) {
	if c.Chance(45) {
		client23(c)
		return
	}
	w := &world23{c: c, runs: map[string][]string{}}
	max := pick(c, 0, 0, 5000, 8192, 100000)
	H := c.Dur(time.Second, 15*time.Second)
	opts := []opt{signalr.HandshakeTimeout(H)}
	if max > 0 {
		opts = append(opts, signalr.MaximumReceiveMessageSize(uint(max)))
	} else {
		max = 32768
	}
	hub := func() signalr.HubInterface { return &Hub23{w: w} }
	if c.Chance(30) {
		opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &Hub23{w: w} }))
	} else {
		opts = append(opts, signalr.HubFactory(hub))
	}
	srv := c.Server(opts...)
	n := c.Range(1, 4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("c%d", i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			server23(c, srv, w, id, max, H)
		}()
	}
	if !c.Within(0, wg.Wait) {
		c.Violf("hang", "the workload did not finish")
	}
}

// spelled is a good handshake request in one of its spellings.
func spelled(c *Case, proto string) []byte {
	switch c.Intn(8) {
	case 0:
		return []byte(fmt.Sprintf(`{"version":1,"protocol":%q}`, proto))
	case 1:
		return []byte(fmt.Sprintf("{ \"protocol\" : %q ,\r\n \"version\" : 1 }", proto))
	case 2:
		return []byte(fmt.Sprintf(`{"protocol":%q,"version":1,"extra":{"protocol":"none","x":[1,2,"}"]}}`, proto))
	case 3:
		// escaped characters mean the same
		s := ""
		for _, r := range proto {
			if c.Bool() {
				s += fmt.Sprintf(`\u%04x`, r)
			} else {
				s += string(r)
			}
		}
		return []byte(`{"protocol":"` + s + `","version":1}`)
	case 4:
		return append([]byte(fmt.Sprintf(`{"protocol":%q,"version":1,"pad":"`, proto)), append(bytes.Repeat([]byte("p"), c.Intn(3900)), `"}`...)...)
	default:
		return []byte(fmt.Sprintf(`{"protocol":%q,"version":1}`, proto))
	}
}

// sendCut sends b in up to k pieces with pauses.
func (p *Peer) sendCut(b []byte, k int, pause time.Duration) {
	for k > 1 && len(b) > 1 {
		i := 1 + p.c.Intn(len(b)-1)
		_ = p.Raw(b[:i])
		b = b[i:]
		k--
		time.Sleep(p.c.Dur(0, pause))
	}
	_ = p.Raw(b)
}

func server23(c *Case, srv *Srv, w *world23, id string, max int, H time.Duration) {
	proto := c.pickProto()
	r := srv.Dial(id, proto, c.RandCond(pick(c, 0, 20*time.Millisecond)), c.RandCond(pick(c, 0, 20*time.Millisecond)))
	defer r.Conn.Close()
	// messages behind the handshake
	var tail []byte
	calls := c.Intn(4)
	for i := 0; i < calls; i++ {
		m := Msg{Type: 1, ID: fmt.Sprint(i), Target: "Hi", Args: []any{fmt.Sprint(i)}}
		r.auto.Sent(m)
		tail = append(tail, proto.Encode(m)...)
	}
	if calls > 0 {
		c.Count("pipelined", 1)
	}
	cut := pick(c, 1, 1, 2, 3, 6)
	pause := pick(c, 0, 30*time.Millisecond, H/20)
	never := func(kind string, served bool) {
		c.Ev("server."+kind, "%s", proto.Name())
		if served && !c.Until(H+time.Minute, func() bool { d, _ := r.Served.Done(); return d }) {
			c.Violf("still-open", "%s handshake: the connection is not ended", kind)
		}
		time.Sleep(time.Second)
		if runs := w.get(id); len(runs) > 0 {
			c.Violf("hub-code", "%s handshake of %s: the hub ran %v", kind, id, runs)
		}
		if kind != "unsupported" {
			if hs, ok := r.Handshake(); ok && accepting(hs) {
				c.Violf("accepted", "%s handshake: the response was %q", kind, short(hs, 200))
			}
			if ms := r.Msgs(); len(ms) > 0 {
				c.Violf("messages", "%s handshake: the server sent %v", kind, ms)
			}
		}
	}
	switch c.Intn(10) {
	case 0, 1:
		name := pick(c, "", "xml", "JSON", "Json", "messagepack2", "json ", " json", `js"on`, `a\b`, "a\nb", "a\x1fb", "ä€𝄞", "blazorpack", c.genText())
		name = strings.ReplaceAll(name, "\x1e", "")
		b, _ := json.Marshal(map[string]any{"protocol": name, "version": 1})
		if bytes.IndexByte(b, 0x1e) >= 0 || name == "json" || name == "messagepack" || len(b) > 4000 {
			return
		}
		if name == "" && c.Bool() {
			b = pick(c, []byte("{}"), []byte(`{"version":1}`), []byte(`{"type":1,"target":"Hi","arguments":["0"]}`), []byte(`{"type":6}`))
		}
		r.sendCut(append(append(b, 0x1e), tail...), cut, pause)
		if !c.Until(H+time.Minute, func() bool { _, ok := r.Handshake(); return ok }) {
			c.Violf("no-reason", "the request %q was not answered", short(string(b), 200))
			return
		}
		hs, _ := r.Handshake()
		var resp map[string]any
		if err := json.Unmarshal([]byte(hs), &resp); err != nil {
			c.Violf("bad-response", "the request %q was answered by %q: %v", short(string(b), 200), hs, err)
		} else if e, _ := resp["error"].(string); e == "" {
			c.Violf("no-reason", "the request %q was answered by %q", short(string(b), 200), hs)
		} else if !strings.Contains(e, name) && strings.ToValidUTF8(name, "") == name {
			c.Violf("no-reason", "the request %q was answered by %q, the protocol is not named", short(string(b), 200), hs)
		}
		never("unsupported", true)
		if ms := r.Msgs(); len(ms) > 0 || r.Partial() > 0 {
			c.Violf("messages", "after refusing %q the server sent %v and %d more bytes", name, ms, r.Partial())
		}
	case 2:
		b := pick(c, "", "json", "{", "}", "[]", `["json",1]`, `{"protocol":json,"version":1}`, `{"protocol":"json","version":1`, `{"protocol":1,"version":1}`,
			`{"protocol":["json"],"version":1}`, `{"protocol":"json","version":"1"}`, `{"protocol":"json","version":1}{}`, `{"protocol":"json","version":1},`, "\x00", "\xff\xfe", `GET / HTTP/1.1`, `{"protocol":"messagepack","version":1}]`,
			`{"protocol":"json,"version":1}`, `'json'`, `{'protocol':'json','version':1}`, string(c.bytesN(c.Range(1, 40))))
		if json.Valid([]byte(b)) && !strings.Contains(b, "json") || strings.Contains(b, "\x1e") {
			return
		}
		r.sendCut(append([]byte(b+"\x1e"), tail...), cut, pause)
		never("malformed", true)
	case 3:
		b := spelled(c, proto.Name())
		b = b[:c.Intn(len(b)+1)]
		r.sendCut(b, cut, pause)
		switch c.Intn(3) {
		case 0:
			time.Sleep(c.Dur(0, H/2))
			r.Conn.Close()
		case 1:
			time.Sleep(c.Dur(0, H/2))
			r.Conn.Reset()
		}
		never("partial", true)
	case 4:
		if c.Bool() {
			time.Sleep(c.Dur(0, H/2))
			r.Conn.Close()
		}
		never("silent", true)
	case 5:
		// far beyond every limit, with or without end
		b := append([]byte(fmt.Sprintf(`{"protocol":%q,"version":1,"pad":"`, proto.Name())), bytes.Repeat([]byte("p"), max+c.Range(100, 40000))...)
		if c.Bool() {
			b = append(b, "\"}\x1e"...)
			b = append(b, tail...)
		}
		c.Within(H+time.Minute, func() { r.sendCut(b, cut, 0) })
		never("oversized", true)
	default:
		b := append(spelled(c, proto.Name()), 0x1e)
		// nothing happens before the last byte is there
		early := c.Chance(50)
		if early {
			k := c.Range(0, len(b)-1)
			r.sendCut(b[:k], 2, pause)
			time.Sleep(c.Dur(50*time.Millisecond, H/4))
			if runs := w.get(id); len(runs) > 0 {
				c.Violf("hub-code", "%d of %d bytes of the handshake of %s have been sent: the hub ran %v", k, len(b), id, runs)
			}
			if hs, ok := r.Handshake(); ok {
				c.Violf("accepted", "%d of %d bytes of the handshake have been sent: the response was %q", k, len(b), hs)
			}
			b = b[k:]
		}
		r.sendCut(append(b, tail...), cut, pause)
		c.Ev("server.good", "%s", proto.Name())
		if !c.Until(0, func() bool { _, ok := r.Handshake(); return ok }) {
			c.Violf("no-response", "a good handshake is not answered")
			return
		}
		hs, _ := r.Handshake()
		var resp map[string]any
		if err := json.Unmarshal([]byte(hs), &resp); err != nil || len(resp) != 0 {
			c.Violf("bad-response", "a good handshake is answered by %q", hs)
			return
		}
		_ = r.Send(Msg{Type: 1, ID: "last", Target: "hi", Args: []any{"last"}})
		if !c.Until(0, func() bool { return len(r.Completions("last")) > 0 }) {
			e, at := r.Ended()
			c.Violf("not-served", "calls after the handshake are not answered (ended %v %v, messages %v)", e, at, r.Msgs())
			return
		}
		for i := 0; i <= calls; i++ {
			x := fmt.Sprint(i)
			if i == calls {
				x = "last"
			}
			c.Until(0, func() bool { return len(r.Completions(x)) > 0 })
			if cs := r.Completions(x); len(cs) != 1 || cs[0].HasErr || cs[0].Result != "hi "+x {
				c.Violf("call", "call %s which was sent with the handshake: %v", x, cs)
			} else {
				c.Count("executed", 1)
			}
		}
		r.judgeBad("after the handshake")
	}
}

func accepting(hs string) bool {
	var resp map[string]any
	if err := json.Unmarshal([]byte(hs), &resp); err != nil {
		return true
	}
	e, _ := resp["error"].(string)
	return e == ""
}

// client23: a client meets a server which answers the handshake somehow.
func client23(c *Case) {
	proto := c.pickProto()
	H := c.Dur(time.Second, 15*time.Second)
	peer, conn := c.RawServer("s", proto, c.RandCond(pick(c, 0, 20*time.Millisecond)), c.RandCond(pick(c, 0, 20*time.Millisecond)))
	opts := []opt{signalr.HandshakeTimeout(H)}
	rec := newCallLog()
	opts = append(opts, signalr.WithReceiver(&C05Recv{c: c, log: rec}))
	var states []signalr.ClientState
	var mu sync.Mutex
	reconnect := c.Chance(25)
	var peers []*Peer
	if reconnect {
		first := true
		opts = append(opts, constBackoff(100*time.Millisecond), signalr.WithConnector(func() (signalr.Connection, error) {
			mu.Lock()
			defer mu.Unlock()
			if first {
				first = false
				return conn, nil
			}
			p, cn := c.RawServer("again", proto, Cond{}, Cond{})
			peers = append(peers, p)
			go p.AcceptHandshake()
			return cn, nil
		}))
	} else {
		opts = append(opts, signalr.WithConnection(c.lib(conn)))
	}
	cl := c.Client(proto, opts...)
	ch := make(chan signalr.ClientState, 1000)
	stop := cl.C.ObserveStateChanged(ch)
	defer stop()
	go func() {
		for s := range ch {
			mu.Lock()
			states = append(states, s)
			mu.Unlock()
		}
	}()
	wasConnected := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range states {
			if s == signalr.ClientConnected {
				return true
			}
		}
		return cl.C.State() == signalr.ClientConnected
	}
	cl.C.Start()
	if !c.Until(0, func() bool { _, ok := peer.Handshake(); return ok }) {
		c.Violf("no-request", "the client sends no handshake request")
		return
	}
	hs, _ := peer.Handshake()
	var req map[string]any
	if err := json.Unmarshal([]byte(hs), &req); err != nil || req["protocol"] != proto.Name() || req["version"] != 1.0 || len(req) != 2 {
		c.Violf("bad-request", "the handshake request of the client for %s is %q", proto.Name(), hs)
	}
	time.Sleep(c.Dur(0, H/3))
	if wasConnected() {
		c.Violf("connected-early", "the client is connected before the server answered")
	}
	if ms := peer.Msgs(); len(ms) > 0 || peer.Partial() > 0 {
		c.Violf("sent-early", "before the handshake was answered the client sent %v and %d bytes", ms, peer.Partial())
	}
	cut := pick(c, 1, 1, 2, 3, 6)
	pause := pick(c, 0, 30*time.Millisecond, H/20)
	tail := []byte{}
	sends := c.Intn(3)
	for i := 0; i < sends; i++ {
		tail = append(tail, proto.Encode(Msg{Type: 1, Target: "Take", Args: []any{fmt.Sprint("m", i), i}})...)
	}
	fails := func(kind, text string) {
		c.Ev("client."+kind, "%s", proto.Name())
		if reconnect {
			c.Ev("client.reconnect", "")
			if !c.Until(0, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(peers) > 0 && cl.C.State() == signalr.ClientConnected
			}) {
				c.Violf("no-reconnect", "after a %s handshake response the client does not connect to the next server: %v", kind, cl.C.Err())
			}
		} else {
			if !c.Until(0, func() bool { return cl.C.State() == signalr.ClientClosed }) {
				c.Violf("not-closed", "%s handshake response: the client is %s", kind, stateName(cl.C.State()))
			}
			time.Sleep(10 * time.Millisecond)
			if wasConnected() {
				c.Violf("connected", "%s handshake response: the client reported connected", kind)
			}
			if err := cl.C.Err(); err == nil {
				c.Violf("no-error", "%s handshake response: the client is closed without error", kind)
			} else if !strings.Contains(err.Error(), text) {
				c.Violf("other-error", "the server's error is %q, the client reports %q", text, err)
			}
		}
		time.Sleep(100 * time.Millisecond)
		if ms := peer.Msgs(); len(ms) > 0 || peer.Partial() > 0 {
			c.Violf("sent", "after a %s handshake response the client sent %v and %d bytes", kind, ms, peer.Partial())
		}
		if k := rec.total(); k > 0 {
			c.Violf("received", "after a %s handshake response the receiver was called %d times", kind, k)
		}
	}
	switch c.Intn(8) {
	case 0, 1:
		text := pick(c, "Requested protocol 'x' is not available.", `no "json"`, "a\\b", "x", "ä€𝄞", "\n\t", strings.Repeat("long ", 500), " ")
		b, _ := json.Marshal(map[string]any{"error": text})
		if c.Bool() {
			b, _ = json.Marshal(map[string]any{"error": text, "minorVersion": 1, "allowReconnect": true})
		}
		peer.sendCut(append(append(b, 0x1e), tail...), cut, pause)
		fails("refused", text)
	case 2:
		b := pick(c, "", "x", "{", "}", "[]", `[{}]`, `{"error":1}`, `{"error":`, `{}{}`, "\x00", "\xff", "HTTP/1.1 400 Bad Request", "\x02\x91\x06", `"`, `{]`)
		peer.sendCut(append([]byte(b+"\x1e"), tail...), cut, pause)
		fails("malformed", "")
	case 3:
		b := pick(c, "{}", `{"error":"x"}`, "", `{"x":1}`)
		peer.sendCut([]byte(b), cut, pause)
		switch c.Intn(3) {
		case 0:
			peer.conn.Close()
		case 1:
			peer.conn.Reset()
		}
		fails("partial", "")
	case 4:
		if c.Bool() {
			peer.conn.Close()
		}
		fails("silent", "")
	default:
		b := []byte(pick(c, "{}", "{ }", "{}", "{\n}", `{"minorVersion":1}`))
		b = append(b, 0x1e)
		if c.Chance(50) {
			k := c.Range(0, len(b)-1)
			_ = peer.Raw(b[:k])
			time.Sleep(c.Dur(0, H/4))
			if wasConnected() {
				c.Violf("connected-early", "the client is connected after %d of %d bytes of the response", k, len(b))
			}
			b = b[k:]
		}
		peer.sendCut(append(b, tail...), cut, pause)
		c.Ev("client.good", "%s", proto.Name())
		if !cl.AwaitState(signalr.ClientConnected, 0) {
			c.Violf("not-connected", "a good handshake response does not connect the client: %v", cl.C.Err())
			return
		}
		if sends > 0 {
			c.Count("pipelined", 1)
		}
		c.Until(0, func() bool { return rec.total() >= sends })
		if rec.total() != sends {
			c.Violf("pipelined", "%d of %d messages behind the handshake response reached the receiver", rec.total(), sends)
		}
		x := c.Collect(cl.C.Invoke("Hi", "x"))
		c.Until(0, func() bool { return len(peer.Find(func(m Msg) bool { return m.Type == 1 && m.Target == "Hi" })) > 0 })
		ms := peer.Find(func(m Msg) bool { return m.Type == 1 })
		if len(ms) != 1 {
			c.Violf("call", "the call after the handshake arrived as %v", peer.Msgs())
			return
		}
		c.Count("executed", 1)
		_ = peer.Send(Msg{Type: 3, ID: ms[0].ID, HasRes: true, Result: "hi x"})
		c.Until(0, x.Closed)
		if v, _, _ := x.Get(); len(v) != 1 || v[0].Value != "hi x" {
			c.Violf("call", "the call after the handshake: %v", v)
		}
		peer.judgeBad("client")
	}
}
