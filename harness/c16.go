package sigverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C16", Quick: 15000, Thorough: 600000, Run: runC16,
		Rule: "A case is a server (or a client) with a random maximum receive message size between 150 bytes and 100 kB whose raw peer sends 1..12 invocations, upload items, results and stream items of sizes up to exactly the maximum, separately or joined in one write, under every kind of fragmentation, followed in most cases by one message which is larger by 1 byte up to many times: complete, without end, or announced by its length prefix, or by an oversized handshake. Other servers with other limits are used at the same time, and must keep theirs. A part of the cases sends over websockets and over Server-Sent Events posts (whole messages, or one message in many posts).",
		Need: []string{"server", "client", "exact", "joined", "over.by1", "over.much", "over.endless", "over.handshake", "others", "ev:http.ws", "ev:http.sse", "ev:http.split", "http.raised", "json", "messagepack", "ev:item.max", "ev:result.max", "ev:call.max", "ev:call.mid"}})
}

// sized makes a message of at most (over: a body of at least) size bytes, as close to it as possible. at most includes the framing.
func sized(proto Proto, size int, over bool, mk func(pad string) Msg) (Msg, string, []byte) {
	n := size
	for {
		if n < 0 {
			n = 0
		}
		pad := strings.Repeat("p", n)
		m := mk(pad)
		b := proto.Encode(m)
		l := len(b)
		if over {
			l = bodyLen(proto, b)
			if l >= size {
				// shrink while it still is
				if n > 0 && bodyLen(proto, proto.Encode(mk(pad[1:]))) >= size {
					n -= max(1, l-size-8)
					continue
				}
				return m, pad, b
			}
			n += max(1, size-l)
			continue
		}
		if l <= size || n == 0 {
			return m, pad, b
		}
		n -= l - size
	}
}

// bodyLen is the size of a message without framing.
func bodyLen(proto Proto, b []byte) int {
	if proto.Name() == "json" {
		return len(b) - 1
	}
	i := 0
	for b[i]&0x80 != 0 {
		i++
	}
	return len(b) - i - 1
}

func (h *half) consumed() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.got
}

type limits16 struct {
	n     int
	proto Proto
	cond  Cond
}

func genLimits(c *Case) limits16 {
	l := limits16{proto: c.pickProto(), cond: c.RandCond(pick(c, 0, 20*time.Millisecond))}
	c.Count(l.proto.Name(), 1)
	if l.cond.Frag == FragOne || l.cond.Frag == FragSmall {
		l.n = pick(c, 150, 151, c.Range(150, 600), 1000, c.Range(600, 5000))
	} else {
		l.n = pick(c, 150, c.Range(150, 600), 1000, 4096, c.Range(600, 33000), 32768, 32767, 65536, c.Range(33000, 100000))
	}
	return l
}

// accepted is the size of a message which must be accepted.
func (l limits16) accepted(c *Case) int {
	s := pick(c, l.n, l.n, l.n-1, l.n-c.Intn(40), c.Range(0, l.n), 0, l.n/2+1, l.n/3)
	if s == l.n {
		c.Count("exact", 1)
	}
	return s
}

// rejected is the size of a message which must be rejected.
func (l limits16) rejected(c *Case) int {
	switch c.Intn(5) {
	case 0, 1:
		c.Count("over.by1", 1)
		return l.n + 1
	case 2:
		return l.n + c.Range(2, 100)
	case 3:
		c.Count("over.much", 1)
		return 2*l.n + c.Intn(100)
	}
	c.Count("over.much", 1)
	if l.cond.Frag == FragOne || l.cond.Frag == FragSmall {
		return 3*l.n + c.Intn(2000)
	}
	return 10*l.n + c.Intn(70000)
}

// endless is the beginning of a message without end.
func (l limits16) endless(c *Case) []byte {
	n := 20*l.n + 1000000
	if l.cond.Frag == FragOne || l.cond.Frag == FragSmall {
		n = 20 * l.n
	}
	if l.proto.Name() == "json" {
		return append([]byte(`{"type":1,"invocationId":"big","target":"Echo","arguments":["big",0,"`), bytes.Repeat([]byte("x"), n)...)
	}
	// the length prefix promises a multiple of what is sent
	var b []byte
	for x := uint64(pick(c, n*2, 1<<27, 1<<30, 1<<31-1)); ; x >>= 7 {
		if x < 0x80 {
			b = append(b, byte(x))
			break
		}
		b = append(b, byte(x)|0x80)
	}
	return append(b, bytes.Repeat([]byte{0x95}, n)...)
}

func (l limits16) class(size int) string {
	switch {
	case size > 3*l.n:
		return "huge"
	case size > l.n+10:
		return "over"
	case size >= l.n:
		return "max"
	case size >= l.n-40:
		return "nearly"
	case size > l.n/2:
		return "mid"
	}
	return "small"
}

func (l limits16) bound() int { return 4*l.n + 300000 }

// sendCut sends the messages joined or one by one.
func sendCut(c *Case, p *Peer, parts [][]byte) {
	if c.Bool() {
		c.Count("joined", 1)
		_ = p.Raw(bytes.Join(parts, nil))
		return
	}
	for _, b := range parts {
		_ = p.Raw(b)
		if c.Chance(20) {
			time.Sleep(c.Dur(0, 10*time.Millisecond))
		}
	}
}

func runC16(c *Case) {
	if c.Chance(12) {
		runC16http(c)
		return
	}
	if c.Chance(40) {
		runC16client(c)
		return
	}
	c.Count("server", 1)
	l := genLimits(c)
	o := c.others16(l)
	defer o.judge()
	var mu sync.Mutex
	connects := 0
	env := &hubEnv{c: c, log: newCallLog()}
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &hub16{EchoHub: EchoHub{e: env}, mu: &mu, connects: &connects} }),
		signalr.MaximumReceiveMessageSize(uint(l.n)), signalr.StreamBufferCapacity(20))
	c.Ev(fmt.Sprintf("limit.%s.%v.%d", l.proto.Name(), l.cond.Frag, l.n/500), "%d", l.n)
	c.Sample("server, limit %d, %s, %v", l.n, l.proto.Name(), l.cond.Frag)
	if c.Chance(8) {
		c.Count("over.handshake", 1)
		r := srv.Dial("c", l.proto, l.cond, Cond{})
		// a handshake may have 4 kB even if messages may not
		lh := l
		lh.n = max(l.n, 4096)
		req := handshakeReq(l.proto.Name())
		hs := append(bytes.Repeat([]byte(" "), lh.rejected(c)+1-len(req)), req...)
		if c.Chance(30) {
			c.Count("over.endless", 1)
			hs = bytes.Repeat([]byte(pick(c, " ", "{", "\x00")), 20*lh.n)
		}
		_ = r.Raw(hs)
		c.Until(5*time.Second, func() bool { d, _ := r.Served.Done(); return d })
		if d, _ := r.Served.Done(); !d {
			c.Violf("handshake-accepted", "a handshake of %d bytes did not end the connection, the limit is %d", len(hs), l.n)
		}
		c.Ev("handshake", "refused %d of %d", len(hs), l.n)
		mu.Lock()
		defer mu.Unlock()
		if connects > 0 {
			c.Violf("handshake-accepted", "a handshake of %d bytes was accepted, the limit is %d", len(hs), l.n)
		}
		return
	}
	o.open()
	r := srv.Connect("c", l.proto, l.cond, Cond{})
	if r == nil {
		return
	}
	o.open()
	type want struct {
		tag, pad string
		size     int
		item     bool
	}
	var wants []want
	var parts [][]byte
	k := c.Range(1, 12)
	upTags := ""
	upItems := []string{}
	if c.Chance(40) {
		upTags = "up"
		parts = append(parts, l.proto.Encode(Msg{Type: 1, ID: "up", Target: "Collect", Args: []any{"up"}, Streams: []string{"s"}}))
	}
	for i := 0; i < k; i++ {
		size := l.accepted(c)
		if upTags != "" && c.Chance(40) {
			_, pad, b := sized(l.proto, size, false, func(pad string) Msg { return Msg{Type: 2, ID: "s", Item: pad} })
			upItems = append(upItems, pad)
			parts = append(parts, b)
			continue
		}
		tag := fmt.Sprintf("m%d", i)
		_, pad, b := sized(l.proto, size, false, func(pad string) Msg { return Msg{Type: 1, ID: tag, Target: "Echo", Args: []any{tag, 0, pad}} })
		if len(b) > l.n {
			continue
		}
		wants = append(wants, want{tag: tag, pad: pad, size: len(b)})
		parts = append(parts, b)
	}
	if upTags != "" {
		parts = append(parts, l.proto.Encode(Msg{Type: 3, ID: "s"}))
	}
	over := ""
	if c.Chance(70) {
		over = pick(c, "call", "call", "item", "endless", "completion")
		if over == "item" && upTags == "" {
			over = "call"
		}
	}
	var big []byte
	switch over {
	case "call":
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 1, ID: "big", Target: "Echo", Args: []any{"big", 0, pad}} })
	case "item":
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 2, ID: "s2", Item: pad} })
		upTags = "up2"
		parts = append(parts, l.proto.Encode(Msg{Type: 1, ID: "up2", Target: "Collect", Args: []any{"up2"}, Streams: []string{"s2"}}))
	case "completion":
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 3, ID: "nobody", HasRes: true, Result: pad} })
	case "endless":
		c.Count("over.endless", 1)
		big = l.endless(c)
	}
	separate := c.Bool()
	all := parts
	if over != "" && !separate {
		all = append(all, big)
	}
	sendCut(c, r.Peer, all)
	accepted := func() bool {
		for _, w := range wants {
			if len(env.log.get(w.tag)) == 0 {
				return false
			}
		}
		return true
	}
	c.Until(10*time.Second, accepted)
	for _, w := range wants {
		got := env.log.get(w.tag)
		if len(got) != 1 || got[0] != canon([]any{w.pad}) {
			c.Violf("not-accepted", "message %s of %d bytes (limit %d, over %q) was executed %d times", w.tag, w.size, l.n, over, len(got))
			return
		}
		c.Ev("call."+l.class(w.size), "%s %d", w.tag, w.size)
	}
	if over == "" || separate {
		// the connection is alive, everything is answered
		c.Until(10*time.Second, func() bool {
			for _, w := range wants {
				if len(r.Completions(w.tag)) == 0 {
					return false
				}
			}
			return len(upItems) == 0 || len(r.Completions("up")) > 0
		})
		for _, w := range wants {
			if n := len(r.Completions(w.tag)); n != 1 {
				c.Violf("not-accepted", "message %s of %d bytes (limit %d) was answered %d times", w.tag, w.size, l.n, n)
			}
		}
		if len(upItems) > 0 {
			cs := r.Completions("up")
			if len(cs) != 1 || cs[0].Result != strings.Join(upItems, ";")+";" {
				c.Violf("item-not-accepted", "upload of %d items up to the limit of %d bytes: %d completions", len(upItems), l.n, len(cs))
			}
			c.Ev(fmt.Sprintf("item.%d", len(upItems)), "%d", len(upItems))
		}
		if e, _ := r.Ended(); e {
			c.Violf("not-accepted", "connection ended without any message above the limit of %d bytes", l.n)
		}
		if d, _ := r.Served.Done(); d {
			c.Violf("not-accepted", "Serve returned without any message above the limit of %d bytes", l.n)
		}
	}
	if over == "" {
		return
	}
	before := r.Far.in.consumed()
	if separate {
		_ = r.Raw(big)
	} else {
		before = len(bytes.Join(parts, nil)) + len(handshakeReq(l.proto.Name()))
	}
	// it ends at once, without any further traffic
	c.Until(5*time.Second, func() bool { d, _ := r.Served.Done(); return d })
	if d, _ := r.Served.Done(); !d {
		c.Violf("not-rejected", "%s message of %d bytes (body %d) did not end the connection, the limit is %d", over, len(big), bodyLen(l.proto, big), l.n)
		return
	}
	c.Ev(fmt.Sprintf("over.%s.%s.%v", over, l.class(len(big)), separate), "%s %d/%d", over, len(big), l.n)
	time.Sleep(time.Second)
	if n := len(env.log.get("big")); n > 0 {
		c.Violf("dispatched", "%s message of %d bytes (body %d) was executed, the limit is %d", over, len(big), bodyLen(l.proto, big), l.n)
	}
	for _, x := range env.log.get("up2") {
		if strings.Contains(x, "ppp") {
			c.Violf("dispatched", "an upload item of %d bytes was delivered, the limit is %d", len(big), l.n)
		}
	}
	if got := r.Far.in.consumed() - before; got > l.bound() {
		c.Violf("unbounded", "%d bytes of a %s message were read, the limit is %d", got, over, l.n)
	}
}

type hub16 struct {
	EchoHub
	mu       *sync.Mutex
	connects *int
}

func (h *hub16) OnConnected(string) {
	h.mu.Lock()
	*h.connects++
	h.mu.Unlock()
}

type recv16 struct {
	log *callLog
}

func (r *recv16) Take(tag string, pad string) { r.log.add(tag, pad) }

func runC16client(c *Case) {
	c.Count("client", 1)
	l := genLimits(c)
	oth := c.others16(l)
	defer oth.judge()
	oth.open()
	log := newCallLog()
	p, conn := c.RawServer("c", l.proto, Cond{}, l.cond)
	cl := c.Client(l.proto, signalr.WithConnection(c.lib(conn)), signalr.MaximumReceiveMessageSize(uint(l.n)), signalr.WithReceiver(&recv16{log}), signalr.StreamBufferCapacity(20))
	c.Ev(fmt.Sprintf("limit.%s.%v.%d", l.proto.Name(), l.cond.Frag, l.n/500), "%d", l.n)
	c.Sample("client, limit %d, %s, %v", l.n, l.proto.Name(), l.cond.Frag)
	cl.C.Start()
	if !p.AcceptHandshake() || !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected (limit %d): %v", l.n, cl.C.Err())
		return
	}
	oth.open()
	find := func(tag string) string {
		id := ""
		c.Until(0, func() bool {
			ms := p.Find(func(m Msg) bool { return (m.Type == 1 || m.Type == 4) && m.Target == tag })
			if len(ms) > 0 {
				id = ms[0].ID
			}
			return id != ""
		})
		return id
	}
	stream := cl.C.PullStream("pull")
	so := c.Collect(stream)
	sid := find("pull")
	var parts [][]byte
	var items []string
	calls := map[string]string{} // tag: pad
	sizes := map[string]int{}
	type res struct {
		o   *Outcomes
		pad string
		n   int
	}
	var results []*res
	for i, k := 0, c.Range(1, 10); i < k; i++ {
		size := l.accepted(c)
		switch c.Intn(3) {
		case 0:
			_, pad, b := sized(l.proto, size, false, func(pad string) Msg { return Msg{Type: 2, ID: sid, Item: pad} })
			items = append(items, pad)
			parts = append(parts, b)
		case 1:
			tag := fmt.Sprintf("m%d", i)
			_, pad, b := sized(l.proto, size, false, func(pad string) Msg { return Msg{Type: 1, Target: "take", Args: []any{tag, pad}} })
			calls[tag], sizes[tag] = pad, len(b)
			parts = append(parts, b)
		default:
			name := fmt.Sprintf("inv%d", i)
			o := c.Collect(cl.C.Invoke(name))
			id := find(name)
			_, pad, b := sized(l.proto, size, false, func(pad string) Msg { return Msg{Type: 3, ID: id, HasRes: true, Result: pad} })
			results = append(results, &res{o, pad, len(b)})
			parts = append(parts, b)
		}
	}
	over := ""
	var big []byte
	var bo *Outcomes
	if c.Chance(70) {
		over = pick(c, "call", "item", "result", "endless")
	}
	switch over {
	case "call":
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 1, Target: "take", Args: []any{"big", pad}} })
	case "item":
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 2, ID: sid, Item: "q" + pad} })
	case "result":
		bo = c.Collect(cl.C.Invoke("big"))
		id := find("big")
		_, _, big = sized(l.proto, l.rejected(c), true, func(pad string) Msg { return Msg{Type: 3, ID: id, HasRes: true, Result: pad} })
	case "endless":
		c.Count("over.endless", 1)
		big = l.endless(c)
	}
	separate := c.Bool()
	if over != "" && !separate {
		parts = append(parts, big)
	}
	sendCut(c, p, parts)
	c.Until(10*time.Second, func() bool {
		vs, _, _ := so.Get()
		n := 0
		for _, v := range vs {
			if v.Error == nil {
				n++
			}
		}
		if n < len(items) {
			return false
		}
		for tag := range calls {
			if len(log.get(tag)) == 0 {
				return false
			}
		}
		for _, r := range results {
			if !r.o.Closed() {
				return false
			}
		}
		return true
	})
	for tag, pad := range calls {
		if got := log.get(tag); len(got) != 1 || got[0] != canon([]any{pad}) {
			c.Violf("not-accepted", "call %s of %d bytes (limit %d, over %q) was executed %d times", tag, sizes[tag], l.n, over, len(got))
			return
		}
		c.Ev("call."+l.class(sizes[tag]), "%s %d", tag, sizes[tag])
	}
	for _, r := range results {
		if vs, closed, _ := r.o.Get(); !closed || len(vs) != 1 || vs[0].Value != r.pad {
			c.Violf("not-accepted", "a result of %d bytes (limit %d, over %q) was not delivered: %d outcomes, %v", r.n, l.n, over, len(vs), cl.C.Err())
			return
		}
		c.Ev("result."+l.class(r.n), "%d", r.n)
	}
	vs, _, _ := so.Get()
	for i, it := range items {
		if i >= len(vs) || vs[i].Error != nil || vs[i].Value != it {
			c.Violf("item-not-accepted", "item %d of %d up to the limit of %d bytes was not delivered (over %q)", i, len(items), l.n, over)
			return
		}
		c.Ev("item."+l.class(len(it)+40), "%d", len(it))
	}
	if over == "" || separate {
		if st := cl.C.State(); st != signalr.ClientConnected {
			c.Violf("not-accepted", "the client is %s without any message above the limit of %d bytes: %v", stateName(st), l.n, cl.C.Err())
			return
		}
	}
	if over == "" {
		return
	}
	before := conn.in.consumed()
	if separate {
		_ = p.Raw(big)
	} else {
		before = 0
		for _, b := range parts[:len(parts)-1] {
			before += len(b)
		}
	}
	if !cl.AwaitState(signalr.ClientClosed, 5*time.Second) {
		c.Violf("not-rejected", "%s message of %d bytes did not end the connection of the client, the limit is %d", over, len(big), l.n)
		return
	}
	c.Ev(fmt.Sprintf("over.%s.%s.%v", over, l.class(len(big)), separate), "%s %d/%d", over, len(big), l.n)
	time.Sleep(time.Second)
	if n := len(log.get("big")); n > 0 {
		c.Violf("dispatched", "a call of %d bytes was executed, the limit is %d", len(big), l.n)
	}
	if bo != nil {
		if vs, closed, _ := bo.Get(); !closed || len(vs) != 1 || vs[0].Error == nil {
			c.Violf("dispatched", "a result of %d bytes (limit %d) yields %d outcomes, closed %v", len(big), l.n, len(vs), closed)
		}
	}
	vs, closed, _ := so.Get()
	if !closed || len(vs) != len(items)+1 || vs[len(items)].Error == nil {
		c.Violf("dispatched", "after %s message of %d bytes (limit %d) the stream yields %d of %d items, closed %v", over, len(big), l.n, len(vs), len(items), closed)
	}
	if got := conn.in.consumed() - before; got > l.bound() {
		c.Violf("unbounded", "%d bytes of a %s message were read, the limit is %d", got, over, l.n)
	}
}

// others16 are servers with other limits, in the same process.
type others16 struct {
	c    *Case
	l    limits16
	envs []*hubEnv
	cls  []*RawClient
	ls   []limits16
}

func (c *Case) others16(l limits16) *others16 { return &others16{c: c, l: l} }

func (o *others16) open() {
	c := o.c
	if !c.Chance(30) {
		return
	}
	c.Count("others", 1)
	l := o.l
	l.cond = Cond{Frag: FragAll}
	if c.Chance(25) {
		l.proto = c.pickProto()
	}
	if l.n = pick(c, o.l.n-1, o.l.n+1, o.l.n/2, 2*o.l.n, 150, 32768, 100000); l.n < 150 {
		l.n = 150
	}
	srv, env := c.echoServer(signalr.MaximumReceiveMessageSize(uint(l.n)))
	r := srv.Connect(fmt.Sprint("other", len(o.cls)), l.proto, l.cond, Cond{})
	if r == nil {
		return
	}
	o.envs, o.cls, o.ls = append(o.envs, env), append(o.cls, r), append(o.ls, l)
}

func (o *others16) judge() {
	c := o.c
	for i, r := range o.cls {
		l, env := o.ls[i], o.envs[i]
		if c.failed() {
			return
		}
		mk := func(tag string) func(pad string) Msg {
			return func(pad string) Msg { return Msg{Type: 1, ID: tag, Target: "Echo", Args: []any{tag, 0, pad}} }
		}
		_, pad, b := sized(l.proto, l.n, false, mk("fits"))
		_ = r.Raw(b)
		c.Until(10*time.Second, func() bool { return len(r.Completions("fits")) > 0 })
		if got := env.log.get("fits"); len(got) != 1 || got[0] != canon([]any{pad}) || len(r.Completions("fits")) != 1 {
			c.Violf("other-not-accepted", "a message of %d bytes to another server with the limit %d was executed %d times; a server or client with the limit %d exists", len(b), l.n, len(got), o.l.n)
			return
		}
		_, _, b = sized(l.proto, l.n+1, true, mk("big"))
		_ = r.Raw(b)
		c.Until(5*time.Second, func() bool { d, _ := r.Served.Done(); return d })
		if d, _ := r.Served.Done(); !d || len(env.log.get("big")) > 0 {
			c.Violf("other-not-rejected", "a message of %d bytes to another server with the limit %d: executed %d times, connection ended %v; a server or client with the limit %d exists", len(b), l.n, len(env.log.get("big")), d, o.l.n)
		}
	}
}

// runC16http sends over websockets and posts.
func runC16http(c *Case) {
	l := limits16{proto: jsonProto{}, cond: c.RandCond(0)}
	l.n = pick(c, 150, c.Range(150, 600), 1000, 4095, 4096, 4097, c.Range(600, 33000), 32768, 32767, 32769, 65536, c.Range(33000, 200000))
	if l.cond.Frag == FragOne || l.cond.Frag == FragSmall {
		l.n = min(l.n, 5000)
	} else if c.Chance(4) {
		l.n = pick(c, 1<<20, 1<<20+1, c.Range(1<<20, 3<<20), 2<<20)
		c.Count("http.raised", 1)
	}
	env := &hubEnv{c: c, log: newCallLog()}
	T := 10 * time.Minute
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &EchoHub{e: env} }),
		signalr.MaximumReceiveMessageSize(uint(l.n)), signalr.TimeoutInterval(T), signalr.KeepAliveInterval(T/2))
	h, _ := c.route(srv, "/hub")
	e := c.HTTP(srv, h, "/hub")
	e.net.cond = func() (Cond, Cond) { return l.cond, Cond{} }
	cl := e.Client()
	var p *httpPeer
	var err error
	ws := c.Bool()
	if ws {
		p, _, err = e.openWS(cl, e.URL, nil)
	} else {
		var body string
		if _, body, _, err = e.Do(cl, "POST", e.URL+"/negotiate", nil, nil); err == nil {
			var resp struct{ ConnectionID string }
			_ = json.Unmarshal([]byte(body), &resp)
			p, _, err = e.openSSE(cl, e.URL+"?id="+resp.ConnectionID, nil)
		}
	}
	name := "sse"
	if ws {
		name = "ws"
	}
	if p == nil {
		c.Violf("http-connect", "%s, limit %d: %v", name, l.n, err)
		return
	}
	c.Sample("http %s, limit %d, %v", name, l.n, l.cond.Frag)
	c.Ev("http."+name, "%d", l.n)
	if _, err = p.send("{\"protocol\":\"json\",\"version\":1}\x1e"); err != nil || !c.Until(time.Minute, func() bool { return p.count() > 0 }) {
		c.Violf("http-connect", "%s, limit %d: no handshake response: %v", name, l.n, err)
		return
	}
	done := func(tag string) bool {
		return p.find(func(m map[string]any) bool { return m["type"] == 3.0 && m["invocationId"] == tag }) != nil
	}
	mk := func(tag string) func(pad string) Msg {
		return func(pad string) Msg { return Msg{Type: 1, ID: tag, Target: "Echo", Args: []any{tag, 0, pad}} }
	}
	for i, k := 0, c.Range(1, 4); i < k; i++ {
		tag := fmt.Sprint("m", i)
		_, _, b := sized(l.proto, l.accepted(c), false, mk(tag))
		if len(b) > l.n {
			continue
		}
		if !ws && c.Chance(30) && len(b) > 100 {
			// one message in several posts
			c.Ev("http.split", "")
			for j, n := 0, c.Range(2, 5); j < n; j++ {
				st, err := p.send(string(b[j*len(b)/n : (j+1)*len(b)/n]))
				if st != 200 {
					c.Violf("not-accepted", "%s: part %d of a message of %d bytes (limit %d): status %d, %v", name, j, len(b), l.n, st, err)
					return
				}
			}
		} else if st, err := p.send(string(b)); st != 200 {
			c.Violf("not-accepted", "%s: a message of %d bytes (limit %d): status %d, %v", name, len(b), l.n, st, err)
			return
		}
		if !c.Until(time.Minute, func() bool { return done(tag) }) {
			c.Violf("not-accepted", "%s: a message of %d bytes (limit %d) was executed %d times and not answered, ended %v", name, len(b), l.n, len(env.log.get(tag)), p.over())
			return
		}
		c.Ev("call."+l.class(len(b)), "%d", len(b))
	}
	if p.over() {
		c.Violf("not-accepted", "%s: connection ended without any message above the limit of %d bytes", name, l.n)
		return
	}
	if c.Chance(25) {
		return
	}
	_, _, big := sized(l.proto, l.rejected(c), true, mk("big"))
	split := !ws && c.Bool()
	if split {
		for n := 0; n < len(big); {
			k := min(len(big)-n, c.Range(1, max(100, l.n)))
			if st, _ := p.send(string(big[n : n+k])); st != 200 {
				break
			}
			n += k
		}
	} else if st, _ := p.send(string(big)); !ws && st == 200 {
		c.Violf("not-rejected", "%s: a post of %d bytes is accepted, the limit is %d", name, len(big), l.n)
	}
	if ws || split {
		if !c.Until(time.Minute, p.over) {
			c.Violf("not-rejected", "%s: a message of %d bytes did not end the connection, the limit is %d, split %v", name, len(big), l.n, split)
		}
	} else {
		time.Sleep(time.Second)
		if c.Bool() {
			// the post was refused, the connection may go on
			st, err := p.send(string(l.proto.Encode(mk("small")(""))))
			if !p.over() && (st != 200 || !c.Until(time.Minute, func() bool { return done("small") || p.over() })) {
				c.Violf("dead", "%s: after a refused post of %d bytes (limit %d) the connection is neither closed nor used: %d %v", name, len(big), l.n, st, err)
			}
		}
	}
	c.Ev(fmt.Sprintf("http.over.%s.%v", l.class(len(big)), split), "%d/%d", len(big), l.n)
	if n := len(env.log.get("big")); n > 0 {
		c.Violf("dispatched", "%s: a message of %d bytes was executed, the limit is %d", name, len(big), l.n)
	}
}
