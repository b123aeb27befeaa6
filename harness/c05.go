package sigverif

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C05", Quick: 60000, Thorough: 2000000, Run: runC05,
		Rule: "A case is one byte stream of a raw peer (handshake, invocations, stream items and completions, pings, with values of 0 bytes to several KB, delimiter bytes inside of values) to a server or a client, cut into reads by an explicit script: one byte each, everything at once, one or two cuts at every position in turn, random cuts, reads of exactly the sizes usual for buffers (also the whole stream), in the first bytes of messages, the last data together with EOF. Nothing else is sent afterwards. The executed calls and the received items are compared with what was sent.",
		Need: []string{"server", "client", "cut.bytes", "cut.all", "cut.one", "cut.random", "cut.exact", "cut.heads", "headers", "large", "eof-data", "ev:processed"}})
}

// cutScript makes the read sizes for n bytes.
func cutScript(c *Case, n int, heads []int) ([]int, string) {
	k := c.Intn(7)
	if k == 0 && n > 30000 {
		k = 6 // too many reads
	}
	switch k {
	case 6:
		// within the first bytes of messages, where the length is
		var s []int
		at := 0
		for _, h := range heads {
			k := h + c.Intn(6)
			if c.Chance(70) && k > at && k < n {
				s = append(s, k-at)
				at = k
				if c.Chance(30) && at+1 < n {
					s = append(s, 1)
					at++
				}
			}
		}
		return append(s, n-at), "cut.heads"
	case 0:
		s := make([]int, n)
		for i := range s {
			s[i] = 1
		}
		return s, "cut.bytes"
	case 1:
		return []int{n}, "cut.all"
	case 2:
		k := 1 + c.Index%max(1, n-1) // every position in turn
		return []int{k, n - k}, "cut.one"
	case 3:
		a := c.Range(1, n)
		b := c.Range(1, n)
		return []int{a, b, n}, "cut.two"
	case 4:
		var s []int
		for left := n; left > 0; {
			k := min(left, 1+c.Intn(pick(c, 4+n/20000*30, 30+n/20000*30, 300)))
			s = append(s, k)
			left -= k
		}
		return s, "cut.random"
	}
	var s []int
	for left := n; left > 0; {
		k := min(left, pick(c, 1+n/20000*30, 2+n/20000*50, 3+n/20000*70, 4096, 512, 4095, 4097, 1000))
		s = append(s, k)
		left -= k
	}
	return s, "cut.buffers"
}

// exact05 returns the text which makes mk's message so long that the whole stream has exactly a size usual for
// buffers, and the script for reading it in pieces of such a size. The limit is the largest message.
func exact05(c *Case, proto Proto, have, limit int, mk func(text string) Msg) (string, []int) {
	sizes := []int{256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 98304, limit, 2 * limit}
	for tries := 0; tries < 20; tries++ {
		size := pick(c, sizes...)
		want := size - have
		if want < 100 || want > limit {
			continue
		}
		for n := want; n > 0 && n > want-60; n-- {
			t := strings.Repeat("e", n)
			if len(proto.Encode(mk(t))) == want {
				var script []int
				piece := size
				if c.Chance(40) {
					piece = min(size, pick(c, sizes...))
				}
				for left := size; left > 0; left -= piece {
					script = append(script, min(left, piece))
				}
				return t, script
			}
		}
	}
	return "", nil
}

func (c *Case) genText() string {
	switch c.Intn(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(pick(c, "x", "é", "\u001e", "\n", "{}", "世"), c.Range(1, 200))
	case 2:
		return strings.Repeat("big", c.Range(100, 2500))
	case 3:
		return "a\x1eb\x00c\"}\\{\x1e\x1e"
	}
	return fmt.Sprintf("v%d", c.Intn(1000))
}

// text05 is sometimes nearly as long as the largest message may be, with its headers
func (c *Case) text05(limit int) string {
	if c.Chance(4) {
		c.Count("large", 1)
		return strings.Repeat("L", c.Range(1, min(limit, 70000)-8000)) // the length of a MessagePack message has 1 to 3 bytes
	}
	return c.genText()
}

// C05Recv is the receiver of a client under test.
type C05Recv struct {
	c   *Case
	log *callLog
}

func (r *C05Recv) Take(tag string, v interface{}) {
	r.log.add(tag, v)
	r.c.Ev("recv.Take", "%s", tag)
}

func runC05(c *Case) {
	proto := c.pickProto()
	limit := pick(c, 10000, 20000, 1<<15, 1<<20)
	n := c.Range(1, 30)
	if c.Chance(20) {
		n = c.Range(1, 3)
	}
	if c.Chance(50) {
		runC05client(c, proto, n, limit)
		return
	}
	c.Count("server", 1)
	// the messages
	type sent struct {
		tag  string
		args string
	}
	var calls []sent
	type up struct {
		tag   string
		items []string
		open  bool
	}
	var ups []*up
	var all bytes.Buffer
	withHS := c.Chance(60)
	if withHS {
		all.Write(handshakeReq(proto.Name()))
	}
	var ms []Msg
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("t%d", i)
		switch k := c.Intn(10); {
		case k < 5:
			v := any(c.text05(limit))
			if c.Bool() {
				v = c.genValue(3)
			}
			id := fmt.Sprint("i", i)
			if c.Chance(30) {
				id = ""
			}
			ms = append(ms, Msg{Type: 1, ID: id, Target: "Echo", Args: []any{tag, 0, v}})
			calls = append(calls, sent{tag, canon([]any{v})})
		case k < 6:
			ms = append(ms, Msg{Type: 6})
		case k < 7:
			u := &up{tag: tag, open: true}
			ups = append(ups, u)
			ms = append(ms, Msg{Type: 1, ID: "u" + tag, Target: "Collect", Args: []any{tag}, Streams: []string{"s" + tag}})
		default:
			if len(ups) == 0 {
				continue
			}
			u := ups[c.Intn(len(ups))]
			if u.open {
				s := fmt.Sprintf("%s.%d-%s", u.tag, len(u.items), short(c.genText(), 300))
				u.items = append(u.items, s)
				ms = append(ms, Msg{Type: 2, ID: "s" + u.tag, Item: s})
			}
		}
	}
	for _, u := range ups {
		ms = append(ms, Msg{Type: 3, ID: "s" + u.tag})
	}
	var heads []int
	for _, m := range ms {
		m.Headers = c.genHeaders()
		heads = append(heads, all.Len())
		all.Write(proto.Encode(m))
	}
	if all.Len() == 0 {
		return
	}
	srv, env := c.echoServer(signalr.MaximumReceiveMessageSize(uint(limit)))
	script, kind := cutScript(c, all.Len(), heads)
	if c.Chance(15) {
		have := all.Len()
		if withHS && c.Bool() {
			have -= len(handshakeReq(proto.Name())) // which is read for itself
		}
		mk := func(text string) Msg { return Msg{Type: 1, ID: "exact", Target: "Echo", Args: []any{"exact", 0, text}} }
		if text, sc := exact05(c, proto, have, limit, mk); sc != nil {
			script, kind = sc, "cut.exact"
			if have < all.Len() {
				script = append([]int{all.Len() - have}, script...)
			}
			all.Write(proto.Encode(mk(text)))
			calls = append(calls, sent{"exact", canon([]any{text})})
		}
	}
	c.Count(kind, 1)
	up1 := Cond{Frag: FragAll}
	r := srv.Dial("c", proto, up1, Cond{})
	if !withHS {
		if e := r.Peer.Connect(); e != "" {
			c.Violf("connect-failed", "handshake failed: %s", e)
			return
		}
	}
	eof := c.Chance(30)
	r.Conn.out.mu.Lock()
	r.Conn.out.cond.Script = script
	r.Conn.out.cond.EOFData = c.Chance(70)
	r.Conn.out.mu.Unlock()
	c.Sample("server, %s, %d messages in %d bytes, handshake included %v, %s %v, EOF %v", proto.Name(), len(ms), all.Len(), withHS, kind, short(fmt.Sprint(script), 80), eof)
	r.Raw(all.Bytes())
	if eof {
		c.Count("eof-data", 1)
		r.Conn.CloseWrite()
	}
	time.Sleep(time.Second)
	if withHS {
		if h, ok := r.Handshake(); !ok || h != "{}" {
			c.Violf("no-handshake", "handshake and messages in one stream: response %q", h)
		}
	}
	if e, at := r.Ended(); e && !eof {
		c.Violf("connection-lost", "the server ended the connection at %v: %v", at, r.Find(func(m Msg) bool { return m.Type == 7 }))
	}
	for _, s := range calls {
		got := env.log.get(s.tag)
		if len(got) != 1 {
			c.Violf("lost-or-repeated", "call %s executed %d times", s.tag, len(got))
		} else if got[0] != s.args {
			c.Violf("altered", "call %s executed with %s, sent %s", s.tag, short(got[0], 300), short(s.args, 300))
		}
	}
	for _, u := range ups {
		if got := env.log.get(u.tag); len(got) != 1 {
			c.Violf("lost-or-repeated", "upload call %s executed %d times", u.tag, len(got))
		}
		if eof {
			continue // the answer may be cut off
		}
		want := ""
		for _, s := range u.items {
			want += s + ";"
		}
		comps := r.Completions("u" + u.tag)
		if len(comps) != 1 || comps[0].Result != want {
			c.Violf("items", "upload %s was answered by %v, want %q", u.tag, comps, short(want, 300))
		}
	}
	if env.log.total() != len(calls)+len(ups) {
		c.Violf("surplus", "%d calls executed, %d sent: %v", env.log.total(), len(calls)+len(ups), env.log.tags())
	}
	c.Ev("processed", "%d calls %d uploads", len(calls), len(ups))
}

func runC05client(c *Case, proto Proto, n, limit int) {
	c.Count("client", 1)
	rcv := &C05Recv{c, newCallLog()}
	p, theirs := c.RawServer("c", proto, Cond{}, Cond{Frag: FragAll})
	cl := c.Client(proto, signalr.WithConnection(c.lib(theirs)), signalr.WithReceiver(rcv), signalr.StreamBufferCapacity(1000),
		signalr.MaximumReceiveMessageSize(uint(limit)))
	cl.C.Start()
	if !c.Until(0, func() bool { _, ok := p.Handshake(); return ok }) {
		c.Violf("no-handshake", "client sent no handshake")
		return
	}
	withHS := c.Chance(50)
	var o *Outcomes
	var sid string
	if !withHS {
		p.AcceptHandshake()
		if !cl.AwaitState(signalr.ClientConnected, 0) {
			c.Violf("no-connect", "client not connected")
			return
		}
		o = c.Collect(cl.C.PullStream("S", 1))
		if !c.Until(time.Minute, func() bool {
			ms := p.Find(func(m Msg) bool { return m.Type == 4 })
			if len(ms) == 1 {
				sid = ms[0].ID
			}
			return len(ms) == 1
		}) {
			c.Violf("no-invocation", "no stream invocation received")
			return
		}
	}
	var all bytes.Buffer
	if withHS {
		all.WriteString("{}\x1e")
	}
	type sent struct{ tag, args string }
	var calls []sent
	var items []string
	var heads []int
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("t%d", i)
		heads = append(heads, all.Len())
		switch k := c.Intn(10); {
		case k < 5 || k < 9 && sid == "":
			v := any(c.text05(limit))
			if c.Bool() {
				v = c.genValue(3)
			}
			all.Write(proto.Encode(Msg{Type: 1, Target: "take", Args: []any{tag, v}, Headers: c.genHeaders()}))
			calls = append(calls, sent{tag, canon([]any{v})})
		case k < 9:
			v := any(c.text05(limit))
			if c.Bool() {
				v = c.genValue(2)
			}
			items = append(items, canon(v))
			all.Write(proto.Encode(Msg{Type: 2, ID: sid, Item: v, Headers: c.genHeaders()}))
		default:
			all.Write(proto.Encode(Msg{Type: 6}))
		}
	}
	if sid != "" {
		all.Write(proto.Encode(Msg{Type: 3, ID: sid}))
	}
	if all.Len() == 0 {
		return
	}
	script, kind := cutScript(c, all.Len(), heads)
	if c.Chance(15) {
		have := all.Len()
		if withHS && c.Bool() {
			have -= len("{}\x1e")
		}
		mk := func(text string) Msg { return Msg{Type: 1, Target: "take", Args: []any{"exact", text}} }
		if text, sc := exact05(c, proto, have, limit, mk); sc != nil {
			script, kind = sc, "cut.exact"
			if have < all.Len() {
				script = append([]int{all.Len() - have}, script...)
			}
			all.Write(proto.Encode(mk(text)))
			calls = append(calls, sent{"exact", canon([]any{text})})
		}
	}
	c.Count(kind, 1)
	eof := c.Chance(30)
	p.conn.out.mu.Lock()
	p.conn.out.cond.Script = script
	p.conn.out.cond.EOFData = c.Chance(70)
	p.conn.out.mu.Unlock()
	c.Sample("client, %s, %d bytes, handshake included %v, %s %v, EOF %v", proto.Name(), all.Len(), withHS, kind, short(fmt.Sprint(script), 80), eof)
	p.Raw(all.Bytes())
	if eof {
		c.Count("eof-data", 1)
		p.conn.CloseWrite()
	}
	time.Sleep(time.Second)
	if st := cl.C.State(); st != signalr.ClientConnected && !eof {
		c.Violf("connection-lost", "client is %v: %v", st, cl.C.Err())
	}
	for _, s := range calls {
		got := rcv.log.get(s.tag)
		if len(got) != 1 {
			c.Violf("lost-or-repeated", "send %s received %d times", s.tag, len(got))
		} else if got[0] != s.args {
			c.Violf("altered", "send %s received with %s, sent %s", s.tag, short(got[0], 300), short(s.args, 300))
		}
	}
	if rcv.log.total() != len(calls) {
		c.Violf("surplus", "%d sends received, %d sent", rcv.log.total(), len(calls))
	}
	if sid != "" {
		vals, closed, _ := o.Get()
		var got []string
		for _, v := range vals {
			if v.Error != nil {
				c.Violf("items", "stream yielded error %v", v.Error)
				continue
			}
			got = append(got, canon(v.Value))
		}
		if !closed {
			c.Violf("items", "stream not closed after its completion")
		}
		diffItems(c, "stream", got, items)
	}
	c.Ev("processed", "%d calls %d items", len(calls), len(items))
}
