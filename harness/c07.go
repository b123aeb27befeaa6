package sigverif

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C07", Quick: 40000, Thorough: 2000000, Run: runC07,
		Rule: "A case is a server with 1..2 well-behaved connections making calls all the time and 1..3 attackers, or a client facing a malicious server. An attacker sends, before, instead of or after a handshake: random bytes, valid traffic with bytes flipped, cut, inserted, repeated, or swapped between the protocols, messages whose fields have wrong types, are missing, repeated, nested 10..100000 deep or of absurd length, wrong length prefixes, completions, items and cancels for ids nobody used, streams without items and items without streams; then it stays silent, closes or resets.",
		Need: []string{"server", "client", "attack.raw", "attack.mutated", "attack.tree", "attack.frame", "attack.semantic", "attack.handshake", "survived", "closed", "no-receiver"}})
}

// odd is a value of a type nobody expects.
func (c *Case) odd() any {
	switch c.Intn(16) {
	case 0:
		return nil
	case 1:
		return c.Bool()
	case 2:
		return pick[any](c, 0, -1, 1, 255, 1<<31, -1<<63, uint64(math.MaxUint64))
	case 3:
		return pick[any](c, 0.5, 1e308, -1e-300)
	case 4:
		return pick(c, "", "x", "1", "\x00", "\x1e", strings.Repeat("z", 500))
	case 5:
		return []any{}
	case 6:
		return map[string]any{}
	case 7:
		return []any{c.odd(), c.odd()}
	case 8:
		return map[string]any{"type": c.Intn(9), "a": c.odd()}
	case 9, 10:
		// deep
		return c.deep(pick(c, 10, 100, 1000, 9000))
	case 11:
		return []byte{1, 2, 3}
	case 12:
		return mpExtOrText(c)
	case 13:
		return []any{map[string]any{"": []any{}}}
	}
	return c.Intn(1000)
}

func (c *Case) deep(n int) any {
	kind := c.Intn(2)
	if kind == 0 {
		return rawDeep{n, "[", "]", 0x91}
	}
	return rawDeep{n, `{"a":`, "}", 0x81}
}

// rawDeep is a deeply nested value, encoded without recursion.
type rawDeep struct {
	n           int
	open, close string
	code        byte
}

func (r rawDeep) MarshalJSON() ([]byte, error) {
	return []byte(strings.Repeat(r.open, r.n) + "1" + strings.Repeat(r.close, r.n)), nil
}
func (r rawDeep) mp() mpRaw {
	one := []byte{r.code}
	if r.code == 0x81 {
		one = []byte{0x81, 0xa1, 'a'}
	}
	return append(bytes.Repeat(one, r.n), 1)
}

type extOrText struct{ d []byte }

func (extOrText) MarshalJSON() ([]byte, error) { return []byte(`"ext"`), nil }
func mpExtOrText(c *Case) any                  { return extOrText{c.bytesN(c.Intn(20))} }

// mpOdd turns odd values into what mpEncode takes, with MessagePack specialities.
func (c *Case) mpOdd(v any) any {
	switch x := v.(type) {
	case rawDeep:
		return x.mp()
	case extOrText:
		switch c.Intn(8) {
		case 0: // time ext with any length
			return mpRaw(append([]byte{0xc7, byte(len(x.d)), 0xff}, x.d...))
		case 1:
			return mpRaw(append([]byte{0xc7, byte(len(x.d)), byte(c.Intn(256))}, x.d...))
		case 2: // map with odd keys
			return mpPairs{{[]any{1}, 1}, {map[string]any{"a": 1}, 2}, {nil, 3}, {1.5, 4}}
		case 3: // announces much
			return mpRaw([]byte{pick[byte](c, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9), 0xff, 0xff, 0xff, 0xff})
		case 4:
			return mpRaw([]byte{pick[byte](c, 0xdc, 0xde, 0xda, 0xc5, 0xc8), 0xff, 0xff})
		case 5:
			return mpRaw([]byte{0xc1})
		case 6: // NaN, Inf
			return pick[any](c, math.NaN(), math.Inf(1))
		}
		return mpPairs{{"a", 1}, {"a", 2}}
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = c.mpOdd(x[i])
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k, e := range x {
			r[k] = c.mpOdd(e)
		}
		return r
	}
	return v
}

// tree07 makes a message with wrong fields.
func (c *Case) tree07(proto Proto, target string) []byte {
	t := pick(c, 1, 1, 1, 4, 2, 3, 5, 6, 7, 0, 8, -1, 255)
	if proto.Name() == "json" {
		var sb strings.Builder
		sb.WriteByte('{')
		n := 0
		put := func(k string, v any) {
			for r := pick(c, 1, 1, 1, 1, 1, 2, 0); r > 0; r-- {
				if n > 0 {
					sb.WriteByte(',')
				}
				n++
				b, err := json.Marshal(v)
				if err != nil {
					b = []byte("null")
				}
				fmt.Fprintf(&sb, "%q:%s", k, b)
			}
		}
		val := func(good any) any {
			if c.Chance(35) {
				return c.odd()
			}
			return good
		}
		put("type", val(t))
		put("invocationId", val("evil"))
		if t == 1 || t == 4 || c.Chance(5) {
			put("target", val(target))
			put("arguments", val([]any{c.odd(), c.odd()}))
			if c.Chance(50) {
				put("streamIds", val([]any{"s1", c.odd()}))
			}
		}
		put("item", val("i"))
		put("result", val("r"))
		if c.Chance(30) {
			put("error", val(""))
		}
		put("allowReconnect", val(true))
		put("headers", val(map[string]any{}))
		sb.WriteByte('}')
		s := sb.String()
		if c.Chance(10) {
			s = pick(c, "null", "[]", "1", "\"x\"", "", "{", "{}", "[{}]", "tru", s+s, s+"x", " "+s)
		}
		return append([]byte(s), 0x1e)
	}
	val := func(good any) any {
		if c.Chance(30) {
			return c.mpOdd(c.odd())
		}
		return good
	}
	m := []any{val(t), val(map[string]any{})}
	switch t {
	case 1, 4:
		m = append(m, val("evil"), val(target), val([]any{c.mpOdd(c.odd()), c.mpOdd(c.odd())}), val([]any{"s1"}))
	case 2:
		m = append(m, val("evil"), val("x"))
	case 3:
		m = append(m, val("evil"), val(c.Range(0, 4)), val("x"))
	case 6:
		m = m[:1]
	case 7:
		m = []any{7, val("bye"), val(true)}
	default:
		m = append(m, val("evil"))
	}
	switch c.Intn(6) {
	case 0:
		m = m[:c.Intn(len(m)+1)]
	case 1:
		m = append(m, c.mpOdd(c.odd()))
	}
	return mpFrame(mpList(m...))
}

// valid07 is correct traffic.
func (c *Case) valid07(proto Proto, peerIsClient bool) []byte {
	var b []byte
	for i := c.Range(1, 5); i > 0; i-- {
		id := fmt.Sprintf("v%d", i)
		var m Msg
		switch c.Intn(8) {
		case 0:
			m = Msg{Type: 6}
		case 1:
			m = Msg{Type: 1, ID: id, Target: "Collect", Args: []any{"evil"}, Streams: []string{"s" + id}}
		case 2:
			m = Msg{Type: 4, ID: id, Target: "Stream", Args: []any{"evil", 3, 0, 0}}
		case 3:
			m = Msg{Type: 5, ID: id}
		default:
			m = Msg{Type: 1, ID: id, Target: "Echo", Args: []any{"evil", 0, c.genValue(2)}}
		}
		b = append(b, proto.Encode(m)...)
	}
	return b
}

func (c *Case) mutate(b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := c.Range(1, 4); i > 0 && len(b) > 0; i-- {
		p := c.Intn(len(b))
		q := min(len(b), p+1+c.Intn(8))
		switch c.Intn(7) {
		case 0:
			b[p] ^= 1 << c.Intn(8)
		case 1:
			b[p] = byte(c.Intn(256))
		case 2:
			b = append(b[:p], b[q:]...)
		case 3:
			b = append(b[:p:p], append(c.bytesN(1+c.Intn(5)), b[p:]...)...)
		case 4:
			b = append(b[:p:p], append(append([]byte{}, b[p:q]...), b[p:]...)...)
		case 5:
			b = b[:p]
		case 6:
			b[p] = pick[byte](c, 0, 0x1e, 0xff, '"', '{', '}', '[', ',', 0x80, 0x90, 0xc0, 0xdf)
		}
	}
	return b
}

// attack is what the attacker writes after the handshake; aligned means that it ends with a frame
// that is complete from the point of view of the framing.
func (c *Case) attack(proto Proto) (b []byte, aligned bool) {
	tgt := func() string {
		return pick(c, "Echo", "Add", "Collect", "Collect2", "CollectAny", "Stream", "Struct", "Opt", "NoArgs", "Upstream", "Void", "", "x")
	}
	switch c.Intn(6) {
	case 0:
		c.Count("attack.raw", 1)
		return c.bytesN(c.Range(1, pick(c, 5, 50, 5000))), false
	case 1:
		c.Count("attack.mutated", 1)
		p := proto
		if c.Chance(15) {
			p = c.pickProto()
		}
		return c.mutate(c.valid07(p, true)), false
	case 2, 3:
		c.Count("attack.tree", 1)
		for i := c.Range(1, 4); i > 0; i-- {
			b = append(b, c.tree07(proto, tgt())...)
		}
		return b, true
	case 4:
		c.Count("attack.frame", 1)
		if proto.Name() == "json" {
			switch c.Intn(4) {
			case 0:
				return bytes.Repeat([]byte{0x1e}, c.Range(1, 3000)), true
			case 1:
				return bytes.Repeat([]byte("["), c.Range(1, 20000)), false
			case 2:
				return append(bytes.Repeat([]byte("["), c.Range(1, 20000)), 0x1e), true
			}
			return append([]byte(`{"type":`+strings.Repeat("9", c.Range(1, 500))+`}`), 0x1e), true
		}
		l := make([]byte, 10)
		switch c.Intn(6) {
		case 0:
			return append(l[:binary.PutUvarint(l, c.U64()>>c.Intn(60))], c.bytesN(c.Intn(100))...), false
		case 1:
			return bytes.Repeat([]byte{0xff}, c.Range(1, 30)), false
		case 2:
			return bytes.Repeat([]byte{0}, c.Range(1, 3000)), true
		case 3:
			return bytes.Repeat([]byte{0x80}, c.Range(1, 30)), false
		case 4:
			return mpFrame(bytes.Repeat([]byte{pick[byte](c, 0x91, 0xdd, 0x81, 0xc4, 0xd9)}, c.Range(1, 20000))), true
		}
		m := proto.Encode(Msg{Type: 1, ID: "evil", Target: "Echo", Args: []any{"evil", 0, 1}})
		m[0] += byte(c.Range(1, 5))
		return m, false
	}
	c.Count("attack.semantic", 1)
	for i := c.Range(1, 20); i > 0; i-- {
		id := pick(c, "a", "b", "c", "1", "2", "")
		var m Msg
		switch c.Intn(9) {
		case 0:
			m = Msg{Type: 2, ID: id, Item: c.genValue(1)}
		case 1:
			m = Msg{Type: 3, ID: id}
		case 2:
			m = Msg{Type: 3, ID: id, HasErr: true, Error: "e"}
		case 3:
			m = Msg{Type: 3, ID: id, HasRes: true, Result: c.genValue(1)}
		case 4:
			m = Msg{Type: 5, ID: id}
		case 5:
			m = Msg{Type: 1, ID: id, Target: pick(c, "Collect", "CollectAny", "Echo"), Args: []any{"evil"}, Streams: []string{id, pick(c, "a", "b")}}
		case 6:
			m = Msg{Type: 1, ID: id, Target: "Collect", Args: []any{"evil"}, Streams: []string{pick(c, "a", "b", "c", "")}}
		case 7:
			m = Msg{Type: 4, ID: id, Target: "Stream", Args: []any{"evil", c.Intn(5), 0, 0}}
		case 8:
			n := c.Range(0, 300)
			ss := make([]string, n)
			for i := range ss {
				ss[i] = fmt.Sprint("s", i)
			}
			m = Msg{Type: 1, ID: id, Target: pick(c, "Collect", "Collect2", "Echo"), Args: []any{"evil"}, Streams: ss}
		}
		b = append(b, proto.Encode(m)...)
	}
	return b, true
}

func (c *Case) evilHandshake(role string) []byte {
	c.Count("attack.handshake", 1)
	good := handshakeReq(pick(c, "json", "messagepack"))
	if role == "server" {
		good = []byte("{}\x1e")
	}
	switch c.Intn(8) {
	case 0:
		return c.mutate(good)
	case 1:
		return c.bytesN(c.Range(1, 3000))
	case 2:
		return append([]byte(pick(c, "null", "[]", "1", `{"protocol":1,"version":"x"}`, `{"protocol":null}`, `{"protocol":"json","version":1e400}`, `{"protocol":{}}`, `{"error":5}`, `{"error":{}}`, "", "{")), 0x1e)
	case 3:
		return append(bytes.Repeat([]byte("["), c.Range(1, 20000)), 0x1e)
	case 4:
		return bytes.Repeat([]byte("x"), c.Range(1, 100000))
	case 5:
		return bytes.Repeat([]byte{0x1e}, c.Range(1, 100))
	case 6:
		return append(append([]byte{}, good...), good...)
	}
	return append(append([]byte{}, good...), c.bytesN(c.Range(1, 100))...)
}

func runC07(c *Case) {
	if c.Chance(35) {
		runC07client(c)
		return
	}
	c.Count("server", 1)
	srv, env := c.echoServer(signalr.MaxConcurrentStreams(uint(pick(c, 0, 2, 100))), signalr.HandshakeTimeout(5*time.Second), signalr.TimeoutInterval(20*time.Second), signalr.ChanReceiveTimeout(2*time.Second), signalr.StreamBufferCapacity(uint(c.Range(1, 20))))
	nv, na := c.Range(1, 2), c.Range(1, 3)
	c.Sample("server, %d victims, %d attackers", nv, na)
	trace := func(i int, what string, b []byte) {
		if len(b) > 400 {
			b = b[:400]
		}
		c.Ev("attack", "%d %s %q", i, what, b)
	}
	victims := make([]*RawClient, nv)
	calls := make([]int, nv)
	for i := range victims {
		victims[i] = srv.Connect(fmt.Sprintf("v%d", i), c.pickProto(), c.RandCond(0), c.RandCond(0))
		if victims[i] == nil {
			return
		}
		victims[i].KeepAlive(4 * time.Second)
	}
	victimCall := func() {
		for i, v := range victims {
			tag := fmt.Sprintf("v%dc%d", i, calls[i])
			calls[i]++
			_ = v.Send(Msg{Type: 1, ID: tag, Target: "Tag", Args: []any{tag, 0}})
		}
	}
	victimCall()
	type attacker struct {
		*RawClient
		hs      bool
		aligned bool
		silent  bool
	}
	as := make([]*attacker, na)
	for i := range as {
		proto := c.pickProto()
		a := &attacker{RawClient: srv.Dial(fmt.Sprintf("a%d", i), proto, c.RandCond(0), c.RandCond(0))}
		as[i] = a
		if c.Chance(20) {
			b := c.evilHandshake("client")
			trace(i, "handshake", b)
			_ = a.Raw(b)
			continue
		}
		a.hs = true
		b := handshakeReq(proto.Name())
		atk, al := c.attack(proto)
		a.aligned = al
		trace(i, proto.Name(), atk)
		if c.Chance(15) {
			_ = a.Raw(append(b, atk...))
		} else {
			_ = a.Raw(b)
			if c.Chance(70) && a.AwaitHandshake() != "" {
				c.Violf("connect-failed", "attacker %d: a good handshake failed", i)
			}
			_ = a.Raw(atk)
		}
		for c.Chance(30) && a.aligned {
			atk, al := c.attack(proto)
			a.aligned = al
			trace(i, "more", atk)
			_ = a.Raw(atk)
		}
		victimCall()
	}
	if c.Chance(50) {
		time.Sleep(c.Dur(0, 3*time.Second))
	}
	victimCall()
	// An attacker whose bytes were complete frames can talk to the server, if it was not thrown out.
	for i, a := range as {
		if !a.hs || !a.aligned {
			continue
		}
		_ = a.Send(Msg{Type: 1, ID: "last", Target: "Tag", Args: []any{"evil", 0}})
		// Each of up to 20 items which nobody takes may occupy the loop for the channel receive timeout
		ok := c.Until(5*time.Minute, func() bool {
			e, _ := a.Served.Done()
			if !e {
				_ = a.Send(Msg{Type: 6})
				time.Sleep(time.Second)
			}
			return e || len(a.Completions("last")) > 0
		})
		if !ok {
			c.Violf("stuck-connection", "attacker %d (%s): the server neither answers nor closes the connection", i, a.proto.Name())
		}
		if e, _ := a.Served.Done(); e {
			c.Count("closed", 1)
		} else {
			c.Count("survived", 1)
		}
	}
	for _, a := range as {
		switch c.Intn(3) {
		case 0:
			a.Conn.Close()
		case 1:
			a.Conn.Reset()
		case 2:
			a.silent = true // dropped by the timeouts
		}
	}
	// a wave later everything of the attackers is gone
	victimCall()
	ok := c.Until(10*time.Minute, func() bool {
		for _, a := range as {
			if d, _ := a.Served.Done(); !d {
				return false
			}
		}
		return true
	})
	if !ok {
		for i, a := range as {
			if d, _ := a.Served.Done(); !d {
				c.Violf("serve-never-returns", "attacker %d (%s, handshake %v, silent %v): Serve has not returned", i, a.proto.Name(), a.hs, a.silent)
			}
		}
	}
	for _, a := range as {
		a.Conn.Close()
		a.Far.Close()
		a.Far.cancel()
	}
	victimCall()
	c.Until(time.Minute, func() bool {
		for i, v := range victims {
			if len(v.Find(func(m Msg) bool { return m.Type == 3 })) < calls[i] {
				return false
			}
		}
		return true
	})
	for i, v := range victims {
		who := fmt.Sprintf("victim %d", i)
		if e, at := v.Ended(); e {
			c.Violf("victim-lost", "%s was disconnected at %v", who, at)
		}
		v.judgeBad(who)
		n := 0
		for _, m := range v.Msgs() {
			switch m.Type {
			case 6:
			case 3:
				if m.HasErr || m.Result != "result-"+m.ID {
					c.Violf("victim-disturbed", "%s received %v", who, m)
				}
				n++
			default:
				c.Violf("victim-disturbed", "%s received %v", who, m)
			}
		}
		if n != calls[i] {
			c.Violf("victim-unanswered", "%s made %d calls, %d were answered", who, calls[i], n)
		}
		for k := 0; k < calls[i]; k++ {
			if r := env.log.get(fmt.Sprintf("v%dc%d", i, k)); len(r) != 1 {
				c.Violf("victim-executions", "%s: call %d executed %d times", who, k, len(r))
			}
		}
		c.Ev("victim", "%d calls", n)
		v.Conn.Close()
		v.Far.Close()
	}
	left := func() []string { return c.libGoroutines() }
	if !c.Until(5*time.Minute, func() bool { return len(left()) == 0 }) {
		for _, g := range left() {
			c.Violf("left-running", "after all connections have ended: %s", short(g, 700))
		}
	}
}

func runC07client(c *Case) {
	c.Count("client", 1)
	proto := c.pickProto()
	p, conn := c.RawServer("c", proto, c.RandCond(0), c.RandCond(0))
	recv := &C05Recv{c, newCallLog()}
	opts := []opt{signalr.WithConnection(c.lib(conn)), signalr.HandshakeTimeout(5 * time.Second), signalr.TimeoutInterval(20 * time.Second), signalr.ChanReceiveTimeout(2 * time.Second)}
	noRecv := c.Chance(25)
	if noRecv {
		c.Count("no-receiver", 1)
	} else {
		opts = append(opts, signalr.WithReceiver(recv))
	}
	cl := c.Client(proto, opts...)
	cl.C.Start()
	c.Sample("client, %s", proto.Name())
	if !c.Until(0, func() bool { _, ok := p.Handshake(); return ok }) {
		c.Violf("no-handshake", "the client sent no handshake")
		return
	}
	var outs []*Outcomes
	up := make(chan string)
	hs := !c.Chance(25)
	aligned := false
	if !hs {
		_ = p.Raw(c.evilHandshake("server"))
		outs = append(outs, c.Collect(cl.C.Invoke("early", 1)))
	} else {
		atk, al := c.attack(proto)
		aligned = al
		if c.Chance(15) {
			_ = p.Raw(append([]byte("{}\x1e"), atk...))
		} else {
			_ = p.Raw([]byte("{}\x1e"))
			if !cl.AwaitState(signalr.ClientConnected, 0) {
				c.Violf("no-connect", "client never connected: %v", cl.C.Err())
				return
			}
			outs = append(outs, c.Collect(cl.C.Invoke("call", 1)), c.Collect(cl.C.PullStream("stream", 1)), c.Collect(cl.C.PushStreams("push", up)), c.CollectErr(cl.C.Send("send", 1)))
			if c.Bool() {
				time.Sleep(10 * time.Millisecond)
			}
			_ = p.Raw(atk)
		}
		for aligned && c.Chance(40) {
			atk, al := c.attack(proto)
			aligned = al
			_ = p.Raw(atk)
		}
	}
	if c.Chance(50) {
		time.Sleep(c.Dur(0, 3*time.Second))
	}
	if hs && aligned {
		var probe *Outcomes
		ok := c.Until(5*time.Minute, func() bool {
			if e, _ := p.Ended(); e || cl.C.State() == signalr.ClientClosed {
				return true
			}
			if noRecv {
				// messages for receivers are ignored, others are not
				if probe == nil {
					_ = p.Send(Msg{Type: 1, Target: "Take", Args: []any{"last", 1}})
					probe = c.Collect(cl.C.Invoke("probe"))
				}
				for _, m := range p.Find(func(m Msg) bool { return m.Type == 1 && m.Target == "probe" }) {
					_ = p.Send(Msg{Type: 3, ID: m.ID, HasRes: true, Result: "x"})
				}
				time.Sleep(time.Second)
				return probe.Closed()
			}
			_ = p.Send(Msg{Type: 1, Target: "Take", Args: []any{"last", 1}})
			time.Sleep(time.Second)
			return len(recv.log.get("last")) > 0
		})
		if !ok {
			c.Violf("stuck-connection", "the client neither processes messages nor closes: %v", cl.C.State())
		}
		if cl.C.State() == signalr.ClientClosed {
			c.Count("closed", 1)
		} else {
			c.Count("survived", 1)
		}
	}
	switch c.Intn(3) {
	case 0:
		p.conn.Close()
	case 1:
		p.conn.Reset()
	}
	if !cl.AwaitState(signalr.ClientClosed, 10*time.Minute) {
		c.Violf("client-stuck", "the client is still %v", cl.C.State())
	}
	conn.Close()
	conn.cancel()
	p.conn.Close()
	outs = append(outs, c.Collect(cl.C.Invoke("late", 1)))
	if !c.Until(10*time.Minute, func() bool {
		for _, o := range outs {
			if !o.Closed() {
				return false
			}
		}
		return true
	}) {
		c.Violf("call-never-ends", "a call of the client never ended")
	}
	close(up)
	if !c.Within(10*time.Minute, cl.C.Stop) {
		c.Violf("stop-hangs", "Stop has not returned")
	}
	if !c.Until(5*time.Minute, func() bool { return len(c.libGoroutines()) == 0 }) {
		for _, g := range c.libGoroutines() {
			c.Violf("left-running", "after the client has ended: %s", short(g, 700))
		}
	}
	c.Ev("client.end", "%v", cl.C.Err())
}
