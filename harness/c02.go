package sigverif

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C02", Quick: 30000, Thorough: 1000000, Run: runC02,
		Rule: "A case is 1..3 raw peers (JSON or MessagePack) on one server, each sending 1..25 invocations of random kinds (plain and stream invocations of methods with values, several values, nothing, channels, closed channels, unserializable values, panics; unknown methods, wrong argument counts and types, wrong stream ids; with and without id, any case of the target, alternate names), joined and cut at random; the same ids are used on all connections. Every message of the server is compared with the list predicted per id.",
		Need: []string{"headers", "value", "void", "error", "items", "noid", "alternate", "panic"}})
}

type inv02 struct {
	kind   string
	tag    string
	m      Msg
	items  []string // canonical expected items
	res    string   // canonical expected result, "" none
	err    bool
	errSub string
	runs   int  // expected executions
	logged bool // the hub logs executions under tag
	upload bool
}

func caseMix(c *Case, s string) string {
	switch c.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if c.Bool() {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// genInv makes an invocation and predicts the answer.
func genInv(c *Case, tag, id string) *inv02 {
	v := &inv02{tag: tag, runs: 1, logged: true}
	v.m = Msg{Type: 1, ID: id}
	st := c.Chance(40)
	if st {
		v.m.Type = 4
	}
	ms := pick(c, 0, 0, c.Intn(30), c.Intn(3000))
	one := func(res string) { // one result, plain or as stream
		if st {
			v.items = []string{res}
		} else {
			v.res = res
		}
	}
	fail := func(sub string, runs int) { v.err, v.errSub, v.runs = true, sub, runs }
	switch c.Intn(20) {
	case 0, 1:
		x := c.genValue(2)
		v.kind, v.m.Target, v.m.Args = "value", "Echo", []any{tag, ms, x}
		one(canon(x))
	case 2:
		v.kind, v.m.Target, v.m.Args = "value", "Tag", []any{tag, ms}
		one(canon("result-" + tag))
	case 3:
		v.kind, v.m.Target, v.m.Args = "void", "Void", []any{tag, ms}
		if st {
			fail("", 0)
		}
	case 4:
		v.kind, v.m.Target, v.m.Args = "panic", "Panic", []any{tag, ms}
		fail("panic-"+tag, 1)
	case 5:
		v.kind, v.m.Target, v.m.Args = "value", "Async", []any{tag, ms}
		one(canon("result-" + tag))
	case 6:
		a, b := c.Range(-1<<40, 1<<40), c.Range(-1000, 1000)
		v.kind, v.m.Target, v.m.Args = "value", "Add", []any{tag, a, b}
		one(canon(a + b))
	case 7:
		v.kind, v.m.Target = "error", "Add"
		v.m.Args = pick(c, []any{tag, 1}, []any{tag, 1, 2, 3}, []any{}, []any{tag, "x", 2}, []any{tag, 1, []any{2}}, []any{tag, 1, map[string]any{"a": 1}})
		fail("", 0)
	case 8:
		v.kind, v.m.Target, v.m.Args = "multi", "Multi", []any{tag, 7}
		if st {
			fail("", 0)
		} else {
			v.res = canon([]any{"result-" + tag, 7})
		}
		if c.Bool() {
			v.m.Target, v.m.Args = "Triple", []any{tag, 7, true}
			if !st {
				v.res = canon([]any{"result-" + tag, 7, true})
			}
		}
	case 9, 10:
		n, cp := c.Intn(12), c.Intn(4)
		if ms > 300 {
			ms = 300
		}
		v.kind, v.m.Target, v.m.Args = "items", "Stream", []any{tag, n, ms, cp}
		if st {
			for i := 0; i < n; i++ {
				v.items = append(v.items, canon(fmt.Sprintf("%s/%d", tag, i)))
			}
		} else if n > 0 {
			v.res = canon(tag + "/0")
		} else {
			fail("", 1)
		}
	case 11:
		n := c.Intn(20)
		v.kind, v.m.Target, v.m.Args = "items", "StreamInt", []any{tag, n}
		if st {
			for i := 0; i < n; i++ {
				v.items = append(v.items, canon(i))
			}
		} else if n > 0 {
			v.res = canon(0)
		} else {
			fail("", 1)
		}
	case 12:
		v.kind, v.m.Target, v.m.Args = "closed", "ClosedStream", []any{tag}
		if !st {
			fail("", 1)
		}
	case 13:
		v.kind, v.m.Target, v.m.Args, v.logged = "error", pick(c, "NoSuch", "Ech", "Echoo", "sleep", "", "Echo ", "hub.Echo")+pick(c, "", tag), []any{tag, 0, 1}, true
		if v.m.Target == "" {
			v.m.Target = "é" + tag
		}
		fail(v.m.Target, 0)
	case 14:
		v.kind, v.m.Target, v.m.Args = "unser", "Unser", []any{tag, c.Intn(3)}
		fail("", 1)
	case 15:
		n := c.Intn(4)
		v.kind, v.m.Target, v.m.Args = "unser", "UnserStream", []any{tag, n}
		if st {
			fail("", 1)
			for i := 0; i < n; i++ {
				v.items = append(v.items, canon(fmt.Sprintf("%s/%d", tag, i)))
			}
		} else if n > 0 {
			v.res = canon(tag + "/0")
		} else {
			fail("", 1)
		}
	case 16:
		v.kind = "badstreams"
		if c.Bool() {
			v.m.Target, v.m.Args = "Collect", pick(c, []any{tag}, []any{tag, "x"})
		} else {
			v.m.Target, v.m.Args, v.m.Streams = "Tag", pick(c, []any{tag}, []any{tag, 0}), []string{"s" + tag}
		}
		fail("", 0)
	case 17:
		v.kind, v.m.Target, v.m.Args = "value", "Struct", []any{tag, map[string]any{"x": 4, "y": "why"}}
		one(canon(map[string]any{"x": 5, "y": "why!"}))
	case 18:
		if c.Bool() {
			v.kind, v.m.Target, v.m.Args = "panic", "PanicStream", []any{tag}
			fail("panic-"+tag, 1)
		} else {
			v.kind, v.m.Target, v.m.Args, v.m.Streams, v.upload = "panic", "PanicUpload", []any{tag}, []string{"u" + tag}, true
			fail("panic-"+tag, 1)
		}
	case 19:
		v.kind, v.m.Target, v.m.Args, v.logged = "value", "NoArgs", []any{}, false
		one(canon("no-args"))
	}
	if v.m.Target == "Tag" && v.kind == "value" && c.Bool() {
		v.kind, v.m.Target = "alternate", "das.Etikett"
	} else if !strings.HasPrefix(v.m.Target, "é") && v.errSub != v.m.Target {
		v.m.Target = caseMix(c, v.m.Target)
	}
	if id == "" {
		v.kind = "noid"
	}
	return v
}

// judgeInv compares what the peer received for the invocation with the prediction.
func judgeInv(c *Case, who string, v *inv02, got []Msg) {
	c.Count(v.kind, 1)
	what := fmt.Sprintf("%s: %v", who, v.m)
	var items []string
	var comps []Msg
	for _, m := range got {
		switch m.Type {
		case 2:
			if len(comps) > 0 {
				c.Violf("item-after-completion", "%s: item %v after the completion", what, m)
			}
			items = append(items, canon(m.Item))
		case 3:
			comps = append(comps, m)
		}
	}
	c.Ev("answered."+v.kind, "%s: %d items, completions %v", what, len(items), comps)
	if strings.Join(items, "\x00") != strings.Join(v.items, "\x00") {
		c.Violf("items", "%s: items %s, want %s", what, short(fmt.Sprint(items), 600), short(fmt.Sprint(v.items), 600))
	}
	if v.upload && len(comps) == 2 && comps[0].HasErr && strings.Contains(comps[0].Error, v.errSub) && !comps[1].HasErr && !comps[1].HasRes {
		c.Violf("panic-upload-twice", "%s: a panicking method with an upload stream is answered by two completions: %v", what, comps)
		return
	}
	if len(comps) != 1 {
		c.Violf("completions", "%s: %d completions instead of one: %v", what, len(comps), comps)
		return
	}
	m := comps[0]
	switch {
	case v.err:
		if !m.HasErr || m.Error == "" || m.HasRes && m.Result != nil {
			c.Violf("no-error", "%s: answered by %v instead of an error", what, m)
		} else if !strings.Contains(m.Error, v.errSub) {
			c.Violf("wrong-error", "%s: error %q does not name %q", what, m.Error, v.errSub)
		}
	case v.res == "" || v.res == "null":
		if m.HasErr || m.HasRes && m.Result != nil {
			c.Violf("wrong-result", "%s: answered by %v instead of a completion without result", what, m)
		}
	default:
		if m.HasErr || !m.HasRes || canon(m.Result) != v.res {
			c.Violf("wrong-result", "%s: answered by %v, want result %s", what, m, short(v.res, 300))
		}
	}
}

func genID(c *Case, i int) string {
	switch c.Intn(6) {
	case 0:
		return fmt.Sprintf("id-%d \"q\" \\ é\u2028", i)
	case 1:
		return fmt.Sprintf("%d%s", i, strings.Repeat("x", c.Intn(70)))
	}
	return fmt.Sprint(i)
}

func runC02(c *Case) {
	nc := c.Range(1, 3)
	srv, env := c.echoServer(signalr.WithAlternateMethodName("Tag", "das.Etikett"), signalr.EnableDetailedErrors(c.Bool()))
	type conn struct {
		*RawClient
		invs []*inv02
	}
	conns := make([]*conn, nc)
	for i := range conns {
		r := srv.Connect(fmt.Sprintf("c%d", i), c.pickProto(), c.RandCond(50*time.Millisecond), c.RandCond(50*time.Millisecond))
		if r == nil {
			return
		}
		r.KeepAlive(4 * time.Second)
		conns[i] = &conn{RawClient: r}
	}
	n := c.Range(1, 25)
	c.Sample("%d connections, %d invocations each", nc, n)
	for ci, k := range conns {
		for i := 0; i < n; i++ {
			id := genID(c, i)
			if c.Chance(12) {
				id = ""
			}
			k.invs = append(k.invs, genInv(c, fmt.Sprintf("c%dt%d", ci, i), id))
		}
	}
	// send in random batches, alternating between connections
	pos := make([]int, nc)
	for {
		var open []int
		for ci := range conns {
			if pos[ci] < n {
				open = append(open, ci)
			}
		}
		if len(open) == 0 {
			break
		}
		ci := open[c.Intn(len(open))]
		var batch []Msg
		for i := c.Range(1, 4); i > 0 && pos[ci] < n; i-- {
			m := conns[ci].invs[pos[ci]].m
			m.Headers = c.genHeaders()
			batch = append(batch, m)
			pos[ci]++
			if c.Chance(10) {
				batch = append(batch, Msg{Type: 6})
			}
		}
		if err := conns[ci].Send(batch...); err != nil {
			c.Violf("connection-lost", "connection %d: %v", ci, err)
			return
		}
		if c.Chance(20) {
			time.Sleep(c.Dur(0, 50*time.Millisecond))
		}
	}
	done := func() bool {
		for _, k := range conns {
			if e, _ := k.Ended(); e {
				return true
			}
			for _, v := range k.invs {
				if v.m.ID != "" && len(k.Completions(v.m.ID)) == 0 {
					return false
				}
				if v.m.ID == "" && v.logged && len(env.log.get(v.tag)) < v.runs {
					return false
				}
			}
		}
		return true
	}
	c.Until(pick(c, 10*time.Minute), done)
	time.Sleep(6 * time.Second)
	for ci, k := range conns {
		who := fmt.Sprintf("c%d/%s", ci, k.proto.Name())
		if e, at := k.Ended(); e {
			c.Violf("connection-lost", "%s: the server ended the connection at %v: %v", who, at, k.Find(func(m Msg) bool { return m.Type == 7 }))
		}
		for _, b := range k.Bad() {
			if !strings.Contains(b, "second completion") { // judged below
				c.Violf("malformed", "%s: %s", who, b)
			}
		}
		byID := map[string][]Msg{}
		for _, m := range k.Msgs() {
			switch m.Type {
			case 2, 3:
				byID[m.ID] = append(byID[m.ID], m)
			case 6:
			default:
				c.Violf("unexpected", "%s: unexpected message %v", who, m)
			}
		}
		for _, v := range k.invs {
			if v.m.ID != "" {
				judgeInv(c, who, v, byID[v.m.ID])
				delete(byID, v.m.ID)
			} else {
				c.Count("noid", 1)
				c.Ev("executed.noid", "%v", v.m)
			}
			runs := 0
			if v.logged {
				runs = len(env.log.get(v.tag))
				if runs != v.runs {
					c.Violf("executions", "%s: %v executed %d times, want %d", who, v.m, runs, v.runs)
				}
			}
		}
		for id, ms := range byID {
			c.Violf("unknown-id", "%s: messages for id %q, which the peer did not use: %v", who, id, ms)
		}
	}
}
