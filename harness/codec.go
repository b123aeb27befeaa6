package sigverif

// An independent codec for the SignalR hub protocol: JSON and MessagePack encodings.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Msg is a hub protocol message.
type Msg struct {
	Type     int
	ID       string // "" is none
	Target   string
	Args     []any
	Streams  []string
	Headers  map[string]any
	Item     any
	Result   any
	HasRes   bool
	Error    string
	HasErr   bool
	Allow    bool
	HasAllow bool
	At       time.Duration
	Seq      int
	Size     int
}

func (m Msg) String() string {
	switch m.Type {
	case 1, 4:
		return fmt.Sprintf("{%d id=%q %s%s streams=%v}", m.Type, m.ID, m.Target, short(canon(m.Args), 200), m.Streams)
	case 2:
		return fmt.Sprintf("{item id=%q %s}", m.ID, short(canon(m.Item), 200))
	case 3:
		if m.HasErr {
			return fmt.Sprintf("{completion id=%q error=%q}", m.ID, short(m.Error, 200))
		}
		if m.HasRes {
			return fmt.Sprintf("{completion id=%q result=%s}", m.ID, short(canon(m.Result), 200))
		}
		return fmt.Sprintf("{completion id=%q void}", m.ID)
	case 5:
		return fmt.Sprintf("{cancel id=%q}", m.ID)
	case 6:
		return "{ping}"
	case 7:
		return fmt.Sprintf("{close error=%q allowReconnect=%v}", m.Error, m.Allow)
	}
	return fmt.Sprintf("{type %d}", m.Type)
}

// Proto encodes and decodes messages.
type Proto interface {
	Name() string
	Encode(m Msg) []byte
	// Decode takes one message from the front of b; n = 0 if b is incomplete.
	Decode(b []byte) (m Msg, n int, err error)
}

var protos = []Proto{jsonProto{}, msgpackProto{}}

func (c *Case) pickProto() Proto { return protos[c.Intn(2)] }

// ---------- JSON ----------

type jsonProto struct{}

func (jsonProto) Name() string { return "json" }

func (jsonProto) Encode(m Msg) []byte {
	o := map[string]any{"type": m.Type}
	if len(m.Headers) > 0 {
		o["headers"] = m.Headers
	}
	switch m.Type {
	case 1, 4:
		o["target"] = m.Target
		args := m.Args
		if args == nil {
			args = []any{}
		}
		o["arguments"] = args
		if m.ID != "" {
			o["invocationId"] = m.ID
		}
		if len(m.Streams) > 0 {
			o["streamIds"] = m.Streams
		}
	case 2:
		o["invocationId"] = m.ID
		o["item"] = m.Item
	case 3:
		o["invocationId"] = m.ID
		if m.HasErr {
			o["error"] = m.Error
		} else if m.HasRes {
			o["result"] = m.Result
		}
	case 5:
		o["invocationId"] = m.ID
	case 7:
		if m.HasErr {
			o["error"] = m.Error
		}
		if m.HasAllow {
			o["allowReconnect"] = m.Allow
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(fmt.Sprintf("harness: cannot encode %v: %v", m, err))
	}
	return append(b, 0x1e)
}

func jsonMsgFields(t int) map[string]bool {
	f := map[string]bool{"type": true, "headers": true}
	add := func(ks ...string) {
		for _, k := range ks {
			f[k] = true
		}
	}
	switch t {
	case 1, 4:
		add("invocationId", "target", "arguments", "streamIds")
	case 2:
		add("invocationId", "item")
	case 3:
		add("invocationId", "result", "error")
	case 5:
		add("invocationId")
	case 7:
		add("error", "allowReconnect")
	}
	return f
}

func (jsonProto) Decode(b []byte) (Msg, int, error) {
	i := bytes.IndexByte(b, 0x1e)
	if i < 0 {
		return Msg{}, 0, nil
	}
	rec := b[:i]
	dec := json.NewDecoder(bytes.NewReader(rec))
	dec.UseNumber()
	var o map[string]any
	if err := dec.Decode(&o); err != nil {
		return Msg{}, i + 1, fmt.Errorf("not a JSON object: %v: %q", err, short(string(rec), 300))
	}
	if dec.More() {
		return Msg{}, i + 1, fmt.Errorf("trailing data after JSON object: %q", short(string(rec), 300))
	}
	var m Msg
	bad := func(f string, a ...any) (Msg, int, error) {
		return m, i + 1, fmt.Errorf("%s: %q", fmt.Sprintf(f, a...), short(string(rec), 300))
	}
	tn, ok := o["type"].(json.Number)
	if !ok {
		return bad("no type")
	}
	t, err := strconv.Atoi(string(tn))
	if err != nil || t < 1 || t > 7 {
		return bad("invalid type %v", tn)
	}
	m.Type = t
	m.Size = i + 1
	known := jsonMsgFields(t)
	for k := range o {
		if !known[k] {
			return bad("field %q does not belong to message type %d", k, t)
		}
	}
	str := func(k string, dst *string, required bool) bool {
		v, has := o[k]
		if !has {
			return !required
		}
		s, ok := v.(string)
		*dst = s
		return ok
	}
	switch t {
	case 1, 4:
		if !str("invocationId", &m.ID, t == 4) {
			return bad("invalid invocationId")
		}
		if _, has := o["invocationId"]; has && m.ID == "" {
			return bad("empty invocationId")
		}
		if !str("target", &m.Target, true) {
			return bad("invalid target")
		}
		a, ok := o["arguments"].([]any)
		if !ok {
			return bad("invalid arguments")
		}
		m.Args = a
		if v, has := o["streamIds"]; has {
			l, ok := v.([]any)
			if !ok {
				return bad("invalid streamIds")
			}
			for _, e := range l {
				s, ok := e.(string)
				if !ok {
					return bad("invalid streamIds")
				}
				m.Streams = append(m.Streams, s)
			}
		}
	case 2:
		if !str("invocationId", &m.ID, true) || m.ID == "" {
			return bad("invalid invocationId")
		}
		v, has := o["item"]
		if !has {
			return bad("no item")
		}
		m.Item = v
	case 3:
		if !str("invocationId", &m.ID, true) || m.ID == "" {
			return bad("invalid invocationId")
		}
		m.Result, m.HasRes = o["result"]
		if !str("error", &m.Error, false) {
			return bad("invalid error")
		}
		_, m.HasErr = o["error"]
		if m.HasRes && m.HasErr {
			return bad("completion with result and error")
		}
	case 5:
		if !str("invocationId", &m.ID, true) || m.ID == "" {
			return bad("invalid invocationId")
		}
	case 7:
		if !str("error", &m.Error, false) {
			return bad("invalid error")
		}
		m.HasErr = m.Error != ""
		if v, has := o["allowReconnect"]; has {
			m.HasAllow = true
			bv, ok := v.(bool)
			if !ok {
				return bad("invalid allowReconnect")
			}
			m.Allow = bv
		}
	}
	return m, i + 1, nil
}

// ---------- MessagePack ----------

type msgpackProto struct{}

func (msgpackProto) Name() string { return "messagepack" }

func mpFrame(body []byte) []byte {
	l := make([]byte, 5)
	n := binary.PutUvarint(l, uint64(len(body)))
	return append(l[:n:n], body...)
}

// genHeaders makes headers, mostly none. Nobody has to care for their content.
func (c *Case) genHeaders() map[string]any {
	if !c.Chance(12) {
		return nil
	}
	c.Count("headers", 1)
	h := map[string]any{}
	for i := c.Range(1, pick(c, 1, 3, 20)); i > 0; i-- {
		h[pick(c, "x-id", "type", "target", "invocationId", "traceparent", "é", "", "error")+fmt.Sprint(i)] = pick(c, "", "1", "a long value "+strings.Repeat("v", c.Intn(300)), "\x1e", "{}")
	}
	return h
}

func mpList(xs ...any) []byte { return mpEncode(nil, []any(xs)) }

func (msgpackProto) Encode(m Msg) []byte {
	h := map[string]any{}
	if len(m.Headers) > 0 {
		h = m.Headers
	}
	var id any
	if m.ID != "" {
		id = m.ID
	}
	args := m.Args
	if args == nil {
		args = []any{}
	}
	ss := []any{}
	for _, s := range m.Streams {
		ss = append(ss, s)
	}
	switch m.Type {
	case 1, 4:
		if len(ss) == 0 && m.Seq%2 == 1 {
			return mpFrame(mpList(m.Type, h, id, m.Target, args))
		}
		return mpFrame(mpList(m.Type, h, id, m.Target, args, ss))
	case 2:
		return mpFrame(mpList(2, h, m.ID, m.Item))
	case 3:
		if m.HasErr {
			return mpFrame(mpList(3, h, m.ID, 1, m.Error))
		}
		if m.HasRes {
			return mpFrame(mpList(3, h, m.ID, 3, m.Result))
		}
		return mpFrame(mpList(3, h, m.ID, 2))
	case 5:
		return mpFrame(mpList(5, h, m.ID))
	case 6:
		return mpFrame(mpList(6))
	case 7:
		var e any
		if m.HasErr {
			e = m.Error
		}
		if m.HasAllow {
			return mpFrame(mpList(7, e, m.Allow))
		}
		return mpFrame(mpList(7, e))
	}
	return mpFrame(mpList(m.Type, h))
}

func (msgpackProto) Decode(b []byte) (Msg, int, error) {
	l, n := binary.Uvarint(b)
	if n == 0 {
		return Msg{}, 0, nil
	}
	if n < 0 || n > 5 || l > 1<<31 {
		return Msg{}, len(b), fmt.Errorf("invalid frame length prefix % x", b[:min(len(b), 8)])
	}
	if uint64(len(b)-n) < l {
		return Msg{}, 0, nil
	}
	body := b[n : n+int(l)]
	total := n + int(l)
	var m Msg
	bad := func(f string, a ...any) (Msg, int, error) {
		return m, total, fmt.Errorf("%s in frame % x", fmt.Sprintf(f, a...), body[:min(len(body), 100)])
	}
	v, rest, err := mpDecode(body, 0)
	if err != nil {
		return bad("%v", err)
	}
	if len(rest) > 0 {
		return bad("%d trailing bytes", len(rest))
	}
	a, ok := v.([]any)
	if !ok || len(a) == 0 {
		return bad("not an array")
	}
	t, ok := a[0].(int64)
	if !ok || t < 1 || t > 7 {
		return bad("invalid type %v", a[0])
	}
	m.Type = int(t)
	m.Size = total
	lens := map[int64][2]int{1: {5, 6}, 2: {4, 4}, 3: {4, 5}, 4: {5, 6}, 5: {3, 3}, 6: {1, 1}, 7: {2, 3}}[t]
	if len(a) < lens[0] || len(a) > lens[1] {
		return bad("wrong number of elements %d for type %d", len(a), t)
	}
	if t != 6 && t != 7 {
		if _, ok := a[1].(map[string]any); !ok {
			return bad("no headers")
		}
	}
	str := func(x any, dst *string) bool { s, ok := x.(string); *dst = s; return ok && s != "" }
	switch t {
	case 1, 4:
		if a[2] != nil {
			if !str(a[2], &m.ID) {
				return bad("invalid invocationId")
			}
		} else if t == 4 {
			return bad("stream invocation without id")
		}
		if m.Target, ok = a[3].(string); !ok {
			return bad("invalid target")
		}
		if m.Args, ok = a[4].([]any); !ok {
			return bad("invalid arguments")
		}
		if len(a) == 6 {
			ss, ok := a[5].([]any)
			if !ok {
				return bad("invalid stream ids")
			}
			for _, s := range ss {
				var x string
				if !str(s, &x) {
					return bad("invalid stream ids")
				}
				m.Streams = append(m.Streams, x)
			}
		}
	case 2:
		if !str(a[2], &m.ID) {
			return bad("invalid invocationId")
		}
		m.Item = a[3]
	case 3:
		if !str(a[2], &m.ID) {
			return bad("invalid invocationId")
		}
		switch k, _ := a[3].(int64); {
		case k == 1 && len(a) == 5:
			m.HasErr = true
			if m.Error, ok = a[4].(string); !ok {
				return bad("invalid error")
			}
		case k == 2 && len(a) == 4:
		case k == 3 && len(a) == 5:
			m.HasRes, m.Result = true, a[4]
		default:
			return bad("invalid completion")
		}
	case 5:
		if !str(a[2], &m.ID) {
			return bad("invalid invocationId")
		}
	case 7:
		// [7, error, allowReconnect?] by the specification; this library writes headers as well
		a := a
		if len(a) > 1 {
			if _, isMap := a[1].(map[string]any); isMap {
				a = append([]any{a[0]}, a[2:]...)
			}
		}
		if len(a) > 1 && a[1] != nil {
			if m.Error, ok = a[1].(string); !ok {
				return bad("invalid close error")
			}
		}
		m.HasErr = m.Error != ""
		if len(a) > 2 {
			m.HasAllow = true
			if m.Allow, ok = a[2].(bool); !ok {
				return bad("invalid allowReconnect")
			}
		} else {
			// 3 elements with headers: no room for allowReconnect
			m.HasAllow = false
		}
	}
	return m, total, nil
}

type mpRaw []byte     // already encoded
type mpPairs [][2]any // map with arbitrary keys
type mpExt struct {
	t int8
	d []byte
}

func mpEncode(b []byte, v any) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case mpRaw:
		return append(b, x...)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int:
		return mpInt(b, int64(x))
	case int8:
		return mpInt(b, int64(x))
	case int16:
		return mpInt(b, int64(x))
	case int32:
		return mpInt(b, int64(x))
	case int64:
		return mpInt(b, x)
	case uint8:
		return mpInt(b, int64(x))
	case uint16:
		return mpInt(b, int64(x))
	case uint32:
		return mpInt(b, int64(x))
	case uint64:
		if x <= math.MaxInt64 {
			return mpInt(b, int64(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcf), x)
	case float32:
		return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(x))
	case float64:
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(x))
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return mpInt(b, i)
		}
		f, _ := x.Float64()
		return mpEncode(b, f)
	case string:
		n := len(x)
		switch {
		case n < 32:
			b = append(b, 0xa0|byte(n))
		case n < 256:
			b = append(b, 0xd9, byte(n))
		case n < 65536:
			b = append(b, 0xda, byte(n>>8), byte(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdb), uint32(n))
		}
		return append(b, x...)
	case []byte:
		n := len(x)
		switch {
		case n < 256:
			b = append(b, 0xc4, byte(n))
		case n < 65536:
			b = append(b, 0xc5, byte(n>>8), byte(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xc6), uint32(n))
		}
		return append(b, x...)
	case []any:
		b = mpArr(b, len(x))
		for _, e := range x {
			b = mpEncode(b, e)
		}
		return b
	case []string:
		b = mpArr(b, len(x))
		for _, e := range x {
			b = mpEncode(b, e)
		}
		return b
	case []int:
		b = mpArr(b, len(x))
		for _, e := range x {
			b = mpEncode(b, e)
		}
		return b
	case map[string]any:
		b = mpMap(b, len(x))
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b = mpEncode(mpEncode(b, k), x[k])
		}
		return b
	case mpPairs:
		b = mpMap(b, len(x))
		for _, p := range x {
			b = mpEncode(mpEncode(b, p[0]), p[1])
		}
		return b
	case mpExt:
		b = append(b, 0xc7, byte(len(x.d)), byte(x.t))
		return append(b, x.d...)
	}
	panic(fmt.Sprintf("harness: cannot msgpack %T", v))
}

func mpArr(b []byte, n int) []byte {
	switch {
	case n < 16:
		return append(b, 0x90|byte(n))
	case n < 65536:
		return append(b, 0xdc, byte(n>>8), byte(n))
	}
	return binary.BigEndian.AppendUint32(append(b, 0xdd), uint32(n))
}
func mpMap(b []byte, n int) []byte {
	switch {
	case n < 16:
		return append(b, 0x80|byte(n))
	case n < 65536:
		return append(b, 0xde, byte(n>>8), byte(n))
	}
	return binary.BigEndian.AppendUint32(append(b, 0xdf), uint32(n))
}
func mpInt(b []byte, x int64) []byte {
	switch {
	case x >= 0 && x < 128:
		return append(b, byte(x))
	case x < 0 && x >= -32:
		return append(b, byte(x))
	case x >= 0 && x < 256:
		return append(b, 0xcc, byte(x))
	case x >= 0 && x < 65536:
		return append(b, 0xcd, byte(x>>8), byte(x))
	case x >= 0 && x < 1<<32:
		return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(x))
	case x >= 0:
		return binary.BigEndian.AppendUint64(append(b, 0xcf), uint64(x))
	case x >= -128:
		return append(b, 0xd0, byte(x))
	case x >= -32768:
		return append(b, 0xd1, byte(x>>8), byte(x))
	case x >= math.MinInt32:
		return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(x))
	}
	return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(x))
}

var errShort = errors.New("truncated")

func mpDecode(b []byte, depth int) (any, []byte, error) {
	if depth > 200 {
		return nil, b, errors.New("too deep")
	}
	if len(b) == 0 {
		return nil, b, errShort
	}
	t := b[0]
	b = b[1:]
	take := func(n int) ([]byte, bool) {
		if n < 0 || len(b) < n {
			return nil, false
		}
		r := b[:n]
		b = b[n:]
		return r, true
	}
	num := func(n int) (uint64, bool) {
		r, ok := take(n)
		if !ok {
			return 0, false
		}
		var u uint64
		for _, x := range r {
			u = u<<8 | uint64(x)
		}
		return u, true
	}
	arr := func(n int) (any, []byte, error) {
		res := []any{}
		for i := 0; i < n; i++ {
			v, rest, err := mpDecode(b, depth+1)
			if err != nil {
				return nil, b, err
			}
			b = rest
			res = append(res, v)
		}
		return res, b, nil
	}
	mp := func(n int) (any, []byte, error) {
		res := map[string]any{}
		for i := 0; i < n; i++ {
			k, rest, err := mpDecode(b, depth+1)
			if err != nil {
				return nil, b, err
			}
			v, rest, err := mpDecode(rest, depth+1)
			if err != nil {
				return nil, b, err
			}
			b = rest
			if ks, ok := k.(string); ok {
				res[ks] = v
			} else {
				res[canon(k)] = v
			}
		}
		return res, b, nil
	}
	s := func(n int, ok bool, bin bool) (any, []byte, error) {
		if !ok {
			return nil, b, errShort
		}
		r, ok := take(n)
		if !ok {
			return nil, b, errShort
		}
		if bin {
			return append([]byte{}, r...), b, nil
		}
		return string(r), b, nil
	}
	switch {
	case t < 0x80:
		return int64(t), b, nil
	case t < 0x90:
		return mp(int(t & 15))
	case t < 0xa0:
		return arr(int(t & 15))
	case t < 0xc0:
		return s(int(t&31), true, false)
	case t >= 0xe0:
		return int64(int8(t)), b, nil
	}
	var u uint64
	var ok bool
	switch t {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4, 0xc5, 0xc6:
		u, ok = num(1 << (t - 0xc4))
		return s(int(u), ok, true)
	case 0xd9, 0xda, 0xdb:
		u, ok = num(1 << (t - 0xd9))
		return s(int(u), ok, false)
	case 0xca:
		if u, ok = num(4); ok {
			return float64(math.Float32frombits(uint32(u))), b, nil
		}
	case 0xcb:
		if u, ok = num(8); ok {
			return math.Float64frombits(u), b, nil
		}
	case 0xcc, 0xcd, 0xce, 0xcf:
		if u, ok = num(1 << (t - 0xcc)); ok {
			if u > math.MaxInt64 {
				return u, b, nil
			}
			return int64(u), b, nil
		}
	case 0xd0:
		if u, ok = num(1); ok {
			return int64(int8(u)), b, nil
		}
	case 0xd1:
		if u, ok = num(2); ok {
			return int64(int16(u)), b, nil
		}
	case 0xd2:
		if u, ok = num(4); ok {
			return int64(int32(u)), b, nil
		}
	case 0xd3:
		if u, ok = num(8); ok {
			return int64(u), b, nil
		}
	case 0xdc, 0xdd:
		if u, ok = num(2 << (t - 0xdc)); ok && u <= uint64(len(b)) {
			return arr(int(u))
		}
	case 0xde, 0xdf:
		if u, ok = num(2 << (t - 0xde)); ok && u <= uint64(len(b)) {
			return mp(int(u))
		}
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		n := 1 << (t - 0xd4)
		if r, ok := take(n + 1); ok {
			return mpExt{int8(r[0]), r[1:]}, b, nil
		}
	case 0xc7, 0xc8, 0xc9:
		if u, ok = num(1 << (t - 0xc7)); ok {
			if r, ok := take(int(u) + 1); ok {
				return mpExt{int8(r[0]), r[1:]}, b, nil
			}
		}
	default:
		return nil, b, fmt.Errorf("invalid byte %#x", t)
	}
	return nil, b, errShort
}

// canon is a canonical text of a value: equal texts mean equal values, independent of the
// number types and container types used to hold them.
func canon(v any) string {
	var sb strings.Builder
	canonTo(&sb, v, false)
	return sb.String()
}

// canonKind also distinguishes integers from floats and texts from bytes.
func canonKind(v any) string {
	var sb strings.Builder
	canonTo(&sb, v, true)
	return sb.String()
}

func canonFloat(sb *strings.Builder, f float64, kind bool) {
	if kind {
		sb.WriteString("f")
	}
	switch {
	case f == 0 && math.Signbit(f):
		sb.WriteString("-0")
	case f == math.Trunc(f) && math.Abs(f) < 1e18:
		fmt.Fprintf(sb, "%d", int64(f))
	default:
		sb.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
	}
}

func canonTo(sb *strings.Builder, v any, kind bool) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint, uint64:
		fmt.Fprintf(sb, "%d", x)
	case float32:
		canonFloat(sb, float64(x), kind)
	case float64:
		canonFloat(sb, x, kind)
	case json.Number:
		if x == "-0" {
			canonFloat(sb, math.Copysign(0, -1), kind)
		} else if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			fmt.Fprintf(sb, "%d", i)
		} else if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			fmt.Fprintf(sb, "%d", u)
		} else {
			f, _ := x.Float64()
			canonFloat(sb, f, kind)
		}
	case string:
		sb.WriteString(strconv.Quote(x))
	case []byte:
		if kind {
			sb.WriteString("b")
		}
		sb.WriteString(strconv.Quote(base64.StdEncoding.EncodeToString(x)))
	case []any:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			canonTo(sb, e, kind)
		}
		sb.WriteByte(']')
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		// the same order as for map[any]any
		sort.Slice(ks, func(i, j int) bool { return strconv.Quote(ks[i]) < strconv.Quote(ks[j]) })
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			canonTo(sb, x[k], kind)
		}
		sb.WriteByte('}')
	case map[any]any:
		ks := make([]string, 0, len(x))
		vs := map[string]any{}
		for k, e := range x {
			q := canon(k)
			ks = append(ks, q)
			vs[q] = e
		}
		sort.Strings(ks)
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(k)
			sb.WriteByte(':')
			canonTo(sb, vs[k], kind)
		}
		sb.WriteByte('}')
	default:
		// Go values (structs, typed slices and maps): through JSON
		b, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintf(sb, "%#v", v)
			return
		}
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		var y any
		if err := dec.Decode(&y); err != nil {
			fmt.Fprintf(sb, "%#v", v)
			return
		}
		canonTo(sb, y, kind)
	}
}
