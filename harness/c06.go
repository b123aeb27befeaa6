package sigverif

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

func init() {
	register(&Prop{ID: "C06", Quick: 16000, Thorough: 1500000, Run: runC06,
		Rule: "A case is a library client and server, or a raw peer and a library server, and 4..24 values of 26 types (all integer sizes with their boundary values, floats with extremes, text with control characters and every plane of Unicode, byte slices, nested slices, maps, structs with tags, pointers, times, anything), sent as argument, result, stream item, upload item and as server send to a typed receiver, plus values which do not fit the parameter (out of range, negative, fractional, wrong kind) in every position including nested ones, and foreign encodings of the same value.",
		Need: []string{"lib-client", "raw-client", "typed.arg", "typed.recv", "generic.result", "stream.item", "upload.item", "misfit", "foreign"}})
}

type inner06 struct {
	A int      `json:"a"`
	S []string `json:"s"`
}
type emb06 struct {
	Base string `json:"base"`
}
type struct06 struct {
	I8     int8             `json:"i8"`
	U64    uint64           `json:"u64"`
	Text   string           `json:"some-text"`
	F      float64          `json:"f"`
	Bytes  []byte           `json:"bytes"`
	In     inner06          `json:"in"`
	Ptr    *inner06         `json:"ptr"`
	List   []inner06        `json:"list"`
	Map    map[string]int32 `json:"map"`
	Opt    string           `json:"opt,omitempty"`
	Hidden int              `json:"-"`
	Plain  bool
}

// vals06 has methods for values of many types.
type vals06 struct {
	log *callLog
	c   *Case
}

func (h vals06) l(tag string, v any) {
	h.log.add(tag, v)
	h.c.Ev(fmt.Sprintf("val.%T", v), "%s %s", tag, short(canon(v), 60))
}
func (h vals06) Int(tag string, x int) int                                  { h.l(tag, x); return x }
func (h vals06) Int8(tag string, x int8) int8                               { h.l(tag, x); return x }
func (h vals06) Int16(tag string, x int16) int16                            { h.l(tag, x); return x }
func (h vals06) Int32(tag string, x int32) int32                            { h.l(tag, x); return x }
func (h vals06) Int64(tag string, x int64) int64                            { h.l(tag, x); return x }
func (h vals06) Uint(tag string, x uint) uint                               { h.l(tag, x); return x }
func (h vals06) Uint8(tag string, x uint8) uint8                            { h.l(tag, x); return x }
func (h vals06) Uint16(tag string, x uint16) uint16                         { h.l(tag, x); return x }
func (h vals06) Uint32(tag string, x uint32) uint32                         { h.l(tag, x); return x }
func (h vals06) Uint64(tag string, x uint64) uint64                         { h.l(tag, x); return x }
func (h vals06) Float32(tag string, x float32) float32                      { h.l(tag, x); return x }
func (h vals06) Float64(tag string, x float64) float64                      { h.l(tag, x); return x }
func (h vals06) Bool(tag string, x bool) bool                               { h.l(tag, x); return x }
func (h vals06) Text(tag string, x string) string                           { h.l(tag, x); return x }
func (h vals06) Bytes(tag string, x []byte) []byte                          { h.l(tag, x); return x }
func (h vals06) Ints(tag string, x []int) []int                             { h.l(tag, x); return x }
func (h vals06) Int16s(tag string, x []int16) []int16                       { h.l(tag, x); return x }
func (h vals06) Texts(tag string, x []string) []string                      { h.l(tag, x); return x }
func (h vals06) Grid(tag string, x [][]int64) [][]int64                     { h.l(tag, x); return x }
func (h vals06) Map(tag string, x map[string]int) map[string]int            { h.l(tag, x); return x }
func (h vals06) Maps(tag string, x map[string][]string) map[string][]string { h.l(tag, x); return x }
func (h vals06) Struct(tag string, x struct06) struct06                     { h.l(tag, x); return x }
func (h vals06) Structs(tag string, x []inner06) []inner06                  { h.l(tag, x); return x }
func (h vals06) PInt(tag string, x *int) *int                               { h.l(tag, x); return x }
func (h vals06) Any(tag string, x interface{}) interface{}                  { h.l(tag, x); return x }
func (h vals06) Time(tag string, x time.Time)                               { h.l(tag, x.UnixNano()) }
func (h vals06) Emb(tag string, x emb06) emb06                              { h.l(tag, x); return x }

// Hub06 serves vals06.
type Hub06 struct {
	signalr.Hub
	vals06
}

func up06[T any](h *Hub06, tag string, in <-chan T) {
	r := []any{}
	for x := range in {
		r = append(r, x)
	}
	h.l(tag, r)
}
func down06[T any](xs []T) <-chan T {
	ch := make(chan T, len(xs))
	for _, x := range xs {
		ch <- x
	}
	close(ch)
	return ch
}
func (h *Hub06) UpInt64(tag string, in <-chan int64)         { up06(h, tag, in) }
func (h *Hub06) UpUint8(tag string, in <-chan uint8)         { up06(h, tag, in) }
func (h *Hub06) UpFloat64(tag string, in <-chan float64)     { up06(h, tag, in) }
func (h *Hub06) UpText(tag string, in <-chan string)         { up06(h, tag, in) }
func (h *Hub06) UpBytes(tag string, in <-chan []byte)        { up06(h, tag, in) }
func (h *Hub06) UpStruct(tag string, in <-chan struct06)     { up06(h, tag, in) }
func (h *Hub06) UpAny(tag string, in <-chan interface{})     { up06(h, tag, in) }
func (h *Hub06) DownInt64(xs []int64) <-chan int64           { return down06(xs) }
func (h *Hub06) DownUint64(xs []uint64) <-chan uint64        { return down06(xs) }
func (h *Hub06) DownFloat64(xs []float64) <-chan float64     { return down06(xs) }
func (h *Hub06) DownText(xs []string) <-chan string          { return down06(xs) }
func (h *Hub06) DownBytes(xs [][]byte) <-chan []byte         { return down06(xs) }
func (h *Hub06) DownStruct(xs []struct06) <-chan struct06    { return down06(xs) }
func (h *Hub06) DownAny(xs []interface{}) <-chan interface{} { return down06(xs) }

func (c *Case) i64(bits int) int64 {
	max := int64(uint64(1)<<(bits-1) - 1)
	switch c.Intn(5) {
	case 0:
		return max
	case 1:
		return -max - 1
	case 2:
		return int64(c.Range(-3, 3))
	case 3:
		// around every power of two
		x := int64(1)<<c.Intn(bits-1) + int64(c.Range(-1, 1))
		if x > max {
			x = max
		}
		if c.Bool() {
			x = -x
		}
		return x
	}
	return int64(c.U64()) >> (64 - bits)
}

func (c *Case) u64(bits int) uint64 {
	max := ^uint64(0) >> (64 - bits)
	switch c.Intn(4) {
	case 0:
		return max - uint64(c.Intn(2))
	case 1:
		return uint64(c.Intn(3))
	case 2:
		return (uint64(1)<<c.Intn(bits) + uint64(c.Intn(2))) & max
	}
	return c.U64() & max
}

func (c *Case) f64() float64 {
	switch c.Intn(6) {
	case 0:
		return pick(c, 0, math.Copysign(0, -1), 1, -1, 0.1, -0.5, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e300, 1e-300, 1e21, 1e-7, 123456789.125)
	case 1:
		return float64(c.i64(50))
	case 2:
		return float64(c.i64(32)) / 1024
	}
	for {
		f := math.Float64frombits(c.U64())
		// large integers have several JSON forms
		if !math.IsNaN(f) && !math.IsInf(f, 0) && (math.Abs(f) < 9e15 || math.Abs(f) > 1e22) {
			return f
		}
	}
}

var text06 = []string{"", "a", "\x00", "\x1e", "a\x1eb\x1e\x1e", "\n\r\t\b\f", "\"\\/", "<script>&amp;</script>", "\u2028\u2029", "é", "世界", "😀🏳️‍🌈", "\ufeffbom", "\ufffd", "\U0010ffff", "\u007f\u0080", "{\"type\":6}\x1e", "null", "\u200f\u202e", "ÿ"}

func (c *Case) text() string {
	switch c.Intn(5) {
	case 0, 1:
		return pick(c, text06...)
	case 2:
		// lengths at the borders of the MessagePack formats
		return strings.Repeat(pick(c, "x", "ß"), pick(c, 15, 16, 31, 32, 31, 32, 127, 128, 255, 256))
	case 3:
		s := ""
		for i := c.Intn(6); i > 0; i-- {
			s += pick(c, text06...)
		}
		return s
	}
	var rs []rune
	for i := c.Intn(12); i > 0; i-- {
		r := rune(c.Intn(0x110000))
		if r >= 0xd800 && r < 0xe000 {
			r = 'x'
		}
		rs = append(rs, r)
	}
	return string(rs)
}

func (c *Case) bytes() []byte {
	if c.Chance(3) {
		return c.bytesN(pick(c, 255, 256, 257, 3000, 65535, 65536, 66000))
	}
	return c.bytesN(pick(c, 0, 1, 2, c.Intn(40)))
}

func (c *Case) bytesN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Intn(256))
	}
	return b
}

func list[T any](c *Case, f func() T) []T {
	n := pick(c, 0, 1, 2, c.Intn(4), c.Intn(4))
	if c.Chance(5) {
		n = pick(c, 15, 16, 17, 20)
	}
	xs := make([]T, n)
	for i := range xs {
		xs[i] = f()
	}
	return xs
}

func (c *Case) inner() inner06 { return inner06{int(c.i64(64)), list(c, c.text)} }
func (c *Case) struct06() struct06 {
	s := struct06{I8: int8(c.i64(8)), U64: c.u64(64), Text: c.text(), F: c.f64(), Bytes: c.bytes(), In: c.inner(), Plain: c.Bool()}
	if c.Bool() {
		p := c.inner()
		s.Ptr = &p
	}
	if c.Bool() {
		s.List = []inner06{c.inner(), {}}
	}
	if c.Bool() {
		s.Map = map[string]int32{c.text(): int32(c.i64(32)), "": 1}
	}
	if c.Bool() {
		s.Opt = c.text()
	}
	return s
}

func (c *Case) any06(depth int) any {
	switch c.Intn(10) {
	case 0:
		return nil
	case 1:
		return c.Bool()
	case 2:
		return c.f64()
	case 3:
		return float64(c.i64(50))
	case 4, 5:
		if depth > 0 {
			a := []any{}
			for i := c.Intn(4); i > 0; i-- {
				a = append(a, c.any06(depth-1))
			}
			return a
		}
	case 6, 7:
		if depth > 0 {
			m := map[string]any{}
			for i := c.Intn(4); i > 0; i-- {
				m[c.text()] = c.any06(depth - 1)
			}
			return m
		}
	}
	return c.text()
}

// value06 makes a value for one of the methods.
func (c *Case) value06() (method string, v any) {
	switch c.Intn(27) {
	case 0:
		return "Int", int(c.i64(64))
	case 1:
		return "Int8", int8(c.i64(8))
	case 2:
		return "Int16", int16(c.i64(16))
	case 3:
		return "Int32", int32(c.i64(32))
	case 4:
		return "Int64", c.i64(64)
	case 5:
		return "Uint", uint(c.u64(64))
	case 6:
		return "Uint8", uint8(c.u64(8))
	case 7:
		return "Uint16", uint16(c.u64(16))
	case 8:
		return "Uint32", uint32(c.u64(32))
	case 9:
		return "Uint64", c.u64(64)
	case 10:
		return "Float32", pick(c, float32(0), float32(1.5), float32(c.i64(20))/16, float32(math.MaxFloat32), float32(-3.25e-20))
	case 11:
		return "Float64", c.f64()
	case 12:
		return "Bool", c.Bool()
	case 13:
		return "Bytes", c.bytes()
	case 14:
		return "Ints", list(c, func() int { return int(c.i64(64)) })
	case 15:
		return "Texts", list(c, c.text)
	case 16:
		return "Grid", list(c, func() []int64 { return list(c, func() int64 { return c.i64(64) }) })
	case 17:
		m := map[string]int{}
		for i := c.Intn(20); i > 0; i-- {
			m[c.text()] = int(c.i64(64))
		}
		return "Map", m
	case 18:
		m := map[string][]string{}
		for i := c.Intn(4); i > 0; i-- {
			m[c.text()] = list(c, c.text)
		}
		return "Maps", m
	case 19, 20:
		return "Struct", c.struct06()
	case 21:
		return "Structs", list(c, c.inner)
	case 22:
		if c.Bool() {
			return "PInt", (*int)(nil)
		}
		x := int(c.i64(64))
		return "PInt", &x
	case 23:
		return "Any", c.any06(3)
	case 24:
		return "Time", time.Unix(c.i64(34), int64(c.Intn(1e9))).UTC()
	case 25:
		return "Int16s", list(c, func() int16 { return int16(c.i64(16)) })
	case 26:
		return "Emb", emb06{c.text()}
	}
	return "Text", c.text()
}

// typed is the canonical text of the logged value.
func typed06(v any) string {
	if t, ok := v.(time.Time); ok {
		return canon([]any{t.UnixNano()})
	}
	return canon([]any{v})
}

// generic is the canonical text of a value which arrives where no type is declared.
func generic06(p Proto, v any) string {
	if p.Name() == "json" {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		var x any
		if err := json.Unmarshal(b, &x); err != nil {
			panic(err)
		}
		return canon(x)
	}
	return canonKind(plain06(v))
}

// got06 is the canonical text of a value which arrived where no type is declared.
func got06(p Proto, v any) string {
	if p.Name() == "json" {
		return canon(v)
	}
	return canonKind(v)
}

// misfit06 is a method and a value that does not fit its parameter.
func (c *Case) misfit06(proto Proto) (method string, v any) {
	big := func(bits int) any { // does not fit a signed integer of that size
		if bits == 64 {
			return uint64(1)<<63 + uint64(c.Intn(3))
		}
		m := int64(1) << (bits - 1)
		return pick(c, m, m+int64(c.Intn(100)), -m-1, -m-1-int64(c.Intn(100)), int64(1)<<(bits), math.MaxInt64, math.MinInt64)
	}
	ubig := func(bits int) any {
		if bits == 64 {
			return int64(-1 - c.Intn(1000))
		}
		m := int64(1) << bits
		return pick[any](c, m, m+int64(c.Intn(100)), int64(-1), int64(-1-c.Intn(1000)), uint64(math.MaxUint64), int64(math.MinInt64))
	}
	switch c.Intn(20) {
	case 0:
		return "Int8", big(8)
	case 1:
		return "Int16", big(16)
	case 2:
		return "Int32", big(32)
	case 3:
		return pick(c, "Int64", "Int"), big(64)
	case 4:
		return "Uint8", ubig(8)
	case 5:
		return "Uint16", ubig(16)
	case 6:
		return "Uint32", ubig(32)
	case 7:
		return pick(c, "Uint64", "Uint"), ubig(64)
	case 8:
		return pick(c, "Int", "Int8", "Uint", "Int64", "Uint16"), pick[any](c, 1.5, -0.5, 1e300, "1", "x", true, []any{1}, map[string]any{"a": 1})
	case 9:
		return pick(c, "Float64", "Float32"), pick[any](c, "1.5", true, []any{}, map[string]any{})
	case 10:
		return "Bool", pick[any](c, 1, 0, "true", "", []any{}, 1.0)
	case 11:
		return "Text", pick[any](c, 1, 1.5, true, []any{"a"}, map[string]any{"a": "b"})
	case 12:
		return "Ints", pick[any](c, 1, "a", []any{1, "a"}, []any{1.5}, []any{[]any{1}}, map[string]any{"a": 1}, []any{1, 2, uint64(1) << 63})
	case 13:
		return "Texts", pick[any](c, "a", []any{"a", 1}, []any{[]any{"a"}}, 5)
	case 14:
		return "Map", pick[any](c, []any{1}, map[string]any{"a": "b"}, map[string]any{"a": 1, "b": 1.5}, "x", map[string]any{"k": uint64(1)<<63 + 5})
	case 15:
		return "Struct", pick[any](c, map[string]any{"i8": 128}, map[string]any{"i8": -129}, map[string]any{"u64": -1}, map[string]any{"some-text": 5}, 7, "x", map[string]any{"in": map[string]any{"a": "x"}}, map[string]any{"in": map[string]any{"a": uint64(1) << 63}},
			map[string]any{"list": []any{map[string]any{"a": 1.5}}}, map[string]any{"map": map[string]any{"x": int64(1) << 31}}, map[string]any{"ptr": map[string]any{"a": uint64(math.MaxUint64)}})
	case 16:
		return "Int16s", pick[any](c, []any{1, 2, 32768}, []any{-32769}, []any{int64(1) << 40})
	case 17:
		return "Grid", pick[any](c, []any{[]any{1}, []any{"x"}}, []any{[]any{uint64(1) << 63}}, []any{1})
	case 18:
		return "Structs", pick[any](c, []any{map[string]any{"a": 1}, map[string]any{"a": uint64(1) << 63}}, []any{map[string]any{"s": []any{1}}})
	default:
		return "PInt", pick[any](c, uint64(1)<<63, "x", 1.5, []any{})
	}
}

// foreign06 encodes v in a form which this library does not use itself but other implementations may.
func (c *Case) foreign06(proto Proto, v any) any {
	if proto.Name() != "messagepack" {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		var sb strings.Builder
		str, esc, hex := false, false, 0
		for _, r := range string(b) {
			switch {
			case hex > 0:
				hex--
				sb.WriteRune(r)
			case esc:
				esc = false
				if r == 'u' {
					hex = 4
				}
				sb.WriteRune(r)
			case str && r == '\\':
				esc = true
				sb.WriteRune(r)
			case r == '"':
				str = !str
				sb.WriteRune(r)
			case !str && strings.ContainsRune("[]{},:", r):
				if c.Chance(30) {
					sb.WriteString(pick(c, " ", "\n", "\t", "  "))
				}
				sb.WriteRune(r)
				if c.Chance(30) {
					sb.WriteString(pick(c, " ", "\r\n", "\t"))
				}
			case str && r < 0x10000 && c.Chance(20):
				fmt.Fprintf(&sb, "\\u%04X", r)
			default:
				sb.WriteRune(r)
			}
		}
		return json.RawMessage(sb.String())
	}
	return mpRaw(c.wide(nil, v))
}

// wide encodes with any format that can hold the value.
func (c *Case) wide(b []byte, v any) []byte {
	be := func(code byte, x uint64, n int) {
		b = append(b, code)
		for i := n - 1; i >= 0; i-- {
			b = append(b, byte(x>>(8*i)))
		}
	}
	rv := reflect.ValueOf(v)
	switch {
	case v == nil:
		return append(b, 0xc0)
	case rv.CanInt() || rv.CanUint():
		var x int64
		if rv.CanInt() {
			x = rv.Int()
		} else if u := rv.Uint(); u > math.MaxInt64 {
			be(0xcf, u, 8)
			return b
		} else {
			x = int64(u)
		}
		for {
			switch c.Intn(9) {
			case 0:
				if x >= -32 && x < 128 {
					return append(b, byte(x))
				}
			case 1:
				if x >= -128 && x < 128 {
					be(0xd0, uint64(x), 1)
					return b
				}
			case 2:
				if x >= math.MinInt16 && x <= math.MaxInt16 {
					be(0xd1, uint64(x), 2)
					return b
				}
			case 3:
				if x >= math.MinInt32 && x <= math.MaxInt32 {
					be(0xd2, uint64(x), 4)
					return b
				}
			case 4:
				be(0xd3, uint64(x), 8)
				return b
			case 5:
				if x >= 0 && x < 256 {
					be(0xcc, uint64(x), 1)
					return b
				}
			case 6:
				if x >= 0 && x < 65536 {
					be(0xcd, uint64(x), 2)
					return b
				}
			case 7:
				if x >= 0 && x <= math.MaxUint32 {
					be(0xce, uint64(x), 4)
					return b
				}
			case 8:
				if x >= 0 {
					be(0xcf, uint64(x), 8)
					return b
				}
			}
		}
	}
	switch x := v.(type) {
	case string:
		n := len(x)
		switch k := c.Intn(3); {
		case k == 0 && n < 256:
			be(0xd9, uint64(n), 1)
		case k <= 1 && n < 65536:
			be(0xda, uint64(n), 2)
		default:
			be(0xdb, uint64(n), 4)
		}
		return append(b, x...)
	case []byte:
		if n := len(x); c.Bool() && n < 65536 {
			be(0xc5, uint64(n), 2)
		} else {
			be(0xc6, uint64(n), 4)
		}
		return append(b, x...)
	case float64:
		if float64(float32(x)) == x && c.Bool() {
			be(0xca, uint64(math.Float32bits(float32(x))), 4)
			return b
		}
		if x == math.Trunc(x) && math.Abs(x) < 1e15 && !(x == 0 && math.Signbit(x)) && c.Bool() {
			return c.wide(b, int64(x))
		}
		be(0xcb, math.Float64bits(x), 8)
		return b
	}
	switch rv.Kind() {
	case reflect.Slice:
		if c.Bool() {
			be(0xdc, uint64(rv.Len()), 2)
		} else {
			be(0xdd, uint64(rv.Len()), 4)
		}
		for i := 0; i < rv.Len(); i++ {
			b = c.wide(b, rv.Index(i).Interface())
		}
		return b
	case reflect.Map:
		if c.Bool() {
			be(0xde, uint64(rv.Len()), 2)
		} else {
			be(0xdf, uint64(rv.Len()), 4)
		}
		for _, k := range rv.MapKeys() {
			b = c.wide(b, k.Interface())
			b = c.wide(b, rv.MapIndex(k).Interface())
		}
		return b
	}
	return mpEncode(b, v)
}

// plain06 turns typed values into what the harness' encoders know.
func plain06(v any) any {
	rv := reflect.ValueOf(v)
	switch x := v.(type) {
	case nil, bool, string, []byte, float64, int64, uint64:
		return v
	case float32:
		return float64(x)
	case inner06:
		return map[string]any{"a": x.A, "s": plain06(x.S)}
	case emb06:
		return map[string]any{"base": x.Base}
	case struct06:
		m := map[string]any{"i8": x.I8, "u64": x.U64, "some-text": x.Text, "f": x.F, "bytes": x.Bytes, "in": plain06(x.In), "ptr": nil, "list": plain06(x.List), "map": plain06(x.Map), "Plain": x.Plain}
		if x.Ptr != nil {
			m["ptr"] = plain06(*x.Ptr)
		}
		if x.Opt != "" {
			m["opt"] = x.Opt
		}
		return m
	case *int:
		if x == nil {
			return nil
		}
		return *x
	}
	if rv.CanInt() {
		return rv.Int()
	}
	if rv.CanUint() {
		return rv.Uint()
	}
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() {
			return nil
		}
		r := []any{}
		for i := 0; i < rv.Len(); i++ {
			r = append(r, plain06(rv.Index(i).Interface()))
		}
		return r
	case reflect.Map:
		if rv.IsNil() {
			return nil
		}
		r := map[string]any{}
		for _, k := range rv.MapKeys() {
			r[k.String()] = plain06(rv.MapIndex(k).Interface())
		}
		return r
	}
	return v
}

func runC06(c *Case) {
	proto := c.pickProto()
	env := newCallLog()
	srv := c.Server(signalr.HubFactory(func() signalr.HubInterface { return &Hub06{vals06: vals06{env, c}} }),
		signalr.MaximumReceiveMessageSize(1<<22), signalr.TimeoutInterval(2*time.Hour))
	big := signalr.MaximumReceiveMessageSize(1 << 22)
	n := c.Range(4, 24)
	if c.Chance(45) {
		runC06raw(c, proto, srv, env, n)
		return
	}
	c.Count("lib-client", 1)
	c.Sample("%s, lib client, %d values", proto.Name(), n)
	recv := &vals06{newCallLog(), c}
	mine, theirs := c.Pair("c", c.RandCond(0), c.RandCond(0))
	srv.Serve(theirs)
	cl := c.Client(proto, signalr.WithConnection(c.lib(mine)), signalr.WithReceiver(recv), big, signalr.TimeoutInterval(2*time.Hour))
	cl.C.Start()
	if !cl.AwaitState(signalr.ClientConnected, 0) {
		c.Violf("no-connect", "client never connected: %v", cl.C.Err())
		return
	}
	// the server may answer the handshake before it knows the connection for sends
	if o := c.Collect(cl.C.Invoke("Bool", "warm", true)); !c.Until(0, o.Closed) {
		c.Violf("stuck", "the first call got no answer")
		return
	}
	type check struct {
		what, tag, log string // tag and typed text on the server
		recv           string // typed text at the receiver
		want           []string
		void, misfit   bool
		o              *Outcomes
	}
	var checks []*check
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("t%d", i)
		k := &check{tag: tag}
		switch c.Intn(8) {
		default:
			m, v := c.value06()
			k.what = fmt.Sprintf("%s(%s)", m, short(fmt.Sprintf("%#v", v), 200))
			k.log = typed06(v)
			k.o = c.Collect(cl.C.Invoke(m, tag, v))
			g := generic06(proto, v)
			k.void = m == "Time" || g == "null"
			k.want = []string{g}
			c.Count("typed.arg", 1)
			if !k.void {
				c.Count("generic.result", 1)
			}
		case 0, 1:
			m, v := c.value06()
			k.what = fmt.Sprintf("send of %s(%s) to the client", m, short(fmt.Sprintf("%#v", v), 200))
			k.recv = typed06(v)
			c.Within(0, func() { srv.S.HubClients().All().Send(m, tag, v) })
			c.Count("typed.recv", 1)
		case 2:
			m, v := c.misfit06(proto)
			k.what = fmt.Sprintf("%s(%#v), which does not fit", m, v)
			k.misfit = true
			k.o = c.Collect(cl.C.Invoke(m, tag, v))
			c.Count("misfit", 1)
		case 3:
			// stream result
			var xs any
			m := ""
			switch c.Intn(7) {
			case 0:
				m, xs = "DownInt64", list(c, func() int64 { return c.i64(64) })
			case 1:
				m, xs = "DownUint64", list(c, func() uint64 { return c.u64(64) })
			case 2:
				m, xs = "DownFloat64", list(c, c.f64)
			case 3:
				m, xs = "DownText", list(c, c.text)
			case 4:
				m, xs = "DownBytes", list(c, c.bytes)
			case 5:
				m, xs = "DownStruct", list(c, c.struct06)
			case 6:
				m, xs = "DownAny", list(c, func() any { return c.any06(2) })
			}
			k.what = fmt.Sprintf("stream %s(%s)", m, short(fmt.Sprintf("%#v", xs), 200))
			for i, v := 0, reflect.ValueOf(xs); i < v.Len(); i++ {
				k.want = append(k.want, generic06(proto, v.Index(i).Interface()))
			}
			k.o = c.Collect(cl.C.PullStream(m, xs))
			c.Count("stream.item", len(k.want))
		case 4:
			m := ""
			var ch, xs any
			switch c.Intn(7) {
			case 0:
				l := list(c, func() int64 { return c.i64(64) })
				m, ch, xs = "UpInt64", down06(l), l
			case 1:
				l := list(c, func() int { return int(c.u64(8)) })
				m, ch, xs = "UpUint8", down06(l), l
			case 2:
				l := list(c, c.f64)
				m, ch, xs = "UpFloat64", down06(l), l
			case 3:
				l := list(c, c.text)
				m, ch, xs = "UpText", down06(l), l
			case 4:
				l := list(c, c.bytes)
				m, ch, xs = "UpBytes", down06(l), l
			case 5:
				l := list(c, c.struct06)
				m, ch, xs = "UpStruct", down06(l), l
			case 6:
				l := list(c, func() any { return c.any06(2) })
				m, ch, xs = "UpAny", down06(l), l
			}
			as := []any{}
			for i, v := 0, reflect.ValueOf(xs); i < v.Len(); i++ {
				as = append(as, v.Index(i).Interface())
			}
			k.what = fmt.Sprintf("upload %s(%s)", m, short(fmt.Sprintf("%#v", xs), 200))
			k.log = canon([]any{as})
			k.void = true
			k.o = c.Collect(cl.C.PushStreams(m, tag, ch))
			c.Count("upload.item", len(as))
		}
		checks = append(checks, k)
	}
	c.Until(0, func() bool {
		for _, k := range checks {
			if k.o != nil && !k.o.Closed() || k.recv != "" && len(recv.log.get(k.tag)) == 0 {
				return false
			}
		}
		return true
	})
	for _, k := range checks {
		logged := env.get(k.tag)
		if k.recv != "" {
			if got := recv.log.get(k.tag); len(got) != 1 || got[0] != k.recv {
				c.Violf("altered", "%s, %s: the receiver got %s", proto.Name(), k.what, short(fmt.Sprint(got), 300))
			}
			continue
		}
		vals, closed, _ := k.o.Get()
		if k.misfit {
			if len(logged) > 0 {
				c.Violf("misfit-passed", "%s, %s: the method was called with %s", proto.Name(), k.what, logged)
			} else if !closed || len(vals) != 1 || vals[0].Error == nil {
				c.Violf("misfit-no-error", "%s, %s: got %v (closed %v)", proto.Name(), k.what, vals, closed)
			}
			continue
		}
		if k.log != "" && (len(logged) != 1 || logged[0] != k.log) {
			c.Violf("altered", "%s, %s: the method got (%d calls, outcome %v) %s", proto.Name(), k.what, len(logged), short(fmt.Sprint(vals), 300), diffAt(strings.Join(logged, "|"), k.log))
			continue
		}
		var got []string
		bad := !closed
		for _, r := range vals {
			if r.Error != nil {
				bad = true
				got = append(got, "error "+r.Error.Error())
				continue
			}
			got = append(got, got06(proto, r.Value))
		}
		if k.void {
			for _, g := range got {
				if g != "null" && g != `""` {
					bad = true
				}
			}
		} else if !bad && strings.Join(got, "|") != strings.Join(k.want, "|") {
			bad = true
		}
		if bad {
			c.Violf("altered", "%s, %s: the caller got (closed %v) %s", proto.Name(), k.what, closed, diffAt(strings.Join(got, "|"), strings.Join(k.want, "|")))
		}
	}
}

func runC06raw(c *Case, proto Proto, srv *Srv, env *callLog, n int) {
	c.Count("raw-client", 1)
	c.Sample("%s, raw client, %d values", proto.Name(), n)
	r := srv.Connect("c", proto, c.RandCond(0), c.RandCond(0))
	if r == nil {
		return
	}
	type check struct {
		tag, what, log, want string
		misfit, void, kind   bool
	}
	var ks []*check
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("t%d", i)
		k := &check{tag: tag}
		var m string
		var v any
		if c.Chance(35) {
			m, v = c.misfit06(proto)
			k.misfit = true
			k.what = fmt.Sprintf("%s(%#v), which does not fit", m, v)
			c.Count("misfit", 1)
		} else {
			for m, v = c.value06(); m == "Time"; m, v = c.value06() {
			}
			k.what = fmt.Sprintf("%s(%s)", m, short(fmt.Sprintf("%#v", v), 200))
			k.log = typed06(v)
			k.want = canon(v)
			if m == "Float32" && proto.Name() == "json" {
				k.want = generic06(proto, v)
			}
			k.void = k.want == "null"
			f := v
			v = plain06(v)
			if m != "Float32" && c.Chance(60) {
				v = c.foreign06(proto, v)
				c.Count("foreign", 1)
			} else if proto.Name() == "messagepack" && m != "Float32" {
				// the kinds of numbers and texts are kept
				k.want, k.kind = canonKind(v), true
			} else if m == "Float32" && proto.Name() == "messagepack" {
				v = mpRaw([]byte{0xca, byte(math.Float32bits(f.(float32)) >> 24), byte(math.Float32bits(f.(float32)) >> 16), byte(math.Float32bits(f.(float32)) >> 8), byte(math.Float32bits(f.(float32)))})
			}
			c.Count("typed.arg", 1)
		}
		if err := r.Send(Msg{Type: 1, ID: tag, Target: m, Args: []any{tag, v}}); err != nil {
			c.Violf("ended", "connection ended: %v", err)
			return
		}
		ks = append(ks, k)
	}
	c.Until(0, func() bool {
		e, _ := r.Ended()
		for _, k := range ks {
			if len(r.Completions(k.tag)) == 0 && !e {
				return false
			}
		}
		return true
	})
	for _, k := range ks {
		logged, cs := env.get(k.tag), r.Completions(k.tag)
		switch {
		case len(cs) != 1:
			c.Violf("unanswered", "%s, %s: %d completions", proto.Name(), k.what, len(cs))
		case k.misfit:
			if len(logged) > 0 {
				c.Violf("misfit-passed", "%s, %s: the method was called with %s", proto.Name(), k.what, logged)
			} else if !cs[0].HasErr {
				c.Violf("misfit-no-error", "%s, %s: got %v", proto.Name(), k.what, cs[0])
			}
		case len(logged) != 1 || logged[0] != k.log:
			c.Violf("altered", "%s, %s: the method got %s, answer %v", proto.Name(), k.what, short(fmt.Sprint(logged), 300), cs[0])
		case cs[0].HasErr || !k.void && (!cs[0].HasRes || (k.kind && canonKind(cs[0].Result) != k.want || !k.kind && canon(cs[0].Result) != k.want)):
			c.Violf("altered", "%s, %s: answered %v, want %s", proto.Name(), k.what, cs[0], short(k.want, 300))
		}
	}
	for _, b := range r.Bad() {
		c.Violf("malformed", "%s: %s", proto.Name(), b)
	}
}

// diffAt shows two texts where they differ first.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("at %d: %q instead of %q", i, a[from:min(len(a), i+80)], b[from:min(len(b), i+80)])
}
