package sigverif

import (
	"fmt"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

// callLog records the executions of methods, by call tag.
type callLog struct {
	mu    sync.Mutex
	calls map[string][]string // tag -> canonical arguments of each execution
	n     int
}

func newCallLog() *callLog { return &callLog{calls: map[string][]string{}} }
func (l *callLog) add(tag string, args ...any) {
	l.mu.Lock()
	l.calls[tag] = append(l.calls[tag], canon(args))
	l.n++
	l.mu.Unlock()
}
func (l *callLog) get(tag string) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.calls[tag]...)
}
func (l *callLog) total() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.n
}
func (l *callLog) tags() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return sortedKeys(l.calls)
}

// hubEnv is what the hubs of one case share.
type hubEnv struct {
	c   *Case
	log *callLog
}

// EchoHub has methods of many shapes. Every call carries a unique tag.
type EchoHub struct {
	signalr.Hub
	e *hubEnv
}

func (h *EchoHub) sleep(ms int) {
	ms = min(ms, 60000) // an attacker may ask for more
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	} else {
		h.e.c.Yield()
	}
}

func (h *EchoHub) Echo(tag string, ms int, v interface{}) interface{} {
	h.e.log.add(tag, v)
	h.e.c.Ev("hub.Echo", "%s", tag)
	h.sleep(ms)
	return v
}
func (h *EchoHub) Tag(tag string, ms int) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Tag", "%s", tag)
	h.sleep(ms)
	return "result-" + tag
}
func (h *EchoHub) Void(tag string, ms int) {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Void", "%s", tag)
	h.sleep(ms)
}
func (h *EchoHub) Panic(tag string, ms int) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Panic", "%s", tag)
	h.sleep(ms)
	panic("panic-" + tag)
}
func (h *EchoHub) Async(tag string, ms int) <-chan string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Async", "%s", tag)
	ch := make(chan string, 1)
	go func() {
		h.sleep(ms)
		ch <- "result-" + tag
		close(ch)
	}()
	return ch
}
func (h *EchoHub) Add(tag string, a, b int) int {
	h.e.log.add(tag, a, b)
	h.e.c.Ev("hub.Add", "%s", tag)
	return a + b
}
func (h *EchoHub) Multi(tag string, a int) (string, int) {
	h.e.log.add(tag, a)
	h.e.c.Ev("hub.Multi", "%s", tag)
	return "result-" + tag, a
}

// Triple has three results.
func (h *EchoHub) Triple(tag string, a int, b bool) (string, int, bool) {
	h.e.log.add(tag, a, b)
	h.e.c.Ev("hub.Triple", "%s", tag)
	return "result-" + tag, a, b
}

// Stream sends n items "tag/i", pausing ms each, over a channel with the given capacity.
func (h *EchoHub) Stream(tag string, n, ms, capacity int) <-chan string {
	h.e.log.add(tag, n)
	h.e.c.Ev("hub.Stream", "%s", tag)
	ch := make(chan string, capacity)
	ctx := h.Context()
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			h.sleep(ms)
			select {
			case ch <- fmt.Sprintf("%s/%d", tag, i):
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}
func (h *EchoHub) StreamInt(tag string, n int) chan int {
	h.e.log.add(tag, n)
	h.e.c.Ev("hub.StreamInt", "%s", tag)
	ch := make(chan int)
	ctx := h.Context()
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}

// ClosedStream returns a closed channel.
func (h *EchoHub) ClosedStream(tag string) <-chan string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.ClosedStream", "%s", tag)
	ch := make(chan string)
	close(ch)
	return ch
}

// Collect reads one upload stream of strings.
func (h *EchoHub) Collect(tag string, in <-chan string) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Collect", "%s", tag)
	s := ""
	for x := range in {
		s += x + ";"
	}
	return s
}

// echoServer is a server with EchoHub.
func (c *Case) echoServer(opts ...opt) (*Srv, *hubEnv) {
	e := &hubEnv{c, newCallLog()}
	s := c.Server(append([]opt{signalr.HubFactory(func() signalr.HubInterface { return &EchoHub{e: e} })}, opts...)...)
	return s, e
}

// Unser returns a value that cannot be serialized.
func (h *EchoHub) Unser(tag string, kind int) interface{} {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Unser", "%s", tag)
	switch kind {
	case 0:
		return make(chan int)
	case 1:
		return func() {}
	}
	return map[string]interface{}{"x": make(chan int)}
}

// UnserStream sends good items and then one that cannot be serialized.
func (h *EchoHub) UnserStream(tag string, n int) <-chan interface{} {
	h.e.log.add(tag)
	h.e.c.Ev("hub.UnserStream", "%s", tag)
	ch := make(chan interface{}, n+1)
	for i := 0; i < n; i++ {
		ch <- fmt.Sprintf("%s/%d", tag, i)
	}
	ch <- func() {}
	close(ch)
	return ch
}

// PanicUpload panics before reading its upload stream.
func (h *EchoHub) PanicUpload(tag string, in <-chan string) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.PanicUpload", "%s", tag)
	panic("panic-" + tag)
}

// PanicStream panics instead of returning its stream.
func (h *EchoHub) PanicStream(tag string) <-chan string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.PanicStream", "%s", tag)
	panic("panic-" + tag)
}

type point struct {
	X int    `json:"x"`
	Y string `json:"y"`
}

// Struct takes and returns a struct.
func (h *EchoHub) Struct(tag string, p point) point {
	h.e.log.add(tag, p.X, p.Y)
	h.e.c.Ev("hub.Struct", "%s", tag)
	return point{p.X + 1, p.Y + "!"}
}

// Opt takes a pointer.
func (h *EchoHub) Opt(tag string, p *int) *int {
	h.e.log.add(tag, p != nil)
	h.e.c.Ev("hub.Opt", "%s", tag)
	return p
}

// NoArgs has no parameters.
func (h *EchoHub) NoArgs() string { return "no-args" }

// Collect2 reads two upload streams of different types with a plain argument in between.
func (h *EchoHub) Collect2(tag string, ints <-chan int, x string, strs chan string) []string {
	h.e.log.add(tag, x)
	h.e.c.Ev("hub.Collect2", "%s", tag)
	a, b := "", ""
	for ints != nil || strs != nil {
		select {
		case i, ok := <-ints:
			if !ok {
				ints = nil
				continue
			}
			a += fmt.Sprint(i) + ";"
		case s, ok := <-strs:
			if !ok {
				strs = nil
				continue
			}
			b += s + ";"
		}
	}
	return []string{a, x, b}
}

// CollectStruct reads an upload stream of structs, pausing between the items.
func (h *EchoHub) CollectStruct(in <-chan point, tag string, ms int) []point {
	h.e.log.add(tag, ms)
	h.e.c.Ev("hub.CollectStruct", "%s", tag)
	r := []point{}
	for p := range in {
		r = append(r, p)
		h.sleep(ms)
	}
	return r
}

// CollectFail reads its stream and returns something that cannot be serialized.
func (h *EchoHub) CollectFail(tag string, in <-chan string) interface{} {
	h.e.log.add(tag)
	h.e.c.Ev("hub.CollectFail", "%s", tag)
	for range in {
	}
	return func() {}
}

// CollectAny reads an upload stream of anything.
func (h *EchoHub) CollectAny(tag string, in <-chan interface{}) []interface{} {
	h.e.log.add(tag)
	h.e.c.Ev("hub.CollectAny", "%s", tag)
	r := []interface{}{}
	for p := range in {
		r = append(r, p)
	}
	return r
}

// CollectEarly returns at once and reads its stream afterwards.
func (h *EchoHub) CollectEarly(tag string, in <-chan string) string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.CollectEarly", "%s", tag)
	e := h.e
	go func() {
		s := "="
		for x := range in {
			s += x + ";"
		}
		e.log.add(tag+"!", s)
	}()
	return "early-" + tag
}

// CollectVoid reads its stream and returns nothing.
func (h *EchoHub) CollectVoid(tag string, in <-chan string) {
	s := ""
	for x := range in {
		s += x + ";"
	}
	h.e.log.add(tag, s)
	h.e.c.Ev("hub.CollectVoid", "%s", tag)
}

// Upstream echoes an upload stream as a stream.
func (h *EchoHub) Upstream(tag string, in <-chan string) <-chan string {
	h.e.log.add(tag)
	h.e.c.Ev("hub.Upstream", "%s", tag)
	out := make(chan string)
	ctx := h.Context()
	go func() {
		defer close(out)
		for x := range in {
			select {
			case out <- x:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

// StreamAny streams any values.
func (h *EchoHub) StreamAny(tag string, vals []interface{}) <-chan interface{} {
	h.e.log.add(tag)
	h.e.c.Ev("hub.StreamAny", "%s", tag)
	ch := make(chan interface{})
	ctx := h.Context()
	go func() {
		defer close(ch)
		for _, v := range vals {
			select {
			case ch <- v:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}

// StreamPtr streams pointers, nil for negative values.
func (h *EchoHub) StreamPtr(tag string, vals []int) <-chan *point {
	h.e.log.add(tag)
	h.e.c.Ev("hub.StreamPtr", "%s", tag)
	ch := make(chan *point, len(vals))
	for _, v := range vals {
		if v < 0 {
			ch <- nil
		} else {
			ch <- &point{v, tag}
		}
	}
	close(ch)
	return ch
}
