package sigverif

import (
	"context"
	"errors"
	"io"
	"math/rand/v2"
	"net"
	"sync"
	"time"
)

// Frag says how a direction of a connection cuts the written bytes into reads.
type Frag int

const (
	FragMessage Frag = iota // one read per write, like a message transport
	FragOne                 // one byte per read
	FragSmall               // 1..7 bytes per read, across write boundaries
	FragRandom              // any cut, across write boundaries
	FragAll                 // everything available in one read
	fragCount
)

func (f Frag) String() string {
	return [...]string{"message", "one", "small", "random", "all"}[f]
}

// Cond are the conditions of one direction.
type Cond struct {
	Frag     Frag
	MaxDelay time.Duration // random delay per write, order preserved
	CutAfter int           // >0: the direction breaks after that many bytes
	Script   []int         // explicit read sizes (used first)
	WriteLag time.Duration // a write may return that much later than the other side can read it
	Once     bool          // only the write which reaches CutAfter fails, and is lost
	Chop     bool          // a write delivers its bytes in pieces, so that concurrent writes would mix
	EOFData  bool          // the last data is returned together with the error, as io.Reader allows
}

type chunk struct {
	data []byte
	at   time.Time
}

type writeRec struct {
	at   time.Duration
	data []byte
}

type half struct {
	pauses int // with Chop: writes which will be held up for seconds in their middle
	c      *Case
	mu     sync.Mutex
	q      []chunk
	closed bool
	err    error // what the reader gets after the queue is drained
	notify chan struct{}
	cond   Cond
	rnd    *rand.Rand
	seed   uint64
	total  int
	rec    []writeRec
	stall  chan struct{} // non nil: writers block until it is closed
	lastAt time.Time
	broken bool
	cut    func()
	reads  int
	got    int // bytes read
}

func newHalf(c *Case, cond Cond, salt uint64) *half {
	if raceMode {
		return &half{c: c, notify: make(chan struct{}, 1), cond: cond, seed: c.U64()}
	}
	return &half{c: c, notify: make(chan struct{}, 1), cond: cond, rnd: c.Sub(salt)}
}

// intn is h.rnd.IntN, but in race mode without accesses the detector could see
//
//go:norace
func (h *half) intn(n int) int {
	if raceMode {
		h.seed = splitmix(h.seed + 0x9e3779b97f4a7c15)
		return int(h.seed>>1) % n
	}
	return h.rnd.IntN(n)
}

//go:norace
func cloneBytes(p []byte) []byte {
	if raceMode {
		d := make([]byte, len(p))
		for i := range p {
			d[i] = p[i]
		}
		return d
	}
	return append([]byte(nil), p...)
}

//go:norace
func copyBytes(to, from []byte) int {
	if raceMode {
		n := min(len(to), len(from))
		for i := 0; i < n; i++ {
			to[i] = from[i]
		}
		return n
	}
	return copy(to, from)
}

type connError struct {
	name string
	err  error
}

func (e *connError) Error() string { return e.name + ": " + e.err.Error() }
func (e *connError) Unwrap() error { return e.err }

//go:norace
func (h *half) wake() {
	select {
	case h.notify <- struct{}{}:
	default:
	}
}

//go:norace
func (h *half) close(err error) {
	h.mu.Lock()
	if !h.closed {
		h.closed = true
		h.err = err
		if h.stall != nil { // like a broken TCP connection
			close(h.stall)
			h.stall = nil
		}
	}
	h.mu.Unlock()
	h.wake()
}

var errReset = errors.New("connection reset")

//go:norace
func (h *half) write(p []byte, abort, deadline <-chan struct{}) (int, error) {
	h.mu.Lock()
	for h.stall != nil && !h.closed {
		st := h.stall
		h.mu.Unlock()
		select {
		case <-st:
		case <-abort:
			return 0, net.ErrClosed
		case <-deadline:
			return 0, errDeadline
		}
		h.mu.Lock()
		if h.stall == st {
			h.stall = nil
		}
	}
	defer h.mu.Unlock()
	if h.closed || h.broken {
		return 0, io.ErrClosedPipe
	}
	now := time.Now()
	at := now
	if h.cond.MaxDelay > 0 {
		at = now.Add(time.Duration(h.intn(int(h.cond.MaxDelay) + 1)))
	}
	if at.Before(h.lastAt) {
		at = h.lastAt
	}
	h.lastAt = at
	d := cloneBytes(p)
	var err error
	n := len(p)
	if h.cond.CutAfter > 0 && h.total+len(d) >= h.cond.CutAfter && h.cond.Once {
		h.cond.CutAfter = 0
		return 0, errReset
	}
	if h.cond.CutAfter > 0 && h.total+len(d) >= h.cond.CutAfter {
		d = d[:h.cond.CutAfter-h.total]
		h.broken = true
		n, err = len(d), errReset
		if h.cut != nil {
			go h.cut()
		}
	}
	h.total += len(d)
	h.rec = append(h.rec, writeRec{h.c.Now(), d})
	if len(d) > 0 {
		h.q = append(h.q, chunk{d, at})
	}
	h.wake()
	return n, err
}

//go:norace
func (h *half) chop(n int) (int, time.Duration) {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := n
	if h.intn(4) > 0 {
		k = 1 + h.intn(n)
	}
	if h.pauses > 0 && n > 1 && h.intn(8) == 0 {
		h.pauses--
		return 1 + h.intn(n-1), time.Second + time.Duration(h.intn(19))*time.Second
	}
	if h.intn(4) == 0 {
		return k, time.Duration(h.intn(1000)) * time.Microsecond
	}
	return k, 0
}

//go:norace
func (h *half) lag() time.Duration {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.cond.WriteLag <= 0 || h.intn(3) == 0 {
		return 0
	}
	return time.Duration(h.intn(int(h.cond.WriteLag) + 1))
}

// Stall makes writers block; Unstall releases them.
//
//go:norace
func (h *half) Stall() {
	h.mu.Lock()
	if h.stall == nil {
		h.stall = make(chan struct{})
	}
	h.mu.Unlock()
}

//go:norace
func (h *half) Unstall() {
	h.mu.Lock()
	if h.stall != nil {
		close(h.stall)
		h.stall = nil
	}
	h.mu.Unlock()
}

//go:norace
func (h *half) read(p []byte, ctxDone <-chan struct{}, local <-chan struct{}, deadline <-chan struct{}) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		select {
		case <-local:
			return 0, net.ErrClosed
		default:
		}
		h.mu.Lock()
		now := time.Now()
		avail := 0
		first := 0
		for i, ch := range h.q {
			if ch.at.After(now) || avail >= 1<<13 && avail >= len(p) {
				break
			}
			avail += len(ch.data)
			if i == 0 {
				first = avail
			}
		}
		if avail > 0 {
			n := avail
			if len(h.cond.Script) > 0 {
				n = h.cond.Script[0]
				h.cond.Script = h.cond.Script[1:]
			} else {
				switch h.cond.Frag {
				case FragMessage:
					n = first
				case FragOne:
					n = 1
				case FragSmall:
					n = 1 + h.intn(7)
				case FragRandom:
					if h.intn(3) == 0 {
						n = 1 + h.intn(5)
					} else {
						n = 1 + h.intn(avail)
					}
				}
			}
			if n < 1 {
				n = 1
			}
			if n > avail {
				n = avail
			}
			if n > len(p) {
				n = len(p)
			}
			got := 0
			for got < n {
				m := copyBytes(p[got:n], h.q[0].data)
				got += m
				if m == len(h.q[0].data) {
					h.q = h.q[1:]
				} else {
					h.q[0].data = h.q[0].data[m:]
				}
			}
			h.reads++
			h.got += n
			var err error
			if h.cond.EOFData && h.closed && len(h.q) == 0 {
				err = h.err
			}
			h.mu.Unlock()
			return n, err
		}
		var timer *time.Timer
		var tc <-chan time.Time
		if len(h.q) > 0 {
			timer = time.NewTimer(h.q[0].at.Sub(now))
			tc = timer.C
		} else if h.closed {
			err := h.err
			h.mu.Unlock()
			return 0, err
		}
		h.mu.Unlock()
		select {
		case <-h.notify:
		case <-tc:
		case <-ctxDone:
			h.wake()
			return 0, context.Canceled
		case <-local:
			h.wake()
			return 0, net.ErrClosed
		case <-deadline:
			h.wake()
			return 0, errDeadline
		}
		if timer != nil {
			timer.Stop()
		}
	}
}

// Conn is one end of an in-memory connection. It implements signalr.Connection.
type Conn struct {
	c      *Case
	name   string
	mu     sync.Mutex
	id     string
	ctx    context.Context
	cancel context.CancelFunc
	in     *half
	out    *half
	local  chan struct{}
	once   sync.Once
	peer   *Conn
	onRead func(n int, err error)
	nRead  int
	after  int // reads after the end
}

// Pair makes a connection; a's writes travel under ab, b's writes under ba.
func (c *Case) Pair(id string, ab, ba Cond) (*Conn, *Conn) {
	h1, h2 := newHalf(c, ab, 11), newHalf(c, ba, 22)
	mk := func(name string, in, out *half) *Conn {
		ctx, cancel := context.WithCancel(context.Background())
		return &Conn{c: c, name: name, id: id, ctx: ctx, cancel: cancel, in: in, out: out, local: make(chan struct{})}
	}
	a, b := mk(id+"/a", h2, h1), mk(id+"/b", h1, h2)
	a.peer, b.peer = b, a
	cut := func() { h1.close(io.EOF); h2.close(io.EOF) }
	h1.cut, h2.cut = cut, cut
	c.Cleanup(func() { a.Close(); b.Close(); a.cancel(); b.cancel() })
	return a, b
}

func (x *Conn) Read(p []byte) (int, error) {
	x.c.Yield()
	raceOff()
	n, err := x.in.read(p, x.ctx.Done(), x.local, nil)
	raceOn()
	if raceMode {
		fill(p[:n])
	}
	if raceMode && err != nil {
		// only the own Close and the own context synchronize
		_ = x.ctx.Err()
		select {
		case <-x.local:
		default:
		}
	}
	if err != nil {
		x.spin()
	}
	return n, err
}

// spin notices a reader which does not stop at the end
func (x *Conn) spin() {
	x.mu.Lock()
	x.after++
	spin := x.after
	x.mu.Unlock()
	if spin == 20000 {
		x.c.Violf("busy-loop", "connection %s: the library has read 20000 times from an ended connection", x.name)
	}
	if spin >= 20000 {
		// keep a spinning reader from freezing the case
		time.Sleep(time.Minute)
	}
}

func (x *Conn) Write(p []byte) (int, error) {
	touch(p)
	raceOff()
	n, err := x.write(p, nil)
	raceOn()
	if raceMode && err != nil {
		select {
		case <-x.local:
		default:
		}
	}
	return n, err
}

//go:norace
func (x *Conn) write(p []byte, deadline <-chan struct{}) (int, error) {
	x.c.Yield()
	select {
	case <-x.local:
		return 0, net.ErrClosed
	default:
	}
	n, err := 0, error(nil)
	if x.out.cond.Chop {
		for n < len(p) && err == nil {
			k, pause := x.out.chop(len(p) - n)
			var m int
			m, err = x.out.write(p[n:n+k], x.local, deadline)
			n += m
			if n < len(p) {
				if pause > 0 {
					time.Sleep(pause)
				} else {
					x.c.Yield()
				}
			}
		}
	} else {
		n, err = x.out.write(p, x.local, deadline)
	}
	if err != nil {
		return n, &connError{x.name, err}
	}
	if lag := x.out.lag(); lag > 0 {
		select {
		case <-time.After(lag):
		case <-x.local:
		}
	}
	return n, nil
}

func (x *Conn) Context() context.Context {
	x.c.Yield()
	return x.ctx
}

//go:norace
func (x *Conn) ConnectionID() string {
	x.c.Yield()
	raceOff()
	defer raceOn()
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.id
}

func (x *Conn) SetConnectionID(id string) {
	x.mu.Lock()
	x.id = id
	x.mu.Unlock()
}

// Close ends the connection as seen from this end: the peer drains and then sees EOF.
func (x *Conn) Close() {
	x.once.Do(func() {
		close(x.local)
		x.out.close(io.EOF)
		x.in.close(io.ErrClosedPipe)
	})
}

// CloseWrite ends only the direction from this end to the peer.
func (x *Conn) CloseWrite() { x.out.close(io.EOF) }

// Reset ends the connection in both directions at once.
func (x *Conn) Reset() {
	x.in.mu.Lock()
	x.in.q = nil
	x.in.mu.Unlock()
	x.out.mu.Lock()
	x.out.q = nil
	x.out.mu.Unlock()
	x.out.close(errReset)
	x.in.close(errReset)
}

var errDeadline = errors.New("i/o timeout")
