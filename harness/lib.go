package sigverif

import (
	"context"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

type opt = func(signalr.Party) error

// yieldLogger is a logger that only perturbs the schedule.
type yieldLogger struct{ c *Case }

func (l yieldLogger) Log(keyVals ...interface{}) error {
	l.c.Yield()
	return nil
}

// Srv is a server under test.
type Srv struct {
	c      *Case
	S      signalr.Server
	Kept   *kept // optional: the connections are wrapped for it
	Ctx    context.Context
	Cancel context.CancelFunc
}

// Server makes a server of the library.
func (c *Case) Server(opts ...opt) *Srv {
	ctx, cancel := context.WithCancel(context.Background())
	all := append([]opt{signalr.Logger(yieldLogger{c}, c.Bool())}, opts...)
	s, err := signalr.NewServer(ctx, all...)
	if err != nil {
		panic("harness: NewServer: " + err.Error())
	}
	c.Cleanup(cancel)
	return &Srv{c: c, S: s, Ctx: ctx, Cancel: cancel}
}

// Served is a running Serve call.
type Served struct {
	mu   sync.Mutex
	done bool
	err  error
	at   time.Duration
}

func (s *Served) Done() (bool, time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.done, s.at
}

func (s *Srv) Serve(conn signalr.Connection) *Served {
	r := &Served{}
	if x, ok := conn.(*Conn); ok {
		conn = s.c.lib(x)
		if s.Kept != nil {
			conn = s.Kept.wrap(x.name, conn)
		}
	}
	go func() {
		err := s.S.Serve(conn)
		r.mu.Lock()
		r.done, r.err, r.at = true, err, s.c.Now()
		r.mu.Unlock()
	}()
	return r
}

// RawClient connects a raw peer to the server.
type RawClient struct {
	*Peer
	Conn   *Conn // our end
	Far    *Conn // the server's end
	Served *Served
	ID     string
}

// Dial starts Serve on a new in-memory connection, without handshake.
func (s *Srv) Dial(id string, proto Proto, up, down Cond) *RawClient {
	mine, theirs := s.c.Pair(id, up, down)
	p := s.c.NewPeer(mine, proto, "client").Start()
	return &RawClient{Peer: p, Conn: mine, Far: theirs, Served: s.Serve(theirs), ID: id}
}

// Connect is Dial with handshake; nil if the handshake failed (which is recorded as violation).
func (s *Srv) Connect(id string, proto Proto, up, down Cond) *RawClient {
	r := s.Dial(id, proto, up, down)
	if e := r.Peer.Connect(); e != "" {
		s.c.Violf("connect-failed", "good handshake (%s) of connection %s failed: %s", proto.Name(), id, e)
		return nil
	}
	return r
}

func (c *Case) RandCond(maxDelay time.Duration) Cond {
	cd := Cond{Frag: Frag(c.Intn(int(fragCount)))}
	if maxDelay > 0 && c.Chance(70) {
		cd.MaxDelay = maxDelay
		if c.Chance(25) {
			cd.WriteLag = 2 * maxDelay
		}
	}
	return cd
}

// Cli is a client under test.
type Cli struct {
	c      *Case
	C      signalr.Client
	Cancel context.CancelFunc
}

func formatOf(p Proto) opt {
	if p.Name() == "json" {
		return signalr.TransferFormat(signalr.TransferFormatText)
	}
	return signalr.TransferFormat(signalr.TransferFormatBinary)
}

// Client makes a client of the library.
func (c *Case) Client(proto Proto, opts ...opt) *Cli {
	ctx, cancel := context.WithCancel(context.Background())
	all := append([]opt{signalr.Logger(yieldLogger{c}, c.Bool()), formatOf(proto)}, opts...)
	cl, err := signalr.NewClient(ctx, all...)
	if err != nil {
		panic("harness: NewClient: " + err.Error())
	}
	c.Cleanup(func() { cancel() })
	return &Cli{c, cl, cancel}
}

// ConstBackoff always waits d.
func constBackoff(d time.Duration) opt {
	return signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(d) })
}

// AwaitState polls the client's state.
func (cl *Cli) AwaitState(s signalr.ClientState, timeout time.Duration) bool {
	return cl.c.Until(timeout, func() bool { return cl.C.State() == s })
}

// RawServer is a raw peer serving one client under test.
func (c *Case) RawServer(id string, proto Proto, up, down Cond) (*Peer, *Conn) {
	mine, theirs := c.Pair(id, down, up)
	return c.NewPeer(mine, proto, "server").Start(), theirs
}

// Outcomes collects everything a result channel yields.
type Outcomes struct {
	mu     sync.Mutex
	Vals   []signalr.InvokeResult
	closed bool
	at     time.Duration
}

func (c *Case) Collect(ch <-chan signalr.InvokeResult) *Outcomes {
	o := &Outcomes{}
	go func() {
		for r := range ch {
			o.mu.Lock()
			o.Vals = append(o.Vals, r)
			o.at = c.Now()
			o.mu.Unlock()
		}
		o.mu.Lock()
		o.closed = true
		o.at = c.Now()
		o.mu.Unlock()
	}()
	return o
}

func (c *Case) CollectErr(ch <-chan error) *Outcomes {
	o := &Outcomes{}
	go func() {
		for r := range ch {
			o.mu.Lock()
			if r != nil {
				o.Vals = append(o.Vals, signalr.InvokeResult{Error: r})
			}
			o.at = c.Now()
			o.mu.Unlock()
		}
		o.mu.Lock()
		o.closed = true
		o.at = c.Now()
		o.mu.Unlock()
	}()
	return o
}

func (o *Outcomes) Closed() bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.closed
}
func (o *Outcomes) Get() ([]signalr.InvokeResult, bool, time.Duration) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]signalr.InvokeResult(nil), o.Vals...), o.closed, o.at
}
func (o *Outcomes) Errs() int {
	v, _, _ := o.Get()
	n := 0
	for _, r := range v {
		if r.Error != nil {
			n++
		}
	}
	return n
}

// slowly makes f take some time, sometimes: the factories of hubs are code of the application.
func (c *Case) slowly(f func() signalr.HubInterface) func() signalr.HubInterface {
	if !c.Chance(25) {
		return f
	}
	c.Count("slow-factory", 1)
	var mu sync.Mutex
	r := c.Sub(77)
	c.slowHub = c.Dur(time.Millisecond, 200*time.Millisecond)
	max := int64(c.slowHub)
	return func() signalr.HubInterface {
		mu.Lock()
		d := r.Int64N(3 * max)
		mu.Unlock()
		if d < max {
			time.Sleep(time.Duration(d))
		} else {
			c.Yield()
		}
		return f()
	}
}
