package sigverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// Peer is the far end of a connection, speaking the hub protocol by itself.
type Peer struct {
	c     *Case
	conn  *Conn
	proto Proto
	role  string // "client": peer of a server; "server": peer of a client

	mu       sync.Mutex
	msgs     []Msg
	comps    map[string][]Msg
	byID     map[string]int
	hsIn     []byte // handshake record received
	hsDone   bool
	ended    bool
	endAt    time.Duration
	endErr   error
	bad      []string
	buf      []byte
	raw      int
	onMsg    func(Msg)
	auto     *Automaton
	lastSent time.Time
}

// NewPeer starts reading. The first 0x1e-terminated record is the handshake record.
func (c *Case) NewPeer(conn *Conn, proto Proto, role string) *Peer {
	p := &Peer{c: c, conn: conn, proto: proto, role: role, auto: newAutomaton(), comps: map[string][]Msg{}, byID: map[string]int{}}
	return p
}

func (p *Peer) Start() *Peer {
	go p.readLoop()
	return p
}

func (p *Peer) readLoop() {
	b := make([]byte, 1<<14)
	for {
		n, err := p.conn.Read(b)
		if n > 0 {
			p.feed(b[:n])
		}
		if err != nil {
			p.mu.Lock()
			p.ended = true
			p.endAt = p.c.Now()
			p.endErr = err
			p.mu.Unlock()
			return
		}
	}
}

func (p *Peer) feed(b []byte) {
	p.mu.Lock()
	p.raw += len(b)
	p.buf = append(p.buf, b...)
	var out []Msg
	for {
		if !p.hsDone {
			i := bytes.IndexByte(p.buf, 0x1e)
			if i < 0 {
				break
			}
			p.hsIn = append([]byte(nil), p.buf[:i]...)
			p.buf = p.buf[i+1:]
			p.hsDone = true
			continue
		}
		m, n, err := p.proto.Decode(p.buf)
		if n == 0 {
			break
		}
		p.buf = p.buf[n:]
		if err != nil {
			if len(p.bad) < 5 {
				p.bad = append(p.bad, err.Error())
			}
			continue
		}
		m.At = p.c.Now()
		m.Seq = len(p.msgs)
		p.msgs = append(p.msgs, m)
		if m.Type == 3 {
			p.comps[m.ID] = append(p.comps[m.ID], m)
		}
		p.byID[m.ID]++
		if e := p.auto.Recv(m); e != "" && len(p.bad) < 5 {
			p.bad = append(p.bad, e)
		}
		out = append(out, m)
	}
	cb := p.onMsg
	p.mu.Unlock()
	if cb != nil {
		for _, m := range out {
			cb(m)
		}
	}
}

// Bad returns what was malformed in the traffic received.
func (p *Peer) Bad() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.bad...)
}

// judgeBad reports malformed or protocol violating traffic the peer received.
func (p *Peer) judgeBad(who string) {
	for _, b := range p.Bad() {
		p.c.Violf("malformed", "%s (%s): %s", who, p.proto.Name(), b)
	}
}

// Partial is the number of received bytes that do not form a complete message.
func (p *Peer) Partial() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.buf)
}

func (p *Peer) Msgs() []Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.msgs[:len(p.msgs):len(p.msgs)] // only appended to
}

func (p *Peer) Handshake() (string, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return string(p.hsIn), p.hsDone
}

func (p *Peer) Ended() (bool, time.Duration) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended, p.endAt
}

// Find returns the messages satisfying f.
func (p *Peer) Find(f func(Msg) bool) []Msg {
	var r []Msg
	for _, m := range p.Msgs() {
		if f(m) {
			r = append(r, m)
		}
	}
	return r
}

func (p *Peer) Completions(id string) []Msg {
	p.mu.Lock()
	defer p.mu.Unlock()
	cs := p.comps[id]
	return cs[:len(cs):len(cs)]
}

// Count is the number of messages with the id.
func (p *Peer) Count(id string) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.byID[id]
}

// Raw writes bytes.
func (p *Peer) Raw(b []byte) error {
	p.mu.Lock()
	p.lastSent = time.Now()
	p.mu.Unlock()
	_, err := p.conn.Write(b)
	return err
}

// Send encodes and writes messages in one write.
func (p *Peer) Send(ms ...Msg) error {
	var b []byte
	for _, m := range ms {
		p.mu.Lock()
		p.auto.Sent(m)
		p.mu.Unlock()
		b = append(b, p.proto.Encode(m)...)
	}
	return p.Raw(b)
}

// KeepAlive sends pings until the connection ends.
func (p *Peer) KeepAlive(every time.Duration) {
	go func() {
		t := time.NewTicker(every)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				if e, _ := p.Ended(); e {
					return
				}
				if p.conn.out.isClosed() {
					return
				}
				if p.Send(Msg{Type: 6}) != nil {
					return
				}
			case <-p.conn.local:
				return
			}
		}
	}()
}

func (h *half) isClosed() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.closed || h.broken
}

// HandshakeReq is what a client sends first.
func handshakeReq(proto string) []byte {
	return []byte(fmt.Sprintf(`{"protocol":"%s","version":1}`, proto) + "\x1e")
}

// Connect sends the handshake and waits for the response; "" if it was accepted.
func (p *Peer) Connect() string {
	if err := p.Raw(handshakeReq(p.proto.Name())); err != nil {
		return err.Error()
	}
	return p.AwaitHandshake()
}

func (p *Peer) AwaitHandshake() string {
	if !p.c.Until(0, func() bool { _, ok := p.Handshake(); e, _ := p.Ended(); return ok || e }) {
		return "no handshake response"
	}
	h, ok := p.Handshake()
	if !ok {
		return "ended without handshake response"
	}
	var r map[string]any
	if err := json.Unmarshal([]byte(h), &r); err != nil {
		return "malformed handshake response " + h
	}
	if e, has := r["error"]; has {
		return fmt.Sprint(e)
	}
	return ""
}

// AcceptHandshake answers a client's handshake request (role server).
func (p *Peer) AcceptHandshake() bool {
	if !p.c.Until(0, func() bool { _, ok := p.Handshake(); e, _ := p.Ended(); return ok || e }) {
		return false
	}
	if _, ok := p.Handshake(); !ok {
		return false
	}
	return p.Raw([]byte("{}\x1e")) == nil
}

// Automaton checks one direction of traffic against the hub protocol.
type Automaton struct {
	peerInv    map[string]int  // ids of invocations the peer (we) sent: type
	answered   map[string]bool // completions received for our invocations
	usedIDs    map[string]bool // invocation ids used by the library
	libStreams map[string]bool // upload stream ids announced by the library, open
	libDone    map[string]bool
	ourStreams map[string]bool // stream ids we announced
	closed     bool
}

func newAutomaton() *Automaton {
	return &Automaton{peerInv: map[string]int{}, answered: map[string]bool{}, usedIDs: map[string]bool{},
		libStreams: map[string]bool{}, libDone: map[string]bool{}, ourStreams: map[string]bool{}}
}

// Sent notes a message we sent.
func (a *Automaton) Sent(m Msg) {
	switch m.Type {
	case 1, 4:
		if m.ID != "" {
			a.peerInv[m.ID] = m.Type
		}
		for _, s := range m.Streams {
			a.ourStreams[s] = true
		}
	}
}

// Recv checks a message the library sent; "" if it conforms.
func (a *Automaton) Recv(m Msg) string {
	if a.closed && m.Type != 7 {
		// calls racing with the close may still be written
		return ""
	}
	switch m.Type {
	case 1, 4:
		if m.ID != "" {
			if a.usedIDs[m.ID] {
				return fmt.Sprintf("invocation id %q used twice", m.ID)
			}
			a.usedIDs[m.ID] = true
		}
		for _, s := range m.Streams {
			if a.usedIDs[s] {
				return fmt.Sprintf("stream id %q used twice", s)
			}
			a.usedIDs[s] = true
			a.libStreams[s] = true
		}
	case 2:
		if a.libStreams[m.ID] {
			if a.libDone[m.ID] {
				return fmt.Sprintf("stream item for completed upload stream %q", m.ID)
			}
			return ""
		}
		t, ok := a.peerInv[m.ID]
		if !ok {
			return fmt.Sprintf("stream item for unknown id %q", m.ID)
		}
		if t != 4 {
			return fmt.Sprintf("stream item for plain invocation %q", m.ID)
		}
		if a.answered[m.ID] {
			return fmt.Sprintf("stream item for completed stream %q", m.ID)
		}
	case 3:
		if a.libStreams[m.ID] {
			if a.libDone[m.ID] {
				return fmt.Sprintf("second completion for upload stream %q", m.ID)
			}
			a.libDone[m.ID] = true
			return ""
		}
		if _, ok := a.peerInv[m.ID]; !ok {
			if a.ourStreams[m.ID] {
				return "" // receive timeout notice for an upload stream
			}
			return fmt.Sprintf("completion for unknown id %q", m.ID)
		}
		if a.answered[m.ID] {
			return fmt.Sprintf("second completion for %q", m.ID)
		}
		a.answered[m.ID] = true
	case 7:
		a.closed = true
	}
	return ""
}
