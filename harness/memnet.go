package sigverif

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"

	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"
)

// memnet.go: an in-memory network, so that HTTP servers and clients run in a bubble.

// memDeadline is a deadline that can be moved while somebody waits for it (see net.Pipe).
type memDeadline struct {
	mu     sync.Mutex
	timer  *time.Timer
	cancel chan struct{}
}

func (d *memDeadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.timer != nil && !d.timer.Stop() {
		<-d.cancel // the timer callback has run or is running
	}
	d.timer = nil
	closed := false
	select {
	case <-d.cancel:
		closed = true
	default:
	}
	if t.IsZero() {
		if closed {
			d.cancel = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			d.cancel = make(chan struct{})
		}
		ch := d.cancel
		d.timer = time.AfterFunc(dur, func() { close(ch) })
		return
	}
	if !closed {
		close(d.cancel)
	}
}

func (d *memDeadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.cancel
}

// memConn is a net.Conn over one end of a Pair.
type memConn struct {
	*Conn
	rd, wd memDeadline
	name   string
	onEnd  func()
	spins  bool
}

func (m *memConn) Read(p []byte) (int, error) {
	d := m.rd.wait()
	select {
	case <-d:
		return 0, os.ErrDeadlineExceeded
	default:
	}
	n, err := m.Conn.in.read(p, nil, m.Conn.local, d)
	if err == errDeadline {
		err = os.ErrDeadlineExceeded
	}
	if err != nil && m.spins {
		m.Conn.spin()
	}
	if err == net.ErrClosed {
		err = &net.OpError{Op: "read", Net: "mem", Err: net.ErrClosed}
	}
	return n, err
}

func (m *memConn) Write(p []byte) (int, error) {
	d := m.wd.wait()
	select {
	case <-d:
		return 0, os.ErrDeadlineExceeded
	default:
	}
	n, err := m.Conn.write(p, d)
	if errors.Is(err, errDeadline) {
		err = os.ErrDeadlineExceeded
	}
	return n, err
}

func (m *memConn) Close() error {
	m.Conn.Close()
	if m.onEnd != nil {
		m.onEnd()
	}
	return nil
}

// memConn is x as a net.Conn.
func (c *Case) memConn(x *Conn) *memConn {
	m := &memConn{Conn: x, name: x.name, spins: true}
	m.rd.cancel, m.wd.cancel = make(chan struct{}), make(chan struct{})
	return m
}

// netConn is x as the library's connection for TCP and alike.
func (c *Case) netConn(x *Conn) signalr.Connection {
	m := c.memConn(x)
	ctx, cancel := context.WithCancel(x.ctx)
	go func() {
		select {
		case <-x.local:
		case <-x.ctx.Done():
		}
		cancel()
	}()
	conn := signalr.NewNetConnection(ctx, m)
	conn.(interface{ SetConnectionID(string) }).SetConnectionID(x.id)
	c.Count("net-connection", 1)
	return conn
}

// lib is x as the library gets it: itself, or wrapped in a NetConnection.
func (c *Case) lib(x *Conn) signalr.Connection {
	h := splitmix(c.Seed ^ uint64(c.Index)<<20)
	for _, b := range []byte(x.name) {
		h = splitmix(h ^ uint64(b))
	}
	if h%100 < 12 {
		return c.netConn(x)
	}
	return x
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func (m *memConn) LocalAddr() net.Addr                { return memAddr(m.name) }
func (m *memConn) RemoteAddr() net.Addr               { return memAddr(m.name + "-peer") }
func (m *memConn) SetDeadline(t time.Time) error      { m.rd.set(t); m.wd.set(t); return nil }
func (m *memConn) SetReadDeadline(t time.Time) error  { m.rd.set(t); return nil }
func (m *memConn) SetWriteDeadline(t time.Time) error { m.wd.set(t); return nil }

// memNet is a network with one listener.
type memNet struct {
	c      *Case
	mu     sync.Mutex
	accept chan net.Conn
	closed chan struct{}
	once   sync.Once
	n      atomic.Int64
	conns  []*memConn // client ends
	srvs   []*memConn
	cond   func() (Cond, Cond) // conditions of the next connection: to the server, from the server
}

func (c *Case) newMemNet() *memNet {
	return &memNet{c: c, accept: make(chan net.Conn, 100), closed: make(chan struct{}),
		cond: func() (Cond, Cond) { return Cond{Frag: FragAll}, Cond{Frag: FragAll} }}
}

func (n *memNet) Accept() (net.Conn, error) {
	select {
	case c := <-n.accept:
		return c, nil
	case <-n.closed:
		return nil, net.ErrClosed
	}
}
func (n *memNet) Close() error   { n.once.Do(func() { close(n.closed) }); return nil }
func (n *memNet) Addr() net.Addr { return memAddr("mem") }

func (n *memNet) Dial(ctx context.Context) (net.Conn, error) {
	select {
	case <-n.closed:
		return nil, fmt.Errorf("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	default:
	}
	up, down := n.cond()
	id := fmt.Sprintf("tcp%d", n.n.Add(1))
	a, b := n.c.Pair(id, up, down)
	mk := func(x *Conn, s string) *memConn {
		m := &memConn{Conn: x, name: id + s}
		m.rd.cancel, m.wd.cancel = make(chan struct{}), make(chan struct{})
		return m
	}
	ca, cb := mk(a, "c"), mk(b, "s")
	n.mu.Lock()
	n.conns = append(n.conns, ca)
	n.srvs = append(n.srvs, cb)
	n.mu.Unlock()
	n.accept <- cb
	return ca, nil
}

// Cut breaks all current connections.
func (n *memNet) Cut(reset bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, x := range n.conns {
		if reset {
			x.Conn.Reset()
		} else {
			x.Conn.Close()
		}
	}
}

// OpenServerConns is the number of connections the server has not closed.
func (n *memNet) OpenServerConns() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := 0
	for _, x := range n.srvs {
		select {
		case <-x.Conn.local:
		default:
			k++
		}
	}
	return k
}

// OpenConns is the number of ends of connections which have not been closed by their owner.
func (n *memNet) OpenConns() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := 0
	for _, x := range append(append([]*memConn{}, n.srvs...), n.conns...) {
		select {
		case <-x.Conn.local:
		default:
			k++
		}
	}
	return k
}

// HTTPEnv is an HTTP server with a hub, in memory or on loopback.
type HTTPEnv struct {
	c       *Case
	net     *memNet
	srv     *Srv
	URL     string // of the hub
	Base    string
	http    *http.Server
	handler http.Handler
	mu      sync.Mutex
	active  int // requests in handlers
	total   int

	ctx    context.Context
	cancel context.CancelFunc

	tls bool

	kept *kept // optional: follows the contexts of the requests

	noWS             atomic.Bool  // websockets are refused, as some proxies do
	upgrades, events atomic.Int64 // requests for transports
}

func (e *HTTPEnv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	e.mu.Lock()
	e.active++
	e.total++
	e.mu.Unlock()
	defer func() {
		e.mu.Lock()
		e.active--
		e.mu.Unlock()
	}()
	if r.Header.Get("Upgrade") != "" {
		e.upgrades.Add(1)
		if e.noWS.Load() {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		if strings.EqualFold(r.Header.Get("Connection"), "upgrade") {
			// Browsers and proxies spell this in many ways
			names := []string{"Upgrade", "keep-alive, Upgrade", "upgrade", "Upgrade, keep-alive", "keep-alive,Upgrade", "UPGRADE"}
			r.Header.Set("Connection", names[int(e.upgrades.Load()+int64(e.c.Index))%len(names)])
			r.Header.Set("Upgrade", []string{"websocket", "WebSocket", "Websocket", "websocket", "websocket"}[int(e.upgrades.Load()+int64(e.c.Index/7))%5])
		}
	}
	if r.Header.Get("Accept") == "text/event-stream" {
		e.events.Add(1)
	}
	if e.kept != nil {
		r = r.WithContext(e.kept.context(r.Context(), r.Method+" "+r.URL.String()+" "+r.Header.Get("Upgrade")+r.Header.Get("Accept")))
	}
	e.handler.ServeHTTP(w, r)
}

// Active is the number of requests which are being handled.
func (e *HTTPEnv) Active() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.active
}

// HTTP serves h in memory.
func (c *Case) HTTP(srv *Srv, h http.Handler, path string) *HTTPEnv {
	return c.serveHTTP(srv, h, path, false)
}

// HTTPS serves h in memory, over TLS.
func (c *Case) HTTPS(srv *Srv, h http.Handler, path string) *HTTPEnv {
	return c.serveHTTP(srv, h, path, true)
}

// testCert is a certificate for host.test and the pool which trusts it.
var testCert = sync.OnceValues(func() (tls.Certificate, *x509.CertPool) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "host.test"}, DNSNames: []string{"host.test"},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	pool := x509.NewCertPool()
	pool.AddCert(leaf)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}, pool
})

func (c *Case) serveHTTP(srv *Srv, h http.Handler, path string, secure bool) *HTTPEnv {
	e := &HTTPEnv{c: c, net: c.newMemNet(), srv: srv, handler: h, Base: "http://host.test", URL: "http://host.test" + path}
	e.ctx, e.cancel = context.WithCancel(context.Background())
	c.Cleanup(e.cancel)
	e.http = &http.Server{Handler: e, ErrorLog: nullLog}
	if secure {
		e.tls = true
		e.Base, e.URL = "https://host.test", "https://host.test"+path
		cert, _ := testCert()
		l := tls.NewListener(e.net, &tls.Config{Certificates: []tls.Certificate{cert}})
		go func() { _ = e.http.Serve(l) }()
	} else {
		go func() { _ = e.http.Serve(e.net) }()
	}
	c.Cleanup(func() {
		_ = e.http.Close()
		_ = e.net.Close()
		e.net.Cut(false)
	})
	return e
}

// Client makes an HTTP client for the server.
func (e *HTTPEnv) Client() *http.Client {
	tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return e.net.Dial(ctx) }, DisableCompression: true}
	if e.tls {
		_, pool := testCert()
		tr.TLSClientConfig = &tls.Config{RootCAs: pool}
	}
	e.c.Cleanup(tr.CloseIdleConnections)
	return &http.Client{Transport: tr}
}

// Do makes one request and returns status and body.
func (e *HTTPEnv) Do(cl *http.Client, method, url string, body io.Reader, hdr map[string]string) (int, string, http.Header, error) {
	req, err := http.NewRequest(method, url, body)
	if err != nil {
		return 0, "", nil, err
	}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	resp, err := cl.Do(req)
	if err != nil {
		return 0, "", nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), resp.Header, err
}

var _ = signalr.TransportWebSockets
