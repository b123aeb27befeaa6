package signalr

import (
	"net/http"
	"net/http/httptest"
	"net/url"

	"github.com/cenkalti/backoff/v4"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = json.Marshal
var _ = strings.Contains
var _ = io.EOF
var _ sync.Mutex
var _ http.Handler
var _ httptest.Server
var _ url.URL
var _ backoff.BackOff

type quietLog struct{}

func (quietLog) Log(...interface{}) error { return nil }

func demoServer(t *testing.T, hub func() HubInterface, opts ...func(Party) error) Server {
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	s, err := NewServer(ctx, append([]func(Party) error{HubFactory(hub), Logger(quietLog{}, false)}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

// demoPipe is a TCP connection over loopback.
func demoPipe(t *testing.T) (net.Conn, net.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		ch <- c
	}()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	b := <-ch
	t.Cleanup(func() { a.Close(); b.Close() })
	return a, b
}

func demoServe(t *testing.T, s Server) net.Conn {
	a, b := demoPipe(t)
	go func() { _ = s.Serve(NewNetConnection(context.Background(), b)) }()
	return a
}

func demoClient(t *testing.T, conn net.Conn, opts ...func(Party) error) Client {
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	c, err := NewClient(ctx, append([]func(Party) error{WithConnection(NewNetConnection(ctx, conn)), Logger(quietLog{}, false)}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	c.Start()
	if err := <-c.WaitForState(ctx, ClientConnected); err != nil {
		t.Fatal(err)
	}
	return c
}

// rawJSON speaks the JSON protocol over a connection.
type rawJSON struct {
	t    *testing.T
	c    net.Conn
	msgs chan map[string]interface{}
}

func demoRaw(t *testing.T, c net.Conn) *rawJSON {
	r := &rawJSON{t, c, make(chan map[string]interface{}, 1000)}
	go func() {
		defer close(r.msgs)
		buf, b := []byte{}, make([]byte, 65536)
		for {
			n, err := c.Read(b)
			buf = append(buf, b[:n]...)
			for {
				i := strings.IndexByte(string(buf), 0x1e)
				if i < 0 {
					break
				}
				var m map[string]interface{}
				_ = json.Unmarshal(buf[:i], &m)
				buf = buf[i+1:]
				r.msgs <- m
			}
			if err != nil {
				return
			}
		}
	}()
	return r
}
func (r *rawJSON) send(s string) { _, _ = r.c.Write([]byte(s + "\x1e")) }

// next returns the next message which is no ping, nil after the timeout or when the connection has ended.
func (r *rawJSON) next(d time.Duration) map[string]interface{} {
	end := time.After(d)
	for {
		select {
		case m, ok := <-r.msgs:
			if !ok {
				return nil
			}
			if m["type"] == 6.0 {
				continue
			}
			return m
		case <-end:
			return nil
		}
	}
}
func (r *rawJSON) handshake() {
	r.send(`{"protocol":"json","version":1}`)
	if m := r.next(5 * time.Second); m == nil || m["error"] != nil {
		r.t.Fatal("handshake failed", m)
	}
}
