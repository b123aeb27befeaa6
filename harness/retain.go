package sigverif

import (
	"context"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/philippseith/signalr"
)

// keptConn is what the library holds of a connection, and nobody else: when it is not collected although the
// connection has ended, the library still holds it.
type keptConn struct {
	*Conn
	pad [64]byte // no tiny allocation
}

// keptVal is a value in the context of a request.
type keptVal struct {
	name string
	pad  [64]byte
}

type keptKey struct{}

type kept struct {
	mu sync.Mutex
	ws []keptRef
}

type keptRef struct {
	name string
	p    weak.Pointer[keptConn]
	v    weak.Pointer[keptVal]
}

// context is ctx with a value which is collected when nobody holds the context anymore.
func (k *kept) context(ctx context.Context, name string) context.Context {
	v := &keptVal{name: name}
	k.mu.Lock()
	k.ws = append(k.ws, keptRef{name: name, v: weak.Make(v)})
	k.mu.Unlock()
	return context.WithValue(ctx, keptKey{}, v)
}

func (k *kept) wrap(name string, x signalr.Connection) signalr.Connection {
	cn, ok := x.(*Conn)
	if !ok {
		return x
	}
	kc := &keptConn{Conn: cn}
	k.mu.Lock()
	k.ws = append(k.ws, keptRef{name: name, p: weak.Make(kc)})
	k.mu.Unlock()
	return kc
}

func (k *kept) left() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	var res []string
	for _, w := range k.ws {
		if w.p.Value() != nil || w.v.Value() != nil {
			res = append(res, w.name)
		}
	}
	return res
}

// released judges that at most allow of the connections are still reachable.
func (c *Case) released(k *kept, allow int, what string) {
	k.mu.Lock()
	n := len(k.ws)
	k.mu.Unlock()
	if n == 0 {
		return
	}
	var left []string
	for i := 0; i < 4; i++ {
		runtime.GC()
		if left = k.left(); len(left) <= allow {
			c.Count("collected", 1)
			return
		}
		time.Sleep(time.Second)
	}
	c.Violf("retained", "%s: still held by the library: %v of %d", what, left, n)
}
