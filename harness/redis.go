package sigverif

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

// redis.go: a Redis server in memory: sets, publish and subscribe, RESP2 and RESP3.

type fakeRedis struct {
	c      *Case
	net    *memNet
	mu     sync.Mutex
	sets   map[string]map[string]bool
	strs   map[string]string
	conns  map[*redisConn]bool
	cmds   map[string]int
	bad    []string // commands not understood
	pubs   int
	pushes int
}

type redisConn struct {
	r     *fakeRedis
	nc    net.Conn
	mu    sync.Mutex
	q     [][]byte
	sig   chan struct{}
	done  chan struct{}
	subs  map[string]bool
	psubs map[string]bool
	v3    bool
	multi [][]string
	inTx  bool
}

// newRedis makes a server; delays are up to d in either direction.
func (c *Case) newRedis(d time.Duration) *fakeRedis {
	r := &fakeRedis{c: c, net: c.newMemNet(), sets: map[string]map[string]bool{}, strs: map[string]string{}, conns: map[*redisConn]bool{}, cmds: map[string]int{}}
	r.net.cond = func() (Cond, Cond) {
		return Cond{Frag: Frag(c.Intn(int(fragCount))), MaxDelay: d}, Cond{Frag: Frag(c.Intn(int(fragCount))), MaxDelay: d}
	}
	go func() {
		for {
			nc, err := r.net.Accept()
			if err != nil {
				return
			}
			k := &redisConn{r: r, nc: nc, sig: make(chan struct{}, 1), done: make(chan struct{}), subs: map[string]bool{}, psubs: map[string]bool{}}
			r.mu.Lock()
			r.conns[k] = true
			r.mu.Unlock()
			go k.writer()
			go k.serve()
		}
	}()
	c.Cleanup(func() { _ = r.net.Close(); r.net.Cut(true) })
	return r
}

// client makes a client of the server.
func (r *fakeRedis) client() *redis.Client {
	cl := redis.NewClient(&redis.Options{Addr: "127.0.0.1:6379", Protocol: pick(r.c, 2, 3), DisableIdentity: true,
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled},
		PoolSize:                 1000, MaxRetries: 10, ConnMaxIdleTime: 5 * time.Second,
		Dialer: func(ctx context.Context, _, _ string) (net.Conn, error) { return r.net.Dial(ctx) }})
	r.c.Cleanup(func() { _ = cl.Close() })
	return cl
}

// members is the content of a set.
func (r *fakeRedis) members(key string) []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var m []string
	for k := range r.sets[key] {
		m = append(m, k)
	}
	sort.Strings(m)
	return m
}

func (r *fakeRedis) subscribed() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for k := range r.conns {
		k.mu.Lock()
		if len(k.subs)+len(k.psubs) > 0 {
			n++
		}
		k.mu.Unlock()
	}
	return n
}

func (k *redisConn) push(b []byte) {
	k.mu.Lock()
	k.q = append(k.q, b)
	k.mu.Unlock()
	select {
	case k.sig <- struct{}{}:
	default:
	}
}

func (k *redisConn) writer() {
	for {
		k.mu.Lock()
		q := k.q
		k.q = nil
		k.mu.Unlock()
		for _, b := range q {
			if _, err := k.nc.Write(b); err != nil {
				return
			}
		}
		if len(q) > 0 {
			continue
		}
		select {
		case <-k.sig:
		case <-k.done:
			return
		}
	}
}

func readRESP(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" || line[0] != '*' {
		return nil, fmt.Errorf("unexpected %q", line)
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	args := make([]string, n)
	for i := range args {
		if line, err = br.ReadString('\n'); err != nil {
			return nil, err
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" || line[0] != '$' {
			return nil, fmt.Errorf("unexpected %q", line)
		}
		l, err := strconv.Atoi(line[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err = io.ReadFull(br, b); err != nil {
			return nil, err
		}
		args[i] = string(b[:l])
	}
	return args, nil
}

func (k *redisConn) serve() {
	defer func() {
		k.r.mu.Lock()
		delete(k.r.conns, k)
		k.r.mu.Unlock()
		close(k.done)
		_ = k.nc.Close()
	}()
	br := bufio.NewReader(k.nc)
	for {
		args, err := readRESP(br)
		if err != nil {
			if !errors.Is(err, io.EOF) && strings.HasPrefix(err.Error(), "unexpected") {
				k.r.note(err.Error())
			}
			return
		}
		if len(args) == 0 {
			continue
		}
		cmd := strings.ToUpper(args[0])
		switch {
		case cmd == "MULTI":
			k.inTx, k.multi = true, nil
			k.push([]byte("+OK\r\n"))
		case cmd == "EXEC":
			k.inTx = false
			out := fmt.Sprintf("*%d\r\n", len(k.multi))
			for _, m := range k.multi {
				out += string(k.do(strings.ToUpper(m[0]), m[1:]))
			}
			k.push([]byte(out))
		case k.inTx:
			k.multi = append(k.multi, args)
			k.push([]byte("+QUEUED\r\n"))
		default:
			if b := k.do(cmd, args[1:]); b != nil {
				k.push(b)
			}
		}
	}
}

func (r *fakeRedis) note(s string) {
	r.mu.Lock()
	r.bad = append(r.bad, s)
	r.mu.Unlock()
}

func rBulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func rInt(n int) []byte     { return []byte(fmt.Sprintf(":%d\r\n", n)) }
func (k *redisConn) pushed(parts ...string) []byte {
	h := "*"
	if k.v3 {
		h = ">"
	}
	s := fmt.Sprintf("%s%d\r\n", h, len(parts))
	return []byte(s + strings.Join(parts, ""))
}

func (k *redisConn) do(cmd string, a []string) []byte {
	r := k.r
	r.c.Ev("redis:"+strings.ToLower(cmd), "redis %s %s", cmd, short(fmt.Sprint(a), 200))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cmds[cmd]++
	arr := func(xs []string) []byte {
		s := fmt.Sprintf("*%d\r\n", len(xs))
		for _, x := range xs {
			s += rBulk(x)
		}
		return []byte(s)
	}
	need := func(n int) bool { return len(a) >= n }
	switch {
	case cmd == "HELLO":
		kv := []string{"server", "redis", "version", "7.2.0", "proto", "", "id", "", "mode", "standalone", "role", "master", "modules", ""}
		k.v3 = need(1) && a[0] == "3"
		s := "*14\r\n"
		if k.v3 {
			s = "%7\r\n"
		}
		for i, x := range kv {
			switch i {
			case 5:
				if k.v3 {
					s += ":3\r\n"
				} else {
					s += ":2\r\n"
				}
			case 7:
				s += ":1\r\n"
			case 13:
				s += "*0\r\n"
			default:
				s += rBulk(x)
			}
		}
		return []byte(s)
	case cmd == "CLIENT" || cmd == "SELECT" || cmd == "AUTH" || cmd == "ASKING" || cmd == "READONLY":
		if cmd == "CLIENT" && need(1) && strings.EqualFold(a[0], "MAINT_NOTIFICATIONS") {
			return []byte("-ERR unknown subcommand\r\n")
		}
		return []byte("+OK\r\n")
	case cmd == "PING":
		if !k.v3 && len(k.subs)+len(k.psubs) > 0 {
			x := ""
			if need(1) {
				x = a[0]
			}
			return arr([]string{"pong", x})
		}
		if need(1) {
			return []byte(rBulk(a[0]))
		}
		return []byte("+PONG\r\n")
	case cmd == "SUBSCRIBE" || cmd == "PSUBSCRIBE" || cmd == "UNSUBSCRIBE" || cmd == "PUNSUBSCRIBE":
		k.mu.Lock()
		set := k.subs
		if strings.HasPrefix(strings.TrimPrefix(cmd, "UN"), "P") || cmd == "PUNSUBSCRIBE" {
			set = k.psubs
		}
		un := strings.Contains(cmd, "UNSUB")
		if un && len(a) == 0 {
			for x := range set {
				a = append(a, x)
			}
		}
		var out []byte
		for _, x := range a {
			if un {
				delete(set, x)
			} else {
				set[x] = true
			}
			out = append(out, k.pushed(rBulk(strings.ToLower(cmd)), rBulk(x), string(rInt(len(k.subs)+len(k.psubs))))...)
		}
		k.mu.Unlock()
		return out
	case cmd == "PUBLISH" && need(2):
		n := 0
		r.pubs++
		var ks []*redisConn
		for o := range r.conns {
			ks = append(ks, o)
		}
		for _, o := range ks {
			o.mu.Lock()
			var bs [][]byte
			if o.subs[a[0]] {
				bs = append(bs, o.pushed(rBulk("message"), rBulk(a[0]), rBulk(a[1])))
			}
			for p := range o.psubs {
				if redisGlob(p, a[0]) {
					bs = append(bs, o.pushed(rBulk("pmessage"), rBulk(p), rBulk(a[0]), rBulk(a[1])))
				}
			}
			o.mu.Unlock()
			for _, b := range bs {
				n++
				r.pushes++
				o.push(b)
			}
		}
		return rInt(n)
	case cmd == "SADD" && need(2):
		s := r.sets[a[0]]
		if s == nil {
			s = map[string]bool{}
			r.sets[a[0]] = s
		}
		n := 0
		for _, x := range a[1:] {
			if !s[x] {
				s[x] = true
				n++
			}
		}
		return rInt(n)
	case cmd == "SREM" && need(2):
		n := 0
		for _, x := range a[1:] {
			if r.sets[a[0]][x] {
				delete(r.sets[a[0]], x)
				n++
			}
		}
		if len(r.sets[a[0]]) == 0 {
			delete(r.sets, a[0])
		}
		return rInt(n)
	case cmd == "SISMEMBER" && need(2):
		if r.sets[a[0]][a[1]] {
			return rInt(1)
		}
		return rInt(0)
	case cmd == "SMISMEMBER" && need(2):
		s := fmt.Sprintf("*%d\r\n", len(a)-1)
		for _, x := range a[1:] {
			if r.sets[a[0]][x] {
				s += ":1\r\n"
			} else {
				s += ":0\r\n"
			}
		}
		return []byte(s)
	case cmd == "SMEMBERS" && need(1):
		var xs []string
		for x := range r.sets[a[0]] {
			xs = append(xs, x)
		}
		sort.Strings(xs)
		b := arr(xs)
		if k.v3 {
			b[0] = '~'
		}
		return b
	case cmd == "SCARD" && need(1):
		return rInt(len(r.sets[a[0]]))
	case (cmd == "DEL" || cmd == "UNLINK") && need(1):
		n := 0
		for _, x := range a {
			if r.sets[x] != nil || r.strs[x] != "" {
				n++
			}
			delete(r.sets, x)
			delete(r.strs, x)
		}
		return rInt(n)
	case cmd == "EXISTS" && need(1):
		n := 0
		for _, x := range a {
			if _, ok := r.strs[x]; ok || r.sets[x] != nil {
				n++
			}
		}
		return rInt(n)
	case cmd == "EXPIRE" || cmd == "PEXPIRE":
		return rInt(1)
	case cmd == "SET" && need(2):
		r.strs[a[0]] = a[1]
		return []byte("+OK\r\n")
	case cmd == "GET" && need(1):
		if s, ok := r.strs[a[0]]; ok {
			return []byte(rBulk(s))
		}
		if k.v3 {
			return []byte("_\r\n")
		}
		return []byte("$-1\r\n")
	}
	r.bad = append(r.bad, fmt.Sprintf("%s %v", cmd, a))
	return []byte("-ERR unknown command '" + cmd + "'\r\n")
}

// redisGlob matches as PSUBSCRIBE does.
func redisGlob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			if p == "" {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if redisGlob(p, s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			s, p = s[1:], p[1:]
		case '[':
			end := strings.IndexByte(p, ']')
			if end < 0 || s == "" {
				return false
			}
			set := p[1:end]
			not := strings.HasPrefix(set, "^")
			set = strings.TrimPrefix(set, "^")
			hit := false
			for i := 0; i < len(set); i++ {
				if i+2 < len(set) && set[i+1] == '-' {
					if set[i] <= s[0] && s[0] <= set[i+2] {
						hit = true
					}
					i += 2
				} else if set[i] == s[0] {
					hit = true
				}
			}
			if hit == not {
				return false
			}
			s, p = s[1:], p[end+1:]
		default:
			if p[0] == '\\' && len(p) > 1 {
				p = p[1:]
			}
			if s == "" || s[0] != p[0] {
				return false
			}
			s, p = s[1:], p[1:]
		}
	}
	return s == ""
}
