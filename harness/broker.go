package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/stackexchange/nats"
	"github.com/kataras/neffos/stackexchange/redis"
	natsgo "github.com/nats-io/nats.go"
)

// broker is an in-process stand-in for Redis (pub/sub) or NATS, with an inspectable table of subscriptions.
type broker struct {
	w      *W
	kind   string // redis, nats
	ln     net.Listener
	jitter bool

	mu        sync.Mutex
	conns     map[*bconn]bool
	published int64
	delivered int64
	accepted  int64
	bad       string // a protocol error of a client
	hold      map[string]bool
	down      bool   // an outage: nobody is accepted
	refuse    string // nats: subscriptions to subjects with this suffix are refused
	reconnect bool   // nats: the exchanges reconnect
	pass      string // what a client has to authenticate with
	r         *randT // of the exchanges' configurations
}

type bconn struct {
	b    *broker
	c    net.Conn
	out  chan []byte
	done chan struct{}
	once sync.Once
	// subscriptions: redis: "s:chan" or "p:pattern"; nats: sid -> subject.
	subs   map[string]string
	noEcho bool
	dial   int64
	slow   *randT // of its subscriptions
	authed bool
}

// lag delays a subscription.
func (c *bconn) lag(cmd string) {
	if c.slow != nil && strings.Contains(strings.ToUpper(cmd), "SUB") && chance(c.slow, 30) {
		sleepy(c.slow, 2500)
	}
}

func newBroker(w *W, kind string, jitter bool) *broker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		w.Inconclusive("listen: %v", err)
	}
	b := &broker{w: w, kind: kind, ln: ln, jitter: jitter, conns: map[*bconn]bool{}, r: w.Rand()}
	if chance(b.r, 25) {
		b.pass = "s3cret"
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			bc := &bconn{b: b, c: c, out: make(chan []byte, 1<<16), done: make(chan struct{}), subs: map[string]string{}}
			b.mu.Lock()
			if b.down {
				b.mu.Unlock()
				c.Close()
				continue
			}
			b.accepted++
			bc.dial = b.accepted
			b.conns[bc] = true
			b.mu.Unlock()
			go bc.writer(w.Rand())
			if jitter {
				bc.slow = w.Rand()
			}
			if kind == "redis" {
				go bc.redis()
			} else {
				go bc.nats()
			}
		}
	}()
	return b
}

// exchange returns a new exchange, as one more server would have.
func (b *broker) exchange() neffos.StackExchange { return b.exchangeOf("neffos") }

// exchangeOf is exchange of a channel or subject prefix, which separates the servers that share a broker.
func (b *broker) exchangeOf(prefix string) neffos.StackExchange {
	addr := b.ln.Addr().String()
	if b.kind == "redis" {
		cfg := redis.Config{Addr: addr, Password: b.pass, MaxActive: pick(b.r, []int{0, 0, 1, 3}), DialTimeout: pick(b.r, []time.Duration{0, 0, -1, time.Minute})}
		e, err := redis.NewStackExchange(cfg, prefix)
		if err != nil {
			b.w.Violate("redis exchange %+v: %v", cfg, err)
		}
		return e
	}
	opts := []natsgo.Option{natsgo.MaxReconnects(0)}
	if b.reconnect {
		opts = []natsgo.Option{natsgo.MaxReconnects(-1), natsgo.ReconnectWait(3 * time.Millisecond), natsgo.ReconnectJitter(0, 0)}
	}
	opts = append(opts, natsgo.ErrorHandler(func(*natsgo.Conn, *natsgo.Subscription, error) {}))
	url := "nats://" + addr
	if b.pass != "" {
		if chance(b.r, 50) {
			url = "nats://user:" + b.pass + "@" + addr
		} else {
			opts = append(opts, natsgo.UserInfo("user", b.pass))
		}
	}
	if !b.reconnect {
		switch b.r.Intn(6) {
		case 0: // one of them does not exist.
			url = "nats://127.0.0.1:1, " + url
		case 1:
			url = url + " ,nats://127.0.0.1:1"
		case 2: // all the options at once.
			o := natsgo.GetDefaultOptions()
			o.Url, o.AllowReconnect = url, false
			for _, f := range opts {
				f(&o)
			}
			url, opts = "", []natsgo.Option{nats.With(o)}
		}
	}
	e, err := nats.NewStackExchange(url, opts...)
	if err != nil {
		b.w.Violate("nats exchange %q: %v", url, err)
	}
	e.SubjectPrefix = prefix
	return e
}

// table returns the subscriptions, sorted.
func (b *broker) table() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var t []string
	for c := range b.conns {
		for _, s := range c.subs {
			t = append(t, s)
		}
	}
	sort.Strings(t)
	return t
}

func (b *broker) count() (conns int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.conns)
}

func (b *broker) protocolError() string { b.mu.Lock(); defer b.mu.Unlock(); return b.bad }

// outage ends all connections and accepts no more until back.
func (b *broker) outage() {
	b.mu.Lock()
	b.down = true
	for c := range b.conns {
		c.c.Close()
	}
	b.mu.Unlock()
	b.w.Await(func() bool { return b.count() == 0 }, "the broker's connections to end")
}

func (b *broker) back() { b.mu.Lock(); b.down = false; b.mu.Unlock() }

func (b *broker) close() {
	b.ln.Close()
	b.mu.Lock()
	for c := range b.conns {
		c.c.Close()
	}
	b.mu.Unlock()
}

func (c *bconn) end() {
	c.once.Do(func() {
		c.b.mu.Lock()
		delete(c.b.conns, c)
		c.b.mu.Unlock()
		close(c.done)
		c.c.Close()
	})
}

func (c *bconn) fail(format string, args ...interface{}) {
	c.b.mu.Lock()
	if c.b.bad == "" {
		c.b.bad = fmt.Sprintf(format, args...)
	}
	c.b.mu.Unlock()
}

func (c *bconn) writer(r *randT) {
	for {
		select {
		case <-c.done:
			return
		case p := <-c.out:
			if c.b.jitter && r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			}
			if _, err := c.c.Write(p); err != nil {
				c.end()
				return
			}
		}
	}
}

func (c *bconn) send(s string) {
	select {
	case c.out <- []byte(s):
	case <-c.done:
	}
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func readRESP(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" || line[0] != '*' {
		return nil, fmt.Errorf("not a command: %q", line)
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" || l[0] != '$' {
			return nil, fmt.Errorf("not a bulk string: %q", l)
		}
		k, err := strconv.Atoi(l[1:])
		if err != nil {
			return nil, err
		}
		p := make([]byte, k+2)
		if _, err := io.ReadFull(br, p); err != nil {
			return nil, err
		}
		args = append(args, string(p[:k]))
	}
	return args, nil
}

func (c *bconn) redis() {
	defer c.end()
	br := bufio.NewReader(c.c)
	for {
		args, err := readRESP(br)
		if err != nil {
			if err != io.EOF && !strings.Contains(err.Error(), "connection") {
				c.fail("redis: %v", err)
			}
			return
		}
		if len(args) == 0 {
			continue
		}
		c.lag(args[0])
		c.b.mu.Lock()
		switch cmd := strings.ToUpper(args[0]); cmd {
		case "AUTH":
			if c.authed = args[len(args)-1] == c.b.pass; c.authed {
				c.send("+OK\r\n")
			} else {
				c.send("-ERR invalid password\r\n")
			}
		case "PING":
			if c.b.pass != "" && !c.authed {
				c.send("-NOAUTH Authentication required.\r\n")
				break
			}
			if len(c.subs) > 0 {
				c.send("*2\r\n" + bulk("pong") + bulk(""))
			} else {
				c.send("+PONG\r\n")
			}
		case "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE":
			if c.b.pass != "" && !c.authed {
				c.send("-NOAUTH Authentication required.\r\n")
				break
			}
			pre := "s:"
			if strings.Contains(cmd, "PSUB") || strings.Contains(cmd, "PUNSUB") {
				pre = "p:"
			}
			for _, ch := range args[1:] {
				if strings.Contains(cmd, "UNSUB") {
					delete(c.subs, pre+ch)
				} else {
					c.subs[pre+ch] = pre + ch
				}
				c.send("*3\r\n" + bulk(strings.ToLower(cmd)) + bulk(ch) + ":" + strconv.Itoa(len(c.subs)) + "\r\n")
			}
		case "PUBLISH":
			if c.b.pass != "" && !c.authed {
				c.send("-NOAUTH Authentication required.\r\n")
				break
			}
			if len(args) != 3 {
				c.send("-ERR wrong number of arguments\r\n")
				break
			}
			n := 0
			c.b.published++
			for o := range c.b.conns {
				for k := range o.subs {
					switch {
					case k == "s:"+args[1]:
						o.send("*3\r\n" + bulk("message") + bulk(args[1]) + bulk(args[2]))
						n++
					case strings.HasPrefix(k, "p:") && globMatch(k[2:], args[1]):
						o.send("*4\r\n" + bulk("pmessage") + bulk(k[2:]) + bulk(args[1]) + bulk(args[2]))
						n++
					}
				}
			}
			c.b.delivered += int64(n)
			c.send(":" + strconv.Itoa(n) + "\r\n")
		default:
			c.send("-ERR unknown command\r\n")
		}
		c.b.mu.Unlock()
		if strings.ToUpper(args[0]) != "PING" { // keep-alive is not progress.
			c.b.w.Event()
		}
	}
}

func globMatch(p, s string) bool {
	if p == s {
		return true
	}
	if !strings.ContainsAny(p, "*?[\\") {
		return false
	}
	ok, _ := path.Match(p, s)
	return ok
}

func natsMatch(sub, s string) bool {
	if sub == s {
		return true
	}
	if !strings.ContainsAny(sub, "*>") {
		return false
	}
	a, b := strings.Split(sub, "."), strings.Split(s, ".")
	for i, t := range a {
		if t == ">" {
			return len(b) > i
		}
		if i >= len(b) || t != "*" && t != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func (c *bconn) nats() {
	defer c.end()
	c.send(`INFO {"server_id":"x","version":"2.10.0","proto":1,"headers":true,"max_payload":8388608,"client_id":1}` + "\r\n")
	br := bufio.NewReader(c.c)
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			continue
		}
		f := strings.Fields(line)
		c.lag(f[0])
		c.b.mu.Lock()
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				Echo *bool  `json:"echo"`
				Pass string `json:"pass"`
			}
			json.Unmarshal([]byte(line[7:]), &o)
			if o.Pass != c.b.pass {
				c.b.mu.Unlock()
				c.send("-ERR 'Authorization Violation'\r\n")
				time.Sleep(5 * time.Millisecond)
				return
			}
			c.noEcho = o.Echo != nil && !*o.Echo
		case "PING":
			c.send("PONG\r\n")
		case "PONG":
		case "SUB":
			if c.b.refuse != "" && strings.HasSuffix(f[1], c.b.refuse) {
				c.send("-ERR 'Permissions Violation for Subscription to \"" + f[1] + "\"'\r\n")
				break
			}
			c.subs[f[len(f)-1]] = f[1]
		case "UNSUB":
			if len(f) == 2 {
				delete(c.subs, f[1])
			}
		case "PUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil || len(f) < 3 {
				c.b.mu.Unlock()
				c.fail("nats: %q", line)
				c.send("-ERR 'Unknown Protocol Operation'\r\n")
				return
			}
			c.b.mu.Unlock()
			p := make([]byte, n+2)
			if _, err := io.ReadFull(br, p); err != nil {
				return
			}
			if string(p[n:]) != "\r\n" {
				c.fail("nats: payload of %q", line)
				return
			}
			c.b.mu.Lock()
			c.b.published++
			for o := range c.b.conns {
				if o == c && c.noEcho {
					continue
				}
				for sid, sub := range o.subs {
					if natsMatch(sub, f[1]) {
						o.send("MSG " + f[1] + " " + sid + " " + strconv.Itoa(n) + "\r\n" + string(p))
						c.b.delivered++
					}
				}
			}
		default:
			c.b.mu.Unlock()
			c.fail("nats: %q", line)
			c.send("-ERR 'Unknown Protocol Operation'\r\n")
			return
		}
		c.b.mu.Unlock()
		if !strings.HasPrefix(strings.ToUpper(f[0]), "P") || strings.ToUpper(f[0]) == "PUB" { // keep-alive is not progress.
			c.b.w.Event()
		}
	}
}
