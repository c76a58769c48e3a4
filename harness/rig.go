package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

// ---- in-memory transport ----

type frame struct {
	body   []byte
	binary bool
}

// memQ is one direction of an in-memory connection.
type memQ struct {
	mu     sync.Mutex
	frames []frame
	limit  int  // blocks the writer when full, 0 for no limit
	eof    bool // the writer's end is closed
	dead   bool // the reader's end is closed
	held   bool // delivery is paused
	ch     chan struct{}
}

func newMemQ() *memQ { return &memQ{ch: make(chan struct{})} }

func (q *memQ) wake() { close(q.ch); q.ch = make(chan struct{}) }

var errMemClosed = &net.OpError{Op: "read", Net: "mem", Err: errors.New("use of closed network connection")}
var errMemPipe = &net.OpError{Op: "write", Net: "mem", Err: os.NewSyscallError("write", syscall.EPIPE)}

type memTimeout struct{}

func (memTimeout) Error() string   { return "i/o timeout" }
func (memTimeout) Timeout() bool   { return true }
func (memTimeout) Temporary() bool { return true }

func timeoutErr(op string) error { return &net.OpError{Op: op, Net: "mem", Err: memTimeout{}} }

func (q *memQ) push(f frame, timeout time.Duration) error {
	var timer <-chan time.Time
	if timeout > 0 {
		t := time.NewTimer(timeout)
		defer t.Stop()
		timer = t.C
	}
	for {
		q.mu.Lock()
		if q.dead || q.eof {
			q.mu.Unlock()
			return errMemPipe
		}
		if q.limit == 0 || len(q.frames) < q.limit {
			q.frames = append(q.frames, f)
			q.wake()
			q.mu.Unlock()
			return nil
		}
		ch := q.ch
		q.mu.Unlock()
		select {
		case <-ch:
		case <-timer:
			return timeoutErr("write")
		}
	}
}

func (q *memQ) pop(timeout time.Duration) (frame, error) {
	var timer <-chan time.Time
	if timeout > 0 {
		t := time.NewTimer(timeout)
		defer t.Stop()
		timer = t.C
	}
	for {
		q.mu.Lock()
		if q.dead {
			q.mu.Unlock()
			return frame{}, errMemClosed
		}
		if len(q.frames) > 0 && !q.held {
			f := q.frames[0]
			q.frames = q.frames[1:]
			q.wake()
			q.mu.Unlock()
			return f, nil
		}
		if q.eof && !q.held {
			q.mu.Unlock()
			return frame{}, io.EOF
		}
		ch := q.ch
		q.mu.Unlock()
		select {
		case <-ch:
		case <-timer:
			return frame{}, timeoutErr("read")
		}
	}
}

func (q *memQ) setLimit(n int) { q.mu.Lock(); q.limit = n; q.wake(); q.mu.Unlock() }
func (q *memQ) hold(v bool)    { q.mu.Lock(); q.held = v; q.wake(); q.mu.Unlock() }
func (q *memQ) length() int    { q.mu.Lock(); defer q.mu.Unlock(); return len(q.frames) }
func (q *memQ) closeWriter()   { q.mu.Lock(); q.eof = true; q.wake(); q.mu.Unlock() }
func (q *memQ) closeReader()   { q.mu.Lock(); q.dead = true; q.wake(); q.mu.Unlock() }

// memEnd is one end of an in-memory connection, it completes the neffos.Socket.
type memEnd struct {
	in, out *memQ
	req     *http.Request
	conn    *memConn

	reading  int32
	overlaps int32
	jitter   *rand.Rand // reader only
}

type memConn struct {
	e      *memEnd
	closed int32
}

func memPipe() (client, server *memEnd) {
	a, b := newMemQ(), newMemQ()
	client = &memEnd{in: a, out: b}
	server = &memEnd{in: b, out: a}
	client.conn = &memConn{e: client}
	server.conn = &memConn{e: server}
	return
}

func (e *memEnd) NetConn() net.Conn      { return e.conn }
func (e *memEnd) Request() *http.Request { return e.req }
func (e *memEnd) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	if atomic.AddInt32(&e.reading, 1) > 1 {
		atomic.AddInt32(&e.overlaps, 1)
	}
	defer atomic.AddInt32(&e.reading, -1)
	if e.jitter != nil && e.jitter.Intn(4) == 0 {
		time.Sleep(time.Duration(e.jitter.Intn(800)) * time.Microsecond)
	}
	f, err := e.in.pop(timeout)
	if err != nil {
		return nil, 0, err
	}
	typ := neffos.MessageType(neffos.TextMessage)
	if f.binary {
		typ = neffos.MessageType(neffos.BinaryMessage)
	}
	return f.body, typ, nil
}

func (e *memEnd) write(b []byte, binary bool, timeout time.Duration) error {
	if atomic.LoadInt32(&e.conn.closed) > 0 {
		return &net.OpError{Op: "write", Net: "mem", Err: errors.New("use of closed network connection")}
	}
	return e.out.push(frame{append([]byte(nil), b...), binary}, timeout)
}
func (e *memEnd) WriteBinary(b []byte, t time.Duration) error { return e.write(b, true, t) }
func (e *memEnd) WriteText(b []byte, t time.Duration) error   { return e.write(b, false, t) }

// raw helpers for harness peers.
func (e *memEnd) Send(s string) error { return e.write([]byte(s), false, 0) }
func (e *memEnd) Recv() (string, bool, error) {
	f, err := e.in.pop(0)
	return string(f.body), f.binary, err
}

func (c *memConn) Close() error {
	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
		c.e.in.closeReader()
		c.e.out.closeWriter()
	}
	return nil
}
func (c *memConn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c *memConn) Write([]byte) (int, error)        { return 0, io.EOF }
func (c *memConn) LocalAddr() net.Addr              { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr             { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

type memKey struct{}

// memUpgrader takes the server's end out of the request's context.
func memUpgrader(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
	e, _ := r.Context().Value(memKey{}).(*memEnd)
	if e == nil {
		return nil, errors.New("not an in-memory request")
	}
	e.req = r
	return e, nil
}

// ---- tracked net connections ----

type trackConn struct {
	net.Conn
	closed int32
	cut    int32
}

func (c *trackConn) Close() error {
	atomic.StoreInt32(&c.closed, 1)
	return c.Conn.Close()
}

type trackListener struct {
	net.Listener
	rig *Rig
}

func (l *trackListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	t := &trackConn{Conn: c}
	l.rig.mu.Lock()
	l.rig.srvConns = append(l.rig.srvConns, t)
	l.rig.mu.Unlock()
	return t, nil
}

// ---- rig ----

// transports: client implementation > server implementation.
var transports = []string{"mem", "gorilla>gorilla", "gobwas>gobwas", "gorilla>gobwas", "gobwas>gorilla"}
var tcpTransports = transports[1:]

// Rig is a neffos server reachable by a transport.
type Rig struct {
	w    *W
	Kind string
	Srv  *neffos.Server
	URL  string

	// Wrap wraps the server's sockets.
	Wrap func(s neffos.Socket, r *http.Request) neffos.Socket
	// OnUpgrade is called with the result of the upgrade.
	OnUpgrade func(c *neffos.Conn, err error, r *http.Request)

	hs *http.Server
	ln net.Listener

	mu       sync.Mutex
	srvConns []*trackConn
	cliConns []*trackConn
	memEnds  []*memEnd // server ends
	ids      int64
	inflight int64 // upgrades in progress
}

func upgraderOf(kind string) neffos.Upgrader {
	switch {
	case kind == "mem":
		return memUpgrader
	case strings.HasSuffix(kind, ">gorilla"):
		return gorilla.Upgrader(gorillaws.Upgrader{})
	default:
		return gobwas.Upgrader(gobwasws.HTTPUpgrader{})
	}
}

// NewRig starts a server. The ID of a connection is the "vid" query parameter of the dial.
func NewRig(w *W, kind string, h neffos.ConnHandler, opts ...func(*neffos.Server)) *Rig {
	r := &Rig{w: w, Kind: kind}
	r.Srv = neffos.New(upgraderOf(kind), h)
	r.Srv.IDGenerator = func(_ http.ResponseWriter, req *http.Request) string {
		if q := req.URL.Query(); q.Has("vid") {
			return q.Get("vid")
		}
		return fmt.Sprintf("auto%d", atomic.AddInt64(&r.ids, 1))
	}
	for _, o := range opts {
		o(r.Srv)
	}
	r.URL = "ws://mem.local/ws"
	if kind != "mem" {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			w.Inconclusive("listen: %v", err)
		}
		r.ln = &trackListener{ln, r}
		r.URL = "ws://" + ln.Addr().String() + "/ws"
		r.hs = &http.Server{Handler: r, ErrorLog: quietLog}
		go r.hs.Serve(r.ln)
	}
	return r
}

// ServeHTTP upgrades.
func (r *Rig) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	atomic.AddInt64(&r.inflight, 1)
	defer atomic.AddInt64(&r.inflight, -1)
	var wrap func(neffos.Socket) neffos.Socket
	if r.Wrap != nil {
		wrap = func(s neffos.Socket) neffos.Socket { return r.Wrap(s, req) }
	}
	c, err := r.Srv.Upgrade(rw, req, wrap, nil)
	if r.OnUpgrade != nil {
		r.OnUpgrade(c, err, req)
	}
}

func (r *Rig) dialURL(id string, extra string) string {
	u := r.URL + "?vid=" + url.QueryEscape(id)
	if extra != "" {
		u += "&" + extra
	}
	return u
}

// MemRaw connects a raw in-memory peer; the returned end is the client's.
func (r *Rig) MemRaw(id string) *memEnd {
	c, s := memPipe()
	r.serveMem(s, r.dialURL(id, ""))
	return c
}

func (r *Rig) serveMem(s *memEnd, u string) {
	r.mu.Lock()
	r.memEnds = append(r.memEnds, s)
	r.mu.Unlock()
	req := httptest.NewRequest("GET", strings.Replace(u, "ws://", "http://", 1), nil)
	req = req.WithContext(context.WithValue(req.Context(), memKey{}, s))
	atomic.AddInt64(&r.inflight, 1)
	go func() {
		defer atomic.AddInt64(&r.inflight, -1)
		r.ServeHTTP(httptest.NewRecorder(), req)
		if s.req == nil { // it was not upgraded, like a http server that answers something else.
			s.conn.Close()
		}
	}()
}

// Link is the client's side of a dial.
type Link struct {
	Sock neffos.Socket // the unwrapped one
	conn net.Conn
}

// Cut cuts the network under the client (its peer sees a reset or an end).
func (l *Link) Cut() { l.conn.Close() }

// Dialer returns the dialer of this transport; wrap and link are optional.
func (r *Rig) Dialer(link *Link, wrap func(neffos.Socket) neffos.Socket) neffos.Dialer {
	return func(ctx context.Context, u string) (neffos.Socket, error) {
		var s neffos.Socket
		var err error
		var nc net.Conn
		track := func(c net.Conn, err error) (net.Conn, error) {
			if err != nil {
				return nil, err
			}
			t := &trackConn{Conn: c}
			r.mu.Lock()
			r.cliConns = append(r.cliConns, t)
			r.mu.Unlock()
			nc = t
			return t, nil
		}
		switch {
		case r.Kind == "mem":
			c, srv := memPipe()
			if r.w != nil && r.w.Noise {
				c.jitter = r.w.Rand()
				srv.jitter = r.w.Rand()
			}
			r.serveMem(srv, u)
			s, nc = c, c.conn
		case strings.HasPrefix(r.Kind, "gorilla>"):
			d := &gorillaws.Dialer{NetDialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
				return track((&net.Dialer{}).DialContext(ctx, network, addr))
			}}
			s, err = gorilla.Dialer(d, http.Header{})(ctx, u)
		default:
			d := gobwasws.Dialer{NetDial: func(ctx context.Context, network, addr string) (net.Conn, error) {
				return track((&net.Dialer{}).DialContext(ctx, network, addr))
			}}
			s, err = gobwas.Dialer(d)(ctx, u)
		}
		if err != nil {
			return nil, err
		}
		if link != nil {
			link.Sock, link.conn = s, nc
		}
		if wrap != nil {
			s = wrap(s)
		}
		return s, nil
	}
}

// TryDial dials a client.
func (r *Rig) TryDial(id string, h neffos.ConnHandler, wrap func(neffos.Socket) neffos.Socket) (*neffos.Client, *Link, error) {
	link := &Link{}
	defer r.w.Waiting("dial " + id)()
	c, err := neffos.Dial(context.Background(), r.Dialer(link, wrap), r.dialURL(id, ""), h)
	return c, link, err
}

// Dial dials a client that must succeed.
func (r *Rig) Dial(id string, h neffos.ConnHandler) (*neffos.Client, *Link) {
	c, l, err := r.TryDial(id, h, nil)
	if err != nil {
		r.w.Violate("dial of %q failed: %v", id, err)
	}
	return c, l
}

// Connect connects to a namespace, it must succeed.
func (r *Rig) Connect(c *neffos.Client, ns string) *neffos.NSConn {
	defer r.w.Waiting("connect " + c.ID + " to " + ns)()
	n, err := c.Connect(context.Background(), ns)
	if err != nil || n == nil {
		r.w.Violate("connect of %q to namespace %q failed: %v", c.ID, ns, err)
	}
	return n
}

// Close closes the server and its listener.
func (r *Rig) Close() {
	defer r.w.Waiting("server close")()
	r.Srv.Close()
	if r.hs != nil {
		r.hs.Close()
	}
}

// HandlerAll returns Namespaces whose namespaces all use the same any-event callback (system events included).
func HandlerAll(cb neffos.MessageHandlerFunc, namespaces ...string) neffos.Namespaces {
	nss := neffos.Namespaces{}
	for _, ns := range namespaces {
		nss[ns] = neffos.Events{neffos.OnAnyEvent: cb}
	}
	return nss
}

// sleepy sleeps up to n microseconds.
func sleepy(r *rand.Rand, n int) {
	if n > 0 {
		time.Sleep(time.Duration(r.Intn(n)) * time.Microsecond)
	}
}
