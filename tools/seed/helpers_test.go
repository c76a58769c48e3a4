package neffos_test

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/kataras/neffos"
)

// an in-memory transport for the demonstrations.

type demoFrame struct {
	b   []byte
	typ neffos.MessageType
}

type demoQ struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []demoFrame
	closed bool
}

func newDemoQ() *demoQ { q := &demoQ{}; q.cond = sync.NewCond(&q.mu); return q }

type demoEnd struct {
	in, out *demoQ
	req     *http.Request
}

func demoPipe() (*demoEnd, *demoEnd) {
	a, b := newDemoQ(), newDemoQ()
	return &demoEnd{in: a, out: b}, &demoEnd{in: b, out: a}
}

func (e *demoEnd) NetConn() net.Conn      { return demoConn{e} }
func (e *demoEnd) Request() *http.Request { return e.req }
func (e *demoEnd) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	q := e.in
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.q) == 0 {
		if q.closed {
			return nil, 0, io.ErrUnexpectedEOF
		}
		q.cond.Wait()
	}
	f := q.q[0]
	q.q = q.q[1:]
	return f.b, f.typ, nil
}
func (e *demoEnd) write(b []byte, typ neffos.MessageType) error {
	q := e.out
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return &net.OpError{Op: "write", Net: "mem", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	q.q = append(q.q, demoFrame{append([]byte(nil), b...), typ})
	q.cond.Broadcast()
	return nil
}
func (e *demoEnd) WriteBinary(b []byte, _ time.Duration) error { return e.write(b, neffos.BinaryMessage) }
func (e *demoEnd) WriteText(b []byte, _ time.Duration) error   { return e.write(b, neffos.TextMessage) }
func (e *demoEnd) send(s string)                               { e.write([]byte(s), neffos.TextMessage) }

// recv reads a raw message, "" on the end or after a while.
func (e *demoEnd) recv(d time.Duration) string {
	stop := time.AfterFunc(d, func() { e.in.mu.Lock(); e.in.cond.Broadcast(); e.in.mu.Unlock() })
	defer stop.Stop()
	until := time.Now().Add(d)
	q := e.in
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.q) == 0 {
		if q.closed || !time.Now().Before(until) {
			return ""
		}
		q.cond.Wait()
	}
	f := q.q[0]
	q.q = q.q[1:]
	return string(f.b)
}

type demoConn struct{ e *demoEnd }

func (c demoConn) Close() error {
	for _, q := range []*demoQ{c.e.in, c.e.out} {
		q.mu.Lock()
		q.closed = true
		q.cond.Broadcast()
		q.mu.Unlock()
	}
	return nil
}
func (c demoConn) Read([]byte) (int, error)         { return 0, io.EOF }
func (c demoConn) Write([]byte) (int, error)        { return 0, io.EOF }
func (c demoConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c demoConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c demoConn) SetDeadline(time.Time) error      { return nil }
func (c demoConn) SetReadDeadline(time.Time) error  { return nil }
func (c demoConn) SetWriteDeadline(time.Time) error { return nil }

type demoKey struct{}

func demoUpgrader(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
	e, _ := r.Context().Value(demoKey{}).(*demoEnd)
	if e == nil {
		return nil, errors.New("no in-memory end")
	}
	e.req = r
	return e, nil
}

func demoServer(h neffos.ConnHandler) *neffos.Server {
	s := neffos.New(demoUpgrader, h)
	s.IDGenerator = func(_ http.ResponseWriter, r *http.Request) string { return r.URL.Query().Get("id") }
	return s
}

func demoServe(s *neffos.Server, e *demoEnd, id string) {
	req := httptest.NewRequest("GET", "http://mem/?id="+id, nil)
	go s.ServeHTTP(httptest.NewRecorder(), req.WithContext(context.WithValue(req.Context(), demoKey{}, e)))
}

// demoRaw connects a raw peer that completed the handshake.
func demoRaw(s *neffos.Server, id string) *demoEnd {
	c, e := demoPipe()
	demoServe(s, e, id)
	c.send("M")
	if !strings.HasPrefix(c.recv(5*time.Second), "A") {
		panic("not admitted")
	}
	return c
}

func demoDial(s *neffos.Server, id string, h neffos.ConnHandler) (*neffos.Client, error) {
	return neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
		c, e := demoPipe()
		demoServe(s, e, id)
		return c, nil
	}, "ws://mem", h)
}

func demoMust(t *testing.T, s *neffos.Server, id string, h neffos.ConnHandler, ns string) (*neffos.Client, *neffos.NSConn) {
	t.Helper()
	c, err := demoDial(s, id, h)
	if err != nil {
		t.Fatal(err)
	}
	n, err := c.Connect(context.Background(), ns)
	if err != nil {
		t.Fatal(err)
	}
	return c, n
}

// demoIn fails if f does not return in time.
func demoIn(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s does not return", what)
	}
}

func demoCtx(d time.Duration) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), d)
	return ctx
}

// demoUntil waits until f.
func demoUntil(t *testing.T, d time.Duration, what string, f func() bool) {
	t.Helper()
	for end := time.Now().Add(d); !f(); {
		if time.Now().After(end) {
			t.Fatalf("%s: never", what)
		}
		time.Sleep(time.Millisecond)
	}
}

var _ = demoRaw
var _ = demoMust
var _ = demoIn
var _ = demoCtx
var _ = demoUntil
var _ = demoDial
