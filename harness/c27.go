package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C27", Quick: 5000, Thorough: 30000, Run: func(w *W) {
		if w.Case%3 == 2 {
			c27Real(w)
			return
		}
		c27Direct(w)
	},
		Rule: "a case is 20-60 concurrent upgrade requests of any method with generated URL parameters, headers, reconnect counters, ID generators, socket wrappers, failing upgraders and possibly a closed server, through the API (recorded response and socket) or through a real HTTP server with good and bad websocket handshakes; status, headers, callbacks, returned values and the connection are compared with the contract. Non-trivial: at least one connection, one refused method and one failed upgrade. Distinct: by the hash of the requests"})
}

var c27methods = []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "get", "PROPFIND"}

type c27wrap struct {
	neffos.Socket
	reads, writes int32
}

func (s *c27wrap) WriteText(b []byte, t time.Duration) error {
	atomic.AddInt32(&s.writes, 1)
	return s.Socket.WriteText(b, t)
}
func (s *c27wrap) WriteBinary(b []byte, t time.Duration) error {
	atomic.AddInt32(&s.writes, 1)
	return s.Socket.WriteBinary(b, t)
}
func (s *c27wrap) ReadData(t time.Duration) ([]byte, neffos.MessageType, error) {
	atomic.AddInt32(&s.reads, 1)
	return s.Socket.ReadData(t)
}

// genParams generates URL parameters and the headers they (and the given ones) must become.
func genParams(r *randT, i int) (q url.Values, given, want http.Header) {
	q, given, want = url.Values{}, http.Header{}, http.Header{}
	for k := r.Intn(3); k > 0; k-- {
		name := pick(r, []string{"X-Given", "Authorization", "X-Other", "Cookie"})
		v := fmt.Sprintf("g%d-%d", i, k)
		given.Add(name, v)
		want.Add(name, v)
	}
	prefixes := []string{"X-Websocket-Header-", "x-websocket-header-", "X-WebSocket-Header-", "X-WEBSOCKET-HEADER-"}
	used := map[string]bool{}
	for k := r.Intn(5); k > 0; k-- {
		name := pick(r, []string{"X-Given", "X-Param", "x-lower", "Authorization", "A", "X-Websocket-Header-Nested", "token-1"})
		if used[http.CanonicalHeaderKey(name)] {
			continue
		}
		used[http.CanonicalHeaderKey(name)] = true
		key := pick(r, prefixes) + name
		for n := 1 + r.Intn(2); n > 0; n-- {
			v := pick(r, []string{"v", "", "a b", "ü", "x;y", "1"}) + fmt.Sprint(i)
			q.Add(key, v)
			want.Add(name, v)
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		q.Add(pick(r, []string{"id", "token", "X-Websocket-Header", "X-Websocket-Header-", "Header-X", "Not-X-Websocket-Header-Foo", "X-Websocket-HeaderFoo", "Sec-Key", "X-Websocket-Reconnect"}), fmt.Sprint("no", i))
	}
	return
}

func c27Direct(w *W) {
	r := w.R
	type req struct {
		i        int
		method   string
		q        url.Values
		given    http.Header
		want     http.Header
		tries    int
		fail     error
		customID string
		wrap     bool
		serve    bool // through ServeHTTP
	}
	type seen struct {
		upgrades, ids, custom, wraps int
		header                       http.Header
		sock                         neffos.Socket
	}
	type key struct{}
	var mu sync.Mutex
	sees := map[int]*seen{}
	var upErrs []error
	idx := func(rq *http.Request) int { return rq.Context().Value(key{}).(*req).i }
	handler := neffos.Namespaces{"n": neffos.Events{"e": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply([]byte("pong")) }}}
	srv := neffos.New(func(rw http.ResponseWriter, rq *http.Request) (neffos.Socket, error) {
		q := rq.Context().Value(key{}).(*req)
		mu.Lock()
		s := sees[q.i]
		s.upgrades++
		s.header = rq.Header.Clone()
		mu.Unlock()
		if q.fail != nil {
			http.Error(rw, "no", http.StatusTeapot)
			return nil, q.fail
		}
		sock, err := memUpgrader(rw, rq)
		s.sock = sock
		return sock, err
	}, handler)
	custom := chance(r, 70)
	if custom {
		srv.IDGenerator = func(_ http.ResponseWriter, rq *http.Request) string {
			mu.Lock()
			defer mu.Unlock()
			sees[idx(rq)].ids++
			return fmt.Sprint("server-id-", idx(rq))
		}
	}
	hasErrCb := chance(r, 80)
	if hasErrCb {
		srv.OnUpgradeError = func(err error) {
			mu.Lock()
			upErrs = append(upErrs, err)
			mu.Unlock()
		}
	}
	var onConnect int32
	srv.OnConnect = func(c *neffos.Conn) error { atomic.AddInt32(&onConnect, 1); return nil }
	ids := map[string]bool{}
	var live, refused, failed, head int
	run := func(q *req, closed bool) {
		rr := httptest.NewRequest("GET", "http://x/ws?"+q.q.Encode(), nil)
		rr.Method = q.method
		rr.Header = q.given.Clone()
		if q.tries >= 0 && q.q.Get("X-Websocket-Header-X-Websocket-Reconnect") == "" {
			rr.Header.Set("X-Websocket-Reconnect", fmt.Sprint(q.tries))
		}
		cli, end := memPipe()
		ctx := context.WithValue(context.WithValue(rr.Context(), key{}, q), memKey{}, end)
		rr = rr.WithContext(ctx)
		rec := httptest.NewRecorder()
		var wrapped *c27wrap
		var wrap func(neffos.Socket) neffos.Socket
		var gen neffos.IDGenerator
		s := &seen{}
		mu.Lock()
		sees[q.i] = s
		mu.Unlock()
		if q.wrap {
			wrap = func(in neffos.Socket) neffos.Socket {
				w.Check(in == s.sock, "the wrapper was given another socket than the upgrader's")
				s.wraps++
				wrapped = &c27wrap{Socket: in}
				return wrapped
			}
		}
		if q.customID != "" {
			gen = func(http.ResponseWriter, *http.Request) string { s.custom++; return q.customID }
		}
		var c *neffos.Conn
		var err error
		if q.serve {
			w.Call(func() { srv.ServeHTTP(rec, rr) }, "ServeHTTP")
		} else {
			w.Call(func() { c, err = srv.Upgrade(rec, rr, wrap, gen) }, "Upgrade")
		}
		w.Event()
		w.Log("%d %s %s given=%v tries=%d fail=%v custom=%q wrap=%v serve=%v closed=%v -> %d %v %v", q.i, q.method, rr.URL.RawQuery, q.given, q.tries, q.fail, q.customID, q.wrap, q.serve, closed, rec.Code, rec.Header(), err)
		mu.Lock()
		sc := *s
		nerr := 0
		for _, e := range upErrs {
			if q.fail != nil && e == q.fail {
				nerr++
			}
		}
		mu.Unlock()
		none := func() {
			w.Check(c == nil, "%s: a connection was returned together with error %v", q.method, err)
			w.Check(q.serve || err != nil, "%s: no connection and no error", q.method)
		}
		if closed {
			if q.method == "GET" {
				w.Check(rec.Code == 500, "a closed server answered %d", rec.Code)
				w.Check(sc.upgrades == 0, "a closed server upgraded")
				w.Check(!neffos.IsTryingToReconnect(err), "the error of a closed server is a reconnection attempt")
				none()
			}
			return
		}
		switch {
		case q.method == "HEAD":
			w.Check(rec.Code == http.StatusFound, "a HEAD probe was answered with %d", rec.Code)
			w.Check(q.serve || neffos.IsTryingToReconnect(err), "a HEAD probe is not reported as a reconnection attempt: %v", err)
			w.Check(sc.upgrades == 0, "a HEAD probe was upgraded")
			none()
		case q.method != "GET":
			w.Check(rec.Code == 405, "method %s was answered with %d", q.method, rec.Code)
			w.Check(rec.Header().Get("Allow") == "GET", "method %s was answered with Allow: %q", q.method, rec.Header().Get("Allow"))
			w.Check(!neffos.IsTryingToReconnect(err), "method %s is a reconnection attempt", q.method)
			w.Check(sc.upgrades == 0, "method %s was upgraded", q.method)
			none()
		case q.fail != nil:
			w.Check(q.serve || err == q.fail, "the failed upgrade returned %v instead of %v", err, q.fail)
			w.Check(!hasErrCb || nerr == 1, "the failed upgrade was reported %d times", nerr)
			w.Check(!neffos.IsTryingToReconnect(err), "a failed upgrade is a reconnection attempt")
			w.Check(sc.upgrades == 1 && sc.wraps == 0, "a failed upgrade: upgrader called %d times, wrapper %d", sc.upgrades, sc.wraps)
			w.Check(rec.Code == http.StatusTeapot, "the answer of the failed upgrade is %d", rec.Code)
			none()
		default:
			w.Check(sc.upgrades == 1, "the upgrader was called %d times", sc.upgrades)
			// headers, as the upgrader and the connection see them.
			got := sc.header
			got.Del("X-Websocket-Reconnect")
			w.Check(reflect.DeepEqual(got, q.want), "the request's headers are %v, expected %v", got, q.want)
			if !q.serve {
				w.Check(err == nil && c != nil, "upgrade failed: %v", err)
				w.Check(c.Server() == srv && !c.IsClient() && !c.IsClosed(), "the connection is not a live one of this server")
				want := q.customID
				switch {
				case want != "":
					w.Check(sc.custom == 1 && sc.ids == 0, "the custom ID generator was called %d times, the server's %d", sc.custom, sc.ids)
				case custom:
					want = fmt.Sprint("server-id-", q.i)
					w.Check(sc.ids == 1, "the ID generator was called %d times", sc.ids)
				default:
					w.Check(c.ID() != "", "the default ID is empty")
					mu.Lock()
					w.Check(!ids[c.ID()], "two connections have the ID %s", c.ID())
					ids[c.ID()] = true
					mu.Unlock()
					want = c.ID()
				}
				w.Check(c.ID() == want, "the ID is %q, expected %q", c.ID(), want)
				tries := q.tries
				if tries < 0 {
					tries = 0
				}
				w.Check(c.ReconnectTries == tries && c.WasReconnected() == (tries > 0), "ReconnectTries is %d (%v), expected %d", c.ReconnectTries, c.WasReconnected(), tries)
				if q.wrap {
					w.Check(sc.wraps == 1, "the wrapper was called %d times", sc.wraps)
					w.Check(c.Socket() == neffos.Socket(wrapped), "the wrapped socket is not the one used")
				} else {
					w.Check(c.Socket() == s.sock, "the socket is not the upgrader's")
				}
				w.Check(c.Socket().Request().URL.String() == rr.URL.String(), "the socket's request is another one")
			}
			// it works, by that socket.
			cli.Send("M")
			b, _, rerr := cli.Recv()
			w.Check(rerr == nil && strings.HasPrefix(b, "A") && (c == nil || b[1:] == c.ID()), "the handshake was answered with %q, %v", b, rerr)
			cli.Send("$1;n;;_OnNamespaceConnect;0;0;")
			b, _, rerr = cli.Recv()
			w.Check(rerr == nil && strings.HasPrefix(b, "$1;"), "a connect was answered with %q, %v", b, rerr)
			cli.Send("$2;n;;e;0;0;")
			b, _, rerr = cli.Recv()
			w.Check(rerr == nil && strings.HasSuffix(b, ";pong"), "an ask was answered with %q, %v", b, rerr)
			if wrapped != nil {
				writes, reads := atomic.LoadInt32(&wrapped.writes), atomic.LoadInt32(&wrapped.reads)
				w.Check(writes == 3 && reads >= 3, "the wrapped socket saw %d writes and %d reads", writes, reads)
			}
		}
		w.Sign(fmt.Sprint(q.method, rec.Code, len(q.want), q.tries, q.wrap, q.customID != ""))
	}
	n := 20 + r.Intn(40)
	var reqs []*req
	for i := 0; i < n; i++ {
		q := &req{i: i, method: pick(r, c27methods), tries: -1}
		q.q, q.given, q.want = genParams(r, i)
		if chance(r, 40) {
			q.tries = pick(r, []int{r.Intn(20), r.Intn(20), r.Intn(2000), 127, 128, 255, 256, 65536, 70000, 1 << 31, 1<<40 + 1})
			if chance(r, 40) {
				q.q.Set("X-Websocket-Header-X-Websocket-Reconnect", fmt.Sprint(q.tries))
			}
		}
		if chance(r, 20) {
			q.fail = fmt.Errorf("upgrade error %d", i)
		}
		if chance(r, 30) {
			q.customID = fmt.Sprint("custom-", i)
		}
		q.wrap = chance(r, 40)
		if chance(r, 20) {
			q.serve, q.wrap, q.customID = true, false, ""
		}
		reqs = append(reqs, q)
	}
	if chance(r, 50) {
		for _, q := range reqs {
			run(q, false)
		}
	} else {
		g := 2 + r.Intn(5)
		w.Go(g, "the requests", func(k int) {
			for i := k; i < len(reqs); i += g {
				run(reqs[i], false)
			}
		})
	}
	for _, q := range reqs {
		switch {
		case q.method == "HEAD":
			head++
		case q.method != "GET":
			refused++
		case q.fail != nil:
			failed++
		default:
			live++
		}
	}
	w.Await(func() bool { return int(srv.GetTotalConnections()) == live }, "the total of %d connections", live)
	w.Check(int(atomic.LoadInt32(&onConnect)) == live, "OnConnect was called %d times for %d connections", onConnect, live)
	mu.Lock()
	w.Check(!hasErrCb || len(upErrs) == failed, "%d upgrade errors were reported, expected %d", len(upErrs), failed)
	mu.Unlock()
	w.Call(srv.Close, "server close")
	for i := 0; i < 5; i++ {
		q := &req{i: 1000 + i, method: pick(r, c27methods[:5]), tries: -1}
		q.q, q.given, q.want = genParams(r, i)
		run(q, true)
	}
	w.Stat("connections", int64(live))
	w.Stat("refused_methods", int64(refused))
	w.Stat("head_probes", int64(head))
	w.Stat("failed_upgrades", int64(failed))
	w.Sample("direct, %d requests: %d connections, %d refused methods, %d HEAD, %d failed upgrades", n, live, refused, head, failed)
	if live > 0 && refused > 0 && failed > 0 {
		w.Nontrivial()
	}
}

// c27Real goes through net/http with raw requests.
func c27Real(w *W) {
	r := w.R
	kind := pick(r, tcpTransports)
	var upErr, conns int64
	rig := NewRig(w, kind, neffos.Namespaces{"n": neffos.Events{}}, func(s *neffos.Server) {
		s.OnUpgradeError = func(err error) { w.Check(err != nil, "a nil upgrade error"); atomic.AddInt64(&upErr, 1) }
	})
	var mu sync.Mutex
	results := map[string]error{}
	got := map[string]*neffos.Conn{}
	rig.OnUpgrade = func(c *neffos.Conn, err error, rq *http.Request) {
		mu.Lock()
		results[rq.Header.Get("X-Req")] = err
		got[rq.Header.Get("X-Req")] = c
		mu.Unlock()
		w.Event()
	}
	var bad, good, refused int
	var open []net.Conn
	for i := 0; i < 10+r.Intn(20); i++ {
		method := pick(r, c27methods[:10])
		q, given, want := genParams(r, i)
		id := fmt.Sprint("r", i)
		h := map[string]string{"Host": "x", "Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ==", "X-Req": id}
		broken := ""
		if chance(r, 35) {
			broken = pick(r, []string{"Connection", "Upgrade", "Sec-WebSocket-Key", "Sec-WebSocket-Version"})
			switch {
			case chance(r, 60):
				delete(h, broken)
			case broken == "Sec-WebSocket-Version":
				h[broken] = "12"
			case broken == "Sec-WebSocket-Key":
				h[broken] = ""
			default:
				h[broken] = "nothing"
			}
		}
		q.Set("vid", id)
		tries := 0
		if chance(r, 30) {
			tries = pick(r, []int{1 + r.Intn(9), 1 + r.Intn(9), 256, 1 + r.Intn(100000)})
			if chance(r, 50) {
				h["X-Websocket-Reconnect"] = fmt.Sprint(tries)
			} else {
				q.Set("X-Websocket-Header-X-Websocket-Reconnect", fmt.Sprint(tries))
			}
		}
		nc, err := net.Dial("tcp", rig.ln.Addr().String())
		if err != nil {
			w.Inconclusive("dial: %v", err)
		}
		open = append(open, nc)
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s /ws?%s HTTP/1.1\r\n", method, q.Encode())
		for k, v := range h {
			fmt.Fprintf(&sb, "%s: %s\r\n", k, v)
		}
		for k, vs := range given {
			for _, v := range vs {
				fmt.Fprintf(&sb, "%s: %s\r\n", k, v)
			}
		}
		sb.WriteString("\r\n")
		nc.Write([]byte(sb.String()))
		br := bufio.NewReader(nc)
		var resp *http.Response
		w.Call(func() { resp, err = http.ReadResponse(br, &http.Request{Method: method}) }, "the response")
		w.Check(err == nil, "no response to %s: %v", method, err)
		var c *neffos.Conn
		var uerr error
		w.Await(func() bool {
			mu.Lock()
			defer mu.Unlock()
			var ok bool
			uerr, ok = results[id]
			c = got[id]
			return ok
		}, "the result of request %d", i)
		w.Log("%d %s broken=%s -> %d %v", i, method, broken, resp.StatusCode, uerr)
		switch {
		case method == "HEAD":
			w.Check(resp.StatusCode == 302 && neffos.IsTryingToReconnect(uerr) && c == nil, "a HEAD probe was answered with %d, %v", resp.StatusCode, uerr)
		case method != "GET":
			refused++
			w.Check(resp.StatusCode == 405 && resp.Header.Get("Allow") == "GET" && uerr != nil && c == nil, "method %s was answered with %d, Allow %q, %v", method, resp.StatusCode, resp.Header.Get("Allow"), uerr)
		case broken != "":
			bad++
			w.Check(resp.StatusCode >= 400 && resp.StatusCode < 500, "a bad handshake (%s) was answered with %d", broken, resp.StatusCode)
			w.Check(uerr != nil && c == nil && !neffos.IsTryingToReconnect(uerr), "a bad handshake (%s) returned %v", broken, uerr)
		default:
			good++
			conns++
			w.Check(resp.StatusCode == 101 && uerr == nil && c != nil, "a handshake was answered with %d, %v", resp.StatusCode, uerr)
			w.Check(c.ID() == id && c.ReconnectTries == tries, "the connection's ID is %q with %d tries, expected %q, %d", c.ID(), c.ReconnectTries, id, tries)
			hd := c.Socket().Request().Header
			for k, vs := range want {
				w.Check(reflect.DeepEqual(hd[k], vs), "header %s is %q, expected %q", k, hd[k], vs)
			}
			for k := range hd {
				if _, ok := want[k]; !ok {
					lib := false
					for x := range h {
						lib = lib || http.CanonicalHeaderKey(x) == k
					}
					w.Check(lib || k == "X-Websocket-Reconnect", "unexpected header %s: %q", k, hd[k])
				}
			}
		}
		w.Sign(fmt.Sprint(method, broken, resp.StatusCode, tries > 0))
	}
	w.Check(atomic.LoadInt64(&upErr) == int64(bad), "%d upgrade errors were reported of %d bad handshakes", upErr, bad)
	w.Await(func() bool { return int(rig.Srv.GetTotalConnections()) == good }, "the total of %d connections", good)
	w.Call(rig.Srv.Close, "server close")
	rec := httptest.NewRecorder()
	c, err := rig.Srv.Upgrade(rec, httptest.NewRequest("GET", "http://x/", nil), nil, nil)
	w.Check(rec.Code == 500 && c == nil && err != nil && !errors.Is(err, context.Canceled), "a closed server answered %d, %v", rec.Code, err)
	for _, nc := range open {
		nc.Close()
	}
	rig.hs.Close()
	w.Stat("real_connections", int64(good))
	w.Stat("bad_handshakes", int64(bad))
	w.Sample("%s: %d handshakes, %d bad ones, %d refused methods", kind, good, bad, refused)
	if good > 0 && bad > 0 && refused > 0 {
		w.Nontrivial()
	}
}
