package main

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

func init() {
	register(&Prop{ID: "C17", Quick: 2000, Thorough: 12000, Run: c17,
		Rule: "a case is a server or a client of one of the socket implementations and a raw peer of ours that writes and parses the bytes itself: 1-6 goroutines on the neffos side emit, ask, broadcast and write natively with sizes around every header boundary while the peer sends fragmented text and binary messages (cut anywhere, also inside of a character), pings between the fragments, pongs, requests, in chunks of any size, partly together with the handshake, reads slowly, and idles longer than the write timeout; every frame on the wire is parsed strictly and matched with what was written, every message and ping of the peer must be received or answered. Non-trivial: at least 10 frames each way. Distinct: by the hash of the frames' order"})
}

// c17Peer is the raw side.
type c17Peer struct {
	w      *W
	c      net.Conn
	br     *bufio.Reader
	client bool // the raw peer is the client

	wmu sync.Mutex
	r   *randT // with wmu

	mu    sync.Mutex
	pings []string
	ponged,
	frames int // pings answered so far (index), data frames
	sentFrames int
}

// enc encodes a message in frames; it registers its pings.
func (p *c17Peer) enc(r *randT, b []byte, bin bool) []byte {
	f := wsFrame{fin: true, op: opText, masked: p.client}
	if bin {
		f.op = opBin
	}
	put := func(g wsFrame) []byte {
		if p.client {
			r.Read(g.key[:])
		}
		p.mu.Lock()
		p.sentFrames++
		p.mu.Unlock()
		return g.enc(-1)
	}
	control := func() []byte {
		g := wsFrame{fin: true, op: opPing, masked: p.client, payload: randBytes(r, pick(r, []int{0, 1, 5, 124, 125}))}
		if chance(r, 25) {
			g.op = opPong
		} else {
			p.mu.Lock()
			p.pings = append(p.pings, string(g.payload))
			p.mu.Unlock()
		}
		return put(g)
	}
	var out []byte
	if chance(r, 15) {
		out = append(out, control()...)
	}
	if !chance(r, 40) {
		f.payload = b
		return append(out, put(f)...)
	}
	n := 1 + r.Intn(4)
	for i := 0; i <= n; i++ {
		k := len(b)
		if i < n && k > 0 {
			k = r.Intn(k + 1)
		}
		g := f
		g.payload, b = b[:k], b[k:]
		g.fin = i == n
		if i > 0 {
			g.op = opCont
		}
		out = append(out, put(g)...)
		if i < n && chance(r, 40) {
			out = append(out, control()...)
		}
	}
	return out
}

func (p *c17Peer) write(b []byte) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.writeLocked(b)
}

func (p *c17Peer) writeLocked(b []byte) {
	for len(b) > 0 {
		k := len(b)
		if chance(p.r, 40) {
			k = 1 + p.r.Intn(k)
		}
		if _, err := p.c.Write(b[:k]); err != nil {
			return
		}
		b = b[k:]
		if len(b) > 0 && chance(p.r, 10) {
			time.Sleep(time.Duration(p.r.Intn(300)) * time.Microsecond)
		}
	}
}

func (p *c17Peer) send(m rawMsg, bin bool) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.writeLocked(p.enc(p.r, []byte(m.wire()), bin))
}

// pong matches a pong with the pings.
func (p *c17Peer) pong(payload string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	i := p.ponged
	for i < len(p.pings) && p.pings[i] != payload {
		i++
	}
	p.w.Check(i < len(p.pings), "a pong %q, the pings that are not answered yet are %q", payload, p.pings[p.ponged:])
	p.ponged = i + 1
}

func c17(w *W) {
	r := w.R
	rawClient := chance(r, 50)
	impl := pick(r, []string{"gorilla", "gobwas"})
	idle := chance(r, 6)
	timeout := time.Duration(0)
	if idle {
		timeout = 300 * time.Millisecond
	} else if chance(r, 20) {
		timeout = time.Minute
	}

	type in struct {
		body string
		bin  bool
	}
	var mu sync.Mutex
	var got []in
	var conn *neffos.Conn
	var closedCb int32
	gone := make(chan struct{})
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		switch m.Event {
		case "in":
			mu.Lock()
			got = append(got, in{string(m.Body), m.SetBinary})
			mu.Unlock()
		case "q":
			return neffos.Reply(append([]byte("r:"), m.Body...))
		case neffos.OnNamespaceConnected:
			mu.Lock()
			conn = c.Conn
			mu.Unlock()
		case neffos.OnNamespaceDisconnect:
			if atomic.AddInt32(&closedCb, 1) == 1 {
				close(gone)
			}
		}
		return nil
	}
	var h neffos.ConnHandler = HandlerAll(cb, "a")
	if timeout > 0 {
		h = neffos.WithTimeout{WriteTimeout: timeout, Namespaces: HandlerAll(cb, "a")}
	}

	p := &c17Peer{w: w, client: rawClient, r: w.Rand()}
	var rig *Rig
	var srv *neffos.Server
	var cli *neffos.Client
	var ln net.Listener

	// what the peer sends: the handshake, the namespace and the messages.
	var pre []byte
	nIn := 5 + r.Intn(25)
	if idle {
		nIn = 5
	}
	var want []in
	var inMsgs []rawMsg
	for i := 0; i < nIn; i++ {
		bin := chance(r, 35)
		var body []byte
		if bin {
			body = randBytes(r, bodySize(r))
		} else {
			body = textBody(r, bodySize(r))
			if !utf8.Valid(body) {
				body = []byte("x")
			}
		}
		want = append(want, in{string(body), bin})
		inMsgs = append(inMsgs, rawMsg{ns: "a", event: "in", body: string(body)})
	}
	connectTok := "77"
	if rawClient {
		connectTok = "$77"
		pre = append(pre, p.enc(p.r, []byte("M"), false)...)
	} else {
		pre = append(pre, p.enc(p.r, []byte("Araw"), false)...)
	}
	pre = append(pre, p.enc(p.r, []byte(rawMsg{wait: connectTok, ns: "a", event: neffos.OnNamespaceConnect}.wire()), false)...)
	early := 0
	if chance(r, 50) { // messages directly after.
		early = r.Intn(len(inMsgs))
		for i := 0; i < early; i++ {
			pre = append(pre, p.enc(p.r, []byte(inMsgs[i].wire()), want[i].bin)...)
		}
	}
	var extra []byte
	if chance(r, 50) && !(rawClient && impl == "gorilla") {
		k := r.Intn(len(pre) + 1)
		extra, pre = pre[:k], pre[k:]
	}

	dialErr := make(chan error, 1)
	if rawClient {
		rig = NewRig(w, impl+">"+impl, h)
		srv = rig.Srv
		var err error
		if p.c, p.br, err = wsDial(rig.dialURL("raw", ""), extra); err != nil {
			w.Violate("raw dial with %d more bytes: %v", len(extra), err)
		}
	} else {
		var err error
		ln, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			w.Inconclusive("listen: %v", err)
		}
		d := gobwas.Dialer(gobwasws.Dialer{})
		if impl == "gorilla" {
			d = gorilla.Dialer(&gorillaws.Dialer{}, http.Header{})
		}
		go func() {
			var err error
			cli, err = neffos.Dial(context.Background(), d, "ws://"+ln.Addr().String()+"/x", h)
			dialErr <- err
		}()
		if p.c, err = ln.Accept(); err != nil {
			w.Inconclusive("accept: %v", err)
		}
		if p.br, _, err = wsAccept(p.c, extra); err != nil {
			w.Violate("the client's handshake: %v", err)
		}
	}

	// the reader.
	type out struct {
		body string
		bin  bool
	}
	sent := make(map[string]out) // id -> what the neffos side writes
	var smu sync.Mutex
	seen := map[string]int{}
	lastOf := map[string]int{}
	frames := 0
	replies := map[string]string{} // raw's tokens
	fail := func(format string, args ...interface{}) { w.Violate(format, args...) }
	ended := make(chan error, 1)
	slow := chance(r, 25)
	rs := w.Rand()
	message := func(b []byte, bin bool) {
		s := string(b)
		w.Event()
		switch {
		case s == "M" && !rawClient, strings.HasPrefix(s, "A") && rawClient && s == "Araw":
			return
		case strings.HasPrefix(s, "raw|"): // native
			id := strings.SplitN(s, "|", 3)[1]
			smu.Lock()
			e := sent[id]
			seen[id]++
			n := seen[id]
			frames++
			smu.Unlock()
			w.Check(s == e.body && bin == e.bin, "the native frame %s: %d bytes (binary %v), written %d (binary %v)", id, len(s), bin, len(e.body), e.bin)
			w.Check(n == 1, "the frame %s appeared %d times", id, n)
			w.Sign(id)
			return
		}
		m, ok := parseRaw(s)
		if !ok {
			fail("a frame of %d bytes which nobody wrote: %q", len(s), clip(s, 200))
		}
		if m.wait == connectTok || m.event == "q" && strings.HasPrefix(m.body, "r:") {
			smu.Lock()
			replies[m.wait] = m.body
			smu.Unlock()
			return
		}
		p1 := strings.SplitN(m.body, "|", 2)
		smu.Lock()
		e, known := sent[p1[0]]
		seen[p1[0]]++
		n := seen[p1[0]]
		frames++
		smu.Unlock()
		if !known {
			fail("a frame which nobody wrote: %q", clip(s, 200))
		}
		w.Check(m.body == e.body, "the frame of %s has a body of %d bytes, written %d", p1[0], len(m.body), len(e.body))
		w.Check(m.wait != "" || bin == e.bin, "the frame of %s is binary: %v", p1[0], bin)
		w.Check(n == 1, "the frame of %s appeared %d times", p1[0], n)
		w.Sign(p1[0])
		var g, k int
		fmt.Sscanf(p1[0], "%d.%d", &g, &k)
		smu.Lock()
		l, has := lastOf[fmt.Sprint(g)]
		lastOf[fmt.Sprint(g)] = k
		smu.Unlock()
		w.Check(!has || k > l, "the frame %s was written after %d.%d, by the same goroutine", p1[0], g, l)
		if m.wait != "" { // it asks.
			go p.send(rawMsg{wait: m.wait, ns: m.ns, event: m.event, body: "a:" + p1[0] + strings.Repeat("y", len(p1[0])*len(p1[1])%700)}, chance(w.Rand(), 50))
		}
	}
	go func() {
		var cur []byte
		var curOp byte
		inMsg := false
		for {
			if slow && chance(rs, 20) {
				time.Sleep(time.Duration(rs.Intn(1500)) * time.Microsecond)
			}
			f, err := readWS(p.br)
			if err != nil {
				ended <- err
				return
			}
			if e := wsProtocolError(f, !rawClient); e != "" {
				fail("on the wire: %s: %s", f, e)
			}
			switch {
			case f.op == opPong:
				p.pong(string(f.payload))
			case f.op == opPing:
			case f.op == opClose:
			case f.op == opCont:
				if !inMsg {
					fail("on the wire: a continuation of nothing: %s", f)
				}
				cur = append(cur, f.payload...)
				inMsg = !f.fin
			default:
				if inMsg {
					fail("on the wire: a message inside of another: %s", f)
				}
				cur, curOp, inMsg = append([]byte(nil), f.payload...), f.op, !f.fin
			}
			if f.op <= opBin && !inMsg {
				if curOp == opText && !utf8.Valid(cur) {
					fail("on the wire: a text frame which is not UTF-8: %q", clip(string(cur), 100))
				}
				message(cur, curOp == opBin)
			}
		}
	}()
	p.write(pre)
	if !rawClient {
		var err error
		w.Call(func() { err = <-dialErr }, "the dial")
		w.Check(err == nil, "the dial: %v", err)
	}
	w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return conn != nil }, "the namespace's connection")
	ns := conn.Namespace("a")
	w.Check(ns != nil, "no namespace")

	emitters := 1 + r.Intn(6)
	per := 3 + r.Intn(20)
	if idle {
		per = 4
	}
	rr := make([]*randT, emitters)
	for i := range rr {
		rr[i] = w.Rand()
	}
	var rawAsks = 1 + r.Intn(6)
	register := func(id string, body string, bin bool) {
		smu.Lock()
		sent[id] = out{body, bin}
		smu.Unlock()
	}
	one := func(r *randT, g, k int, mustAsk bool) {
		id := fmt.Sprintf("%d.%d", g, k)
		bin := chance(r, 35)
		var pad string
		// whole frames around the sizes where the header changes.
		size := bodySize(r)
		if chance(r, 25) {
			size = pick(r, []int{125, 126, 127, 65535, 65536, 65537}) - len(";a;;e;0;0;") - len(id) - 1 + r.Intn(3) - 1
		}
		if bin {
			pad = string(randBytes(r, size))
		} else {
			pad = string(textBody(r, size))
			if !utf8.ValidString(pad) {
				pad = ""
			}
		}
		body := id + "|" + pad
		switch x := r.Intn(10); {
		case x == 0 || mustAsk:
			body = id + "|" + strings.Repeat("z", len(pad))
			register(id, body, false)
			var rep neffos.Message
			var err error
			w.Call(func() { rep, err = ns.Ask(w.Ctx(), "ask", []byte(body)) }, "ask %s", id)
			w.Check(err == nil && string(rep.Body) == "a:"+id+strings.Repeat("y", len(id)*len(pad)%700), "ask %s returned %d bytes %q, %v", id, len(rep.Body), clip(string(rep.Body), 60), err)
		case x == 1: // native, written by the socket.
			body = "raw|" + id + "|" + pad
			register(id, body, bin)
			var err error
			w.Call(func() {
				if bin {
					err = conn.Socket().WriteBinary([]byte(body), 0)
				} else {
					err = conn.Socket().WriteText([]byte(body), 0)
				}
			}, "write %s", id)
			w.Check(err == nil, "write: %v", err)
		case x == 2 && srv != nil:
			register(id, body, bin)
			w.Call(func() {
				srv.Broadcast(nil, neffos.Message{Namespace: "a", Event: "e", Body: []byte(body), SetBinary: bin})
			}, "broadcast %s", id)
			w.Await(func() bool { smu.Lock(); defer smu.Unlock(); return seen[id] > 0 }, "broadcast %s", id)
		case x == 3:
			register(id, body, bin)
			ok := false
			w.Call(func() {
				ok = conn.Write(neffos.Message{Namespace: "a", Event: "e", Body: []byte(body), SetBinary: bin})
			}, "write %s", id)
			w.Check(ok, "write %s failed", id)
		default:
			register(id, body, bin)
			ok := false
			w.Call(func() {
				if bin {
					ok = ns.EmitBinary("e", []byte(body))
				} else {
					ok = ns.Emit("e", []byte(body))
				}
			}, "emit %s", id)
			w.Check(ok, "emit %s failed", id)
		}
	}
	w.Go(emitters+2, "the writers", func(g int) {
		switch g - emitters {
		case 0: // the peer's messages.
			for i := early; i < len(inMsgs); i++ {
				p.send(inMsgs[i], want[i].bin)
			}
		case 1: // the peer's requests.
			for k := 0; k < rawAsks; k++ {
				tok := fmt.Sprint(1000 + k)
				if rawClient {
					tok = "$" + tok
				}
				q := fmt.Sprint("q", k)
				p.send(rawMsg{wait: tok, ns: "a", event: "q", body: q}, false)
				w.Await(func() bool { smu.Lock(); defer smu.Unlock(); return replies[tok] == "r:"+q }, "the reply of %s", q)
			}
		default:
			for k := 0; k < per; k++ {
				one(rr[g], g, k, false)
			}
		}
	})
	settled := func(what string) {
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= len(want) }, "%s: all %d messages of the peer", what, len(want))
		w.Await(func() bool { smu.Lock(); defer smu.Unlock(); return len(seen) >= len(sent) }, "%s: all frames", what)
		w.Await(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.ponged >= len(p.pings) }, "%s: the pong of the last ping", what)
	}
	settled("at first")
	if idle {
		time.Sleep(timeout + 150*time.Millisecond)
		w.Bump()
		// a ping, then messages.
		g := wsFrame{fin: true, op: opPing, masked: rawClient, payload: []byte("after the idle time")}
		p.mu.Lock()
		p.pings = append(p.pings, string(g.payload))
		p.mu.Unlock()
		p.write(g.enc(-1))
		settled("after the idle time")
		one(r, 90, 0, true)
		want = append(want, in{"after", false})
		p.send(rawMsg{ns: "a", event: "in", body: "after"}, false)
		one(r, 90, 1, false)
		settled("at last")
	}
	mu.Lock()
	for i := range want {
		w.Check(got[i] == want[i], "message %d of the peer: sent %d bytes (binary %v), received %d bytes (binary %v)", i, len(want[i].body), want[i].bin, len(got[i].body), got[i].bin)
	}
	w.Check(len(got) == len(want), "%d messages were sent, %d received", len(want), len(got))
	mu.Unlock()
	w.Check(atomic.LoadInt32(&closedCb) == 0, "the connection ended")
	// the end, by a close frame or not.
	how := r.Intn(3)
	switch how {
	case 0:
		g := wsFrame{fin: true, op: opClose, masked: rawClient}
		if chance(r, 70) {
			g.payload = append([]byte{3, 232}, "bye"...)
		}
		p.write(g.enc(-1))
	case 1:
		p.c.Close()
	default:
		w.Call(conn.Close, "close")
	}
	w.Chan(gone, "the end of the connection")
	if how != 1 {
		var err error
		w.Call(func() { err = <-ended }, "the end of the frames")
		w.Check(err != errTruncated, "the last frame is truncated")
	}
	w.Await(conn.IsClosed, "the closed connection")
	p.c.Close()
	if ln != nil {
		ln.Close()
	}
	if rig != nil {
		rig.Close()
	}
	_ = cli
	smu.Lock()
	p.mu.Lock()
	w.Stat("frames_of_neffos", int64(frames))
	w.Stat("frames_of_peer", int64(p.sentFrames))
	w.Stat("pings", int64(len(p.pings)))
	w.Stat(map[bool]string{true: "server ", false: "client "}[rawClient]+impl, 1)
	if idle {
		w.Stat("idle_periods", 1)
	}
	if len(extra) > 0 {
		w.Stat("bytes_with_handshake", int64(len(extra)))
	}
	w.Sample("%s %s, %d writers x %d, %d messages of the peer (%d frames, %d pings), %d bytes with the handshake, idle %v, slow reader %v, %d frames", map[bool]string{true: "server", false: "client"}[rawClient], impl, emitters, per, len(want), p.sentFrames, len(p.pings), len(extra), idle, slow, frames)
	if frames >= 10 && p.sentFrames >= 10 {
		w.Nontrivial()
	}
	p.mu.Unlock()
	smu.Unlock()
}
