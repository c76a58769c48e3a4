package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C28", Quick: 2500, Thorough: 20000, Run: func(w *W) {
		switch w.Case % 5 {
		case 0:
			c28Only(w)
		case 1:
			c28None(w)
		case 2:
			c28Wire(w)
		default:
			c28Mixed(w)
		}
	},
		Rule: "a case is 20-80 raw payloads (text and binary, 1 byte to 70 KB, any bytes, protocol look-alikes) mixed with valid messages, requests and callbacks that ask, sent over 5 transports by raw peers, neffos clients and servers to sides that declare a native callback beside others, only that, only that beside other namespaces, in another namespace, or none; the callback log is compared with what was sent, and native writes with the frames a raw peer reads. Non-trivial: at least 10 native payloads were received (or were refused). Distinct: by the hash of what was sent. On native-only servers OnConnect itself may write and wait for the answer"})
}

// rawPeer is a websocket peer which does not speak neffos by itself.
type rawPeer struct {
	m *memEnd
	g *gorillaws.Conn
	// gorilla's connections have one writer.
	mu sync.Mutex
}

func dialRaw(w *W, rig *Rig, id string) *rawPeer {
	if rig.Kind == "mem" {
		return &rawPeer{m: rig.MemRaw(id)}
	}
	g, _, err := (&gorillaws.Dialer{}).Dial(rig.dialURL(id, ""), nil)
	if err != nil {
		w.Inconclusive("raw dial: %v", err)
	}
	return &rawPeer{g: g}
}

func (p *rawPeer) send(b []byte, binary bool) error {
	if p.m != nil {
		return p.m.write(b, binary, 0)
	}
	typ := gorillaws.TextMessage
	if binary {
		typ = gorillaws.BinaryMessage
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.g.WriteMessage(typ, b)
}

func (p *rawPeer) recv() ([]byte, bool, error) {
	if p.m != nil {
		f, err := p.m.in.pop(0)
		return f.body, f.binary, err
	}
	typ, b, err := p.g.ReadMessage()
	return b, typ == gorillaws.BinaryMessage, err
}

func (p *rawPeer) close() {
	if p.m != nil {
		p.m.conn.Close()
	} else {
		p.g.Close()
	}
}

type nat struct {
	body   []byte
	binary bool
}

func (n nat) String() string {
	return fmt.Sprintf("%v %d %q", n.binary, len(n.body), clip(string(n.body), 40))
}

// nativePayload generates a non-empty payload which is not a well-formed message.
func nativePayload(r *randT) nat {
	for {
		n := nat{binary: chance(r, 35)}
		size := 1 + r.Intn(60)
		if chance(r, 7) {
			size = pick(r, []int{125, 126, 127, 1024, 4096, 65535, 65536, 65537, 70000})
		}
		switch {
		case chance(r, 40):
			n.body = []byte(pick(r, []string{"M", "A", "Aid", "H", "Herror", "hello", ";", ";;;;;", ";;n;e;0", "$1;n;;e;0;", "{\"a\": \"b\"}", "neffos(0x1(x))", "neffos(id:x", "!", "#1", "_OnNativeMessage", "1;2;3;4;5;6", "\n", " ", "\x00"}))
			if chance(r, 30) {
				n.body = append(n.body, byte('0'+r.Intn(10)))
			}
		case n.binary:
			n.body = randBytes(r, size)
		default:
			n.body = textBody(r, size)
		}
		if size > 60 {
			if i := r.Intn(6); bytes.Count(n.body, []byte(";")) > i {
				n.body = append(bytes.Replace(n.body, []byte(";"), []byte(":"), -1), ";;;;;"[:i]...)
			}
		}
		if bytes.Count(n.body, []byte(";")) >= 6 || len(n.body) == 0 {
			continue
		}
		return n
	}
}

type natLog struct {
	mu  sync.Mutex
	log []string
}

func (l *natLog) add(w *W, s string) {
	l.mu.Lock()
	l.log = append(l.log, s)
	l.mu.Unlock()
	w.Event()
}
func (l *natLog) get() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.log...)
}

func natKey(kind string, body []byte, binary bool) string {
	return fmt.Sprintf("%s|%v|%d|%q", kind, binary, len(body), body)
}

func (w *W) sameLog(got, want []string, what string) {
	for i := range want {
		if i >= len(got) {
			w.Violate("%s: only %d of %d were received, missing %s", what, len(got), len(want), clip(want[i], 100))
		}
		w.Check(got[i] == want[i], "%s: number %d is %s, expected %s", what, i, clip(got[i], 100), clip(want[i], 100))
	}
	if len(got) > len(want) {
		w.Violate("%s: %d were received instead of %d, the first more is %s", what, len(got), len(want), clip(got[len(want)], 100))
	}
}

// c28Only: a side that declares nothing but the native callback.
func c28Only(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 20 + r.Intn(40)
	slog, clog := &natLog{}, &natLog{}
	done := []byte("the end ;;;;;;;;;")
	knock, knocked := chance(r, 25), make(chan struct{}) // the connect callback writes and waits for an answer.
	h := func(l *natLog, slow bool) neffos.Events {
		return neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
			w.Check(m.IsNative && m.Namespace == "" && m.Room == "" && m.Err == nil && m.Event == neffos.OnNativeMessage, "a native message came as %+v", m)
			w.Check(c != nil && c.Conn != nil, "a native message without a connection")
			switch string(m.Body) {
			case "knock":
				w.Check(c.Conn.Write(neffos.Message{Body: []byte("knocked"), IsNative: true}), "a native answer was not written")
				return nil
			case "knocked":
				close(knocked)
				return nil
			}
			if slow && len(m.Body)%5 == 0 || len(m.Body) >= 65536 {
				time.Sleep(200 * time.Microsecond)
			}
			l.add(w, natKey("n", m.Body, m.SetBinary))
			if bytes.HasPrefix(m.Body, []byte("echo")) {
				if !c.Conn.Write(neffos.Message{Body: m.Body, IsNative: true, SetBinary: m.SetBinary}) {
					w.Violate("an echo was not written")
				}
			}
			return nil
		}}
	}
	var sconn *neffos.Conn
	ready := make(chan struct{})
	rig := NewRig(w, kind, pick(r, []neffos.ConnHandler{h(slog, true), neffos.Namespaces{"": h(slog, true)}, neffos.WithTimeout{Events: h(slog, false)}}), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			if knock {
				w.Check(c.Write(neffos.Message{Body: []byte("knock"), IsNative: true}), "a native write in the connect callback failed")
				w.Chan(knocked, "the answer to a native message which was written in the connect callback")
			}
			sconn = c
			close(ready)
			return nil
		}
		s.SyncBroadcaster = chance(r, 30)
	})
	var send func(nat) bool
	var raw *rawPeer
	var wantS, wantC []string
	rawGot := &natLog{}
	var cli *neffos.Client
	if chance(r, 50) { // a neffos client that is native only.
		var cconn *neffos.Conn
		cready := make(chan struct{})
		var once sync.Once
		ch := h(clog, false)
		base := ch[neffos.OnNativeMessage]
		ch[neffos.OnNativeMessage] = func(c *neffos.NSConn, m neffos.Message) error {
			once.Do(func() { cconn = c.Conn; close(cready) })
			if string(m.Body) == "hello" && !m.SetBinary {
				return nil
			}
			return base(c, m)
		}
		cli, _ = rig.Dial("x", ch)
		w.Chan(ready, "the server's connection")
		// the client's connection is learned from the first message.
		w.Check(sconn.Write(neffos.Message{Body: []byte("hello"), IsNative: true}), "a native write failed")
		w.Chan(cready, "the first native message of the client")
		send = func(p nat) bool {
			return cconn.Write(neffos.Message{Body: p.body, IsNative: true, SetBinary: p.binary})
		}
	} else {
		raw = dialRaw(w, rig, "x")
		go func() {
			for {
				b, bin, err := raw.recv()
				if err != nil {
					return
				}
				if string(b) == "knock" {
					raw.send([]byte("knocked"), false)
					continue
				}
				rawGot.add(w, natKey("n", b, bin))
			}
		}()
		w.Chan(ready, "the server's connection")
		send = func(p nat) bool { return raw.send(p.body, p.binary) == nil }
	}
	var wg sync.WaitGroup
	echo := chance(r, 30)
	wg.Add(1)
	rs := w.Rand()
	go func() { // to the server: everything, well-formed messages too.
		defer wg.Done()
		for i := 0; i < n; i++ {
			p := nativePayload(rs)
			if bytes.HasPrefix(p.body, []byte("echo")) {
				continue
			}
			switch {
			case chance(rs, 15):
				p = nat{body: []byte(pick(rs, []string{"$1;;;_OnNamespaceConnect;0;0;", ";;;_OnNativeMessage;0;0;body", "1;n;r;e;0;0;x", ";;;;;;;;;;", "1;;;e;1;0;error", "neffos(0xa;;;e;0;0;"}))}
			case echo && cli == nil && chance(rs, 20):
				p = nat{body: []byte(fmt.Sprint("echo", i)), binary: chance(rs, 50)}
				wantC = append(wantC, natKey("n", p.body, p.binary))
			}
			wantS = append(wantS, natKey("n", p.body, p.binary))
			w.Check(send(p), "a native payload was not sent")
		}
		wantS = append(wantS, natKey("n", done, false))
		send(nat{body: done})
	}()
	if !echo {
		wg.Add(1)
		rc := w.Rand()
		go func() { // to the client, by writes and broadcasts.
			defer wg.Done()
			byBroadcast := chance(rc, 40)
			for i := 0; i < n/2; i++ {
				p := nativePayload(rc)
				if bytes.HasPrefix(p.body, []byte("echo")) || string(p.body) == "hello" {
					continue
				}
				wantC = append(wantC, natKey("n", p.body, p.binary))
				m := neffos.Message{Body: p.body, IsNative: true, SetBinary: p.binary}
				if byBroadcast {
					rig.Srv.Broadcast(nil, m)
				} else {
					w.Check(sconn.Write(m), "a native write failed")
				}
			}
			wantC = append(wantC, natKey("n", done, true))
			m := neffos.Message{Body: done, IsNative: true, SetBinary: true}
			if byBroadcast {
				rig.Srv.Broadcast(nil, m)
			} else {
				sconn.Write(m)
			}
		}()
	}
	w.Join(&wg, "the senders")
	cgot := clog.get
	if raw != nil {
		cgot = rawGot.get
	}
	w.Await(func() bool { return len(slog.get()) >= len(wantS) && len(cgot()) >= len(wantC) }, "%d native messages of the server and %d of the client", len(wantS), len(wantC))
	w.sameLog(slog.get(), wantS, "native messages of the server")
	w.sameLog(cgot(), wantC, "native messages of the client")
	// no handshake frames were written to the peer.
	w.Stat("native", int64(len(wantS)+len(wantC)))
	w.Sign(fmt.Sprint(kind, wantS, wantC))
	w.Sample("native only, %s, raw peer %v, %d to the server, %d to the client, echo %v", kind, raw != nil, len(wantS), len(wantC), echo)
	if len(wantS) > 10 {
		w.Nontrivial()
	}
	if raw != nil {
		raw.close()
	} else {
		cli.Close()
	}
	w.Await(func() bool { return sconn.IsClosed() }, "the end of the connection")
	w.sameLog(slog.get(), wantS, "native messages of the server at the end")
	w.Call(rig.Close, "server close")
}

// c28Mixed: the native callback is declared beside other events and namespaces.
func c28Mixed(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 30 + r.Intn(50)
	var peer *neffos.NSConn // of the side that is asked by the "work" callback
	log := &natLog{}
	receiver := r.Intn(2) // 0: the server receives, 1: the client does
	rcv := neffos.Namespaces{
		"": neffos.Events{
			neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
				w.Check(m.IsNative && m.Namespace == "" && m.Room == "" && m.Err == nil, "a native message came as %+v", m)
				log.add(w, natKey("n", m.Body, m.SetBinary))
				return nil
			},
			"e": func(c *neffos.NSConn, m neffos.Message) error {
				w.Check(!m.IsNative, "an event came as native")
				log.add(w, natKey("e", m.Body, m.SetBinary))
				return nil
			},
			"ask": func(c *neffos.NSConn, m neffos.Message) error {
				log.add(w, natKey("ask", m.Body, m.SetBinary))
				return neffos.Reply(m.Body)
			},
			"work": func(c *neffos.NSConn, m neffos.Message) error { // messages arrive while this one asks.
				log.add(w, natKey("work", m.Body, m.SetBinary))
				rep, err := c.Ask(w.Ctx(), "echo", m.Body)
				w.Check(err == nil && bytes.Equal(rep.Body, m.Body), "an ask inside a callback was answered with %q, %v", rep.Body, err)
				log.add(w, natKey("worked", m.Body, m.SetBinary))
				return nil
			},
		},
		"n": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
			log.add(w, natKey("ne", m.Body, m.SetBinary))
			return nil
		}, neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
			w.Violate("the native callback of a named namespace fired")
			return nil
		}, "ask": func(c *neffos.NSConn, m neffos.Message) error {
			log.add(w, natKey("ask", m.Body, m.SetBinary))
			return neffos.Reply(m.Body)
		}},
	}
	alone := chance(r, 25) // the native callback is alone in the empty namespace, the other events are of "n".
	evns, eKey := "", "e"
	if alone {
		rcv[""] = neffos.Events{neffos.OnNativeMessage: rcv[""][neffos.OnNativeMessage]}
		evns, eKey = "n", "ne"
	} else if chance(r, 30) {
		rcv[""][neffos.OnAnyEvent] = func(c *neffos.NSConn, m neffos.Message) error {
			if !neffos.IsSystemEvent(m.Event) {
				log.add(w, natKey("any", m.Body, m.SetBinary))
			}
			return nil
		}
	}
	_, hasAny := rcv[""][neffos.OnAnyEvent]
	snd := neffos.Namespaces{"": neffos.Events{"echo": func(c *neffos.NSConn, m neffos.Message) error {
		if len(m.Body)%2 == 0 {
			time.Sleep(300 * time.Microsecond)
		}
		return neffos.Reply(m.Body)
	}}, "n": neffos.Events{}}
	if chance(r, 50) { // it may declare one itself.
		snd[""][neffos.OnNativeMessage] = func(*neffos.NSConn, neffos.Message) error { return nil }
	}
	var sconn *neffos.Conn
	ready := make(chan struct{})
	sh, ch := rcv, snd
	if receiver == 1 {
		sh, ch = snd, rcv
	}
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(ready); return nil }
	})
	var want []string
	preAck := 0
	if receiver == 0 && chance(r, 30) { // a raw peer, also before its handshake.
		raw := dialRaw(w, rig, "x")
		got := make(chan string, 1000)
		go func() {
			for {
				b, _, err := raw.recv()
				if err != nil {
					close(got)
					return
				}
				got <- string(b)
			}
		}()
		sendNat := func(p nat) { w.Check(raw.send(p.body, p.binary) == nil, "raw send failed") }
		early := chance(r, 60)
		if !early {
			raw.send([]byte("M"), false)
		}
		if chance(r, 50) { // not connected yet: dropped.
			for i := 0; i < 3; i++ {
				p := nativePayload(r)
				if early && p.body[0] == 'M' {
					continue
				}
				sendNat(p)
			}
		}
		raw.send([]byte("$1;;;_OnNamespaceConnect;0;0;"), false)
		if alone {
			raw.send([]byte("$2;n;;_OnNamespaceConnect;0;0;"), false)
		}
		for i := 0; i < n; i++ {
			if early && i == n/3 {
				raw.send([]byte("M"), false)
				early = false
			}
			if chance(r, 75) {
				p := nativePayload(r)
				if early && p.body[0] == 'M' {
					continue
				}
				if early {
					preAck++
				}
				sendNat(p)
				want = append(want, natKey("n", p.body, p.binary))
			} else {
				b := textBody(r, r.Intn(30))
				bin := chance(r, 30)
				raw.send(append([]byte(";"+evns+";;e;0;0;"), b...), bin)
				want = append(want, natKey(eKey, b, bin))
			}
		}
		raw.send([]byte("$99;"+evns+";;ask;0;0;end"), false)
		want = append(want, natKey("ask", []byte("end"), false))
		for ok := false; !ok; {
			var s string
			var open bool
			w.Call(func() { s, open = <-got }, "the reply to the last request")
			if !open {
				w.Violate("the connection ended")
			}
			ok = strings.HasPrefix(s, "$99;")
		}
		w.sameLog(log.get(), want, "callbacks of a raw peer's payloads")
		raw.close()
	} else {
		c, _ := rig.Dial("x", ch)
		w.Chan(ready, "the server's connection")
		nn := rig.Connect(c, "n")
		w.Await(func() bool { return sconn.Namespace("n") != nil }, "the server side of n")
		from := nn.Conn // the sender's connection
		if receiver == 1 {
			from = sconn
		}
		// the empty namespace is not connected: nothing is written or received.
		w.Check(!from.Write(neffos.Message{Body: []byte("early"), IsNative: true}), "a native write was accepted before the empty namespace is connected")
		if receiver == 0 {
			from.Socket().WriteText([]byte("early raw"), 0)
		}
		en := rig.Connect(c, "")
		w.Await(func() bool { return sconn.Namespace("") != nil }, "the server side of the empty namespace")
		peer = en
		if receiver == 1 {
			peer = sconn.Namespace("")
		}
		nsn := nn
		if receiver == 1 {
			nsn = sconn.Namespace("n")
		}
		asked := peer
		if alone {
			asked = nsn
		}
		for i := 0; i < n; i++ {
			b := []byte(fmt.Sprint("b", i, strings.Repeat("x", r.Intn(5))))
			switch x := r.Intn(100); {
			case x < 60:
				p := nativePayload(r)
				if chance(r, 30) {
					var err error
					if p.binary {
						err = from.Socket().WriteBinary(p.body, 0)
					} else {
						err = from.Socket().WriteText(p.body, 0)
					}
					w.Check(err == nil, "socket write: %v", err)
				} else {
					w.Check(from.Write(neffos.Message{Body: p.body, IsNative: true, SetBinary: p.binary}), "a native write failed")
				}
				want = append(want, natKey("n", p.body, p.binary))
			case x < 75:
				bin := chance(r, 30)
				w.Check(from.Write(neffos.Message{Namespace: evns, Event: "e", Body: b, SetBinary: bin}), "an emit failed")
				want = append(want, natKey(eKey, b, bin))
			case x < 80:
				w.Check(nsn.Emit("e", b), "an emit failed")
				want = append(want, natKey("ne", b, false))
			case x < 85:
				w.Check(peer.Emit("other", b), "an emit failed")
				if hasAny {
					want = append(want, natKey("any", b, false))
				}
			case x < 92 || alone:
				want = append(want, natKey("ask", b, false))
				var m neffos.Message
				var err error
				w.Call(func() { m, err = asked.Ask(w.Ctx(), "ask", b) }, "ask")
				w.Check(err == nil && bytes.Equal(m.Body, b), "an ask was answered with %q, %v", m.Body, err)
			default:
				w.Check(peer.Emit("work", b), "an emit failed")
				want = append(want, natKey("work", b, false), natKey("worked", b, false))
			}
		}
		want = append(want, natKey("ask", []byte("end"), false))
		w.Call(func() { asked.Ask(w.Ctx(), "ask", []byte("end")) }, "the last ask")
		w.sameLog(log.get(), want, "callbacks")
		// after the namespace is disconnected natives are dropped again.
		if chance(r, 50) {
			var err error
			w.Call(func() { err = en.Disconnect(w.Ctx()) }, "disconnect")
			w.Check(err == nil, "disconnect: %v", err)
			from.Socket().WriteText([]byte("late raw"), 0)
			w.Check(!from.Write(neffos.Message{Body: []byte("late"), IsNative: true}), "a native write was accepted after the disconnect")
			w.Check(nsn.Emit("e", []byte("fence")), "an emit failed")
			want = append(want, natKey("ne", []byte("fence"), false))
			w.Await(func() bool { return len(log.get()) >= len(want) }, "the last event")
			var got []string
			for _, l := range log.get() {
				if !hasAny || !strings.HasPrefix(l, "any|") {
					got = append(got, l)
				}
			}
			var exp []string
			for _, l := range want {
				if !strings.HasPrefix(l, "any|") {
					exp = append(exp, l)
				}
			}
			w.sameLog(got, exp, "callbacks after the disconnect")
		}
		c.Close()
	}
	natives := 0
	for _, l := range want {
		if strings.HasPrefix(l, "n|") {
			natives++
		}
	}
	w.Stat("native", int64(natives))
	w.Stat("other", int64(len(want)-natives))
	w.Stat("native_before_handshake", int64(preAck))
	w.Sign(fmt.Sprint(kind, want))
	w.Sample("mixed, %s, receiver %d, %d native of %d", kind, receiver, natives, len(want))
	if natives >= 10 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "server close")
}

// c28None: nobody declares the native callback for the empty namespace; raw payloads fire nothing.
func c28None(w *W) {
	r := w.R
	kind := pick(r, transports)
	log := &natLog{}
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		if neffos.IsSystemEvent(m.Event) {
			return nil
		}
		if string(m.Body) != "fence" {
			log.add(w, fmt.Sprintf("%q %q %q", m.Namespace, m.Event, clip(string(m.Body), 50)))
		}
		return neffos.Reply(nil)
	}
	h := neffos.Namespaces{"": neffos.Events{"e": cb}, "n": neffos.Events{"e": cb}}
	if chance(r, 50) {
		h[""][neffos.OnAnyEvent] = cb
	}
	if chance(r, 50) {
		h["n"][neffos.OnNativeMessage] = cb
	}
	if chance(r, 30) {
		h["n"][neffos.OnAnyEvent] = cb
	}
	plain := neffos.Namespaces{"": neffos.Events{}, "n": neffos.Events{}}
	toServer := chance(r, 60)
	sh, ch := h, plain
	if !toServer {
		sh, ch = plain, h
	}
	var sconn *neffos.Conn
	ready := make(chan struct{})
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(ready); return nil }
	})
	c, _ := rig.Dial("x", ch)
	w.Chan(ready, "the server's connection")
	en, nn := rig.Connect(c, ""), rig.Connect(c, "n")
	w.Await(func() bool { return sconn.Namespace("n") != nil && sconn.Namespace("") != nil }, "the server's namespaces")
	from, fence := nn.Conn, pick(r, []*neffos.NSConn{en, nn})
	if !toServer {
		from, fence = sconn, sconn.Namespace(pick(r, []string{"", "n"}))
	}
	sent := 0
	for i := 0; i < 20+r.Intn(30); i++ {
		p := nativePayload(r)
		var err error
		switch {
		case chance(r, 30):
			w.Check(from.Write(neffos.Message{Body: p.body, IsNative: true, SetBinary: p.binary}), "a native write failed")
		case p.binary:
			err = from.Socket().WriteBinary(p.body, 0)
		default:
			err = from.Socket().WriteText(p.body, 0)
		}
		w.Check(err == nil, "socket write: %v", err)
		w.Sign(p.String())
		sent++
		if chance(r, 10) {
			w.Call(func() { _, err = fence.Ask(w.Ctx(), "e", []byte("fence")) }, "fence")
			w.Check(err == nil, "fence: %v", err)
			w.Check(len(log.get()) == 0, "a raw payload fired %v", log.get())
		}
	}
	var err error
	w.Call(func() { _, err = fence.Ask(w.Ctx(), "e", []byte("fence")) }, "fence")
	w.Check(err == nil, "fence: %v", err)
	w.Check(len(log.get()) == 0, "a raw payload fired %v", log.get())
	w.Stat("refused_native", int64(sent))
	w.Sample("no native callback, %s, to server %v, %d payloads", kind, toServer, sent)
	w.Nontrivial()
	c.Close()
	w.Call(rig.Close, "server close")
}

// c28Wire: native writes as a raw peer reads them, between other frames.
func c28Wire(w *W) {
	r := w.R
	kind := pick(r, transports)
	var sconn *neffos.Conn
	ready := make(chan struct{})
	h := neffos.Namespaces{"": neffos.Events{"e": func(*neffos.NSConn, neffos.Message) error { return nil }}}
	if chance(r, 50) {
		h[""][neffos.OnNativeMessage] = func(*neffos.NSConn, neffos.Message) error { return nil }
	}
	rig := NewRig(w, kind, h, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(ready); return nil }
		s.SyncBroadcaster = chance(r, 30)
	})
	raw := dialRaw(w, rig, "x")
	raw.send([]byte("M"), false)
	b, _, err := raw.recv()
	w.Check(err == nil && string(b) == "Ax", "the handshake was answered with %q, %v", b, err)
	raw.send([]byte("$1;;;_OnNamespaceConnect;0;0;"), false)
	b, _, err = raw.recv()
	w.Check(err == nil && strings.HasPrefix(string(b), "$1;"), "a connect was answered with %q, %v", b, err)
	w.Chan(ready, "the server's connection")
	n := 15 + r.Intn(30)
	byBroadcast := chance(r, 40)
	var want []nat
	for i := 0; i < n; i++ {
		m := neffos.Message{SetBinary: chance(r, 40)}
		var exp []byte
		if chance(r, 80) {
			p := nativePayload(r)
			if chance(r, 10) {
				p.body = []byte(";;;;;;;;;") // whatever it is.
			}
			m.IsNative, m.SetBinary, m.Body = true, p.binary, p.body
			if chance(r, 20) {
				m.Event = "ignored"
			}
			exp = p.body
		} else {
			m.Event, m.Body = "e", textBody(r, r.Intn(40))
			exp = append([]byte(";;;e;0;0;"), m.Body...)
		}
		want = append(want, nat{exp, m.SetBinary})
		if byBroadcast {
			rig.Srv.Broadcast(nil, m)
		} else {
			w.Check(sconn.Write(m), "a write failed")
		}
	}
	for i, p := range want {
		var b []byte
		var bin bool
		var err error
		w.Call(func() { b, bin, err = raw.recv() }, "frame %d", i)
		w.Event()
		w.Check(err == nil && bytes.Equal(b, p.body) && bin == p.binary, "frame %d is binary=%v %q (%v), expected %s", i, bin, clip(string(b), 60), err, p)
		w.Sign(p.String())
	}
	w.Stat("native_frames", int64(len(want)))
	w.Sample("wire, %s, %d frames, by broadcast %v", kind, len(want), byBroadcast)
	w.Nontrivial()
	raw.close()
	w.Call(rig.Close, "server close")
}
