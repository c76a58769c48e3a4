package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

func init() {
	register(&Prop{ID: "C26", Quick: 1000, Thorough: 7000, Par: 12, Run: c26,
		Rule: "a case is either a server and clients with random timeouts by one of the handler kinds on each side, whose sockets record the timeout of every read and write of a session with all kinds of traffic; or a side with a real timeout of 120-250 ms (or none) over 5 transports and peers that are silent from some point on (before the handshake, after it, in a namespace, in rooms), stall (read nothing while data, broadcasts or asks are written to them) or communicate in time. Non-trivial: at least 10 recorded calls, or an expired timeout, or a silent peer that stays. Distinct: by the hash of the configuration and traffic"})
}

func c26(w *W) {
	switch x := w.R.Intn(100); {
	case x < 45:
		c26Config(w)
	case x < 80:
		c26Silent(w)
	default:
		c26Stalled(w)
	}
}

// recSocket records the timeouts.
type recSocket struct {
	neffos.Socket
	side string
	rec  func(side, op string, t time.Duration)
}

func (s *recSocket) ReadData(t time.Duration) ([]byte, neffos.MessageType, error) {
	s.rec(s.side, "read", t)
	return s.Socket.ReadData(t)
}
func (s *recSocket) WriteText(b []byte, t time.Duration) error {
	s.rec(s.side, "write", t)
	return s.Socket.WriteText(b, t)
}
func (s *recSocket) WriteBinary(b []byte, t time.Duration) error {
	s.rec(s.side, "write", t)
	return s.Socket.WriteBinary(b, t)
}

// C26Ctl is a struct handler.
type C26Ctl struct{}

func (c *C26Ctl) OnEcho(ns *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }

type C26Dyn struct {
	*neffos.NSConn
}

func (c *C26Dyn) OnEcho(m neffos.Message) error { return neffos.Reply(m.Body) }

// c26Handler returns a handler of a random kind with these timeouts, for the empty namespace (and "a" if it can).
func c26Handler(r *randT, read, write time.Duration) (neffos.ConnHandler, string, bool) {
	echo := func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }
	ev := neffos.Events{"Echo": echo}
	nss := neffos.Namespaces{"a": ev, "": neffos.Events{"Echo": echo}}
	if read == 0 && write == 0 && chance(r, 60) {
		switch r.Intn(4) {
		case 0:
			return ev, "Events", false
		case 1:
			return nss, "Namespaces", true
		case 2:
			return neffos.NewStruct(new(C26Ctl)).SetEventMatcher(neffos.EventTrimPrefixMatcher("On")), "Struct", false
		default:
			return neffos.JoinConnHandlers(neffos.Events{"Echo": echo}, neffos.Namespaces{"a": ev}), "Join", true
		}
	}
	switch r.Intn(6) {
	case 0:
		return neffos.WithTimeout{ReadTimeout: read, WriteTimeout: write, Events: ev}, "WithTimeout{Events}", false
	case 1:
		return neffos.WithTimeout{ReadTimeout: read, WriteTimeout: write, Events: neffos.Events{"Echo": echo}, Namespaces: neffos.Namespaces{"a": ev}}, "WithTimeout{both}", true
	case 2:
		return neffos.NewStruct(new(C26Ctl)).SetTimeouts(read, write).SetEventMatcher(neffos.EventTrimPrefixMatcher("On")), "Struct.SetTimeouts", false
	case 3:
		return neffos.NewStruct(new(C26Dyn)).SetEventMatcher(neffos.EventTrimPrefixMatcher("On")).SetTimeouts(read, write), "dynamic Struct.SetTimeouts", false
	}
	return neffos.WithTimeout{ReadTimeout: read, WriteTimeout: write, Namespaces: nss}, "WithTimeout{Namespaces}", true
}

func c26Config(w *W) {
	r := w.R
	kind := pick(r, transports)
	dur := func() time.Duration {
		if chance(r, 25) {
			return 0
		}
		return time.Minute + time.Duration(r.Intn(1000000))*time.Millisecond
	}
	sr, sw, cr, cw := dur(), dur(), dur(), dur()
	want := map[string]time.Duration{"server read": sr, "server write": sw, "client read": cr, "client write": cw}
	var calls [4]int64
	idx := map[string]int{"server read": 0, "server write": 1, "client read": 2, "client write": 3}
	rec := func(side, op string, t time.Duration) {
		k := side + " " + op
		atomic.AddInt64(&calls[idx[k]], 1)
		w.Event()
		w.Check(t == want[k], "a %s of the %s used the timeout %v, configured: %v", op, side, t, want[k])
	}
	sh, skind, hasA := c26Handler(r, sr, sw)
	rejectFirst := chance(r, 20)
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			if strings.HasPrefix(c.ID(), "no") {
				return errors.New("rejected")
			}
			return nil
		}
	})
	rig.Wrap = func(s neffos.Socket, _ *http.Request) neffos.Socket { return &recSocket{s, "server", rec} }
	wrap := func(s neffos.Socket) neffos.Socket { return &recSocket{s, "client", rec} }
	desc := []string{skind}
	if rejectFirst {
		ch, _, _ := c26Handler(r, cr, cw)
		_, _, err := rig.TryDial("no", ch, wrap)
		w.Check(err != nil, "the connection was not rejected")
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		ch, ckind, cA := c26Handler(r, cr, cw)
		desc = append(desc, ckind)
		id := fmt.Sprint("c", i)
		cli, _, err := rig.TryDial(id, ch, wrap)
		w.Check(err == nil, "dial: %v", err)
		nss := []string{""}
		if hasA && cA {
			nss = append(nss, "a")
		}
		for _, ns := range nss {
			nc := rig.Connect(cli, ns)
			for k := 0; k < 3+r.Intn(6); k++ {
				switch r.Intn(7) {
				case 0:
					w.Check(nc.Emit("x", []byte("y")), "emit")
				case 1:
					w.Check(nc.EmitBinary("x", []byte("y")), "emit")
				case 2:
					rig.Srv.Broadcast(nil, neffos.Message{Namespace: ns, Event: "x", Body: []byte("b"), SetBinary: chance(r, 50)})
				case 3:
					w.Call(func() { nc.JoinRoom(w.Ctx(), "r") }, "join")
				case 4:
					w.Call(func() { nc.LeaveAll(w.Ctx()) }, "leave")
				case 5:
					w.Call(func() {
						rep, err := rig.Srv.Ask(w.Ctx(), neffos.Message{Namespace: ns, To: id, Event: "Echo", Body: []byte("s")})
						w.Check(err == nil && string(rep.Body) == "s", "server ask: %q %v", rep.Body, err)
					}, "server ask")
				default:
					w.Call(func() {
						rep, err := nc.Ask(w.Ctx(), "Echo", []byte("e"))
						w.Check(err == nil && string(rep.Body) == "e", "ask: %q %v", rep.Body, err)
					}, "ask")
				}
			}
			rep, err := nc.Ask(w.Ctx(), "Echo", []byte("last"))
			w.Check(err == nil && string(rep.Body) == "last", "ask: %q %v", rep.Body, err)
			if chance(r, 50) {
				w.Call(func() { nc.Disconnect(w.Ctx()) }, "disconnect")
			}
		}
		if chance(r, 50) {
			cli.Close()
		}
	}
	rig.Close()
	for k, i := range idx {
		w.Stat(strings.ReplaceAll(k, " ", "_")+"s_recorded", atomic.LoadInt64(&calls[i]))
		w.Check(atomic.LoadInt64(&calls[i]) > 0, "no %s was recorded", k)
	}
	s := fmt.Sprintf("recorded, %s, server %v/%v, client %v/%v, handlers %v, calls %v", kind, sr, sw, cr, cw, desc, calls)
	w.Sample("%s", s)
	w.Sign(fmt.Sprint(kind, sr, sw, cr, cw, desc))
	w.Nontrivial()
}

// xraw is a raw peer of neffos messages.
type xraw struct {
	send  func(s string) error
	recv  func() (string, error)
	close func()
	mem   *memEnd
	nc    net.Conn
}

// xrawServer returns what a client dials to reach raw peers.
func xrawServer(w *W, kind string) (neffos.Dialer, string, func() *xraw, func()) {
	if kind == "mem" {
		ch := make(chan *xraw, 16)
		d := func(ctx context.Context, u string) (neffos.Socket, error) {
			c, s := memPipe()
			ch <- &xraw{send: s.Send, recv: func() (string, error) { m, _, err := s.Recv(); return m, err }, close: func() { s.conn.Close() }, mem: s}
			return c, nil
		}
		return d, "ws://mem", func() *xraw { return <-ch }, func() {}
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		w.Inconclusive("listen: %v", err)
	}
	d := gobwas.Dialer(gobwasws.Dialer{})
	if strings.HasPrefix(kind, "gorilla") {
		d = gorilla.Dialer(&gorillaws.Dialer{}, http.Header{})
	}
	return d, "ws://" + ln.Addr().String() + "/", func() *xraw {
		c, err := ln.Accept()
		if err != nil {
			w.Inconclusive("accept: %v", err)
		}
		br, _, err := wsAccept(c, nil)
		if err != nil {
			w.Inconclusive("handshake: %v", err)
		}
		return &xraw{nc: c, close: func() { c.Close() },
			send: func(s string) error {
				_, err := c.Write(wsFrame{fin: true, op: opText, payload: []byte(s)}.enc(-1))
				return err
			},
			recv: func() (string, error) {
				for {
					f, err := readWS(br)
					if err != nil {
						return "", err
					}
					if f.op == opText || f.op == opBin {
						return string(f.payload), nil
					}
				}
			}}
	}, func() { ln.Close() }
}

// rawClient connects to a server.
func rawClient(w *W, rig *Rig, id string) *xraw {
	if rig.Kind == "mem" {
		m := rig.MemRaw(id)
		return &xraw{send: m.Send, recv: func() (string, error) { s, _, err := m.Recv(); return s, err }, close: func() { m.conn.Close() }, mem: m}
	}
	c, br, err := wsDial(rig.dialURL(id, ""), nil)
	if err != nil {
		w.Inconclusive("raw dial: %v", err)
	}
	return &xraw{nc: c, close: func() { c.Close() },
		send: func(s string) error {
			_, err := c.Write(wsFrame{fin: true, op: opText, masked: true, payload: []byte(s)}.enc(-1))
			return err
		},
		recv: func() (string, error) {
			for {
				f, err := readWS(br)
				if err != nil {
					return "", err
				}
				if f.op == opText || f.op == opBin {
					return string(f.payload), nil
				}
			}
		}}
}

// gaps measures how late this process is scheduled.
func gaps() func() time.Duration {
	var max int64
	stop := make(chan struct{})
	go func() {
		last := time.Now()
		for {
			select {
			case <-stop:
				return
			default:
			}
			time.Sleep(5 * time.Millisecond)
			now := time.Now()
			if g := int64(now.Sub(last)); g > atomic.LoadInt64(&max) {
				atomic.StoreInt64(&max, g)
			}
			last = now
		}
	}()
	return func() time.Duration { return time.Duration(atomic.LoadInt64(&max)) }
}

type c26End struct {
	at   time.Time
	evs  []string
	done chan struct{}
}

// c26Silent: peers that do not send.
func c26Silent(w *W) {
	r := w.R
	kind := pick(r, transports)
	server := chance(r, 55) // the side with the timeout
	read := time.Duration(120+r.Intn(130)) * time.Millisecond
	none := chance(r, 25) // no read timeout at all.
	write := time.Duration(0)
	if none {
		read = 0
		if chance(r, 60) {
			write = 150 * time.Millisecond
		}
	} else if chance(r, 30) {
		write = time.Minute
	}
	late := gaps()
	var mu sync.Mutex
	ends := map[string]*c26End{}
	get := func(id string) *c26End {
		mu.Lock()
		defer mu.Unlock()
		if ends[id] == nil {
			ends[id] = &c26End{done: make(chan struct{})}
		}
		return ends[id]
	}
	add := func(id, ev string) {
		e := get(id)
		mu.Lock()
		defer mu.Unlock()
		e.evs = append(e.evs, ev)
		if e.at.IsZero() {
			e.at = time.Now()
		}
	}
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		switch m.Event {
		case neffos.OnNamespaceDisconnect, neffos.OnRoomLeft:
			add(c.Conn.ID(), m.Event+" "+m.Namespace+" "+m.Room)
			if m.Event == neffos.OnNamespaceDisconnect && c.Conn.IsClient() {
				close(get(c.Conn.ID()).done)
			}
		case "echo":
			return neffos.Reply(m.Body)
		}
		return nil
	}
	var h neffos.ConnHandler = neffos.WithTimeout{ReadTimeout: read, WriteTimeout: write, Namespaces: HandlerAll(cb, "a")}
	silentAt := pick(r, []string{"handshake", "ack", "namespace", "namespace", "rooms"})
	rooms := 0
	// session brings the raw peer to where it becomes silent, the last time it sent something is returned.
	session := func(p *xraw, tok string, first string, dialed time.Time) time.Time {
		if silentAt == "handshake" {
			return dialed
		}
		t := time.Now()
		p.send(first)
		if silentAt == "ack" {
			return t
		}
		t = time.Now()
		p.send(rawMsg{wait: tok + "1", ns: "a", event: neffos.OnNamespaceConnect}.wire())
		if silentAt == "rooms" {
			for i := 0; i < 2; i++ {
				t = time.Now()
				p.send(rawMsg{wait: tok + "2" + fmt.Sprint(i), ns: "a", room: fmt.Sprint("r", i), event: neffos.OnRoomJoin}.wire())
			}
			rooms = 2
		}
		return t
	}
	drain := func(p *xraw) chan struct{} {
		c := make(chan struct{})
		go func() {
			defer close(c)
			for {
				if _, err := p.recv(); err != nil {
					return
				}
			}
		}()
		return c
	}
	what := ""
	expect := func(id string, p *xraw, drained chan struct{}, since time.Time, done chan struct{}) {
		if none {
			time.Sleep(300 * time.Millisecond)
			w.Bump()
			e := get(id)
			mu.Lock()
			n := len(e.evs)
			mu.Unlock()
			w.Check(n == 0, "a silent connection ended with no read timeout")
			select {
			case <-drained:
				w.Violate("a silent connection was closed with no read timeout")
			default:
			}
			what = "stays"
			p.close()
			return
		}
		w.Chan(drained, "the end of a silent connection (%s, read timeout %v)", silentAt, read)
		now := time.Now()
		w.Check(now.Sub(since) >= read-2*time.Millisecond, "the connection ended %v after its last message, the read timeout is %v", now.Sub(since), read)
		if silentAt == "namespace" || silentAt == "rooms" {
			w.Chan(done, "the disconnect callbacks of a silent connection")
			mu.Lock()
			e := ends[id]
			n := map[string]int{}
			for _, ev := range e.evs {
				n[ev]++
			}
			mu.Unlock()
			w.Check(n[neffos.OnNamespaceDisconnect+" a "] == 1, "the disconnect callbacks of a silent connection: %v", n)
			for i := 0; i < rooms; i++ {
				w.Check(n[fmt.Sprint(neffos.OnRoomLeft, " a r", i)] == 1, "the room left callbacks of a silent connection: %v", n)
			}
			w.Check(len(n) == 1+rooms, "the disconnect callbacks of a silent connection: %v", n)
		}
		what = "expired"
	}
	if server {
		rig := NewRig(w, kind, h)
		rig.Srv.OnDisconnect = func(c *neffos.Conn) { close(get(c.ID()).done) }
		// one that communicates in time.
		var active *xraw
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var maxGap int64
		var activeEnded chan struct{}
		if !none {
			active = rawClient(w, rig, "active")
			active.send("M")
			active.send(rawMsg{wait: "$1", ns: "a", event: neffos.OnNamespaceConnect}.wire())
			activeEnded = drain(active)
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := time.Now()
				for i := 0; ; i++ {
					active.send(rawMsg{ns: "a", event: "x"}.wire())
					now := time.Now()
					if g := int64(now.Sub(last)); g > maxGap {
						maxGap = g
					}
					last = now
					select {
					case <-stop:
						return
					case <-time.After(10 * time.Millisecond):
					}
				}
			}()
		}
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			id := fmt.Sprint("s", i)
			dialed := time.Now()
			p := rawClient(w, rig, id)
			d := drain(p)
			t := session(p, "$", "M", dialed)
			expect(id, p, d, t, get(id).done)
		}
		if active != nil {
			close(stop)
			w.Join(&wg, "the active peer")
			ended := false
			select {
			case <-activeEnded:
				ended = true
			default:
			}
			e := get("active")
			mu.Lock()
			evs := e.evs
			mu.Unlock()
			if late() < read/3 && time.Duration(maxGap) < read/3 {
				w.Check(!ended && len(evs) == 0, "the connection which sends every 10 ms ended, the read timeout is %v: %v", read, evs)
				w.Stat("active_peers_stay", 1)
			} else {
				w.Stat("active_peers_unknown", 1)
			}
			active.close()
		}
		rig.Close()
	} else {
		d, u, accept, end := xrawServer(w, kind)
		res := make(chan error, 1)
		var cli *neffos.Client
		dialed := time.Now()
		go func() {
			c, err := neffos.Dial(context.Background(), d, u, h)
			cli = c
			res <- err
		}()
		p := accept()
		drained := drain(p)
		t := session(p, "", "As0", dialed)
		if silentAt == "handshake" && none {
			time.Sleep(250 * time.Millisecond)
			select {
			case err := <-res:
				w.Violate("a dial without a read timeout returned %v while the server is silent", err)
			default:
			}
			p.close()
		}
		var err error
		w.Call(func() { err = <-res }, "a dial to a server that is silent at %s", silentAt)
		if silentAt == "handshake" {
			w.Check(err != nil, "a dial succeeded without the server's answer")
			what = "dial fails"
			if !none {
				w.Chan(drained, "the end of a failed dial")
				w.Check(time.Since(t) >= read-2*time.Millisecond, "a dial failed earlier than its read timeout: %v", err)
			}
		} else {
			// on a busy machine the server may be too late with its answer.
			if err != nil && late() > read/3 {
				w.Inconclusive("a slow machine")
			}
			w.Check(err == nil, "the dial: %v", err)
			expect("s0", p, drained, t, get("s0").done)
			w.Chan(cli.NotifyClose, "the client's NotifyClose")
		}
		p.close()
		end()
	}
	w.Stat("silent_"+silentAt+"_"+strings.ReplaceAll(what, " ", "_"), 1)
	w.Sample("silent peers, %s, timeout on the server: %v, read timeout %v, write %v, silent after %s: %s", kind, server, read, write, silentAt, what)
	w.Sign(fmt.Sprint(kind, server, read, write, silentAt))
	w.Nontrivial()
}

// c26Stalled: peers that do not accept data.
func c26Stalled(w *W) {
	r := w.R
	kind := pick(r, transports)
	server := chance(r, 60)
	write := time.Duration(120+r.Intn(130)) * time.Millisecond
	read := time.Duration(0)
	if chance(r, 30) {
		read = time.Minute
	}
	var mu sync.Mutex
	n := map[string]int{}
	conns := map[string]*neffos.NSConn{}
	got := int64(0)
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		mu.Lock()
		defer mu.Unlock()
		n[c.Conn.ID()+" "+m.Event]++
		if m.Event == neffos.OnNamespaceConnected {
			conns[c.Conn.ID()] = c
		}
		return nil
	}
	var h neffos.ConnHandler = neffos.WithTimeout{ReadTimeout: read, WriteTimeout: write, Namespaces: HandlerAll(cb, "a")}
	late := gaps()
	big := []byte(strings.Repeat("b", 300000))
	how := pick(r, []string{"emit", "ask", "concurrent emits"})
	if server && chance(r, 40) {
		how = "broadcast"
	}
	stall := func(p *xraw) {
		if p.mem != nil {
			p.mem.in.setLimit(3 + r.Intn(5))
		}
	}
	// fill writes until it fails.
	fill := func(ns *neffos.NSConn, srv *neffos.Server) {
		switch how {
		case "emit":
			w.Call(func() {
				for ns.Emit("x", big) {
					w.Bump()
				}
			}, "emits to a stalled peer")
		case "concurrent emits":
			w.Go(3, "emits to a stalled peer", func(int) {
				for ns.Emit("x", big) {
					w.Bump()
				}
			})
		case "ask":
			// one without a deadline, nobody answers.
			pending := make(chan error, 1)
			go func() { _, err := ns.Ask(w.Ctx(), "q", nil); pending <- err }()
			w.Call(func() {
				for !ns.Conn.IsClosed() {
					ctx, cancel := context.WithTimeout(w.Ctx(), 3*time.Millisecond)
					_, err := ns.Ask(ctx, "q", big)
					cancel()
					w.Check(err != nil, "an ask to a stalled peer returned")
				}
			}, "asks to a stalled peer")
			var err error
			w.Call(func() { err = <-pending }, "the ask in progress when a stalled connection ends")
			w.Check(err != nil, "an ask to a stalled peer returned")
		case "broadcast":
			w.Call(func() {
				for i := 0; ; i++ {
					srv.Broadcast(nil, neffos.Message{Namespace: "a", Event: "b", Body: big})
					w.Bump()
					if ns.Conn.IsClosed() {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}, "broadcasts to a stalled peer")
		}
		w.Await(ns.Conn.IsClosed, "the end of a stalled connection (%s, write timeout %v)", how, write)
	}
	finish := func(id string) {
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return n[id+" "+neffos.OnNamespaceDisconnect] > 0 }, "the disconnect callback of a stalled connection")
		mu.Lock()
		w.Check(n[id+" "+neffos.OnNamespaceDisconnect] == 1, "%d disconnect callbacks of a stalled connection", n[id+" "+neffos.OnNamespaceDisconnect])
		mu.Unlock()
	}
	connected := func(id string) *neffos.NSConn {
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return conns[id] != nil }, "the namespace's connection")
		mu.Lock()
		defer mu.Unlock()
		return conns[id]
	}
	if server {
		var dis int32
		rig := NewRig(w, kind, h, func(s *neffos.Server) {
			s.OnDisconnect = func(c *neffos.Conn) {
				if c.ID() == "s" {
					atomic.AddInt32(&dis, 1)
				}
			}
		})
		good := rawClient(w, rig, "good")
		good.send("M")
		good.send(rawMsg{wait: "$1", ns: "a", event: neffos.OnNamespaceConnect}.wire())
		goodEnd := make(chan struct{})
		go func() {
			defer close(goodEnd)
			for {
				s, err := good.recv()
				if err != nil {
					return
				}
				if m, ok := parseRaw(s); ok && m.event == "b" {
					atomic.AddInt64(&got, 1)
				}
			}
		}()
		gc := connected("good")
		p := rawClient(w, rig, "s")
		p.send("M")
		p.send(rawMsg{wait: "$1", ns: "a", event: neffos.OnNamespaceConnect}.wire())
		ns := connected("s")
		stall(p)
		fill(ns, rig.Srv)
		finish("s")
		w.Await(func() bool { return atomic.LoadInt32(&dis) > 0 }, "OnDisconnect of a stalled connection")
		// the other one is served.
		g0 := atomic.LoadInt64(&got)
		w.Call(func() { rig.Srv.Broadcast(nil, neffos.Message{Namespace: "a", Event: "b", Body: []byte("x")}) }, "broadcast")
		if late() < write/3 {
			w.Await(func() bool { return atomic.LoadInt64(&got) > g0 }, "a broadcast after a stalled connection ended")
			w.Check(!gc.Conn.IsClosed(), "the connection which reads in time ended")
			w.Stat("reading_peers_stay", 1)
		}
		p.close()
		good.close()
		w.Chan(goodEnd, "the end")
		w.Check(atomic.LoadInt32(&dis) == 1, "OnDisconnect fired %d times", dis)
		rig.Close()
	} else {
		d, u, accept, end := xrawServer(w, kind)
		res := make(chan error, 1)
		var cli *neffos.Client
		go func() {
			c, err := neffos.Dial(context.Background(), d, u, h)
			cli = c
			res <- err
		}()
		p := accept()
		p.recv()
		p.send("As")
		p.send(rawMsg{wait: "1", ns: "a", event: neffos.OnNamespaceConnect}.wire())
		var err error
		w.Call(func() { err = <-res }, "the dial")
		w.Check(err == nil, "the dial: %v", err)
		ns := connected("s")
		stall(p)
		fill(ns, nil)
		finish("s")
		w.Chan(cli.NotifyClose, "the client's NotifyClose")
		p.close()
		end()
	}
	w.Stat("stalled_"+strings.ReplaceAll(how, " ", "_"), 1)
	w.Sample("a stalled peer, %s, timeout on the server: %v, write timeout %v, by %s", kind, server, write, how)
	w.Sign(fmt.Sprint(kind, server, write, how))
	w.Nontrivial()
}
