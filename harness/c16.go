package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C16", Quick: 3500, Thorough: 30000, Run: c16,
		Rule: "a case is a server with 1-3 clients over 5 transports and a bystander; for each client one callback (plain event, asked event, room event, native message, the six namespace and room lifecycle events, the server's OnConnect and OnDisconnect) on one side, caused locally, by the remote side or by force, runs 1-4 calls of the API (emit, ask, connect, disconnect, disconnect all, join, leave, leave all, list, store, broadcast, close, ...) with contexts that never end, the other side answers them, in some cases only after the bystander was served meanwhile; every call must return, with the right result where nothing else interferes, and the connection works afterwards; or a raw client whose connects, joins and events are sent, partly or all, before its handshake, to callbacks that make such calls. Non-trivial: at least one call was made inside of a callback. Distinct: by the hash of (callback, side, cause, calls)"})
}

// c16Plan is what happens inside of a callback.
type c16Plan struct {
	id     string // of the connection
	server bool   // the side of the callback
	cb     string // the event
	ns     string // of the callback
	room   string
	cause  string
	ops    []string
	gated  bool

	armed  int32
	done   chan struct{}
	gate   chan struct{} // the other side answers after that
	inside chan struct{}
	closed int32
}

func (p *c16Plan) String() string {
	side := "client"
	if p.server {
		side = "server"
	}
	return fmt.Sprintf("%s %s %s/%s caused by %s: %s (gated %v)", side, p.cb, p.ns, p.room, p.cause, strings.Join(p.ops, ","), p.gated)
}

var c16Ops = []string{"emit", "emit main", "emit binary", "ask main", "ask self", "connect", "connect again", "disconnect", "disconnect self", "disconnect main", "disconnect all",
	"join", "join self", "join same", "leave", "leave self", "leave all", "leave all self", "list", "store", "room emit", "broadcast", "server", "close", "write", "wait connect"}

func c16(w *W) {
	if w.Case%8 == 7 {
		c16Queued(w)
		return
	}
	r := w.R
	kind := pick(r, transports)
	var mu sync.Mutex
	plans := map[string]*c16Plan{} // id
	sconns := map[string]*neffos.Conn{}
	planOf := func(id string) *c16Plan { mu.Lock(); defer mu.Unlock(); return plans[id] }
	var calls int64
	var srv *neffos.Server

	runOps := func(p *c16Plan, conn *neffos.Conn, ns *neffos.NSConn) {
		closing := p.cause == "force" || p.cb == "OnDisconnect"
		early := p.cb == "OnConnect" // not connected to anything
		broken := closing || early   // results are free
		w.Log("%s begins", p)
		close(p.inside)
		for _, op := range p.ops {
			op := op
			atomic.AddInt64(&calls, 1)
			main := conn.Namespace("main")
			ctx := context.Background()
			if chance(p.rand(w), 20) {
				ctx = nil
			}
			w.Call(func() {
				switch op {
				case "emit":
					if ns != nil {
						ns.Emit("noop", []byte("x"))
					}
				case "emit main":
					if main != nil {
						ok := main.Emit("noop", []byte("x"))
						w.Check(ok || broken, "%s: emit failed", p)
					}
				case "emit binary":
					if main != nil {
						main.EmitBinary("noop", []byte("x"))
					}
				case "ask main":
					if main != nil {
						rep, err := main.Ask(ctx, "q", []byte("x"))
						w.Check(broken || err == nil && string(rep.Body) == "r:x", "%s: ask returned %q, %v", p, rep.Body, err)
					}
				case "ask self":
					if ns != nil {
						ns.Ask(ctx, "q", []byte("x"))
					}
				case "connect":
					n, err := conn.Connect(ctx, "n2")
					w.Check(broken || err == nil && n != nil, "%s: connect returned %v, %v", p, n, err)
				case "connect again":
					n, err := conn.Connect(ctx, "main")
					w.Check(broken || err == nil && n != nil, "%s: connect to a connected one returned %v, %v", p, n, err)
				case "disconnect":
					if n := conn.Namespace("n3"); n != nil {
						err := n.Disconnect(ctx)
						w.Check(broken || err == nil, "%s: disconnect returned %v", p, err)
					}
				case "disconnect self":
					if ns != nil {
						ns.Disconnect(ctx)
						if p.ns == "main" {
							broken = true
						}
					}
				case "disconnect main":
					if main != nil {
						main.Disconnect(ctx)
						broken = true
					}
				case "disconnect all":
					conn.DisconnectAll(ctx)
					broken = true
				case "join":
					if main != nil {
						_, err := main.JoinRoom(ctx, "nr")
						w.Check(broken || err == nil, "%s: join returned %v", p, err)
					}
				case "join self":
					if ns != nil {
						ns.JoinRoom(ctx, "nr2")
					}
				case "join same":
					if ns != nil && p.room != "" {
						ns.JoinRoom(ctx, p.room)
					}
				case "leave":
					if main != nil {
						if room := main.Room("pre"); room != nil {
							err := room.Leave(ctx)
							w.Check(broken || err == nil, "%s: leave returned %v", p, err)
						}
					}
				case "leave self":
					if ns != nil && p.room != "" {
						if room := ns.Room(p.room); room != nil {
							room.Leave(ctx)
						}
					}
				case "leave all":
					if main != nil {
						main.LeaveAll(ctx)
					}
				case "leave all self":
					if ns != nil {
						ns.LeaveAll(ctx)
					}
				case "list":
					if ns != nil {
						for _, room := range ns.Rooms() {
							_ = room.String()
						}
						ns.Room("pre")
					}
					if main != nil {
						main.Rooms()
					}
					conn.Namespace("n3")
					conn.IsClosed()
					conn.ID()
					conn.Is(p.id)
					_ = conn.String()
					conn.WasReconnected()
				case "store":
					conn.Set("k", 1)
					n := conn.Increment("k")
					v := conn.Decrement("k")
					w.Check(n == 2 && v == 1 && conn.Get("k") == 1, "%s: the store: %v %v", p, n, v)
				case "room emit":
					if main != nil {
						if room := main.Room("pre2"); room != nil {
							room.Emit("noop", nil)
						}
					}
				case "write":
					conn.Write(neffos.Message{Namespace: "main", Event: "noop", Body: []byte("w")})
				case "broadcast":
					if s := conn.Server(); s != nil {
						s.Broadcast(nil, neffos.Message{Namespace: "main", Event: "noop"}, neffos.Message{Namespace: "main", Room: "pre2", Event: "noop"})
						if ns != nil && chance(p.rand(w), 50) {
							s.Broadcast(ns, neffos.Message{Namespace: p.ns, Event: "noop"})
							s.Broadcast(conn, neffos.Message{To: p.id, Namespace: p.ns, Event: "noop"})
						}
					}
				case "server":
					if s := conn.Server(); s != nil {
						s.GetTotalConnections()
						if p.cb != "OnDisconnect" {
							s.Do(func(c *neffos.Conn) { c.Set("done", true) }, chance(p.rand(w), 50))
						}
					}
				case "wait connect":
					if main != nil {
						c, cancel := context.WithTimeout(context.Background(), 5e9)
						conn.WaitConnect(c, "main")
						cancel()
					}
				case "close":
					atomic.StoreInt32(&p.closed, 1)
					conn.Close()
					broken = true
				}
			}, "%s: %s", p, op)
			w.Event()
		}
		w.Log("%s ends", p)
		close(p.done)
	}
	// handler of a side.
	handler := func(server bool) neffos.ConnHandler {
		cb := func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			p := planOf(c.Conn.ID())
			if p != nil && p.server == server && m.Event == p.cb && m.Namespace == p.ns && m.Room == p.room && atomic.CompareAndSwapInt32(&p.armed, 1, 0) {
				runOps(p, c.Conn, c)
				if m.Event == "ev" && p.cause == "ask" {
					return neffos.Reply([]byte("done"))
				}
				return nil
			}
			if m.IsNative {
				return nil
			}
			// the answers that the callback of the other side waits for.
			if p != nil && p.server != server && p.gated && !m.IsForced && !m.IsLocal {
				nested := m.Event == "q" || m.Namespace == "n2" || m.Namespace == "n3" && m.Event == neffos.OnNamespaceDisconnect || m.Room == "nr" || m.Room == "pre" && m.Event == neffos.OnRoomLeave
				if nested {
					select {
					case <-p.inside:
						w.Chan(p.gate, "the bystander, served while %s", p)
					default:
					}
				}
			}
			if m.Event == "q" {
				return neffos.Reply(append([]byte("r:"), m.Body...))
			}
			return nil
		}
		h := HandlerAll(cb, "main", "n2", "n3", "t", "")
		h[""][neffos.OnNativeMessage] = cb
		return h
	}
	rig := NewRig(w, kind, handler(true), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			mu.Lock()
			sconns[c.ID()] = c
			mu.Unlock()
			if p := planOf(c.ID()); p != nil && p.cb == "OnConnect" && atomic.CompareAndSwapInt32(&p.armed, 1, 0) {
				runOps(p, c, nil)
			}
			return nil
		}
		s.OnDisconnect = func(c *neffos.Conn) {
			if p := planOf(c.ID()); p != nil && p.cb == "OnDisconnect" && atomic.CompareAndSwapInt32(&p.armed, 1, 0) {
				runOps(p, c, nil)
			}
		}
	})
	srv = rig.Srv
	_ = srv

	by, _ := rig.Dial("by", handler(false))
	byNS := rig.Connect(by, "main")
	var served int64
	serve := func() {
		room := fmt.Sprint("by", atomic.AddInt64(&served, 1))
		var rep neffos.Message
		var err error
		w.Call(func() { rep, err = byNS.Ask(w.Ctx(), "q", []byte("b")) }, "the bystander's ask")
		w.Check(err == nil && string(rep.Body) == "r:b", "the bystander: %q %v", rep.Body, err)
		w.Call(func() {
			_, err := byNS.JoinRoom(w.Ctx(), room)
			w.Check(err == nil, "the bystander's join: %v", err)
			w.Check(byNS.Room(room).Leave(w.Ctx()) == nil, "the bystander's leave")
		}, "the bystander's join")
	}

	n := 1 + r.Intn(3)
	var list []*c16Plan
	for i := 0; i < n; i++ {
		p := &c16Plan{id: fmt.Sprint("x", i), server: chance(r, 50), done: make(chan struct{}), gate: make(chan struct{}), inside: make(chan struct{})}
		p.cb = pick(r, []string{"ev", "ev", "room ev", "native", neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnNamespaceDisconnect,
			neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, "OnConnect", "OnDisconnect"})
		p.ns = "t"
		switch p.cb {
		case "ev":
			p.ns, p.cause = "main", pick(r, []string{"emit", "ask"})
		case "room ev":
			p.ns, p.room, p.cb, p.cause = "main", "pre2", "ev", "emit"
		case "native":
			p.cb, p.ns, p.cause = neffos.OnNativeMessage, "", "emit"
		case "OnConnect", "OnDisconnect":
			p.server, p.cause = true, "remote"
		case neffos.OnNamespaceConnect, neffos.OnNamespaceConnected:
			p.cause = pick(r, []string{"local", "remote"})
		case neffos.OnNamespaceDisconnect:
			p.cause = pick(r, []string{"local", "remote", "force"})
		default:
			p.ns, p.room = "t", "tr"
			p.cause = pick(r, []string{"local", "remote"})
			if (p.cb == neffos.OnRoomLeave || p.cb == neffos.OnRoomLeft) && chance(r, 40) {
				p.cause = "force"
			}
		}
		for k := 0; k < 1+r.Intn(4); k++ {
			p.ops = append(p.ops, pick(r, c16Ops))
		}
		if p.cb == "OnDisconnect" && !chance(r, 5) { // a connect takes 5 seconds to find out that the connection is closed.
			for k := range p.ops {
				if strings.HasPrefix(p.ops[k], "connect") {
					p.ops[k] = "list"
				}
			}
		}
		// not the close of a connection before the calls whose results are awaited.
		sort.SliceStable(p.ops, func(i, j int) bool { return p.ops[i] != "close" && p.ops[j] == "close" })
		p.gated = chance(r, 40) && p.cb != "OnDisconnect" && p.cause != "force"
		mu.Lock()
		plans[p.id] = p
		mu.Unlock()
		list = append(list, p)
	}
	rs := make([]*randT, n)
	for i := range rs {
		rs[i] = w.Rand()
	}
	w.Go(n, "the clients", func(i int) {
		p, r := list[i], rs[i]
		stopGate := make(chan struct{})
		var gwg sync.WaitGroup
		gwg.Add(1)
		go func() { // opens the gate after the bystander was served.
			defer gwg.Done()
			select {
			case <-p.inside:
				serve()
			case <-stopGate:
			}
			close(p.gate)
		}()
		if p.cb == "OnConnect" {
			atomic.StoreInt32(&p.armed, 1)
		}
		cli, link, err := rig.TryDial(p.id, handler(false), nil)
		if p.cb == "OnConnect" {
			w.Chan(p.done, "%s", p)
			if atomic.LoadInt32(&p.closed) > 0 {
				close(stopGate)
				w.Join(&gwg, "the gate")
				return
			}
		}
		w.Check(err == nil, "%s: dial: %v", p, err)
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return sconns[p.id] != nil }, "the server's connection")
		mu.Lock()
		sc := sconns[p.id]
		mu.Unlock()
		cm := rig.Connect(cli, "main")
		rig.Connect(cli, "n3")
		rig.Connect(cli, "")
		for _, room := range []string{"pre", "pre2"} {
			w.Call(func() { _, err = cm.JoinRoom(w.Ctx(), room) }, "join")
			w.Check(err == nil, "join: %v", err)
		}
		w.Await(func() bool {
			return sc.Namespace("main") != nil && sc.Namespace("n3") != nil && sc.Namespace("main").Room("pre2") != nil && sc.Namespace("") != nil
		}, "the server's namespaces")
		sm := sc.Namespace("main")
		// t: where the lifecycle of the callback happens.
		needT := p.ns == "t" && p.cb != neffos.OnNamespaceConnect && p.cb != neffos.OnNamespaceConnected && p.cb != "OnConnect" && p.cb != "OnDisconnect"
		var ct, st *neffos.NSConn
		if needT {
			ct = rig.Connect(cli, "t")
			w.Await(func() bool { st = sc.Namespace("t"); return st != nil }, "the server's namespace")
			if p.cb == neffos.OnRoomLeave || p.cb == neffos.OnRoomLeft {
				w.Call(func() { ct.JoinRoom(w.Ctx(), "tr") }, "join")
				w.Await(func() bool { return st.Room("tr") != nil && ct.Room("tr") != nil }, "the room")
			}
		}
		if p.cb != "OnConnect" {
			atomic.StoreInt32(&p.armed, 1)
			byServer := p.cause == "local" == p.server // who causes it
			if p.cause == "emit" || p.cause == "ask" {
				byServer = !p.server
			}
			conn, main, t := neffosConn(cm), cm, ct
			if byServer {
				conn, main, t = sc, sm, st
			}
			what := fmt.Sprintf("the cause of %s", p)
			switch {
			case p.cb == neffos.OnNativeMessage:
				w.Check(conn.Write(neffos.Message{Namespace: "", IsNative: true, Body: []byte("native")}), "native write")
			case p.cause == "emit" && p.room != "":
				w.Check(main.Room("pre2").Emit("ev", []byte("x")), "emit")
			case p.cause == "emit":
				w.Check(main.Emit("ev", []byte("x")), "emit")
			case p.cause == "ask":
				var rep neffos.Message
				var err error
				w.Call(func() { rep, err = main.Ask(w.Ctx(), "ev", []byte("x")) }, "%s", what)
				lost := false // the callback itself ended the connection or the namespace
				for _, op := range p.ops {
					lost = lost || op == "close" || op == "disconnect self" || op == "disconnect main" || op == "disconnect all"
				}
				w.Check(lost || err == nil && string(rep.Body) == "done", "%s: the ask returned %q, %v", p, rep.Body, err)
			case p.cause == "force", p.cb == "OnDisconnect":
				switch r.Intn(4) {
				case 0:
					w.Call(func() { neffosConn(cm).Close() }, "%s", what)
				case 1:
					w.Call(sc.Close, "%s", what)
				case 2:
					link.Cut()
				default:
					w.Call(cli.Close, "%s", what)
				}
			case p.cb == neffos.OnNamespaceConnect || p.cb == neffos.OnNamespaceConnected:
				w.Call(func() { conn.Connect(w.Ctx(), "t") }, "%s", what)
			case p.cb == neffos.OnNamespaceDisconnect:
				w.Call(func() { t.Disconnect(w.Ctx()) }, "%s", what)
			case p.cb == neffos.OnRoomJoin || p.cb == neffos.OnRoomJoined:
				w.Call(func() { t.JoinRoom(w.Ctx(), "tr") }, "%s", what)
			default:
				w.Call(func() {
					switch r.Intn(3) {
					case 0:
						t.Room("tr").Leave(w.Ctx())
					case 1:
						t.LeaveAll(w.Ctx())
					default:
						if p.cb == neffos.OnRoomLeft && p.server && byServer {
							t.Disconnect(w.Ctx()) // leaves by force.
						} else {
							t.Room("tr").Leave(w.Ctx())
						}
					}
				}, "%s", what)
			}
			w.Chan(p.done, "the end of the callback of %s", p)
		}
		close(stopGate)
		w.Join(&gwg, "the gate")
		// it still works, when it is not closed.
		if atomic.LoadInt32(&p.closed) == 0 && p.cause != "force" && p.cb != "OnDisconnect" {
			w.Await(func() bool { return true }, "")
			for side, conn := range map[string]*neffos.Conn{"client": neffosConn(cm), "server": sc} {
				var n *neffos.NSConn
				var rep neffos.Message
				var err error
				w.Call(func() { n, err = conn.Connect(w.Ctx(), "n3") }, "a connect by the %s after %s", side, p)
				w.Check(err == nil && n != nil, "a connect by the %s after %s: %v", side, p, err)
				w.Call(func() { rep, err = n.Ask(w.Ctx(), "q", []byte("after")) }, "an ask of the %s after %s", side, p)
				w.Check(err == nil && string(rep.Body) == "r:after", "an ask of the %s after %s: %q %v", side, p, rep.Body, err)
			}
		} else {
			w.Await(func() bool { return sc.IsClosed() && neffosConn(cm).IsClosed() }, "the end of the connection of %s", p)
		}
	})
	serve()
	for _, p := range list {
		w.Sign(p.String())
		cause := p.cause
		if p.server {
			cause += " on the server"
		}
		w.Stat("cb "+p.cb+" "+cause, 1)
		for _, op := range p.ops {
			w.Stat("op "+op, 1)
		}
	}
	w.Stat("calls_inside_callbacks", calls)
	w.Sample("%s: %v", kind, list)
	if calls > 0 {
		w.Nontrivial()
	}
	w.Call(by.Close, "close")
	rig.Close()
}

func neffosConn(n *neffos.NSConn) *neffos.Conn { return n.Conn }

func (p *c16Plan) rand(w *W) *randT {
	return w.Rand()
}

// c16Queued: a raw client that sends before its handshake is complete, what it sent is handled when it is; the callbacks use the API.
func c16Queued(w *W) {
	r := w.R
	kind := pick(r, transports)
	var calls int64
	var log natLog
	ops := map[string][]string{}
	all := []string{"ask", "connect", "join", "leave", "emit", "disconnect", "broadcast", "store", "list"}
	for _, k := range []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnRoomJoin, neffos.OnRoomJoined, "work", "last"} {
		for i := 0; i < 1+r.Intn(3); i++ {
			ops[k] = append(ops[k], pick(r, all))
		}
	}
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		log.add(w, m.Event)
		if m.IsLocal || m.IsForced || m.Namespace != "n" || m.Room == "own" {
			return nil
		}
		for _, op := range ops[m.Event] {
			atomic.AddInt64(&calls, 1)
			w.Sign(m.Event + op)
			what := fmt.Sprintf("%s inside of %s", op, m.Event)
			connected := m.Event != neffos.OnNamespaceConnect
			w.Call(func() {
				switch op {
				case "ask":
					rep, err := c.Ask(context.Background(), "q", []byte("x"))
					if connected {
						w.Check(err == nil && string(rep.Body) == "r", "%s: %q, %v", what, rep.Body, err)
					}
				case "connect":
					_, err := c.Conn.Connect(context.Background(), "n2")
					w.Check(err == nil, "%s: %v", what, err)
				case "disconnect":
					if n := c.Conn.Namespace("n2"); n != nil {
						w.Check(n.Disconnect(context.Background()) == nil, "%s failed", what)
					}
				case "join":
					_, err := c.JoinRoom(context.Background(), "own")
					w.Check(err == nil || !connected, "%s: %v", what, err)
				case "leave":
					if rm := c.Room("own"); rm != nil {
						w.Check(rm.Leave(context.Background()) == nil, "%s failed", what)
					}
				case "emit":
					w.Check(c.Emit("e", []byte("x")) == connected, "%s", what)
				case "broadcast":
					c.Conn.Server().Broadcast(nil, neffos.Message{Namespace: "n", Event: "b"})
				case "store":
					c.Conn.Increment("k")
				default:
					c.Rooms()
					c.Conn.Namespace("n2")
				}
			}, "%s", what)
		}
		if m.Event == "last" {
			return neffos.Reply([]byte("end"))
		}
		return nil
	}
	h := HandlerAll(cb, "n", "n2")
	rig := NewRig(w, kind, h, func(s *neffos.Server) { s.SyncBroadcaster = chance(r, 30) })
	raw := dialRaw(w, rig, "x")
	frames := []string{"$1;n;;_OnNamespaceConnect;0;0;", ";n;;work;0;0;1"}
	if chance(r, 60) {
		frames = append(frames, "$2;n;r;_OnRoomJoin;0;0;", ";n;r;work;0;0;2")
	}
	for i := 0; i < r.Intn(3); i++ {
		frames = append(frames, ";n;;work;0;0;3")
	}
	frames = append(frames, "$9;n;;last;0;0;")
	at := r.Intn(len(frames) + 1)
	if chance(r, 40) {
		at = len(frames)
	}
	var wmu sync.Mutex
	send := func(s string) {
		wmu.Lock()
		defer wmu.Unlock()
		raw.send([]byte(s), false)
	}
	ended := make(chan struct{})
	go func() { // it answers everything.
		for {
			b, _, err := raw.recv()
			if err != nil {
				return
			}
			m, ok := parseRaw(string(b))
			if !ok {
				continue
			}
			switch {
			case m.wait == "$9":
				w.Check(m.body == "end" && !m.isErr, "the last request was answered with %q", m.raw)
				close(ended)
			case m.wait != "" && m.wait[0] != '$':
				send(rawMsg{wait: m.wait, ns: m.ns, room: m.room, event: m.event, body: "r"}.wire())
			}
		}
	}()
	for i, f := range frames {
		if i == at {
			send("M")
		}
		send(f)
		if chance(r, 30) {
			sleepy(r, 300)
		}
	}
	if at == len(frames) {
		send("M")
	}
	w.Chan(ended, "the reply to the last of %d frames, the first %d before the handshake", len(frames), at)
	w.Stat("calls_inside_callbacks", atomic.LoadInt64(&calls))
	w.Stat("frames_before_handshake", int64(at))
	w.Sample("raw client, %s, %d frames, %d before the handshake, calls %v", kind, len(frames), at, ops)
	w.Nontrivial()
	raw.close()
	w.Call(rig.Close, "server close")
}
