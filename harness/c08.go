package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C08", Quick: 1600, Thorough: 12000, Run: func(w *W) {
		if w.Case%40 == 5 || w.Case%40 == 20 {
			allMeanwhile(w, false)
			return
		}
		switch w.Case % 4 {
		case 3:
			c08RawClient(w)
		case 2:
			c08RawServer(w)
		default:
			c08Model(w)
		}
	},
		Rule: "a case is a history of 10-40 connects, refusals, disconnects and sends through current and stale handles by both sides of 1-3 connections over 5 transports, compared after every step with a reference model (results, connected namespaces, delivered messages), or a raw peer (client or server) that sends requests and messages for connected, refused, undeclared and disconnected namespaces, whose frames and callbacks are compared with the rules, or a DisconnectAll while some namespaces are disconnected by its callbacks, another goroutine or the other side. Non-trivial: at least one accepted, one refused connect or refused send. Distinct: by the hash of the operations"})
	register(&Prop{ID: "C09", Quick: 1500, Thorough: 10000, Run: func(w *W) {
		if w.Case%40 == 5 || w.Case%40 == 20 {
			allMeanwhile(w, true)
			return
		}
		if w.Case%5 == 4 {
			c09Concurrent(w)
			return
		}
		c09Model(w)
	},
		Rule: "a case is a history of 15-50 joins, leaves, leave-alls, disconnects, refusals, room sends and room broadcasts by both sides of 1-3 connections, compared after every step with a reference model (results, Room/Rooms of both sides, delivered messages), or concurrent joins and leaves of rooms owned by different goroutines of both sides, or a LeaveAll while some rooms are left by its callbacks, another goroutine or the other side. Non-trivial: at least 3 joins and a leave. Distinct: by the hash of the operations. The initiator's own refusal of a join or leave is judged by the result and the own side"})
	register(&Prop{ID: "C10", Quick: 1500, Thorough: 12000, Run: func(w *W) {
		if w.Case%3 == 2 {
			c10Concurrent(w)
			return
		}
		if w.Case%9 == 7 {
			c10Vanish(w)
			return
		}
		c10Model(w)
	},
		Rule: "a case is a history of operations by both sides ended by a close of either side, a cut, or the server's close, with the exact expected callbacks (order, namespace, room, local and forced marks) of both sides; or concurrent histories (one goroutine per namespace) (the other side joins rooms of its own meanwhile) ended at a random moment, whose callbacks are checked against the lifecycle automaton and for balance; or a peer that vanishes while one of the callbacks runs or a request waits. Inside the callbacks the connection's state and sends are checked. Non-trivial: at least one room and one namespace ended by force, or a termination during operations. Distinct: by the hash of the callback log. Monitored inside of the callbacks too: what Namespace/Room report there; connections that vanish, messages right after the connected callback, operations of other goroutines on the same namespace (only balance is checked for rooms whose own goroutine is forced out meanwhile)"})
}

// allMeanwhile leaves all rooms (or disconnects from all namespaces) while some of them are left
// by the callbacks of the very call, by another goroutine or by the other side: each of them ends once
// and the call succeeds.
func allMeanwhile(w *W, rooms bool) {
	r := w.R
	kind := pick(r, transports)
	n := 2 + r.Intn(4)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("x%d", i))
	}
	by := pick(r, []string{"callback", "callback", "goroutine", "other side"})
	starter := r.Intn(2)
	others := append([]string(nil), names...)
	r.Shuffle(n, func(i, j int) { others[i], others[j] = others[j], others[i] })
	others = others[:1+r.Intn(n)]
	var mu sync.Mutex
	ended := [2]map[string]int{{}, {}}
	nested := false
	var conns [2]*neffos.Conn
	// one ends a single room or namespace of the side.
	one := func(side int, name string) {
		if rooms {
			if ns := conns[side].Namespace("a"); ns != nil {
				if rm := ns.Room(name); rm != nil {
					rm.Leave(w.Ctx())
				}
			}
			return
		}
		if ns := conns[side].Namespace(name); ns != nil {
			ns.Disconnect(w.Ctx())
		}
	}
	mk := func(side int) neffos.Namespaces {
		end := func(c *neffos.NSConn, m neffos.Message) error {
			name := m.Namespace
			if rooms {
				name = m.Room
			}
			w.Event()
			mu.Lock()
			ended[side][name]++
			go1 := by == "callback" && side == starter && m.IsLocal && !nested
			nested = nested || go1
			mu.Unlock()
			if go1 {
				for _, o := range others {
					if o != name {
						one(side, o)
					}
				}
			}
			return nil
		}
		h := neffos.Namespaces{"a": neffos.Events{neffos.OnRoomLeft: end, "f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) }}}
		if !rooms {
			for _, ns := range names {
				h[ns] = neffos.Events{neffos.OnNamespaceDisconnect: end}
			}
		}
		return h
	}
	sc := make(chan *neffos.Conn, 1)
	rig := NewRig(w, kind, mk(sideS), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sc <- c; return nil }
	})
	cli, _ := rig.Dial("x", mk(sideC))
	a := rig.Connect(cli, "a")
	conns[sideS], conns[sideC] = <-sc, a.Conn
	w.Await(func() bool { return conns[sideS].Namespace("a") != nil }, "the server's side")
	w.Sample("transport %s: %d, of which %d end meanwhile by a %s", kind, n, len(others), by)
	w.Sign(fmt.Sprint(kind, rooms, n, others, by, starter))
	rounds := 1 + r.Intn(3)
	for round := 1; round <= rounds; round++ {
		mu.Lock()
		nested = false
		mu.Unlock()
		for _, name := range names {
			side := r.Intn(2)
			w.Call(func() {
				var err error
				if rooms {
					_, err = conns[side].Namespace("a").JoinRoom(w.Ctx(), name)
				} else {
					_, err = conns[side].Connect(w.Ctx(), name)
				}
				w.Check(err == nil, "entering %s failed: %v", name, err)
			}, "entering %s", name)
		}
		there := func(side int, name string) bool {
			if rooms {
				return conns[side].Namespace("a").Room(name) != nil
			}
			return conns[side].Namespace(name) != nil
		}
		for _, name := range names {
			name := name
			w.Await(func() bool { return there(0, name) && there(1, name) }, "%s on both sides", name)
		}
		rr := w.Rand()
		d := time.Duration(r.Intn(300)) * time.Microsecond
		w.Go(2, "everything and some of it", func(i int) {
			if i == 0 {
				var err error
				if rooms {
					err = conns[starter].Namespace("a").LeaveAll(w.Ctx())
				} else {
					err = conns[starter].DisconnectAll(w.Ctx())
				}
				w.Check(err == nil, "ending all of %v by the %s failed while %v ended by a %s: %v", names, sideName[starter], others, by, err)
				return
			}
			side := starter
			switch by {
			case "callback":
				return
			case "other side":
				side = 1 - starter
			}
			time.Sleep(d)
			for _, o := range others {
				one(side, o)
				sleepy(rr, 100)
			}
		})
		for _, name := range names {
			for side := 0; side < 2; side++ {
				side, name := side, name
				w.Check(side != starter || !there(side, name) || by != "callback", "%s still has %s after the end of all", sideName[side], name)
				w.Await(func() bool { return !there(side, name) }, "the end of %s on the %s", name, sideName[side])
				w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return ended[side][name] >= round }, "the last callback of %s on the %s", name, sideName[side])
				mu.Lock()
				k := ended[side][name]
				mu.Unlock()
				w.Check(k == round, "%s ended %d times on the %s in %d rounds", name, k, sideName[side], round)
			}
		}
		if !rooms { // "a" is gone as well.
			rig.Connect(cli, "a")
		}
	}
	w.Nontrivial()
}

func c08Model(w *W) {
	r := w.R
	l := newLife(w, pick(r, transports), 1+r.Intn(2), false)
	n := 10 + r.Intn(20)
	for i := 0; i < n; i++ {
		c, side, ns, room := pick(r, l.clis), r.Intn(2), pick(r, l.nss), pick(r, l.rooms)
		switch r.Intn(10) {
		case 0, 1, 2:
			l.opConnect(c, side, ns)
		case 3, 4:
			l.opDisconnect(c, side, ns)
		case 5:
			l.opJoin(c, side, ns, room)
		default:
			l.opTraffic(c, side, ns, room)
		}
	}
	l.report()
	if l.stats["connects"] > 0 && (l.stats["refused_connects"] > 0 || l.stats["refused_sends"] > 0) {
		w.Nontrivial()
	}
	w.Call(l.rig.Close, "server close")
}

func c09Model(w *W) {
	r := w.R
	l := newLife(w, pick(r, transports), 1+r.Intn(3), false)
	for _, c := range l.clis {
		for _, ns := range l.nss {
			if chance(r, 80) {
				l.opConnect(c, r.Intn(2), ns)
			}
		}
	}
	n := 30 + r.Intn(40)
	for i := 0; i < n; i++ {
		c, side, ns, room := pick(r, l.clis), r.Intn(2), pick(r, l.nss), pick(r, l.rooms)
		switch r.Intn(14) {
		case 0:
			l.opConnect(c, side, ns)
		case 1:
			l.opDisconnect(c, side, l.withRooms(c, ns))
		case 2, 3, 4, 5:
			l.opJoin(c, side, ns, room)
		case 6, 7, 8:
			l.opLeave(c, side, ns, room)
		case 9:
			l.opLeaveAll(c, side, ns)
		default:
			l.opTraffic(c, side, ns, room)
		}
	}
	if chance(r, 40) && len(l.clis) > 1 { // the others keep theirs.
		l.end(l.clis[0], pick(r, []string{"client close", "server side close", "cut"}))
		for i := 0; i < 5; i++ {
			c := l.clis[1]
			switch r.Intn(3) {
			case 0:
				l.opJoin(c, r.Intn(2), pick(r, l.nss), pick(r, l.rooms))
			case 1:
				l.opLeave(c, r.Intn(2), pick(r, l.nss), pick(r, l.rooms))
			case 2:
				l.opTraffic(c, r.Intn(2), pick(r, l.nss), pick(r, l.rooms))
			}
		}
	}
	l.report()
	if l.stats["joins"] >= 3 && l.stats["leaves"] > 0 {
		w.Nontrivial()
	}
	w.Call(l.rig.Close, "server close")
}

func c10Model(w *W) {
	r := w.R
	l := newLife(w, pick(r, transports), 1+r.Intn(2), true)
	n := 8 + r.Intn(20)
	for i := 0; i < n; i++ {
		c, side, ns, room := pick(r, l.clis), r.Intn(2), pick(r, l.nss), pick(r, l.rooms)
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			l.opConnect(c, side, ns)
		case 4:
			l.opDisconnect(c, side, l.withRooms(c, ns))
		case 5, 6, 7:
			l.opJoin(c, side, ns, room)
		case 8:
			l.opLeave(c, side, ns, room)
		case 9:
			l.opLeaveAll(c, side, ns)
		case 10:
			if r.Intn(3) == 0 {
				l.opDisconnectAll(c, side)
			}
		default:
			l.opTraffic(c, side, ns, room)
		}
	}
	// reach something to be forced.
	for _, ns := range l.nss {
		if chance(r, 70) {
			l.opConnect(l.clis[0], r.Intn(2), ns)
			l.opJoin(l.clis[0], r.Intn(2), ns, pick(r, l.rooms))
		}
	}
	forced := len(l.clis[0].model) > 0
	// errors of callbacks do not stop the forced ones.
	if chance(r, 50) {
		for ns, rooms := range l.clis[0].model {
			for side := 0; side < 2; side++ {
				l.refuse(side, l.clis[0], neffos.OnNamespaceDisconnect, ns, "")
				for rm := range rooms {
					l.refuse(side, l.clis[0], neffos.OnRoomLeave, ns, rm)
					l.refuse(side, l.clis[0], neffos.OnRoomLeft, ns, rm)
				}
			}
		}
	}
	l.end(l.clis[0], pick(r, []string{"client close", "server side close", "cut", "server close"}))
	l.allow()
	for _, c := range l.clis {
		if !c.down {
			l.end(c, pick(r, []string{"client close", "server side close", "cut", "server close"}))
		}
	}
	l.report()
	for _, e := range l.rec.all() {
		w.Sign(e.Side + e.Conn + e.NS + evKey(e))
	}
	if forced {
		w.Nontrivial()
	}
	w.Call(l.rig.Close, "server close")
}

// c10Concurrent: a goroutine per namespace drives it (from one side), while others drive others; the connection is ended
// at a random moment.
func c10Concurrent(w *W) {
	r := w.R
	kind := pick(r, transports)
	nss := lifeNS[:2+r.Intn(3)]
	rec := &Rec{w: w}
	var ready sync.Map // *neffos.NSConn
	var his int64
	mk := func(side string) neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, ns := range nss {
			rr := w.Rand()
			var rmu sync.Mutex
			h[ns] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
				if m.Event == "hi" {
					w.Event()
					_, ok := ready.Load(c)
					w.Check(ok, "%s: a message of %q is handled before its connected callback has returned", side, m.Namespace)
					atomic.AddInt64(&his, 1)
					return nil
				}
				e := evOf(c, m)
				rmu.Lock()
				d, no, slow := rr.Intn(300), rr.Intn(5) == 0, rr.Intn(4) == 0
				rmu.Unlock()
				if m.Event == neffos.OnNamespaceConnected {
					defer ready.Store(c, true)
					c.Emit("hi", nil)
				}
				if no && side == "S" && !m.IsLocal && !m.IsForced && (m.Event == neffos.OnNamespaceDisconnect || m.Event == neffos.OnRoomLeave) {
					e.Err = errors.New("refused")
					rec.add(e)
					return e.Err
				}
				if no && !m.IsLocal && (m.Event == neffos.OnRoomJoin || m.Event == neffos.OnNamespaceConnect) {
					rec.add(e)
					return errors.New("refused")
				}
				rec.add(e)
				if slow {
					time.Sleep(time.Duration(d) * time.Microsecond)
				}
				return nil
			}}
		}
		return h
	}
	gone := make(chan struct{})
	sc := make(chan *neffos.Conn, 1)
	hs := mk("S")
	hs["ctl"] = neffos.Events{}
	rig := NewRig(w, kind, hs, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sc <- c; return nil }
		s.OnDisconnect = func(c *neffos.Conn) { close(gone) }
	})
	hc := mk("C")
	hc["ctl"] = neffos.Events{}
	cli, link := rig.Dial("x", hc)
	sconn := <-sc
	ctl := rig.Connect(cli, "ctl")
	end := pick(r, []string{"client close", "server side close", "cut", "server close", "twice"})
	dur := time.Duration(r.Intn(20000)) * time.Microsecond
	w.Sample("transport %s: %d namespaces driven concurrently, %s after %v", kind, len(nss), end, dur)
	var wg sync.WaitGroup
	var ops int64
	for _, ns := range nss {
		ns := ns
		rr := w.Rand()
		owner := rr.Intn(2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			connect := func() (*neffos.NSConn, error) {
				if owner == sideC {
					return cli.Connect(w.Ctx(), ns)
				}
				return sconn.Connect(w.Ctx(), ns)
			}
			for i := 0; i < 40; i++ {
				n, err := connect()
				atomic.AddInt64(&ops, 1)
				if err != nil {
					if err.Error() != "refused" {
						return
					}
					continue
				}
				for k := 0; k < rr.Intn(6); k++ {
					var err error
					switch rr.Intn(4) {
					case 0, 1:
						_, err = n.JoinRoom(w.Ctx(), pick(rr, lifeRooms))
					case 2:
						if rm := n.Room(pick(rr, lifeRooms)); rm != nil {
							err = rm.Leave(w.Ctx())
						}
					case 3:
						err = n.LeaveAll(w.Ctx())
					}
					atomic.AddInt64(&ops, 1)
					if err != nil && err.Error() != "refused" {
						return
					}
				}
				if rr.Intn(2) == 0 {
					if err := n.Disconnect(w.Ctx()); err != nil && err.Error() != "refused" {
						return
					}
				}
			}
		}()
	}
	stop := make(chan struct{})
	var iwg sync.WaitGroup
	for _, ns := range nss {
		if chance(r, 50) {
			continue
		}
		for _, conn := range []*neffos.Conn{sconn, ctl.Conn} {
			ns, conn, rr := ns, conn, w.Rand()
			iwg.Add(1)
			go func() {
				defer iwg.Done()
				my := "own of " + map[bool]string{true: "client", false: "server"}[conn.IsClient()]
				for {
					select {
					case <-stop:
						return
					default:
					}
					if n := conn.Namespace(ns); n != nil {
						if rm, err := n.JoinRoom(w.Ctx(), my); err == nil && rr.Intn(2) == 0 {
							rm.Leave(w.Ctx())
						}
						atomic.AddInt64(&ops, 1)
					}
					sleepy(rr, 200)
				}
			}()
		}
	}
	time.Sleep(dur)
	during := atomic.LoadInt64(&ops)
	switch end {
	case "client close":
		cli.Close()
	case "server side close":
		sconn.Close()
	case "cut":
		link.Cut()
	case "server close":
		rig.Srv.Close()
	case "twice":
		go sconn.Close()
		cli.Close()
	}
	w.Join(&wg, "the operations to return after "+end)
	close(stop)
	w.Join(&iwg, "the joins of the other side to return after "+end)
	w.Chan(cli.NotifyClose, "NotifyClose")
	w.Chan(gone, "OnDisconnect")
	// balance. A disconnect that was in progress when closed may be notified a bit later.
	last := ""
	w.Await(func() bool {
		s, ok := balanced(rec)
		if !ok && s != last {
			last = s
			w.Log("not balanced: %s", s)
		}
		return ok
	}, "connected/disconnect and joined/left callbacks to be balanced after the end (%s)", end)
	// order: every prefix, per side and namespace, before the termination's forced events.
	type st struct {
		connected bool
		rooms     map[string]bool
		over      bool
	}
	sts := map[string]*st{}
	for i, e := range rec.all() {
		k := e.Side + "|" + e.NS
		s := sts[k]
		if s == nil {
			s = &st{rooms: map[string]bool{}}
			sts[k] = s
		}
		w.Sign(k + evKey(e))
		if e.Forced && e.Local && e.Event == neffos.OnNamespaceDisconnect {
			s.over = true // closed: what was in progress may be notified in any order, only the balance counts.
		}
		if s.over {
			continue
		}
		switch e.Event {
		case neffos.OnNamespaceConnected:
			w.Check(!s.connected, "event %d %s: connected twice", i, e)
			s.connected = true
		case neffos.OnNamespaceDisconnect:
			if e.Err == nil {
				w.Check(s.connected || closing(rec, k), "event %d %s: disconnect while not connected", i, e)
				s.connected = false
			}
		case neffos.OnRoomJoined:
			if strings.HasPrefix(e.Room, "own of ") {
				// joined by one goroutine while another one's disconnect forces the leave: the two
				// notifications are concurrent, only their balance is decided.
				continue
			}
			w.Check(!s.rooms[e.Room], "event %d %s: joined twice", i, e)
			s.rooms[e.Room] = true
		case neffos.OnRoomLeft:
			if strings.HasPrefix(e.Room, "own of ") {
				continue
			}
			w.Check(s.rooms[e.Room] || closing(rec, k), "event %d %s: left while not joined", i, e)
			s.rooms[e.Room] = false
		}
	}
	w.Stat("operations", ops)
	w.Stat("messages_after_connected", atomic.LoadInt64(&his))
	if during > 0 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "server close")
}

// c10Vanish: the peer vanishes while one of the callbacks runs, or without answering a request.
func c10Vanish(w *W) {
	r := w.R
	side := r.Intn(2)
	rec := &Rec{w: w}
	refuse := chance(r, 25)
	hold := pick(r, []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, "none"})
	var armed int32
	inside, vanished := make(chan struct{}), make(chan struct{})
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		e := evOf(c, m)
		mine := m.Event == hold && atomic.CompareAndSwapInt32(&armed, 1, 0)
		if mine && refuse && side == sideS && !m.IsLocal && !m.IsForced && (hold == neffos.OnNamespaceDisconnect || hold == neffos.OnRoomLeave) {
			e.Err = errors.New("refused")
		}
		rec.add(e)
		if mine {
			close(inside)
			<-vanished
		}
		return e.Err
	}
	h := HandlerAll(cb, "a", "b;1")
	gone := make(chan struct{})
	var peer *memEnd
	var conn *neffos.Conn
	var rig *Rig
	prefix := "$"
	if side == sideS {
		rig = NewRig(w, "mem", h, func(s *neffos.Server) {
			s.OnConnect = func(c *neffos.Conn) error { conn = c; return nil }
			s.OnDisconnect = func(c *neffos.Conn) { close(gone) }
		})
		peer = rig.MemRaw("raw")
		peer.Send("M")
		s, _, _ := peer.Recv()
		w.Check(s == "Araw", "acknowledged by %q", s)
	} else {
		prefix = "1"
		var cli *neffos.Client
		cli, peer = rawServer(w, h, "x")
		go func() { <-cli.NotifyClose; close(gone) }()
	}
	seq := 0
	req := func(event, room string) {
		seq++
		wait := fmt.Sprint(prefix, seq)
		peer.Send(rawMsg{wait: wait, ns: "a", room: room, event: event}.wire())
		for {
			s, _, err := peer.Recv()
			w.Check(err == nil, "%s: the connection is closed", event)
			if strings.HasPrefix(s, wait+";") {
				return
			}
		}
	}
	last := pick(r, []string{neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomLeave})
	if last != neffos.OnNamespaceConnect {
		req(neffos.OnNamespaceConnect, "")
		for _, rm := range []string{"x", "y;"}[:r.Intn(3)] {
			req(neffos.OnRoomJoin, rm)
		}
		if last == neffos.OnRoomLeave {
			req(neffos.OnRoomJoin, "z")
		}
	}
	own := chance(r, 40) && conn != nil && last != neffos.OnNamespaceConnect // the library's side asks.
	w.Sample("%s side, own request %v: the peer vanishes at %s, during the callback of %s (refused %v)", sideName[side], own, last, hold, refuse)
	atomic.StoreInt32(&armed, 1)
	done := make(chan struct{})
	if own {
		n := conn.Namespace("a")
		go func() {
			defer close(done)
			switch last {
			case neffos.OnNamespaceDisconnect:
				n.Disconnect(w.Ctx())
			case neffos.OnRoomJoin:
				n.JoinRoom(w.Ctx(), "z")
			case neffos.OnRoomLeave:
				n.Room("z").Leave(w.Ctx())
			}
		}()
		s, _, err := peer.Recv()
		m, ok := parseRaw(s)
		w.Check(err == nil && ok && m.event == last, "%s was asked by %q, %v", last, s, err)
		if chance(r, 80) {
			peer.Send(m.wait + ";;;;;;")
		}
	} else {
		close(done)
		room := ""
		if last == neffos.OnRoomJoin || last == neffos.OnRoomLeave {
			room = "z"
		}
		peer.Send(rawMsg{wait: prefix + "99", ns: "a", room: room, event: last}.wire())
	}
	// the callback, if it's part of this.
	held := false
	select {
	case <-inside:
		held = true
	case <-time.After(time.Duration(3+r.Intn(10)) * time.Millisecond):
	}
	peer.NetConn().Close()
	close(vanished)
	w.Chan(done, "the request to return after the peer has vanished")
	w.Chan(gone, "the end of the connection after the peer has vanished")
	w.Await(func() bool { _, ok := balanced(rec); return ok }, "connected/disconnect and joined/left callbacks to be balanced after the peer has vanished at %s (%s held)", last, hold)
	for _, e := range rec.all() {
		w.Sign(e.Side + e.NS + evKey(e))
	}
	if held {
		w.Stat("vanished_in_callback", 1)
		w.Nontrivial()
	}
	if rig != nil {
		w.Call(rig.Close, "server close")
	}
}

// closing reports whether the namespace's last life was ended by a close.
func closing(rec *Rec, k string) bool {
	return rec.count(func(e Ev) bool {
		return e.Side+"|"+e.NS == k && e.Forced && e.Local && e.Event == neffos.OnNamespaceDisconnect
	}) > 0
}

func balanced(rec *Rec) (string, bool) {
	m := map[string]int{}
	for _, e := range rec.all() {
		if e.Err != nil {
			continue
		}
		switch e.Event {
		case neffos.OnNamespaceConnected:
			m[e.Side+"|"+e.NS+"| connected-disconnect"]++
		case neffos.OnNamespaceDisconnect:
			m[e.Side+"|"+e.NS+"| connected-disconnect"]--
		case neffos.OnRoomJoined:
			m[e.Side+"|"+e.NS+"|"+e.Room+" joined-left"]++
		case neffos.OnRoomLeft:
			m[e.Side+"|"+e.NS+"|"+e.Room+" joined-left"]--
		}
	}
	for k, v := range m {
		if v != 0 {
			return fmt.Sprintf("%s = %d", k, v), false
		}
	}
	return "", true
}

// c09Concurrent: rooms are owned by goroutines of both sides, all on the same namespace connections.
func c09Concurrent(w *W) {
	r := w.R
	kind := pick(r, transports)
	var denied sync.Map
	mk := func() neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, ns := range []string{"a", "b"} {
			h[ns] = neffos.Events{
				neffos.OnRoomJoin: func(c *neffos.NSConn, m neffos.Message) error {
					w.Event()
					if v, ok := denied.Load(m.Room); ok && !m.IsLocal {
						return v.(error)
					}
					return nil
				},
				"e": func(c *neffos.NSConn, m neffos.Message) error { return nil },
				"f": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(nil) },
			}
		}
		return h
	}
	sc := make(chan *neffos.Conn, 1)
	rig := NewRig(w, kind, mk(), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sc <- c; return nil }
	})
	cli, _ := rig.Dial("x", mk())
	sconn := <-sc
	ends := map[string][2]*neffos.NSConn{}
	for _, ns := range []string{"a", "b"} {
		n := rig.Connect(cli, ns)
		w.Await(func() bool { return sconn.Namespace(ns) != nil }, "server side namespace")
		ends[ns] = [2]*neffos.NSConn{sconn.Namespace(ns), n}
	}
	g := 2 + r.Intn(5)
	w.Sample("transport %s: %d goroutines of both sides join and leave their own rooms of 2 namespaces", kind, g)
	var joins int64
	final := make([]map[string]bool, g)
	w.Go(g, "joins and leaves", func(i int) {
		rr := w.Rand()
		side := i % 2
		ns := pick(rr, []string{"a", "b"})
		my := []string{fmt.Sprintf("g%d.1", i), fmt.Sprintf("g%d.2", i)}
		in := map[string]bool{}
		for k := 0; k < 25; k++ {
			room := pick(rr, my)
			h := ends[ns][side]
			if in[room] {
				if rr.Intn(3) == 0 {
					w.Check(h.Room(room).Emit("e", nil), "emit to a joined room failed")
					continue
				}
				w.Call(func() {
					err := h.Room(room).Leave(w.Ctx())
					w.Check(err == nil, "leave failed: %v", err)
				}, "leave")
				in[room] = false
			} else {
				no := rr.Intn(4) == 0
				if no {
					denied.Store(room, errors.New("no "+room))
				}
				w.Call(func() {
					rm, err := h.JoinRoom(w.Ctx(), room)
					if no {
						w.Check(err != nil && err.Error() == "no "+room && rm == nil, "refused join: %v", err)
					} else {
						w.Check(err == nil && rm != nil && rm.Name == room, "join failed: %v", err)
					}
				}, "join")
				denied.Delete(room)
				in[room] = !no
				atomic.AddInt64(&joins, 1)
			}
			// the reply comes after the remote side is updated.
			for s := 0; s < 2; s++ {
				w.Check((ends[ns][s].Room(room) != nil) == in[room], "room %s on the %s: %v, should be %v", room, sideName[s], ends[ns][s].Room(room) != nil, in[room])
			}
		}
		final[i] = map[string]bool{}
		for rm, ok := range in {
			if ok {
				final[i][ns+rm] = true
			}
		}
		w.Sign(fmt.Sprint(i, in))
	})
	for ns, e := range ends {
		for s := 0; s < 2; s++ {
			n := 0
			for _, rm := range e[s].Rooms() {
				ok := false
				for i := range final {
					ok = ok || final[i][ns+rm.Name]
				}
				w.Check(ok, "room %s of %s is still on the %s", rm.Name, ns, sideName[s])
				n++
			}
			want := 0
			for i := range final {
				for k := range final[i] {
					if strings.HasPrefix(k, ns+"g") {
						want++
					}
				}
			}
			w.Check(n == want, "%d rooms of %s on the %s, should be %d", n, ns, sideName[s], want)
		}
	}
	w.Stat("joins", joins)
	if joins > 3 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "close")
}

// ---- raw peers ----

type rawMsg struct {
	wait, ns, room, event string
	isErr                 bool
	body                  string
	raw                   string
}

const escSemi = "@%!semicolon@%!"

func esc(s string) string   { return strings.ReplaceAll(s, ";", escSemi) }
func unesc(s string) string { return strings.ReplaceAll(s, escSemi, ";") }

func (m rawMsg) wire() string {
	e := "0"
	if m.isErr {
		e = "1"
	}
	return strings.Join([]string{m.wait, esc(m.ns), esc(m.room), esc(m.event), e, "0", m.body}, ";")
}

func parseRaw(s string) (rawMsg, bool) {
	p := strings.SplitN(s, ";", 7)
	if len(p) != 7 {
		return rawMsg{raw: s}, false
	}
	return rawMsg{p[0], unesc(p[1]), unesc(p[2]), unesc(p[3]), p[4] == "1", p[6], s}, true
}

// c08RawClient: a client that ignores the rules.
func c08RawClient(w *W) {
	r := w.R
	rec := &Rec{w: w}
	var refuse, refuseDis int32
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		rec.on(c, m)
		if m.Event == neffos.OnNamespaceConnect && atomic.LoadInt32(&refuse) > 0 {
			return errors.New("refused;x")
		}
		if m.Event == neffos.OnNamespaceDisconnect && atomic.LoadInt32(&refuseDis) > 0 && !m.IsForced {
			return errors.New("stay")
		}
		if m.Event == "q" {
			return neffos.Reply([]byte("r:" + string(m.Body)))
		}
		return nil
	}
	declared := []string{"", "a", "b;1"}
	var sconn *neffos.Conn
	rig := NewRig(w, "mem", HandlerAll(cb, declared...), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; return nil }
	})
	peer := rig.MemRaw("raw")
	w.Check(peer.Send("M") == nil, "send failed")
	recv := func(what string) rawMsg {
		defer w.Waiting("a reply of the server to " + what)()
		s, _, err := peer.Recv()
		w.Check(err == nil, "the server closed the connection after %s", what)
		m, ok := parseRaw(s)
		if !ok {
			w.Check(s == "Araw", "unexpected frame %q", s)
		}
		return m
	}
	recv("acknowledgement")
	connected := map[string]bool{}
	seq := 0
	exp := 0 // expected user callbacks
	n := 15 + r.Intn(40)
	var ops []string
	ok, no := 0, 0
	for i := 0; i < n; i++ {
		ns := pick(r, []string{"", "a", "b;1", "undeclared", "A", "a "})
		isDecl := ns == "" || ns == "a" || ns == "b;1"
		seq++
		wait := fmt.Sprintf("$%d", seq)
		body := fmt.Sprintf("b%d", seq)
		event := ""
		switch r.Intn(9) {
		case 0, 1: // connect request.
			event = neffos.OnNamespaceConnect
			ref := r.Intn(3) == 0
			if ref {
				atomic.StoreInt32(&refuse, 1)
			} else {
				atomic.StoreInt32(&refuse, 0)
			}
			peer.Send(rawMsg{wait: wait, ns: ns, event: event}.wire())
			m := recv("connect of " + ns)
			w.Check(m.wait == wait, "connect request %s was answered by %q", wait, m.raw)
			switch {
			case connected[ns]:
				w.Check(!m.isErr, "connect of a connected namespace was answered by %q", m.raw)
			case !isDecl:
				w.Check(m.isErr && m.body == neffos.ErrBadNamespace.Error(), "connect of undeclared namespace %q was answered by %q", ns, m.raw)
				no++
			case ref:
				w.Check(m.isErr && m.body == "refused;x", "refused connect was answered by %q", m.raw)
				no++
			default:
				w.Check(!m.isErr, "connect was answered by %q", m.raw)
				connected[ns] = true
				ok++
			}
		case 2: // connect without a token is not a request.
			event = neffos.OnNamespaceConnect
			peer.Send(rawMsg{ns: ns, event: event}.wire())
		case 3: // disconnect.
			event = neffos.OnNamespaceDisconnect
			ref := r.Intn(3) == 0
			if ref {
				atomic.StoreInt32(&refuseDis, 1)
			} else {
				atomic.StoreInt32(&refuseDis, 0)
			}
			peer.Send(rawMsg{wait: wait, ns: ns, event: event}.wire())
			m := recv("disconnect of " + ns)
			w.Check(m.wait == wait, "disconnect request was answered by %q", m.raw)
			if connected[ns] && ref {
				w.Check(m.isErr && m.body == "stay", "refused disconnect was answered by %q", m.raw)
			} else {
				w.Check(!m.isErr, "disconnect was answered by %q", m.raw)
				delete(connected, ns)
			}
		case 4, 5: // plain message.
			event = "e"
			room := pick(r, []string{"", "room"})
			peer.Send(rawMsg{ns: ns, room: room, event: event, body: body}.wire())
			if connected[ns] {
				exp++
			} else {
				no++
			}
		case 6, 7: // request.
			event = "q"
			peer.Send(rawMsg{wait: wait, ns: ns, event: event, body: body}.wire())
			m := recv("request to " + ns)
			w.Check(m.wait == wait, "request was answered by %q", m.raw)
			if connected[ns] {
				w.Check(!m.isErr && m.body == "r:"+body, "request was answered by %q", m.raw)
				exp++
			} else {
				w.Check(m.isErr && m.body == neffos.ErrBadNamespace.Error(), "request to the not connected namespace %q was answered by %q", ns, m.raw)
				no++
			}
		case 8: // join requests are gated too.
			event = neffos.OnRoomJoin
			peer.Send(rawMsg{wait: wait, ns: ns, room: "rm", event: event}.wire())
			m := recv("join to " + ns)
			w.Check(m.wait == wait, "join request was answered by %q", m.raw)
			if connected[ns] {
				w.Check(!m.isErr, "join was answered by %q", m.raw)
			} else {
				w.Check(m.isErr && m.body == neffos.ErrBadNamespace.Error(), "join at the not connected namespace %q was answered by %q", ns, m.raw)
				no++
			}
		}
		ops = append(ops, event+":"+ns)
		// a fence: everything before it is handled.
		peer.Send(rawMsg{wait: "$fence", ns: "undeclared", event: "fence"}.wire())
		m := recv("the fence")
		w.Check(m.wait == "$fence" && m.isErr, "something else was sent after %s to %q: %q", event, ns, m.raw)
		for _, d := range declared {
			w.Check((sconn.Namespace(d) != nil) == connected[d], "after %s to %q: namespace %q connected %v, should be %v", event, ns, d, sconn.Namespace(d) != nil, connected[d])
		}
		w.Check(sconn.Namespace("undeclared") == nil && sconn.Namespace("A") == nil && sconn.Namespace("a ") == nil, "an undeclared namespace is connected")
		if sconn.Namespace(ns) == nil {
			w.Check(!sconn.Write(neffos.Message{Namespace: ns, Event: "x"}), "a write to a not connected namespace succeeded")
		}
		got := rec.count(func(e Ev) bool { return !neffos.IsSystemEvent(e.Event) })
		w.Check(got == exp, "after %s to %q (connected %v): %d callbacks fired, should be %d", event, ns, connected[ns], got, exp)
	}
	w.Sample("raw client: %s", strings.Join(ops, " "))
	w.Sign(strings.Join(ops, " "))
	w.Stat("accepted", int64(ok))
	w.Stat("refused", int64(no))
	if ok > 0 && no > 0 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "server close")
}

// rawServer is the server's end of an in-memory client connection.
func rawServer(w *W, h neffos.ConnHandler, id string) (*neffos.Client, *memEnd) {
	var srv *memEnd
	d := func(ctx context.Context, u string) (neffos.Socket, error) {
		var c *memEnd
		c, srv = memPipe()
		go func() {
			s, _, err := srv.Recv()
			if err == nil && s == "M" {
				srv.Send("A" + id)
			}
		}()
		return c, nil
	}
	cli, err := neffos.Dial(w.Ctx(), d, "ws://x", h)
	if err != nil {
		w.Violate("dial: %v", err)
	}
	w.Check(cli.ID == id, "client ID is %q, the server sent %q", cli.ID, id)
	return cli, srv
}

// c08RawServer: a server that ignores the rules.
func c08RawServer(w *W) {
	r := w.R
	rec := &Rec{w: w}
	var refuse int32
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		rec.on(c, m)
		if m.Event == neffos.OnNamespaceConnect && atomic.LoadInt32(&refuse) > 0 {
			return errors.New("refused by client")
		}
		if m.Event == "q" {
			return neffos.Reply([]byte("r:" + string(m.Body)))
		}
		return nil
	}
	cli, srv := rawServer(w, HandlerAll(cb, "", "a", "b;1"), "some;id")
	recv := func(what string) rawMsg {
		defer w.Waiting("a frame of the client, " + what)()
		s, _, err := srv.Recv()
		w.Check(err == nil, "the client closed the connection after %s", what)
		m, ok := parseRaw(s)
		w.Check(ok, "unexpected frame %q", s)
		return m
	}
	connected := map[string]bool{}
	handles := map[string]*neffos.NSConn{}
	exp, ok, no, seq := 0, 0, 0, 0
	var ops []string
	n := 15 + r.Intn(30)
	for i := 0; i < n; i++ {
		ns := pick(r, []string{"", "a", "b;1", "undeclared"})
		isDecl := ns != "undeclared"
		seq++
		wait := fmt.Sprintf("1%d", seq)
		body := fmt.Sprintf("b%d", seq)
		op := ""
		switch r.Intn(7) {
		case 0: // the client connects; the server accepts, refuses or is unrelated.
			op = "client connect"
			atomic.StoreInt32(&refuse, int32(r.Intn(2)*r.Intn(2)))
			ref := atomic.LoadInt32(&refuse) > 0
			var nc *neffos.NSConn
			var err error
			done := make(chan struct{})
			go func() { nc, err = cli.Connect(w.Ctx(), ns); close(done) }()
			switch {
			case connected[ns]:
				w.Chan(done, "connect")
				w.Check(err == nil && nc != nil, "connect of a connected namespace: %v", err)
			case !isDecl:
				w.Chan(done, "connect")
				w.Check(err == neffos.ErrBadNamespace && nc == nil, "connect of an undeclared namespace: %v", err)
				no++
			case ref:
				w.Chan(done, "connect")
				w.Check(err != nil && err.Error() == "refused by client" && nc == nil, "refused connect: %v", err)
				no++
			default:
				m := recv("connect")
				w.Check(m.event == neffos.OnNamespaceConnect && m.ns == ns && m.wait != "", "connect sent %q", m.raw)
				accept := r.Intn(3) > 0
				if accept {
					srv.Send(m.wait + ";;;;;;")
				} else {
					srv.Send(rawMsg{wait: m.wait, ns: ns, event: m.event, isErr: true, body: "not here"}.wire())
				}
				w.Chan(done, "connect")
				if accept {
					w.Check(err == nil && nc != nil, "accepted connect: %v", err)
					connected[ns] = true
					handles[ns] = nc
					ok++
				} else {
					w.Check(err != nil && err.Error() == "not here" && nc == nil, "refused connect: %v", err)
					no++
				}
			}
		case 1: // the server connects.
			op = "server connect"
			atomic.StoreInt32(&refuse, int32(r.Intn(2)*r.Intn(2)))
			ref := atomic.LoadInt32(&refuse) > 0
			srv.Send(rawMsg{wait: wait, ns: ns, event: neffos.OnNamespaceConnect}.wire())
			m := recv("connect")
			w.Check(m.wait == wait, "connect was answered by %q", m.raw)
			switch {
			case connected[ns]:
				w.Check(!m.isErr, "connect of a connected namespace was answered by %q", m.raw)
			case !isDecl:
				w.Check(m.isErr && m.body == neffos.ErrBadNamespace.Error(), "connect of an undeclared namespace was answered by %q", m.raw)
				no++
			case ref:
				w.Check(m.isErr && m.body == "refused by client", "refused connect was answered by %q", m.raw)
				no++
			default:
				w.Check(!m.isErr, "connect was answered by %q", m.raw)
				connected[ns] = true
				ok++
			}
		case 2: // the server disconnects it.
			op = "server disconnect"
			srv.Send(rawMsg{wait: wait, ns: ns, event: neffos.OnNamespaceDisconnect}.wire())
			m := recv("disconnect")
			w.Check(m.wait == wait && !m.isErr, "disconnect was answered by %q", m.raw)
			delete(connected, ns)
		case 3:
			op = "message"
			srv.Send(rawMsg{ns: ns, event: "e", body: body}.wire())
			if connected[ns] {
				exp++
			} else {
				no++
			}
		case 4:
			op = "request"
			srv.Send(rawMsg{wait: wait, ns: ns, event: "q", body: body}.wire())
			m := recv("request")
			w.Check(m.wait == wait, "request was answered by %q", m.raw)
			if connected[ns] {
				w.Check(!m.isErr && m.body == "r:"+body, "request was answered by %q", m.raw)
				exp++
			} else {
				w.Check(m.isErr && m.body == neffos.ErrBadNamespace.Error(), "request to a not connected namespace was answered by %q", m.raw)
				no++
			}
		case 5:
			op = "join"
			srv.Send(rawMsg{wait: wait, ns: ns, room: "r;", event: neffos.OnRoomJoin}.wire())
			m := recv("join")
			w.Check(m.wait == wait && m.isErr == !connected[ns], "join (connected %v) was answered by %q", connected[ns], m.raw)
		case 6:
			op = "client emit"
			if h := handles[ns]; h != nil {
				sent := h.Emit("ev", []byte(body))
				w.Check(sent == connected[ns], "emit reported %v, the namespace is connected: %v", sent, connected[ns])
				if sent {
					m := recv("emit")
					w.Check(m.ns == ns && m.event == "ev" && m.body == body && m.wait == "", "emit sent %q", m.raw)
				}
			}
		}
		ops = append(ops, op+":"+ns)
		srv.Send(rawMsg{wait: "9fence", ns: "undeclared", event: "fence"}.wire())
		m := recv("the fence after " + op)
		w.Check(m.wait == "9fence" && m.isErr, "something else was sent after %s: %q", op, m.raw)
		got := rec.count(func(e Ev) bool { return !neffos.IsSystemEvent(e.Event) })
		w.Check(got == exp, "after %s on %q (connected %v): %d callbacks fired, should be %d", op, ns, connected[ns], got, exp)
	}
	w.Sample("raw server: %s", strings.Join(ops, " "))
	w.Sign(strings.Join(ops, " "))
	w.Stat("accepted", int64(ok))
	w.Stat("refused", int64(no))
	if ok > 0 && no > 0 {
		w.Nontrivial()
	}
	cli.Close()
	w.Chan(cli.NotifyClose, "NotifyClose")
}
