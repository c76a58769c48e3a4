package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C12", Quick: 5000, Thorough: 30000, Run: runC12,
		Rule: "a case is 2-3 bursts of concurrent dials, rejections, closes by either side (also from callbacks and several at once), network cuts, losses during the handshake and optionally a server close, over 5 transports, with namespaces connected; after each burst has settled the total, the visits of Do and the OnDisconnect counts are compared with the ledger of what happened. Non-trivial: at least 3 connections ended and one lived through a burst. Distinct: by the hash of the ends and their order"})
	register(&Prop{ID: "C13", Quick: 6000, Thorough: 40000, Run: func(w *W) {
		if w.Case%4 == 3 {
			c13Server(w)
			return
		}
		if w.Case%12 == 5 {
			c13Pipelined(w)
			return
		}
		if w.Case%24 == 10 {
			c13Native(w)
			return
		}
		c13Conn(w)
	},
		Rule: "a case is a connection with traffic, pending requests and handshakes in progress that is closed from 1-5 origins at once (both sides, own callbacks, cuts), or a server closed while dials, upgrades and traffic are in progress; both ends, their sockets, notifications, later calls and the goroutines that remain are checked. Non-trivial: something was in progress at the close. Distinct: by the hash of origins and observed order. Also pipelined requests of raw peers at the close, and native-only connections"})
}

// libGoroutines returns the stacks of goroutines that run (or were started by) the library, without the server's loop.
func libGoroutines() []string {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for i, g := range strings.Split(string(buf[:n]), "\n\n") {
		if i == 0 || !strings.Contains(g, "kataras/neffos") {
			continue
		}
		if strings.Contains(g, "neffos.(*Server).start(") {
			continue
		}
		out = append(out, g)
	}
	return out
}

func (w *W) noGoroutines(what string) {
	w.Await(func() bool { return len(libGoroutines()) == 0 }, "the goroutines of the library to end %s", what)
}

// sockets reports how many network connections of the rig are still open.
func (r *Rig) openSockets() (open int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.srvConns {
		if atomic.LoadInt32(&c.closed) == 0 {
			open++
		}
	}
	for _, c := range r.cliConns {
		if atomic.LoadInt32(&c.closed) == 0 {
			open++
		}
	}
	for _, e := range r.memEnds {
		if atomic.LoadInt32(&e.conn.closed) == 0 {
			open++
		}
	}
	return
}

type c12conn struct {
	id       string
	cli      *neffos.Client
	link     *Link
	sconn    *neffos.Conn
	admitted atomic.Bool // the dial succeeded
	rejected bool
	ended    int32 // the end was started
	discon   int32
	nsOpen   int32 // server side connected minus disconnected callbacks
}

func runC12(w *W) {
	r := w.R
	kind := pick(r, transports)
	always := chance(r, 25)
	var mu sync.Mutex
	conns := map[string]*c12conn{}
	get := func(id string) *c12conn {
		mu.Lock()
		defer mu.Unlock()
		return conns[id]
	}
	var order []string
	h := func() neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, ns := range []string{"a", "b"} {
			h[ns] = neffos.Events{
				neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
					if !c.Conn.IsClient() {
						atomic.AddInt32(&get(c.Conn.ID()).nsOpen, 1)
					}
					return nil
				},
				neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
					w.Event()
					if !c.Conn.IsClient() {
						time.Sleep(50 * time.Microsecond)
						atomic.AddInt32(&get(c.Conn.ID()).nsOpen, -1)
					}
					return nil
				},
				"close": func(c *neffos.NSConn, m neffos.Message) error {
					if x := get(c.Conn.ID()); x != nil {
						atomic.StoreInt32(&x.ended, 1)
					}
					c.Conn.Close()
					return nil
				},
				"e": func(c *neffos.NSConn, m neffos.Message) error { w.Event(); return nil },
			}
		}
		return h
	}
	rig := NewRig(w, kind, h(), func(s *neffos.Server) {
		s.FireDisconnectAlways = always
		s.SyncBroadcaster = chance(r, 30)
		s.OnConnect = func(c *neffos.Conn) error {
			x := get(c.ID())
			x.sconn = c
			if x.rejected {
				return errors.New("rejected")
			}
			return nil
		}
		s.OnDisconnect = func(c *neffos.Conn) {
			w.Event()
			x := get(c.ID())
			w.Check(x != nil && x.sconn == c || x.sconn == nil, "OnDisconnect of an unknown connection %q", c.ID())
			n := atomic.AddInt32(&x.discon, 1)
			w.Check(n == 1, "OnDisconnect of %s fired %d times", x.id, n)
			w.Check(atomic.LoadInt32(&x.ended) > 0 || x.rejected, "OnDisconnect of %s fired while it lives", x.id)
			w.Check(atomic.LoadInt32(&x.nsOpen) <= 0, "OnDisconnect of %s fired before %d of its namespaces were disconnected", x.id, atomic.LoadInt32(&x.nsOpen))
			if x.admitted.Load() {
				w.Check(c.IsClosed(), "OnDisconnect of a connection that is not closed")
			}
			mu.Lock()
			order = append(order, x.id)
			mu.Unlock()
		}
	})
	seq := 0
	endedTotal, livedTotal := 0, 0
	bursts := 2 + r.Intn(2)
	closeServer := chance(r, 30)
	serverClosed := false
	var hist []string
	for b := 0; b < bursts; b++ {
		var acts []func(rr *randT)
		nd := 1 + r.Intn(6)
		for i := 0; i < nd; i++ {
			seq++
			x := &c12conn{id: fmt.Sprintf("c%d", seq), rejected: chance(r, 20)}
			mu.Lock()
			conns[x.id] = x
			mu.Unlock()
			lose := !x.rejected && chance(r, 15)
			bye := r.Intn(8)
			hist = append(hist, fmt.Sprintf("dial(reject=%v,lose=%v,%d)", x.rejected, lose, bye))
			acts = append(acts, func(rr *randT) {
				if lose {
					// lost during the handshake.
					atomic.StoreInt32(&x.ended, 1)
					d := rig.Dialer(&Link{}, nil)
					cli, err := neffos.Dial(context.Background(), func(ctx context.Context, u string) (neffos.Socket, error) {
						s, err := d(ctx, u)
						if err == nil {
							c := s.NetConn()
							us := rr.Intn(600)
							go func() { time.Sleep(time.Duration(us) * time.Microsecond); c.Close() }()
						}
						return s, err
					}, rig.dialURL(x.id, ""), h())
					if err == nil {
						x.cli = cli
						x.admitted.Store(true)
						w.Chan(cli.NotifyClose, "the close of a lost connection")
					}
					return
				}
				cli, link, err := rig.TryDial(x.id, h(), nil)
				if x.rejected {
					w.Check(err != nil, "a rejected dial succeeded")
					return
				}
				if err != nil {
					w.Check(closeServer && atomic.LoadInt32(&x.ended) > 0 || serverIsClosing(rig), "dial of %s failed: %v", x.id, err)
					return
				}
				x.cli, x.link = cli, link
				x.admitted.Store(true)
				for _, ns := range []string{"a", "b"} {
					if rr.Intn(2) == 0 {
						n, err := cli.Connect(w.Ctx(), ns)
						if err != nil {
							w.Check(serverIsClosing(rig), "connect failed: %v", err)
							return
						}
						n.Emit("e", nil)
						if rr.Intn(3) == 0 {
							n.JoinRoom(w.Ctx(), "r")
						}
					}
				}
				if bye < 3 {
					c12End(w, rig, x, rr)
				}
			})
		}
		// some of the living ones end.
		for _, x := range conns {
			if x.admitted.Load() && atomic.LoadInt32(&x.ended) == 0 && chance(r, 40) {
				x := x
				hist = append(hist, "end")
				acts = append(acts, func(rr *randT) { c12End(w, rig, x, rr) })
			}
		}
		acts = append(acts, func(rr *randT) {
			for i := 0; i < 3; i++ {
				seen := map[*neffos.Conn]int{}
				rig.Srv.Do(func(c *neffos.Conn) { seen[c]++ }, false)
				for c, n := range seen {
					w.Check(n == 1, "Do visited %s %d times", c.ID(), n)
				}
				rig.Srv.GetTotalConnections()
				sleepy(rr, 500)
			}
		})
		if closeServer && b == bursts-1 {
			serverClosed = true
			hist = append(hist, "server close")
			acts = append(acts, func(rr *randT) {
				sleepy(rr, 2000)
				setClosing(rig)
				mu.Lock()
				for _, x := range conns {
					atomic.StoreInt32(&x.ended, 1)
				}
				mu.Unlock()
				w.Call(rig.Srv.Close, "server close")
			})
		}
		rs := make([]*randT, len(acts))
		for i := range rs {
			rs[i] = w.Rand()
		}
		w.Go(len(acts), "burst", func(i int) { acts[i](rs[i]) })
		// settle.
		w.Await(func() bool { return atomic.LoadInt64(&rig.inflight) == 0 }, "the upgrades to end")
		w.Call(func() { rig.Srv.Do(func(*neffos.Conn) {}, false) }, "Do") // behind the registrations.
		live := map[string]bool{}
		for id, x := range conns {
			if x.admitted.Load() && atomic.LoadInt32(&x.ended) == 0 {
				live[id] = true
			}
			if x.admitted.Load() && atomic.LoadInt32(&x.ended) > 0 {
				w.Await(func() bool { return atomic.LoadInt32(&x.discon) == 1 }, "OnDisconnect of %s", id)
			}
			if x.rejected && always && x.sconn != nil {
				w.Await(func() bool { return atomic.LoadInt32(&x.discon) == 1 }, "OnDisconnect of the rejected %s (FireDisconnectAlways)", id)
			}
		}
		w.Await(func() bool { return rig.Srv.GetTotalConnections() == uint64(len(live)) }, "the total to be %d (it's %d)", len(live), rig.Srv.GetTotalConnections())
		for k := 0; k < 2; k++ {
			seen := map[string]int{}
			w.Call(func() { rig.Srv.Do(func(c *neffos.Conn) { seen[c.ID()]++ }, false) }, "Do")
			w.Check(len(seen) == len(live), "Do visited %v, the live connections are %v", keys(seen), keysB(live))
			for id := range live {
				w.Check(seen[id] == 1, "Do visited %s %d times", id, seen[id])
			}
		}
		async := make(chan string, 1000)
		rig.Srv.Do(func(c *neffos.Conn) { async <- c.ID() }, true)
		rig.Srv.Do(func(c *neffos.Conn) {}, false)
		w.Check(len(async) == len(live), "an async Do visited %d connections, there are %d", len(async), len(live))
		byID := rig.Srv.GetConnections() // nothing is changing now.
		w.Check(len(byID) == len(live), "GetConnections returned %d, there are %d", len(byID), len(live))
		for id := range live {
			x := conns[id]
			w.Check(byID[id] == x.sconn, "GetConnections has another connection of %s", id)
			w.Check(!x.sconn.IsClosed() && !closedCh(x.cli.NotifyClose), "the live connection %s is closed", id)
			w.Check(atomic.LoadInt32(&x.discon) == 0, "OnDisconnect of the live %s fired", id)
			livedTotal++
		}
		for _, ns := range []string{"a", "b"} {
			nsc := rig.Srv.GetConnectionsByNamespace(ns)
			n := 0
			for id := range live {
				if conns[id].sconn.Namespace(ns) != nil {
					n++
					w.Check(nsc[id] == conns[id].sconn.Namespace(ns), "GetConnectionsByNamespace misses %s", id)
				}
			}
			w.Check(len(nsc) == n, "GetConnectionsByNamespace returned %d, should be %d", len(nsc), n)
		}
		for id, x := range conns {
			if x.rejected && !always {
				w.Check(atomic.LoadInt32(&x.discon) == 0, "OnDisconnect fired for the rejected %s", id)
			}
		}
	}
	mu.Lock()
	endedTotal = len(order)
	w.Sign(strings.Join(order, ",") + strings.Join(hist, ","))
	mu.Unlock()
	w.Sample("transport %s, FireDisconnectAlways %v: %s", kind, always, strings.Join(hist, " "))
	w.Stat("ended", int64(endedTotal))
	w.Stat("lived_through_a_burst", int64(livedTotal))
	if endedTotal >= 3 && (livedTotal > 0 || serverClosed) {
		w.Nontrivial()
	}
	mu.Lock()
	for _, x := range conns {
		atomic.StoreInt32(&x.ended, 1)
	}
	mu.Unlock()
	w.Call(rig.Close, "close")
}

var closingRigs sync.Map

func setClosing(r *Rig)           { closingRigs.Store(r, true) }
func serverIsClosing(r *Rig) bool { _, ok := closingRigs.Load(r); return ok }

func closedCh(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func keys(m map[string]int) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}
func keysB(m map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

func c12End(w *W, rig *Rig, x *c12conn, rr *randT) {
	atomic.StoreInt32(&x.ended, 1)
	for k := 0; k <= rr.Intn(3)*rr.Intn(2); k++ {
		switch rr.Intn(6) {
		case 0:
			w.Call(x.cli.Close, "client close")
		case 1:
			if x.sconn != nil {
				w.Call(x.sconn.Close, "server side close")
			}
		case 2:
			x.link.Cut()
		case 3:
			w.Call(func() {
				rig.Srv.Do(func(c *neffos.Conn) {
					if c == x.sconn {
						c.Close()
					}
				}, rr.Intn(2) == 0)
			}, "close in Do")
		case 4:
			if ns := x.sconn.Namespace("a"); ns != nil {
				if ns.Emit("close", nil) {
					continue
				}
			}
			x.cli.Close()
		case 5:
			go x.sconn.Close()
			x.cli.Close()
		}
	}
	w.Chan(x.cli.NotifyClose, "NotifyClose of %s", x.id)
}

// c13Conn: closing one connection from several origins at once.
func c13Conn(w *W) {
	r := w.R
	kind := pick(r, transports)
	rec := &Rec{w: w}
	var closed [2]int32 // the close of that side returned, from a harness goroutine.
	var sconn *neffos.Conn
	got := make(chan struct{})
	var cconn *neffos.Conn
	var cli *neffos.Client
	var doClose [2]sync.Map
	block := make(chan struct{})
	var inside int32
	var disconnected [2]int32
	mk := func(side int) neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, ns := range []string{"a", "b"} {
			h[ns] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
				rec.on(c, m)
				if strings.HasPrefix(string(m.Body), "late") {
					w.Violate("a message that was sent after the close of the %s returned was handled", sideName[side])
				}
				if _, ok := doClose[side].LoadAndDelete(m.Event); ok {
					c.Conn.Close()
					w.Check(c.Conn.IsClosed(), "IsClosed after Close in a callback")
				}
				switch m.Event {
				case "slow":
					atomic.AddInt32(&inside, 1)
					<-block
				case "q":
					return neffos.Reply(m.Body)
				case "never":
					return nil
				case neffos.OnNamespaceDisconnect:
					time.Sleep(100 * time.Microsecond)
					atomic.AddInt32(&disconnected[side], 1)
				}
				return nil
			}}
		}
		return h
	}
	gone := make(chan struct{})
	var goneN int32
	rig := NewRig(w, kind, mk(sideS), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(got); return nil }
		s.OnDisconnect = func(c *neffos.Conn) {
			if atomic.AddInt32(&goneN, 1) == 1 {
				close(gone)
			}
		}
		s.SyncBroadcaster = chance(r, 20)
	})
	var link *Link
	cli, link = rig.Dial("x", mk(sideC))
	w.Chan(got, "OnConnect")
	for _, ns := range []string{"a", "b"} {
		n := rig.Connect(cli, ns)
		cconn = n.Conn
		if chance(r, 60) {
			n.JoinRoom(w.Ctx(), "r1")
			n.JoinRoom(w.Ctx(), "r2")
		}
		w.Await(func() bool { return sconn.Namespace(ns) != nil }, "server side")
	}
	both := [2]*neffos.Conn{sconn, cconn}
	// things in progress.
	var wg sync.WaitGroup
	stop := int32(0)
	prog := []string{}
	var failed int64
	add := func(name string, f func(rr *randT)) {
		prog = append(prog, name)
		rr := w.Rand()
		wg.Add(1)
		go func() { defer wg.Done(); f(rr) }()
	}
	for side := 0; side < 2; side++ {
		side := side
		c := both[side]
		if chance(r, 60) {
			add(sideName[side]+" emits", func(rr *randT) {
				for atomic.LoadInt32(&stop) == 0 {
					body := "x"
					if atomic.LoadInt32(&closed[1-side]) > 0 {
						body = "late"
					}
					if !c.Write(neffos.Message{Namespace: "a", Event: "e", Body: []byte(body)}) && c.IsClosed() {
						return
					}
					sleepy(rr, 100)
				}
			})
		}
		if chance(r, 50) {
			add(sideName[side]+" asks", func(rr *randT) {
				for {
					m, err := c.Ask(w.Ctx(), neffos.Message{Namespace: "b", Event: "q", Body: []byte("1")})
					if err != nil {
						atomic.AddInt64(&failed, 1)
						return
					}
					w.Check(string(m.Body) == "1", "reply %q", m.Body)
				}
			})
		}
		if chance(r, 40) {
			add(sideName[side]+" waits", func(rr *randT) {
				_, err := c.Ask(w.Ctx(), neffos.Message{Namespace: "b", Event: "never"})
				w.Check(err != nil, "an Ask that is never answered returned without error")
				atomic.AddInt64(&failed, 1)
			})
		}
		if chance(r, 30) {
			add(sideName[side]+" rooms", func(rr *randT) {
				for {
					n := c.Namespace("a")
					if n == nil {
						return
					}
					if _, err := n.JoinRoom(w.Ctx(), "rr"+fmt.Sprint(side)); err != nil {
						return
					}
					if rm := n.Room("rr" + fmt.Sprint(side)); rm != nil {
						if rm.Leave(w.Ctx()) != nil {
							return
						}
					}
				}
			})
		}
	}
	slow := chance(r, 25)
	slowSide := r.Intn(2)
	if slow {
		prog = append(prog, sideName[slowSide]+" is inside a callback")
		both[1-slowSide].Write(neffos.Message{Namespace: "a", Event: "slow"})
		w.Await(func() bool { return atomic.LoadInt32(&inside) > 0 }, "the slow callback to start")
	}
	sleepy(r, 3000)
	origins := []string{}
	no := 1
	if chance(r, 50) {
		no = 2 + r.Intn(4)
	}
	var cl sync.WaitGroup
	for i := 0; i < no; i++ {
		o := pick(r, []string{"client", "client", "server", "server", "cut", "client callback", "server callback", "client disconnect callback", "client close twice"})
		if slow && strings.Contains(o, "callback") {
			o = "client"
		}
		if i == 0 && strings.Contains(o, "disconnect callback") {
			o = "server" // it needs another one that closes.
		}
		origins = append(origins, o)
		cl.Add(1)
		switch o {
		case "client", "client close twice":
			go func() {
				defer cl.Done()
				w.Call(cli.Close, "client close")
				w.Check(cconn.IsClosed(), "IsClosed is false after Close")
				atomic.StoreInt32(&closed[sideC], 1)
				if o != "client" {
					w.Call(cli.Close, "client close again")
				}
			}()
		case "server":
			go func() {
				defer cl.Done()
				w.Call(sconn.Close, "server side close")
				w.Check(sconn.IsClosed(), "IsClosed is false after Close")
				atomic.StoreInt32(&closed[sideS], 1)
			}()
		case "cut":
			go func() { defer cl.Done(); link.Cut() }()
		case "client callback", "server callback":
			side := sideC
			if o == "server callback" {
				side = sideS
			}
			doClose[side].Store("closeme", true)
			both[1-side].Write(neffos.Message{Namespace: "a", Event: "closeme"})
			cl.Done()
			if no == 1 {
				// the emit itself is lost only if the connection is.
				w.Await(func() bool { return both[side].IsClosed() }, "the callback to close")
			}
		case "client disconnect callback":
			doClose[sideC].Store(neffos.OnNamespaceDisconnect, true)
			cl.Done()
		}
	}
	if slow {
		// it does not need the callback's end.
		w.Join(&cl, "Close while a callback runs")
		switch {
		case both[slowSide].IsClosed():
		}
		close(block)
	} else {
		close(block)
		w.Join(&cl, "Close")
	}
	// if only the emit was the origin and lost nothing, the connection is closed by now or soon.
	w.Chan(cli.NotifyClose, "NotifyClose after %v", origins)
	w.Check(atomic.LoadInt32(&disconnected[sideC]) == 2, "NotifyClose before the disconnect callbacks: %d of 2 are done", atomic.LoadInt32(&disconnected[sideC]))
	w.Chan(gone, "OnDisconnect after %v", origins)
	atomic.StoreInt32(&stop, 1)
	w.Join(&wg, fmt.Sprintf("the calls in progress to return after %v", origins))
	w.Await(func() bool { return sconn.IsClosed() && cconn.IsClosed() }, "both sides to be closed")
	w.Await(func() bool { return rig.openSockets() == 0 }, "the network connections to be closed after %v", origins)
	// later calls.
	for side, c := range both {
		w.Check(!c.Write(neffos.Message{Namespace: "a", Event: "e"}), "a write of the %s succeeded after close", sideName[side])
		w.Call(func() {
			_, err := c.Ask(w.Ctx(), neffos.Message{Namespace: "a", Event: "q"})
			w.Check(err != nil, "an Ask of the %s succeeded after close", sideName[side])
		}, "Ask after close")
		if side == sideC {
			w.Call(func() {
				n, err := c.Connect(w.Ctx(), "a")
				w.Check(err != nil && n == nil, "a Connect of the client succeeded after close")
			}, "Connect after close")
		}
		w.Check(c.Namespace("a") == nil && c.Namespace("b") == nil, "namespaces of the %s are still connected after close", sideName[side])
		w.Call(c.Close, "Close again")
		w.Check(c.IsClosed(), "IsClosed")
	}
	w.Check(atomic.LoadInt32(&goneN) == 1, "OnDisconnect fired %d times", goneN)
	w.Call(rig.Close, "server close")
	w.noGoroutines(fmt.Sprintf("after %v", origins))
	w.Sample("transport %s: in progress %v, closed by %v", kind, prog, origins)
	w.Sign(fmt.Sprint(origins, prog))
	for _, e := range rec.all() {
		if neffos.IsSystemEvent(e.Event) {
			w.Sign(e.Side + e.NS + evKey(e))
		}
	}
	w.Stat("failed_asks", failed)
	w.Stat("origins", int64(no))
	if len(prog) > 0 {
		w.Nontrivial()
	}
}

// c13Pipelined: a callback closes its connection while more messages of a pipelining client are already there, before or after the acknowledgement.
func c13Pipelined(w *W) {
	r := w.R
	kind := pick(r, transports)
	frames := []string{"$1;n;;_OnNamespaceConnect;0;0;", ";n;;e;0;0;1", "$2;n;r;_OnRoomJoin;0;0;", ";n;r;e;0;0;2", "$3;n2;;_OnNamespaceConnect;0;0;", "$4;n2;;q;0;0;", "$5;n;r;_OnRoomLeave;0;0;", ";n;;e;0;0;3",
		"$6;n2;;_OnNamespaceDisconnect;0;0;", ";n;;last;0;0;"}
	points := []string{"n/" + neffos.OnNamespaceConnect, "n/" + neffos.OnNamespaceConnected, "n/e", "n/" + neffos.OnRoomJoin, "n/" + neffos.OnRoomJoined, "n2/" + neffos.OnNamespaceConnected, "n2/q", "n/" + neffos.OnRoomLeave, "n/" + neffos.OnRoomLeft, "n2/" + neffos.OnNamespaceDisconnect, "n/last"}
	at := pick(r, points)
	ack := r.Intn(len(frames) + 1)
	if chance(r, 50) {
		ack = len(frames)
	}
	async := chance(r, 20)
	w.Sample("transport %s: the callback of %s closes, acknowledgement after %d of %d frames, async %v", kind, at, ack, len(frames), async)
	var closed int32
	gone := make(chan struct{})
	var seen []string
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		k := m.Namespace + "/" + m.Event
		w.Event()
		w.Log("%s forced %v", k, m.IsForced)
		w.Check(atomic.LoadInt32(&closed) == 0, "the callback of %s was fired after the close of the connection had returned, in the callback of %s", k, at)
		seen = append(seen, k)
		if k == at && !m.IsForced {
			if async { // another goroutine closes and is waited for.
				done := make(chan struct{})
				go func() { c.Conn.Close(); close(done) }()
				<-done
			} else {
				c.Conn.Close()
			}
			w.Check(c.Conn.IsClosed(), "IsClosed after Close in a callback")
			atomic.StoreInt32(&closed, 1)
		}
		return nil
	}
	rig := NewRig(w, kind, HandlerAll(cb, "n", "n2"), func(s *neffos.Server) {
		s.OnDisconnect = func(*neffos.Conn) { close(gone) }
	})
	p := dialRaw(w, rig, "x")
	go func() {
		for {
			if _, _, err := p.recv(); err != nil {
				p.close()
				return
			}
		}
	}()
	for i, f := range frames {
		if i == ack {
			p.send([]byte("M"), false)
		}
		p.send([]byte(f), false) // it fails after the close.
	}
	if ack == len(frames) {
		p.send([]byte("M"), false)
	}
	w.Chan(gone, "OnDisconnect")
	w.Await(func() bool { return atomic.LoadInt32(&closed) == 1 }, "the callback of %s to have closed the connection", at) // Close has told the server before it returns.
	w.Await(func() bool { return rig.openSockets() == 0 }, "the network connections to be closed")
	w.Call(rig.Close, "server close")
	w.noGoroutines("after a close in " + at)
	w.Sign(fmt.Sprint(at, ack, async, seen))
	w.Stat("pipelined", 1)
	w.Nontrivial()
}

// c13Native: connections that handle nothing but native messages.
func c13Native(w *W) {
	r := w.R
	kind := pick(r, transports)
	origins := []string{"client", "server side", "server callback", "client callback", "cut", "server"}
	origin := pick(r, origins)
	gone := make(chan struct{})
	sc, cc := make(chan *neffos.Conn, 1), make(chan *neffos.Conn, 1)
	var goneN, srvGot, cliGot int64
	cb := func(side string) neffos.Events {
		return neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			if side == "client" {
				atomic.AddInt64(&cliGot, 1)
				select {
				case cc <- c.Conn:
				default:
				}
			} else {
				atomic.AddInt64(&srvGot, 1)
			}
			if string(m.Body) == "close" {
				c.Conn.Close()
				w.Check(c.Conn.IsClosed(), "IsClosed after Close in a callback")
				return nil
			}
			if string(m.Body) == "ping" {
				c.Conn.Write(neffos.Message{IsNative: true, Body: []byte("pong")})
			}
			return nil
		}}
	}
	rig := NewRig(w, kind, cb("server"), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sc <- c; return nil }
		s.OnDisconnect = func(*neffos.Conn) {
			if atomic.AddInt64(&goneN, 1) == 1 {
				close(gone)
			}
		}
	})
	cli, link := rig.Dial("x", cb("client"))
	sconn := <-sc
	native := func(c *neffos.Conn, s string) bool {
		return c.Write(neffos.Message{IsNative: true, Body: []byte(s)})
	}
	w.Check(native(sconn, "hello"), "a native write failed")
	cconn := <-cc
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < r.Intn(3); i++ {
		for _, c := range []*neffos.Conn{sconn, cconn} {
			c, rr := c, w.Rand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 200; k++ {
					select {
					case <-stop:
						return
					default:
					}
					if !native(c, pick(rr, []string{"ping", "x"})) && c.IsClosed() {
						return
					}
					sleepy(rr, 100)
				}
			}()
		}
	}
	sleepy(r, 2000)
	w.Sample("native only, transport %s: closed by %s", kind, origin)
	switch origin {
	case "client":
		w.Call(cli.Close, "Close")
		w.Check(cconn.IsClosed(), "IsClosed after Close")
	case "server side":
		w.Call(sconn.Close, "Close")
		w.Check(sconn.IsClosed(), "IsClosed after Close")
	case "server callback":
		native(cconn, "close")
	case "client callback":
		native(sconn, "close")
	case "cut":
		link.Cut()
	case "server":
		w.Call(rig.Srv.Close, "Server.Close")
		w.Check(sconn.IsClosed(), "IsClosed after Server.Close")
	}
	w.Chan(cli.NotifyClose, "NotifyClose of a native client, closed by "+origin)
	w.Chan(gone, "OnDisconnect of a native connection, closed by "+origin)
	close(stop)
	w.Join(&wg, "the writers of a closed connection")
	w.Check(sconn.IsClosed() && cconn.IsClosed(), "an end is open after a close by %s", origin)
	w.Check(!native(sconn, "late") && !native(cconn, "late"), "a write to a closed connection reported success")
	w.Await(func() bool { return rig.openSockets() == 0 }, "the network connections to be closed by %s", origin)
	w.Call(rig.Close, "server close")
	w.noGoroutines("after a close by " + origin)
	w.Check(atomic.LoadInt64(&goneN) == 1, "OnDisconnect fired %d times", goneN)
	w.Sign(fmt.Sprint("native", kind, origin, atomic.LoadInt64(&srvGot), atomic.LoadInt64(&cliGot)))
	w.Stat("native", 1)
	w.Nontrivial()
}

// c13Server: closing the server while connections are being established, used and closed.
func c13Server(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 2 + r.Intn(8)
	var slowConnect = chance(r, 40)
	h := func() neffos.Namespaces {
		return neffos.Namespaces{"a": neffos.Events{
			"q": func(c *neffos.NSConn, m neffos.Message) error { w.Event(); return neffos.Reply(m.Body) },
			neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				return nil
			},
		}}
	}
	var admitted, gone int64
	var smu sync.Mutex
	var sconns []*neffos.Conn
	rig := NewRig(w, kind, h(), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			smu.Lock()
			sconns = append(sconns, c)
			smu.Unlock()
			if slowConnect {
				time.Sleep(time.Duration(len(c.ID())*137%3000) * time.Microsecond)
			}
			atomic.AddInt64(&admitted, 1)
			return nil
		}
		s.OnDisconnect = func(c *neffos.Conn) { atomic.AddInt64(&gone, 1) }
		s.SyncBroadcaster = chance(r, 30)
	})
	w.Sample("transport %s: %d dialing and asking clients while the server closes, slow OnConnect %v", kind, n, slowConnect)
	after := int32(0)
	var okDials, failDials, lateDials int64
	var cmu sync.Mutex
	var clis []*neffos.Client
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		rr := w.Rand()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				was := atomic.LoadInt32(&after) > 0
				cli, _, err := rig.TryDial(strings.Repeat("i", 1+rr.Intn(30))+fmt.Sprint(i, ".", k), h(), nil)
				if err != nil {
					atomic.AddInt64(&failDials, 1)
					continue
				}
				if was {
					w.Violate("a dial that started after the server's close returned has succeeded")
				}
				atomic.AddInt64(&okDials, 1)
				cmu.Lock()
				clis = append(clis, cli)
				cmu.Unlock()
				if c, err := cli.Connect(w.Ctx(), "a"); err == nil {
					for j := 0; j < rr.Intn(10); j++ {
						if _, err := c.Ask(w.Ctx(), "q", nil); err != nil {
							break
						}
						if rr.Intn(3) == 0 {
							rig.Srv.Broadcast(nil, neffos.Message{Namespace: "a", Event: "e"})
						}
					}
				}
				if rr.Intn(4) == 0 {
					cli.Close()
				}
			}
		}(i)
	}
	sleepy(r, 4000)
	smu.Lock()
	before := append([]*neffos.Conn(nil), sconns...)
	smu.Unlock()
	w.Go(1+r.Intn(3), "Server.Close", func(i int) { rig.Srv.Close() })
	atomic.StoreInt32(&after, 1)
	for _, c := range before {
		w.Check(c.IsClosed(), "connection %s is open after the server's close has returned", c.ID())
	}
	w.Stat("closed_by_server", int64(len(before)))
	// refused from now on.
	rec := httptest.NewRecorder()
	c, err := rig.Srv.Upgrade(rec, httptest.NewRequest(http.MethodGet, "http://x/ws", nil), nil, nil)
	w.Check(c == nil && err != nil && rec.Code == http.StatusInternalServerError, "a closed server answered %d, %v", rec.Code, err)
	w.Join(&wg, "the clients of a closed server")
	for _, c := range clis {
		w.Chan(c.NotifyClose, "NotifyClose of a client of a closed server")
	}
	w.Await(func() bool { return rig.Srv.GetTotalConnections() == 0 }, "the total of a closed server to be zero")
	if rig.hs != nil {
		w.Await(func() bool { return rig.openWebsockets() == 0 }, "the websockets of a closed server to be closed")
		rig.hs.Close()
	}
	w.Await(func() bool { return rig.openSockets() == 0 }, "the network connections of a closed server to be closed")
	w.noGoroutines("of a closed server")
	w.Stat("ok_dials", okDials)
	w.Stat("failed_dials", failDials)
	w.Stat("late_dials", lateDials)
	w.Sign(fmt.Sprint(kind, n, okDials, failDials, atomic.LoadInt64(&gone)))
	w.Nontrivial()
}

// openWebsockets counts the client's ends that are still open.
func (r *Rig) openWebsockets() (open int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.cliConns {
		if atomic.LoadInt32(&c.closed) == 0 {
			open++
		}
	}
	return
}
