package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C23", Quick: 1800, Thorough: 12000, Run: func(w *W) {
		if w.Case%5 == 4 {
			c23OnConnect(w)
			return
		}
		if w.Case%15 == 7 {
			c23Abort(w)
			return
		}
		c23Rounds(w)
	},
		Rule: "a case is 2-8 rounds on one connection over 5 transports: 1-4 goroutines per side connect to 1-3 namespaces at the same moment (also from callbacks, and waiting for the other side's connect), with traffic, then both sides are compared and one or both sides disconnect; all returned namespace connections, the callbacks and both tables are compared. Non-trivial: both sides connected at the same time in some round. Distinct: by the hash of callbacks and results. Further cases: OnConnect connects several namespaces while the client's side does the same and the acknowledgement is late; connects given up by their context whose answers come later"})
}

func c23Rounds(w *W) {
	r := w.R
	kind := pick(r, transports)
	nss := []string{"", "a", "b"}[:1+r.Intn(3)]
	type sideLog struct {
		mu        sync.Mutex
		connected map[string][]*neffos.NSConn
		discon    map[string]int
		got       map[string]int
		via       map[string]string
	}
	var logs [2]*sideLog
	var hs [2]neffos.Namespaces
	slow := int64(0)
	if chance(r, 50) {
		slow = int64(r.Intn(1500))
	}
	asks := chance(r, 30)
	for side := 0; side < 2; side++ {
		l := &sideLog{connected: map[string][]*neffos.NSConn{}, discon: map[string]int{}, got: map[string]int{}}
		logs[side] = l
		h := neffos.Namespaces{}
		for _, ns := range nss {
			h[ns] = neffos.Events{
				neffos.OnNamespaceConnect: func(c *neffos.NSConn, m neffos.Message) error {
					w.Event()
					if slow > 0 {
						time.Sleep(time.Duration(slow) * time.Microsecond)
					}
					return nil
				},
				neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
					l.mu.Lock()
					l.connected[m.Namespace] = append(l.connected[m.Namespace], c)
					l.mu.Unlock()
					w.Event()
					return nil
				},
				neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
					l.mu.Lock()
					l.discon[m.Namespace]++
					l.mu.Unlock()
					w.Event()
					return nil
				},
				"e": func(c *neffos.NSConn, m neffos.Message) error {
					l.mu.Lock()
					l.got[m.Namespace+"/"+string(m.Body)]++
					l.mu.Unlock()
					w.Event()
					return nil
				},
				"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) },
			}
		}
		h["ctl"] = neffos.Events{
			"f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) },
			"connect": func(c *neffos.NSConn, m neffos.Message) error { // from inside a callback.
				n, err := c.Conn.Connect(w.Ctx(), string(m.Body))
				w.Check(err == nil && n != nil && n == c.Conn.Namespace(string(m.Body)), "a connect inside a callback returned %v, %v", n, err)
				return nil
			},
		}
		hs[side] = h
	}
	var sconn *neffos.Conn
	ready := make(chan struct{})
	rig := NewRig(w, kind, hs[0], func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(ready); return nil }
	})
	cli, _ := rig.Dial("x", hs[1])
	w.Chan(ready, "the server's connection")
	ctl := rig.Connect(cli, "ctl")
	w.Await(func() bool { return sconn.Namespace("ctl") != nil }, "ctl")
	conns := [2]*neffos.Conn{sconn, ctl.Conn}
	ctls := [2]*neffos.NSConn{sconn.Namespace("ctl"), ctl}
	rounds := 2 + r.Intn(7)
	both, reconnects := 0, 0
	for round := 1; round <= rounds; round++ {
		if chance(r, 50) { // nobody connects it yet.
			side, ns, d := r.Intn(2), pick(r, nss), time.Duration(r.Intn(3000))*time.Microsecond
			if conns[side].Namespace(ns) == nil {
				ctx, cancel, over := briefly(r, d)
				w.Call(func() {
					var n *neffos.NSConn
					var err error
					if side == sideC && chance(r, 50) {
						n, err = cli.WaitServerConnect(ctx, ns)
					} else {
						n, err = conns[side].WaitConnect(ctx, ns)
					}
					w.Check(n == nil && err == over, "%s: waiting for a connect that does not happen returned %v, %v", sideName[side], n, err)
				}, "waiting for a connect to %q that does not happen", ns)
				cancel()
			}
		}
		type call struct {
			side int
			ns   string
			how  int
		}
		var calls []call
		per := map[string][2]int{}
		for _, ns := range nss {
			var n [2]int
			for side := 0; side < 2; side++ {
				n[side] = r.Intn(4)
			}
			if n[0]+n[1] == 0 {
				n[r.Intn(2)] = 1
			}
			per[ns] = n
			for side := 0; side < 2; side++ {
				for k := 0; k < n[side]; k++ {
					how := 0
					if chance(r, 20) {
						how = 1 // by a callback of that side.
					}
					calls = append(calls, call{side, ns, how})
				}
				if chance(r, 40) {
					calls = append(calls, call{side, ns, 2}) // waits for it.
				}
			}
			if n[0] > 0 && n[1] > 0 {
				both++
			}
		}
		// a nested connect on both sides at once waits for the other's reader, which waits too: keep one side.
		nested := r.Intn(2)
		var rmu sync.Mutex
		results := map[string][]*neffos.NSConn{}
		start := make(chan struct{})
		rs := make([]*randT, len(calls))
		for i := range rs {
			rs[i] = w.Rand()
		}
		var started int32
		go func() {
			for atomic.LoadInt32(&started) < int32(len(calls)) {
				time.Sleep(20 * time.Microsecond)
			}
			close(start)
		}()
		w.Go(len(calls), "connects", func(i int) {
			c := calls[i]
			atomic.AddInt32(&started, 1)
			<-start
			if chance(rs[i], 50) {
				sleepy(rs[i], 400)
			}
			var n *neffos.NSConn
			var err error
			switch {
			case c.how == 1 && c.side == nested:
				w.Check(ctls[1-c.side].Emit("connect", []byte(c.ns)), "emit failed")
				return
			case c.how == 2:
				ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
				defer cancel()
				if c.side == sideC && chance(rs[i], 50) {
					w.Call(func() { n, err = cli.WaitServerConnect(ctx, c.ns) }, "WaitServerConnect %q", c.ns)
				} else {
					w.Call(func() { n, err = conns[c.side].WaitConnect(ctx, c.ns) }, "WaitConnect %q", c.ns)
				}
				w.Check(err == nil && n != nil, "%s: waiting for the connect of %q returned %v", sideName[c.side], c.ns, err)
			default:
				w.Call(func() {
					if c.side == sideC {
						n, err = cli.Connect(w.Ctx(), c.ns)
					} else {
						n, err = conns[c.side].Connect(w.Ctx(), c.ns)
					}
				}, "%s connects to %q", sideName[c.side], c.ns)
				w.Check(err == nil && n != nil, "%s: connect to %q failed: %v", sideName[c.side], c.ns, err)
				if asks {
					var m neffos.Message
					w.Call(func() { m, err = n.Ask(w.Ctx(), "q", []byte("1")) }, "an ask after connect")
					w.Check(err == nil && string(m.Body) == "1", "an ask right after the connect to %q returned %q, %v", c.ns, m.Body, err)
				} else {
					w.Check(n.Emit("e", []byte(fmt.Sprint(round, ".", i))), "an emit right after the connect to %q failed", c.ns)
				}
			}
			rmu.Lock()
			k := fmt.Sprint(c.side, c.ns)
			results[k] = append(results[k], n)
			rmu.Unlock()
		})
		// everything of both directions is handled.
		fence := func() {
			for side := 0; side < 2; side++ {
				var err error
				w.Call(func() { _, err = ctls[side].Ask(w.Ctx(), "f", nil) }, "fence")
				w.Check(err == nil, "fence failed: %v", err)
			}
		}
		fence()
		for side := 0; side < 2; side++ {
			l := logs[side]
			for _, ns := range nss {
				cur := conns[side].Namespace(ns)
				w.Check(cur != nil, "round %d: %s is not connected to %q", round, sideName[side], ns)
				for _, n := range results[fmt.Sprint(side, ns)] {
					w.Check(n == cur, "round %d: two namespace connections of %q on the %s", round, ns, sideName[side])
				}
				w.Await(func() bool { l.mu.Lock(); defer l.mu.Unlock(); return len(l.connected[ns]) >= round }, "the connected callback %d of %q on the %s", round, ns, sideName[side])
				l.mu.Lock()
				nc := len(l.connected[ns])
				last := l.connected[ns][nc-1]
				l.mu.Unlock()
				w.Check(nc == round, "round %d: the connected callback of %q fired %d times on the %s", round, ns, nc, sideName[side])
				w.Check(last == cur, "round %d: the connected callback of %q got another namespace connection on the %s", round, ns, sideName[side])
			}
		}
		if !asks {
			for i, c := range calls {
				if c.how == 0 || c.how == 1 && c.side != nested {
					l := logs[1-c.side]
					k := fmt.Sprint(c.ns, "/", round, ".", i)
					w.Await(func() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.got[k] > 0 }, "the message that was sent right after the connect to %q by the %s", c.ns, sideName[c.side])
					l.mu.Lock()
					w.Check(l.got[k] == 1, "a message was handled %d times", l.got[k])
					l.mu.Unlock()
				}
			}
		}
		// the next round starts unconnected.
		for _, ns := range nss {
			switch r.Intn(4) {
			case 0:
				w.Call(func() { conns[0].Namespace(ns).Disconnect(w.Ctx()) }, "server disconnects %q", ns)
			case 1:
				w.Call(func() { conns[1].Namespace(ns).Disconnect(w.Ctx()) }, "client disconnects %q", ns)
			default:
				h := [2]*neffos.NSConn{conns[0].Namespace(ns), conns[1].Namespace(ns)}
				w.Go(2, "disconnects of both sides", func(side int) {
					h[side].Disconnect(w.Ctx())
				})
			}
		}
		w.Await(func() bool {
			for _, ns := range nss {
				if conns[0].Namespace(ns) != nil || conns[1].Namespace(ns) != nil {
					return false
				}
			}
			return true
		}, "both sides to be disconnected, round %d", round)
		fence()
		for side := 0; side < 2; side++ {
			l := logs[side]
			for _, ns := range nss {
				w.Await(func() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.discon[ns] >= round }, "the disconnect callback %d of %q on the %s", round, ns, sideName[side])
				l.mu.Lock()
				w.Check(l.discon[ns] == round, "round %d: the disconnect callback of %q fired %d times on the %s", round, ns, l.discon[ns], sideName[side])
				l.mu.Unlock()
			}
		}
		reconnects++
		w.Sign(fmt.Sprint(per, calls))
	}
	w.Stat("rounds", int64(rounds))
	w.Stat("simultaneous", int64(both))
	w.Sample("%s, namespaces %q, %d rounds, %d with both sides at once", kind, nss, rounds, both)
	if both > 0 {
		w.Nontrivial()
	}
	cli.Close()
	w.Call(rig.Close, "server close")
}

// lateAckSocket delays the acknowledgement of the server.
type lateAckSocket struct {
	neffos.Socket
	d time.Duration
}

func (s *lateAckSocket) WriteText(b []byte, timeout time.Duration) error {
	if len(b) > 0 && b[0] == 'A' {
		time.Sleep(s.d)
	}
	return s.Socket.WriteText(b, timeout)
}

func (s *lateAckSocket) WriteBinary(b []byte, timeout time.Duration) error {
	if len(b) > 0 && b[0] == 'A' {
		time.Sleep(s.d)
	}
	return s.Socket.WriteBinary(b, timeout)
}

// c23OnConnect: the server connects its new connections, clients wait or connect themselves.
func c23OnConnect(w *W) {
	r := w.R
	kind := pick(r, transports)
	var connected [2]int64
	more := 0 // other namespaces, connected by the server at the same moment.
	if chance(r, 50) {
		more = 1 + r.Intn(3)
	}
	mk := func(side int) neffos.Namespaces {
		return neffos.Namespaces{"b0": neffos.Events{}, "b1": neffos.Events{}, "b2": neffos.Events{}, "a": neffos.Events{
			neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
				atomic.AddInt64(&connected[side], 1)
				w.Event()
				return nil
			},
			"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) },
		}}
	}
	mode := r.Intn(3) // 0: in OnConnect, 1: right after it, 2: the client only
	var mu sync.Mutex
	byID := map[string]*neffos.NSConn{}
	var wg sync.WaitGroup
	rig := NewRig(w, kind, mk(0), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			f := func() {
				var owg sync.WaitGroup
				start := make(chan struct{})
				for i := 0; i < more; i++ {
					ns := fmt.Sprintf("b%d", i)
					owg.Add(1)
					go func() {
						defer owg.Done()
						<-start
						n, err := c.Connect(w.Ctx(), ns)
						w.Check(err == nil && n != nil && n == c.Namespace(ns), "the server's connect to %s, beside others, failed: %v", ns, err)
					}()
				}
				close(start)
				n, err := c.Connect(w.Ctx(), "a")
				w.Check(err == nil && n != nil, "the server's connect failed: %v", err)
				owg.Wait()
				mu.Lock()
				byID[c.ID()] = n
				mu.Unlock()
			}
			switch mode {
			case 0:
				f()
			case 1:
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			return nil
		}
	})
	late := time.Duration(0) // the acknowledgement travels slowly.
	if chance(r, 30) {
		late = time.Duration(r.Intn(40000)) * time.Microsecond
		rig.Wrap = func(s neffos.Socket, _ *http.Request) neffos.Socket { return &lateAckSocket{s, late} }
	}
	n := 1 + r.Intn(5)
	rs := make([]*randT, n)
	for i := range rs {
		rs[i] = w.Rand()
	}
	w.Go(n, "clients", func(i int) {
		rr := rs[i]
		c, _ := rig.Dial(fmt.Sprintf("k%d", i), mk(1))
		k := 1 + rr.Intn(3)
		got := make([]*neffos.NSConn, k)
		hows := make([]bool, k)
		any := mode != 2
		for j := range hows {
			hows[j] = any && chance(rr, 50)
			any = true
		}
		w.Go(k, "connects of a client", func(j int) {
			var err error
			if hows[j] {
				ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
				defer cancel()
				w.Call(func() { got[j], err = c.WaitServerConnect(ctx, "a") }, "WaitServerConnect")
			} else {
				w.Call(func() { got[j], err = c.Connect(w.Ctx(), "a") }, "connect")
			}
			w.Check(err == nil && got[j] != nil, "client's connect failed: %v", err)
			var m neffos.Message
			w.Call(func() { m, err = got[j].Ask(w.Ctx(), "q", []byte("x")) }, "ask")
			w.Check(err == nil && string(m.Body) == "x", "an ask right after the connect returned %q, %v", m.Body, err)
		})
		for j := 1; j < k; j++ {
			w.Check(got[j] == got[0], "two namespace connections on the client")
		}
		for j := 0; j < more && mode != 2; j++ {
			ns := fmt.Sprintf("b%d", j)
			w.Await(func() bool { return got[0].Conn.Namespace(ns) != nil }, "namespace %s of the client, which the server connects", ns)
		}
		w.Check(got[0] == got[0].Conn.Namespace("a"), "the returned namespace connection is not the connected one")
	})
	w.Await(func() bool { return atomic.LoadInt64(&rig.inflight) == 0 }, "the upgrades")
	w.Join(&wg, "the server's connects")
	w.Await(func() bool {
		return atomic.LoadInt64(&connected[0]) >= int64(n) && atomic.LoadInt64(&connected[1]) >= int64(n)
	}, "the connected callbacks of both sides")
	mu.Lock()
	for id, ns := range byID {
		w.Check(ns == ns.Conn.Namespace("a"), "server: the returned namespace connection of %s is not the connected one", id)
	}
	mu.Unlock()
	w.Call(rig.Close, "server close")
	w.Check(atomic.LoadInt64(&connected[0]) == int64(n) && atomic.LoadInt64(&connected[1]) == int64(n), "connected callbacks fired %v times for %d connections", connected, n)
	w.Stat("on_connect", int64(n))
	w.Sign(fmt.Sprint(kind, mode, n, more, late, w.Case%100))
	w.Sample("%s, the server connects %d clients to %d namespaces, mode %d, acknowledgement after %v", kind, n, 1+more, mode, late)
	if mode != 2 {
		w.Nontrivial()
	}
}

// c23Abort: some of the simultaneous connects of a side are given up by their context, another one is not:
// it succeeds and what the other side sent right after it connected is handled.
func c23Abort(w *W) {
	r := w.R
	kind := pick(r, transports)
	var hi [2]int64
	side := r.Intn(2) // that connects
	d := time.Duration(200+r.Intn(2000)) * time.Microsecond
	begun := make(chan struct{}, 1)
	mk := func(me int) neffos.Namespaces {
		return neffos.Namespaces{"ctl": neffos.Events{}, "a": neffos.Events{
			neffos.OnNamespaceConnect: func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				if m.IsLocal {
					select {
					case begun <- struct{}{}:
					default:
					}
				} else {
					time.Sleep(d)
				}
				return nil
			},
			neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				for i := 0; i < 3; i++ {
					w.Check(c.Emit("hi", nil), "an emit in the connected callback failed")
				}
				return nil
			},
			"hi": func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				atomic.AddInt64(&hi[me], 1)
				return nil
			},
		}}
	}
	sc := make(chan *neffos.Conn, 1)
	rig := NewRig(w, kind, mk(0), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sc <- c; return nil }
	})
	cli, _ := rig.Dial("x", mk(1))
	sconn := <-sc
	conns := [2]*neffos.Conn{sconn, rig.Connect(cli, "ctl").Conn}
	rounds := 3 + r.Intn(6)
	aborted := int64(0)
	for k := 1; k <= rounds; k++ {
		n := 1 + r.Intn(3)
		durs := make([]time.Duration, n)
		rs := make([]*randT, n)
		for i := range durs {
			rs[i] = w.Rand()
			durs[i] = time.Duration(r.Intn(int(d) * 3 / 2))
		}
		var ns *neffos.NSConn
		first := make(chan struct{})
		select {
		case <-begun:
		default:
		}
		w.Go(n+1, "connects", func(i int) {
			if i == n {
				var err error
				ns, err = conns[side].Connect(w.Ctx(), "a")
				w.Check(err == nil && ns != nil, "a connect beside given up ones failed: %v", err)
				return
			}
			// the one that is not given up has to be in progress.
			if i == 0 {
				<-begun
				close(first)
			} else {
				<-first
			}
			ctx, cancel, over := briefly(rs[i], durs[i])
			defer cancel()
			if got, err := conns[side].Connect(ctx, "a"); err != nil {
				w.Check(errors.Is(err, over), "a connect that was given up returned %v", err)
				atomic.AddInt64(&aborted, 1)
			} else {
				w.Check(got != nil, "a connect returned nothing")
			}
		})
		w.Check(ns == conns[side].Namespace("a"), "the returned namespace connection is not the connected one")
		w.Await(func() bool { return conns[1-side].Namespace("a") != nil }, "the other side to be connected")
		w.Await(func() bool {
			return atomic.LoadInt64(&hi[0]) == int64(3*k) && atomic.LoadInt64(&hi[1]) == int64(3*k)
		}, "the messages which were sent by the connected callbacks of both sides, round %d", k)
		w.Call(func() {
			err := ns.Disconnect(w.Ctx())
			w.Check(err == nil, "disconnect: %v", err)
		}, "disconnect")
		w.Await(func() bool { return conns[0].Namespace("a") == nil && conns[1].Namespace("a") == nil }, "both to be disconnected")
	}
	w.Call(rig.Close, "server close")
	w.Check(hi[0] == int64(3*rounds) && hi[1] == int64(3*rounds), "%v messages of connected callbacks were handled in %d rounds", hi, rounds)
	w.Stat("given_up_connects", aborted)
	w.Sample("%s: %d rounds of simultaneous connects of which %d were given up", kind, rounds, aborted)
	w.Sign(fmt.Sprint(kind, side, rounds, aborted, d))
	if aborted > 0 {
		w.Nontrivial()
	}
}
