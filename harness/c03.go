package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C03", Quick: 900, Thorough: 9000, Run: runC03,
		Rule: "a case is 1-3 connections on which several goroutines of both sides ask concurrently (also from inside callbacks, 1 level deep) while ordinary numbered traffic flows both ways; every request carries a unique id which its reply must carry. Non-trivial: at least 2 asks overlapped. Distinct: by the hash of the order of executions. Some cases are bursts of 50-400 asks started at one moment; some requests are passed on, as they came, to the other connection (relay); a few bodies are much larger than the others"})
	register(&Prop{ID: "C04", Quick: 2500, Thorough: 30000, Run: runC04,
		Rule: "a case is one fault (context cancel/timeout, local close, remote close, server close, network cut) at a random moment of pending asks, inside or outside a callback, at either side, for asks and for the connects, joins, leaves and disconnects that wait like them, followed by the release of the late replies and a fence. Non-trivial: at least one ask was pending when the fault happened. Distinct: by the hash of the case's parameters and the order of its events. Further cases: floods of unanswered asks, requests of a connection that is not acknowledged yet, connects/joins whose answer comes after they were given up (their effect must not come later)"})
	register(&Prop{ID: "C22", Quick: 1500, Thorough: 12000, Run: runC22,
		Rule: "a case is a server with several connections, asks of the server (addressed by ID, by namespace, by room, from several goroutines) with replies of different timing, some released only after the ask ended. Non-trivial: several responders or concurrent asks. Distinct: by the hash of the case's parameters and of the order of replies"})
}

func runC03(w *W) {
	if w.Case%12 == 7 {
		c03Burst(w)
		return
	}
	r := w.R
	kind := pick(r, transports)
	nconn := 1 + r.Intn(3)
	gor := 1 + r.Intn(5)
	per := 3 + r.Intn(15)
	nested := r.Intn(3) // 0 none, 1 client callbacks ask, 2 server callbacks ask
	slow := r.Intn(3) * 100
	flow := chance(r, 60)
	serverAsks := nested != 2 || chance(r, 50)
	clientAsks := nested != 1 || chance(r, 50)
	if !serverAsks && !clientAsks {
		clientAsks = true
	}
	// two sides that both ask from inside their callbacks, or a side that asks from inside a callback while the other
	// one handles requests only after its own callback, is the user's deadlock; one side only is nested here and
	// the leaf event never asks.
	w.Sample("transport %s, %d connections, %d goroutines x %d asks per side, nested %d, slow %d, flow %v", kind, nconn, gor, per, nested, slow, flow)
	var mu sync.Mutex
	ran := map[string]int{}
	var order []string
	var pending, maxPending int32
	mark := func(id string) {
		mu.Lock()
		ran[id]++
		n := ran[id]
		if len(order) < 300 {
			order = append(order, id)
		}
		mu.Unlock()
		w.Event()
		w.Check(n == 1, "the callback of request %q ran %d times", id, n)
	}
	ask := func(c *neffos.NSConn, ev, id string, in ...neffos.Message) {
		p := atomic.AddInt32(&pending, 1)
		for {
			m := atomic.LoadInt32(&maxPending)
			if p <= m || atomic.CompareAndSwapInt32(&maxPending, m, p) {
				break
			}
		}
		defer w.Waiting("ask " + id)()
		ctx := context.Context(nil)
		if len(id)%2 == 0 {
			ctx = context.Background()
		}
		var res neffos.Message
		var err error
		if len(in) > 0 { // the request that came is passed on.
			m := in[0]
			m.Event, m.Body = ev, []byte(id)
			res, err = c.Conn.Ask(ctx, m)
		} else {
			res, err = c.Ask(ctx, ev, []byte(id))
		}
		atomic.AddInt32(&pending, -1)
		w.Check(err == nil, "ask %q failed: %v", id, err)
		w.Check(string(res.Body) == "re:"+id, "ask %q got the reply %q", id, res.Body)
	}
	flowNext := map[string]int{}
	mk := func(side string) neffos.Namespaces {
		rr := w.Rand()
		var rmu sync.Mutex
		leaf := func(c *neffos.NSConn, m neffos.Message) error {
			mark(string(m.Body))
			rmu.Lock()
			d := rr.Intn(slow + 1)
			rmu.Unlock()
			if d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			return neffos.Reply(append([]byte("re:"), m.Body...))
		}
		var nest int64
		q := leaf
		if (nested == 1 && side == "C") || (nested == 2 && side == "S") {
			q = func(c *neffos.NSConn, m neffos.Message) error {
				k := 1 + int(atomic.AddInt64(&nest, 1)%2)
				for i := 0; i < k; i++ {
					if id := fmt.Sprintf("n%d/%s", i, m.Body); len(id)%3 == 0 {
						ask(c, "leaf", id, m)
					} else {
						ask(c, "leaf", id)
					}
				}
				return leaf(c, m)
			}
		}
		fl := func(c *neffos.NSConn, m neffos.Message) error {
			var from string
			var n int
			fmt.Sscanf(string(m.Body), "%s %d", &from, &n)
			mu.Lock()
			want := flowNext[from]
			flowNext[from] = want + 1
			mu.Unlock()
			w.Event()
			w.Check(n == want, "ordinary message %d of %s is handled, expected %d", n, from, want)
			return nil
		}
		ev := neffos.Events{"q": q, "leaf": leaf, "flow": fl}
		return neffos.Namespaces{"a": ev, "b;": ev}
	}
	rig := NewRig(w, kind, mk("S"))
	type pairc struct{ c, s map[string]*neffos.NSConn }
	var pairs []pairc
	for i := 0; i < nconn; i++ {
		id := fmt.Sprintf("c%d", i)
		cli, _ := rig.Dial(id, mk("C"))
		p := pairc{map[string]*neffos.NSConn{}, map[string]*neffos.NSConn{}}
		var sc *neffos.Conn
		for _, ns := range []string{"a", "b;"} {
			p.c[ns] = rig.Connect(cli, ns)
			if sc == nil {
				rig.Srv.Do(func(c *neffos.Conn) {
					if c.ID() == id {
						sc = c
					}
				}, false)
			}
			p.s[ns] = sc.Namespace(ns)
		}
		pairs = append(pairs, p)
	}
	var wg sync.WaitGroup
	want := 0
	flows := map[string]int{}
	for i, p := range pairs {
		for g := 0; g < gor; g++ {
			for _, side := range []string{"C", "S"} {
				if (side == "C" && !clientAsks) || (side == "S" && !serverAsks) {
					continue
				}
				// a side whose peer's callbacks ask it back answers those from its reader, so it may ask freely from other goroutines.
				nss := p.c
				if side == "S" {
					nss = p.s
				}
				want += per
				wg.Add(1)
				rr := w.Rand()
				go func(i, g int, side string) {
					defer wg.Done()
					for k := 0; k < per; k++ {
						ns := nss[pick(rr, []string{"a", "b;"})]
						ask(ns, pick(rr, []string{"q", "leaf"}), fmt.Sprintf("%s%d.%d.%d", side, i, g, k)+padding(rr))
						if rr.Intn(4) == 0 {
							sleepy(rr, 200)
						}
					}
				}(i, g, side)
			}
		}
		if flow {
			for _, side := range []string{"C", "S"} {
				ns := p.c["a"]
				if side == "S" {
					ns = p.s["a"]
				}
				from := fmt.Sprintf("%s%d", side, i)
				flows[from] = per * 2
				wg.Add(1)
				rr := w.Rand()
				go func() {
					defer wg.Done()
					for k := 0; k < per*2; k++ {
						w.Check(ns.Emit("flow", []byte(fmt.Sprintf("%s %d", from, k))), "emit failed")
						if rr.Intn(3) == 0 {
							sleepy(rr, 200)
						}
					}
				}()
			}
		}
	}
	w.Join(&wg, "askers")
	for from, n := range flows {
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return flowNext[from] >= n }, "ordinary messages of %s", from)
	}
	mu.Lock()
	w.Check(len(ran) >= want, "%d requests were executed, %d were asked", len(ran), want)
	mu.Unlock()
	w.Sign(strings.Join(order, ","))
	w.Stat("asks", int64(len(ran)))
	if maxPending > 1 {
		w.Nontrivial()
	}
	rig.Close()
}

// c03Burst: a lot of asks that start at the same time and are pending together.
func c03Burst(w *W) {
	r := w.R
	kind := pick(r, []string{"mem", "mem", "gorilla>gorilla", "gobwas>gobwas"})
	n := 300 + r.Intn(1500)
	side := pick(r, []string{"C", "S", "both"})
	w.Sample("transport %s, burst of %d asks by %s", kind, n, side)
	var order []string
	var mu sync.Mutex
	mk := func() neffos.Namespaces {
		return neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			mu.Lock()
			if len(order) < 100 {
				order = append(order, string(m.Body))
			}
			mu.Unlock()
			return neffos.Reply(append([]byte("re:"), m.Body...))
		}}}
	}
	rig := NewRig(w, kind, mk())
	cli, _ := rig.Dial("c", mk())
	cns := rig.Connect(cli, "a")
	var sns *neffos.NSConn
	rig.Srv.Do(func(c *neffos.Conn) { sns = c.Namespace("a") }, false)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		ns := cns
		if side == "S" || side == "both" && i%2 == 0 {
			ns = sns
		}
		id := fmt.Sprint(i) + padding(r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res, err := ns.Ask(context.Background(), "q", []byte(id))
			w.Check(err == nil, "ask %q failed: %v", id, err)
			w.Check(string(res.Body) == "re:"+id, "ask %q got the reply %q", id, res.Body)
		}()
	}
	close(start)
	w.Join(&wg, "burst of asks")
	mu.Lock()
	w.Sign(strings.Join(order, ","))
	mu.Unlock()
	w.Stat("burst_asks", int64(n))
	w.Nontrivial()
	rig.Close()
}

// ---- C04 ----

func runC04(w *W) {
	if w.Case%5 == 4 {
		c04Lifecycle(w)
		return
	}
	if w.Case == 6 {
		c04Unacked(w)
		return
	}
	if w.Case%5 == 1 {
		c04Flood(w)
		return
	}
	r := w.R
	kind := pick(r, transports)
	asker := pick(r, []string{"C", "S"})
	inside := chance(r, 35)
	fault := pick(r, []string{"cancel", "cancel", "timeout", "localclose", "remoteclose", "cut", "serverclose"})
	n := 1 + r.Intn(5)
	if inside {
		n = 1
	}
	lateReply := chance(r, 70)
	w.Sample("transport %s, %d asks of %s (inside a callback %v), fault %s, late replies %v", kind, n, asker, inside, fault, lateReply)
	w.Sign(fmt.Sprint(kind, n, asker, inside, fault, lateReply))
	gate := make(chan struct{})
	var started, stray int32
	var mu sync.Mutex
	var order []string
	note := func(s string) { mu.Lock(); order = append(order, s); mu.Unlock(); w.Log("%s", s) }
	insideDone := make(chan error, 1)
	var insideCtx context.Context
	ctx, cancel := context.WithCancel(context.Background())
	if fault == "timeout" {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+r.Intn(20))*time.Millisecond)
	}
	defer cancel()
	insideCtx = ctx
	var asked []string
	var amu sync.Mutex
	isAsked := func(b string) bool {
		amu.Lock()
		defer amu.Unlock()
		for _, a := range asked {
			if a == b {
				return true
			}
		}
		return false
	}
	mk := func(side string) neffos.Namespaces {
		return neffos.Namespaces{"a": neffos.Events{
			// the request is answered when the gate opens. It runs outside of the reader so that the connection stays responsive:
			// an error/reply of the callback is the only public way to answer, so the callback itself waits.
			"slow": func(c *neffos.NSConn, m neffos.Message) error {
				if side == asker {
					atomic.AddInt32(&stray, 1)
					note("stray slow at " + side)
					return nil
				}
				w.Event()
				atomic.AddInt32(&started, 1)
				<-gate
				return neffos.Reply([]byte("late:" + string(m.Body)))
			},
			"echo": func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				return neffos.Reply(append([]byte("re:"), m.Body...))
			},
			"go": func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				atomic.AddInt32(&started, 0)
				_, err := c.Ask(insideCtx, "slow", m.Body)
				note("inside ask returned")
				insideDone <- err
				return nil
			},
			neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
				if !neffos.IsSystemEvent(m.Event) || isAsked(string(m.Body)) {
					atomic.AddInt32(&stray, 1)
					note("stray " + m.Event + " at " + side)
				}
				return nil
			},
		}}
	}
	rig := NewRig(w, kind, mk("S"))
	cli, link := rig.Dial("c", mk("C"))
	cns := rig.Connect(cli, "a")
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	sns := sconn.Namespace("a")
	from, to := cns, sns
	if asker == "S" {
		from, to = sns, cns
	}
	errs := make(chan error, n)
	if inside {
		amu.Lock()
		asked = append(asked, "in")
		amu.Unlock()
		w.Check(to.Emit("go", []byte("in")), "emit failed")
	} else {
		for i := 0; i < n; i++ {
			b := fmt.Sprintf("req%d", i)
			amu.Lock()
			asked = append(asked, b)
			amu.Unlock()
			go func() {
				res, err := from.Ask(ctx, "slow", []byte(b))
				if err == nil {
					w.Violate("ask %s returned %q before its reply was given", b, res.Body)
				}
				note("ask returned")
				errs <- err
			}()
		}
	}
	if chance(r, 80) || fault == "cut" || inside {
		w.Await(func() bool { return atomic.LoadInt32(&started) > 0 || ctx.Err() != nil }, "the request to be executed")
	} else {
		sleepy(r, 500)
	}
	switch fault {
	case "cancel":
		cancel()
	case "timeout":
	case "localclose":
		go from.Conn.Close()
	case "remoteclose":
		go to.Conn.Close()
	case "cut":
		link.Cut()
	case "serverclose":
		go rig.Srv.Close()
	}
	// every pending ask ends, with the replies still withheld.
	check := func(err error) {
		w.Check(err != nil, "a pending ask ended without an error after %s", fault)
		if fault == "cancel" || fault == "timeout" {
			w.Check(errors.Is(err, ctx.Err()), "a pending ask ended with %v after its context was done (%v)", err, ctx.Err())
		}
	}
	if fault == "remoteclose" || fault == "serverclose" && asker == "C" || fault == "serverclose" && asker == "S" {
		// closing side's own reader may be inside the callback; nothing to add, closing must not wait for it.
	}
	if inside {
		w.Call(func() { check(<-insideDone) }, "the ask inside a callback to end after %s of a connection (asker %s)", fault, asker)
	} else {
		w.Call(func() {
			for i := 0; i < n; i++ {
				check(<-errs)
			}
		}, "%d asks to end after %s (asker %s)", n, fault, asker)
	}
	if fault == "cancel" || fault == "timeout" {
		if lateReply {
			close(gate)
			// new asks get their own replies, in spite of the late ones.
			for i := 0; i < 3; i++ {
				b := fmt.Sprintf("after%d", i)
				res, err := from.Ask(context.Background(), "echo", []byte(b))
				w.Check(err == nil && string(res.Body) == "re:"+b, "ask %s after late replies got %q %v", b, res.Body, err)
				res, err = to.Ask(context.Background(), "echo", []byte(b))
				w.Check(err == nil && string(res.Body) == "re:"+b, "ask %s of the other side after late replies got %q %v", b, res.Body, err)
			}
		} else {
			close(gate)
			res, err := from.Ask(context.Background(), "echo", []byte("x"))
			w.Check(err == nil && string(res.Body) == "re:x", "ask after a cancelled one got %q %v", res.Body, err)
		}
		w.Check(atomic.LoadInt32(&stray) == 0, "late replies fired %d callbacks: %v", stray, order)
		// a context that is done already.
		dctx, dc := context.WithCancel(context.Background())
		dc()
		_, err := from.Ask(dctx, "echo", []byte("never"))
		_ = err // it may have been answered meanwhile or not, it must only return.
		res, err := from.Ask(context.Background(), "echo", []byte("y"))
		w.Check(err == nil && string(res.Body) == "re:y", "ask after a done context got %q %v", res.Body, err)
		past, pc := context.WithDeadline(context.Background(), time.Now().Add(-time.Hour))
		_, err = from.Ask(past, "echo", []byte("past"))
		w.Check(err == context.DeadlineExceeded, "ask with a past deadline: %v", err)
		pc()
		from.Conn.Close()
	} else {
		close(gate)
	}
	// closed: an ask fails at once, on both sides.
	w.Await(func() bool { return from.Conn.IsClosed() && to.Conn.IsClosed() }, "both sides to be closed after %s", fault)
	for _, x := range []*neffos.NSConn{from, to} {
		w.Call(func() {
			_, err := x.Ask(context.Background(), "echo", []byte("z"))
			w.Check(err != nil, "an ask on a closed connection returned no error")
			_, err = x.Ask(nil, "echo", []byte("z"))
			w.Check(err != nil, "an ask on a closed connection returned no error")
		}, "an ask on a closed connection")
	}
	w.Check(atomic.LoadInt32(&stray) == 0, "replies fired %d callbacks", stray)
	mu.Lock()
	w.Sign(strings.Join(order, ","))
	mu.Unlock()
	if atomic.LoadInt32(&started) > 0 {
		w.Nontrivial()
	}
	w.Stat("fault_"+fault, 1)
	rig.Close()
}

// c04Unacked: the connect of a server to a client that never acknowledges ends.
func c04Unacked(w *W) {
	w.Sample("Connect of a server to a client that never acknowledges")
	w.Sign("unacked")
	rig := NewRig(w, "mem", neffos.Namespaces{"a": neffos.Events{}})
	raw := rig.MemRaw("x")
	var sc *neffos.Conn
	w.Await(func() bool {
		rig.Srv.Do(func(c *neffos.Conn) { sc = c }, false)
		return sc != nil
	}, "the connection")
	done := make(chan error, 1)
	go func() {
		_, err := sc.Connect(context.Background(), "a")
		done <- err
	}()
	for i := 0; ; i++ {
		select {
		case err := <-done:
			w.Check(err != nil, "Connect returned no error, the client has not acknowledged the connection")
			w.Nontrivial()
			raw.conn.Close()
			rig.Close()
			return
		case <-time.After(100 * time.Millisecond):
			w.Bump()
			w.Check(i < 1000, "Connect of a server to a client that never acknowledges has not ended after %v (10 s are documented)", time.Duration(i)*100*time.Millisecond)
		}
	}
}

// c04Flood: the connection is lost while asks and their replies fly, inside and outside of callbacks.
func c04Flood(w *W) {
	r := w.R
	kind := pick(r, transports)
	fault := pick(r, []string{"localclose", "remoteclose", "cut", "cut", "serverclose"})
	asker := pick(r, []string{"C", "C", "S"})
	gor := 1 + r.Intn(6)
	ticks := chance(r, 80)
	w.Sample("transport %s, %d goroutines of %s ask until %s, with events %v", kind, gor, asker, fault, ticks)
	w.Sign(fmt.Sprint(kind, gor, asker, fault, ticks))
	var stray, asks int32
	mk := func(side string) neffos.Namespaces {
		rr := w.Rand()
		var mu sync.Mutex
		return neffos.Namespaces{"a": neffos.Events{
			"echo": func(c *neffos.NSConn, m neffos.Message) error {
				w.Event()
				if side == asker {
					atomic.AddInt32(&stray, 1)
					w.Log("stray %q at %s", m.Body, side)
					return nil
				}
				return neffos.Reply(append([]byte("re:"), m.Body...))
			},
			"tick": func(c *neffos.NSConn, m neffos.Message) error {
				mu.Lock()
				x, d := rr.Intn(4), rr.Intn(300)
				mu.Unlock()
				w.Event()
				if x == 0 {
					res, err := c.Ask(context.Background(), "echo", []byte("in"))
					w.Check(err != nil || string(res.Body) == "re:in", "ask inside a callback got %q", res.Body)
					return nil
				}
				time.Sleep(time.Duration(d) * time.Microsecond)
				return nil
			},
			neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
				if !neffos.IsSystemEvent(m.Event) {
					atomic.AddInt32(&stray, 1)
					w.Log("stray %q %q at %s", m.Event, m.Body, side)
				}
				return nil
			},
		}}
	}
	rig := NewRig(w, kind, mk("S"))
	rounds := 2 + r.Intn(5)
	for i := 0; i < rounds; i++ {
		c04FloodRound(w, rig, mk, fault, asker, gor, ticks, &asks)
		if fault == "serverclose" {
			break
		}
	}
	w.Check(atomic.LoadInt32(&stray) == 0, "replies fired %d callbacks at the side that asked", stray)
	w.Stat("flood_asks", int64(asks))
	w.Nontrivial()
	rig.Close()
}

func c04FloodRound(w *W, rig *Rig, mk func(string) neffos.Namespaces, fault, asker string, gor int, ticks bool, asks *int32) {
	r := w.R
	cli, link := rig.Dial("c", mk("C"))
	cns := rig.Connect(cli, "a")
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) {
		if !c.IsClosed() {
			sconn = c
		}
	}, false)
	w.Check(sconn != nil, "the connected client is not registered")
	from, to := cns, sconn.Namespace("a")
	if asker == "S" {
		from, to = to, from
	}
	var wg sync.WaitGroup
	for g := 0; g < gor; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				b := fmt.Sprintf("%d.%d", g, k)
				res, err := from.Ask(context.Background(), "echo", []byte(b))
				if err != nil {
					return
				}
				atomic.AddInt32(asks, 1)
				w.Check(string(res.Body) == "re:"+b, "ask %s got %q", b, res.Body)
			}
		}()
	}
	if ticks {
		rr := w.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for to.Emit("tick", nil) {
				sleepy(rr, 400)
			}
		}()
	}
	n := atomic.LoadInt32(asks) + int32(r.Intn(40))
	w.Await(func() bool { return atomic.LoadInt32(asks) >= n }, "asks")
	sleepy(r, 300)
	switch fault {
	case "localclose":
		go from.Conn.Close()
	case "remoteclose":
		go to.Conn.Close()
	case "cut":
		link.Cut()
	case "serverclose":
		go rig.Srv.Close()
	}
	w.Join(&wg, "the asks to end after "+fault)
	w.Await(func() bool { return from.Conn.IsClosed() && to.Conn.IsClosed() }, "both sides to be closed after %s", fault)
	w.Settle(time.Duration(r.Intn(3)) * time.Millisecond)
}

// c04Lifecycle: connect, join, leave and disconnect wait for the other side as well; they end like an ask.
func c04Lifecycle(w *W) {
	r := w.R
	kind := pick(r, transports)
	op := pick(r, []string{"connect", "join", "leave", "disconnect"})
	by := pick(r, []string{"C", "S"})
	fault := pick(r, []string{"cancel", "timeout", "localclose", "remoteclose", "cut"})
	w.Sample("transport %s, pending %s by %s, fault %s", kind, op, by, fault)
	w.Sign(fmt.Sprint(kind, op, by, fault))
	gate := make(chan struct{})
	var blocked int32
	var armed int32
	block := func(side string) neffos.MessageHandlerFunc {
		return func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			if side != by && !m.IsLocal && !m.IsForced && atomic.LoadInt32(&armed) == 1 && m.Namespace == "b" {
				atomic.StoreInt32(&blocked, 1)
				<-gate
			}
			return nil
		}
	}
	mk := func(side string) neffos.Namespaces {
		b := block(side)
		return neffos.Namespaces{"a": neffos.Events{"echo": func(c *neffos.NSConn, m neffos.Message) error {
			return neffos.Reply(append([]byte("re:"), m.Body...))
		}}, "b": neffos.Events{neffos.OnNamespaceConnect: b, neffos.OnNamespaceDisconnect: b, neffos.OnRoomJoin: b, neffos.OnRoomLeave: b}}
	}
	rig := NewRig(w, kind, mk("S"))
	cli, link := rig.Dial("c", mk("C"))
	cns := rig.Connect(cli, "a")
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	me, other := cns.Conn, sconn
	if by == "S" {
		me, other = sconn, cns.Conn
	}
	bg := context.Background()
	var ns *neffos.NSConn
	var room *neffos.Room
	if op != "connect" {
		var err error
		ns, err = me.Connect(bg, "b")
		w.Check(err == nil, "connect: %v", err)
	}
	if op == "leave" {
		var err error
		room, err = ns.JoinRoom(bg, "r")
		w.Check(err == nil, "join: %v", err)
	}
	// a disconnect asked by the server is answered by the client before its callback, so nothing blocks there.
	atomic.StoreInt32(&armed, 1)
	ctx, cancel := context.WithCancel(bg)
	if fault == "timeout" {
		ctx, cancel = context.WithTimeout(bg, time.Duration(1+r.Intn(15))*time.Millisecond)
	}
	defer cancel()
	done := make(chan error, 1)
	go func() {
		var err error
		switch op {
		case "connect":
			_, err = me.Connect(ctx, "b")
		case "join":
			_, err = ns.JoinRoom(ctx, "r")
		case "leave":
			err = room.Leave(ctx)
		case "disconnect":
			err = ns.Disconnect(ctx)
		}
		done <- err
	}()
	mustBlock := !(op == "disconnect" && by == "S")
	if mustBlock {
		w.Await(func() bool { return atomic.LoadInt32(&blocked) == 1 || ctx.Err() != nil }, "the remote callback of %s", op)
	}
	switch fault {
	case "cancel":
		cancel()
	case "localclose":
		go me.Close()
	case "remoteclose":
		go other.Close()
	case "cut":
		link.Cut()
	}
	w.Call(func() {
		err := <-done
		if mustBlock && atomic.LoadInt32(&blocked) == 1 {
			w.Check(err != nil, "%s ended without error after %s while the remote callback has not returned", op, fault)
			w.Nontrivial()
		}
	}, "the pending %s of %s to end after %s", op, by, fault)
	close(gate)
	if fault == "cancel" || fault == "timeout" {
		atomic.StoreInt32(&armed, 0)
		sn := sconn.Namespace("a")
		for i := 0; i < 2; i++ {
			res, err := cns.Ask(bg, "echo", []byte("1"))
			w.Check(err == nil && string(res.Body) == "re:1", "ask after a cancelled %s: %q %v", op, res.Body, err)
			res, err = sn.Ask(bg, "echo", []byte("2"))
			w.Check(err == nil && string(res.Body) == "re:2", "server's ask after a cancelled %s: %q %v", op, res.Body, err)
		}
	}
	w.Stat("lifecycle_"+op, 1)
	go rig.Close()
	w.Await(func() bool { return cns.Conn.IsClosed() }, "close")
}

// ---- C22 ----

func runC22(w *W) {
	r := w.R
	kind := pick(r, transports)
	sync_ := chance(r, 30)
	nconn := 1 + r.Intn(5)
	conc := 1 + r.Intn(4)
	per := 2 + r.Intn(6)
	w.Sample("transport %s, sync %v, %d connections, %d concurrent askers x %d asks", kind, sync_, nconn, conc, per)
	w.Sign(fmt.Sprint(kind, sync_, nconn, conc, per))
	var mu sync.Mutex
	ran := map[string][]string{} // request -> connections that executed it
	var order []string
	var stray int32
	held := make(chan struct{})
	cbFor := func(id string) neffos.Namespaces {
		rr := w.Rand()
		q := func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			b := string(m.Body)
			mu.Lock()
			ran[b] = append(ran[b], id)
			order = append(order, id)
			d := rr.Intn(300)
			mu.Unlock()
			switch {
			case strings.HasPrefix(b, "hold"):
				<-held
			case strings.HasPrefix(b, "err"):
				return errors.New("E:" + id + ":" + b)
			case strings.HasPrefix(b, "only:"):
				// only one connection answers.
				if !strings.HasPrefix(b, "only:"+id+":") {
					return nil
				}
			}
			time.Sleep(time.Duration(d) * time.Microsecond)
			return neffos.Reply([]byte("R:" + id + ":" + b))
		}
		return neffos.Namespaces{"a": neffos.Events{"q;": q, "echo": func(c *neffos.NSConn, m neffos.Message) error {
			return neffos.Reply(append([]byte("re:"), m.Body...))
		}}, "b": neffos.Events{"q;": q}}
	}
	sany := func(c *neffos.NSConn, m neffos.Message) error {
		if !neffos.IsSystemEvent(m.Event) {
			atomic.AddInt32(&stray, 1)
			w.Log("stray at server %s %q", m.Event, m.Body)
		}
		return nil
	}
	secho := func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(append([]byte("re:"), m.Body...)) }
	rig := NewRig(w, kind, neffos.Namespaces{"a": neffos.Events{neffos.OnAnyEvent: sany, "secho": secho}, "b": neffos.Events{neffos.OnAnyEvent: sany}}, func(s *neffos.Server) { s.SyncBroadcaster = sync_ })
	clients := map[string]*neffos.NSConn{}
	inB := map[string]bool{}
	inRoom := map[string]bool{}
	var ids []string
	for i := 0; i < nconn; i++ {
		id := fmt.Sprintf("id%d", i)
		ids = append(ids, id)
		cli, _ := rig.Dial(id, cbFor(id))
		clients[id] = rig.Connect(cli, "a")
		if chance(r, 50) {
			rig.Connect(cli, "b")
			inB[id] = true
		}
		if chance(r, 50) || i == 0 {
			_, err := clients[id].JoinRoom(w.Ctx(), "room")
			w.Check(err == nil, "join: %v", err)
			inRoom[id] = true
		}
	}
	fence := func() {
		for _, id := range ids {
			w.Call(func() {
				res, err := clients[id].Ask(w.Ctx(), "secho", []byte("f"))
				w.Check(err == nil && string(res.Body) == "re:f", "the connection %s is disturbed: %q %v", id, res.Body, err)
				res, err = rig.Srv.Ask(w.Ctx(), neffos.Message{Namespace: "a", Event: "echo", To: id, Body: []byte("g")})
				w.Check(err == nil && string(res.Body) == "re:g", "server ask to %s: %q %v", id, res.Body, err)
			}, "fence of %s", id)
		}
	}
	w.Go(conc, "askers", func(g int) {
		rr := w.Rand()
		for k := 0; k < per; k++ {
			id := pick(rr, ids)
			body := fmt.Sprintf("%d.%d", g, k) + padding(rr)
			m := neffos.Message{Namespace: "a", Event: "q;", Body: []byte(body)}
			allowed := map[string]bool{}
			wantErr := false
			switch rr.Intn(6) {
			case 0, 1: // addressed
				m.To = id
				allowed[id] = true
				if rr.Intn(3) == 0 {
					m.Body = []byte("err" + body)
					wantErr = true
				}
			case 2: // namespace
				for _, x := range ids {
					allowed[x] = true
				}
			case 3: // room
				m.Room = "room"
				for x := range inRoom {
					allowed[x] = true
				}
				if !inRoom[id] {
					id = ids[0]
				}
			case 4: // only one of them answers
				m.Body = []byte("only:" + id + ":" + body)
				allowed[id] = true
			case 5:
				if len(inB) == 0 {
					continue
				}
				m.Namespace = "b"
				for x := range inB {
					allowed[x] = true
				}
			}
			var res neffos.Message
			var err error
			ctx := w.Ctx()
			if chance(rr, 5) {
				ctx = nil // as documented, no deadline.
			}
			w.Call(func() { res, err = rig.Srv.Ask(ctx, m) }, "server ask %q to %q room %q ns %q", m.Body, m.To, m.Room, m.Namespace)
			if wantErr {
				w.Check(err != nil && err.Error() == "E:"+id+":"+string(m.Body), "ask %q of %s got error %v", m.Body, id, err)
			} else {
				w.Check(err == nil, "ask %q failed: %v", m.Body, err)
				p := strings.SplitN(string(res.Body), ":", 3)
				w.Check(len(p) == 3 && p[0] == "R" && p[2] == string(m.Body), "ask %q got the reply %q", m.Body, res.Body)
				w.Check(allowed[p[1]], "ask %q (to %q, room %q, ns %q) was answered by %s", m.Body, m.To, m.Room, m.Namespace, p[1])
			}
			mu.Lock()
			for _, x := range ran[string(m.Body)] {
				ok := allowed[x] || strings.HasPrefix(string(m.Body), "only:")
				if !ok {
					mu.Unlock()
					w.Violate("request %q (to %q, room %q, ns %q) was executed by %s", m.Body, m.To, m.Room, m.Namespace, x)
				}
			}
			mu.Unlock()
		}
	})
	fence()
	w.Check(atomic.LoadInt32(&stray) == 0, "extra replies fired %d callbacks at the server", stray)
	// an ask that ends with its context, its reply comes later.
	for k := 0; k < 1+r.Intn(2); k++ {
		ctx, cancel, over := briefly(r, time.Duration(2+r.Intn(10))*time.Millisecond)
		m := neffos.Message{Namespace: "a", Event: "q;", Body: []byte(fmt.Sprintf("hold%d", k))}
		if chance(r, 50) {
			m.To = ids[0]
		}
		w.Call(func() {
			_, err := rig.Srv.Ask(ctx, m)
			w.Check(err == over, "server ask ended with %v after its context was done", err)
		}, "server ask to end with its context")
		cancel()
	}
	// an ask that nobody is addressed by ends with its context.
	ctx, cancel, over := briefly(r, 3*time.Millisecond)
	w.Call(func() {
		_, err := rig.Srv.Ask(ctx, neffos.Message{Namespace: "a", Event: "q;", To: "nobody", Body: []byte("nobody")})
		w.Check(err == over, "server ask to nobody ended with %v", err)
	}, "server ask to nobody")
	cancel()
	close(held)
	fence()
	fence()
	w.Check(atomic.LoadInt32(&stray) == 0, "late replies fired %d callbacks at the server", stray)
	mu.Lock()
	for b, x := range ran {
		seen := map[string]bool{}
		for _, id := range x {
			if seen[id] {
				mu.Unlock()
				w.Violate("request %q was executed twice by %s", b, id)
			}
			seen[id] = true
		}
		if b == "nobody" {
			mu.Unlock()
			w.Violate("a request to nobody was executed by %v", x)
		}
	}
	w.Sign(strings.Join(order, ","))
	mu.Unlock()
	if nconn > 1 || conc > 1 {
		w.Nontrivial()
	}
	w.Stat("server_asks", int64(conc*per))
	rig.Close()
}
