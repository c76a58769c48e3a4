package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C05", Quick: 1200, Thorough: 12000, Run: runC05,
		Rule: "a case is a random program of sequential sends (emit, binary, room, ask) over namespaces and rooms in one or both directions with callbacks that are slow, ask, emit or reconnect; sequence numbers are checked in every callback. Non-trivial: at least 20 messages were handled. Distinct: by the hash of the order in which events were observed. Further cases: bodies of very different sizes after each other, and floods of 200-3000 messages that arrive while a callback asks"})
}

// seqMon checks that the numbered messages of one direction are handled in order, once, one at a time.
type seqMon struct {
	w      *W
	name   string
	mu     sync.Mutex
	next   int
	inside int32
	sig    strings.Builder
}

func (s *seqMon) enter(n int, what string) {
	if atomic.AddInt32(&s.inside, 1) != 1 {
		s.w.Violate("%s: two messages are handled at the same time (at %d %s)", s.name, n, what)
	}
	s.mu.Lock()
	want := s.next
	s.next++
	s.mu.Unlock()
	s.w.Event()
	s.w.Check(n == want, "%s: message %d (%s) is handled, expected %d: lost, repeated or out of order", s.name, n, what, want)
}

func (s *seqMon) leave() { atomic.AddInt32(&s.inside, -1) }

func (s *seqMon) handled() int { s.mu.Lock(); defer s.mu.Unlock(); return s.next }

func runC05(w *W) {
	switch w.Case % 4 {
	case 3:
		if w.Case%16 == 15 {
			c05Flood(w)
			return
		}
		c05Queue(w)
	case 2:
		c05Connected(w)
	default:
		c05Main(w)
	}
}

func seqOf(body []byte) int {
	n, err := strconv.Atoi(strings.SplitN(string(body), "|", 2)[0])
	if err != nil {
		return -1
	}
	return n
}

// c05Main: both sides send numbered messages, callbacks do things.
func c05Main(w *W) {
	r := w.R
	kind := pick(r, transports)
	nsNames := []string{"a", "b", ""}[:1+r.Intn(3)]
	total := 30 + r.Intn(70)
	both := chance(r, 60)
	serverActs, clientActs := r.Intn(4), r.Intn(4)
	slow := r.Intn(3) * 150
	monS := &seqMon{w: w, name: "server"}
	monC := &seqMon{w: w, name: "client"}
	w.Sample("transport %s, namespaces %q, %d messages, both ways %v, server callback acts %d, client callback acts %d, slow %d", kind, nsNames, total, both, serverActs, clientActs, slow)
	var sig sync.Mutex
	var order []string
	mk := func(mon *seqMon, acts int, rr *rand.Rand) neffos.MessageHandlerFunc {
		var mu sync.Mutex
		return func(c *neffos.NSConn, m neffos.Message) error {
			n := seqOf(m.Body)
			mon.enter(n, m.Namespace+"/"+m.Room+"/"+m.Event)
			defer mon.leave()
			sig.Lock()
			if len(order) < 400 {
				order = append(order, mon.name[:1]+strconv.Itoa(n))
			}
			sig.Unlock()
			mu.Lock()
			act, d := rr.Intn(8), rr.Intn(slow+1)
			mu.Unlock()
			if d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			if acts > 0 {
				switch {
				case act == 0 && acts >= 1:
					c.Emit("side", []byte("x"))
				case act == 1 && acts >= 2:
					w.Call(func() {
						res, err := c.Ask(w.Ctx(), "echo", m.Body)
						if err == nil {
							w.Check(string(res.Body) == string(m.Body), "ask inside a callback got %q instead of %q", res.Body, m.Body)
						} else {
							w.Violate("ask inside a callback failed: %v", err)
						}
					}, "ask in callback of %d", n)
				case act == 2 && acts >= 3:
					w.Call(func() {
						if _, err := c.Conn.Connect(w.Ctx(), "extra"); err != nil {
							w.Violate("connect inside a callback failed: %v", err)
						}
					}, "connect in callback of %d", n)
				}
			}
			if strings.HasPrefix(m.Event, "ask") {
				return neffos.Reply(m.Body)
			}
			return nil
		}
	}
	handler := func(mon *seqMon, acts int) neffos.Namespaces {
		cb := mk(mon, acts, w.Rand())
		nss := neffos.Namespaces{}
		for _, ns := range append([]string{"extra"}, nsNames...) {
			nss[ns] = neffos.Events{
				"msg": cb, "ask": cb, "other;event": cb,
				"side": func(*neffos.NSConn, neffos.Message) error { w.Event(); return nil },
				"echo": func(_ *neffos.NSConn, m neffos.Message) error { w.Event(); return neffos.Reply(m.Body) },
			}
		}
		return nss
	}
	// asks inside callbacks of both sides at once wait for each other's callback (by design), so one side only.
	if both {
		if clientActs >= 2 && serverActs >= 2 {
			clientActs = 1
		}
	}
	rig := NewRig(w, kind, handler(monS, serverActs))
	cli, _ := rig.Dial("c", handler(monC, clientActs))
	cns := map[string]*neffos.NSConn{}
	for _, n := range nsNames {
		cns[n] = rig.Connect(cli, n)
	}
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	if sconn == nil {
		w.Violate("the server does not know its connection")
	}
	sns := map[string]*neffos.NSConn{}
	for _, n := range nsNames {
		sns[n] = sconn.Namespace(n)
		if sns[n] == nil {
			w.Violate("namespace %q is not connected at the server after connect", n)
		}
	}
	rooms := map[string][]string{}
	for _, n := range nsNames {
		for i := 0; i < r.Intn(3); i++ {
			rm := fmt.Sprintf("room;%d", i)
			var err error
			w.Call(func() { _, err = cns[n].JoinRoom(w.Ctx(), rm) }, "join %s", rm)
			w.Check(err == nil, "join failed: %v", err)
			rooms[n] = append(rooms[n], rm)
		}
	}
	// a side whose callbacks ask must not wait for replies of a peer that asks as well.
	sender := func(nss map[string]*neffos.NSConn, rr *rand.Rand, canAsk bool) {
		for i := 0; i < total; i++ {
			n := nsNames[rr.Intn(len(nsNames))]
			c := nss[n]
			size := rr.Intn(200)
			if rr.Intn(8) == 0 {
				size = pick(rr, []int{4000, 4096, 5000, 9000, 20000, 70000})
			}
			body := []byte(fmt.Sprintf("%d|%s", i, strings.Repeat("x", size)))
			ev := pick(rr, []string{"msg", "msg", "other;event"})
			ok := true
			switch k := rr.Intn(10); {
			case k < 5:
				ok = c.Emit(ev, body)
			case k < 7:
				ok = c.EmitBinary(ev, body)
			case k < 9 && len(rooms[n]) > 0:
				rm := c.Room(pick(rr, rooms[n]))
				if rm == nil {
					w.Violate("joined room is not there")
				}
				ok = rm.Emit(ev, body)
			case k == 9 && canAsk:
				w.Call(func() {
					res, err := c.Ask(w.Ctx(), "ask", body)
					w.Check(err == nil && string(res.Body) == string(body), "ask %d: %q %v", i, res.Body, err)
				}, "ask %d", i)
			default:
				ok = c.Conn.Write(neffos.Message{Namespace: n, Event: ev, Body: body})
			}
			w.Check(ok, "send %d reported failure on an open connection", i)
			if rr.Intn(6) == 0 {
				sleepy(rr, 300)
			}
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	ra, rb := w.Rand(), w.Rand()
	go func() { defer wg.Done(); sender(cns, ra, !both || serverActs < 2) }()
	if both {
		wg.Add(1)
		go func() { defer wg.Done(); sender(sns, rb, clientActs < 2) }()
	}
	w.Join(&wg, "senders")
	w.Await(func() bool { return monS.handled() >= total }, "server to handle %d messages", total)
	if both {
		w.Await(func() bool { return monC.handled() >= total }, "client to handle %d messages", total)
	}
	// fence: one more round trip each way, so that a repeated message would be seen.
	w.Call(func() {
		if _, err := cns[nsNames[0]].Ask(w.Ctx(), "echo", []byte("f")); err != nil {
			w.Violate("fence ask failed: %v", err)
		}
		if _, err := sns[nsNames[0]].Ask(w.Ctx(), "echo", []byte("f")); err != nil {
			w.Violate("fence ask of the server failed: %v", err)
		}
	}, "fence")
	w.Check(monS.handled() == total, "server handled %d of %d", monS.handled(), total)
	w.Sign(strings.Join(order, ","))
	w.Stat("messages", int64(total))
	w.Nontrivial()
	rig.Close()
}

// c05Connected: messages sent in the connected callback or right after a connect returns are handled, in order.
func c05Connected(w *W) {
	r := w.R
	kind := pick(r, transports)
	byServer := chance(r, 40)
	both := chance(r, 30)
	rounds := 2 + r.Intn(4)
	burst := 1 + r.Intn(12)
	w.Sample("transport %s, %d rounds of connect (by server %v, both %v) with bursts of %d in the connected callback and after connect", kind, rounds, byServer, both, burst)
	type key struct{ from, ns string }
	var mu sync.Mutex
	got := map[key][]int{}
	var order []string
	inside := map[*neffos.Conn]*int32{}
	rec := func(c *neffos.NSConn, m neffos.Message) error {
		mu.Lock()
		p := inside[c.Conn]
		if p == nil {
			p = new(int32)
			inside[c.Conn] = p
		}
		mu.Unlock()
		if atomic.AddInt32(p, 1) != 1 {
			w.Violate("two messages of a connection are handled at the same time")
		}
		from, num, _ := strings.Cut(string(m.Body), "|")
		n, _ := strconv.Atoi(num)
		mu.Lock()
		got[key{from, m.Namespace}] = append(got[key{from, m.Namespace}], n)
		order = append(order, from+num)
		mu.Unlock()
		w.Event()
		atomic.AddInt32(p, -1)
		return nil
	}
	var nss []string
	for i := 0; i < rounds; i++ {
		nss = append(nss, fmt.Sprintf("ns%d", i))
	}
	handler := func(side string) neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, n := range nss {
			h[n] = neffos.Events{"m": rec,
				neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
					for i := 0; i < burst; i++ {
						w.Check(c.Emit("m", []byte(side+"cb|"+strconv.Itoa(i))), "emit in the connected callback failed")
					}
					return nil
				}}
		}
		return h
	}
	rig := NewRig(w, kind, handler("s"))
	cli, _ := rig.Dial("c", handler("c"))
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	after := func(side string, ns *neffos.NSConn, err error) {
		w.Check(err == nil && ns != nil, "connect failed: %v", err)
		for i := 0; i < burst; i++ {
			w.Check(ns.Emit("m", []byte(side+"af|"+strconv.Itoa(i))), "emit after connect failed")
		}
	}
	for _, n := range nss {
		n := n
		var wg sync.WaitGroup
		if byServer || both {
			wg.Add(1)
			go func() { defer wg.Done(); ns, err := sconn.Connect(w.Ctx(), n); after("s", ns, err) }()
		}
		if !byServer || both {
			wg.Add(1)
			go func() { defer wg.Done(); ns, err := cli.Connect(w.Ctx(), n); after("c", ns, err) }()
		}
		w.Join(&wg, "connect "+n)
		want := []string{"scb", "ccb"}
		if byServer || both {
			want = append(want, "saf")
		}
		if !byServer || both {
			want = append(want, "caf")
		}
		for _, from := range want {
			from := from
			w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(got[key{from, n}]) >= burst }, "messages %s of %s", from, n)
		}
	}
	// fence.
	for _, n := range nss {
		cns := rig.Connect(cli, n)
		cns.Emit("m", []byte("fence|0"))
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(got[key{"fence", n}]) > 0 }, "fence of %s", n)
	}
	mu.Lock()
	defer mu.Unlock()
	for k, v := range got {
		for i, n := range v {
			w.Check(n == i, "messages %s of %s are handled as %v", k.from, k.ns, v)
		}
		w.Check(k.from == "fence" || len(v) == burst, "messages %s of %s are handled as %v", k.from, k.ns, v)
	}
	w.Sign(strings.Join(order, ","))
	w.Nontrivial()
	w.Stat("connect_rounds", int64(rounds))
	go rig.Close()
}

// c05Queue: a raw client sends before its acknowledgement, while the server's OnConnect is slow.
func c05Queue(w *W) {
	r := w.R
	n := 10 + r.Intn(40)
	before := r.Intn(n)
	slow := time.Duration(r.Intn(15)) * time.Millisecond
	w.Sample("raw client: %d messages, %d of them before the acknowledgement, OnConnect takes %v", n, before, slow)
	mon := &seqMon{w: w, name: "server"}
	rig := NewRig(w, "mem", neffos.Namespaces{"a": neffos.Events{"m": func(c *neffos.NSConn, m neffos.Message) error {
		k := seqOf(m.Body)
		mon.enter(k, "m")
		defer mon.leave()
		if k%5 == 0 {
			time.Sleep(200 * time.Microsecond)
		}
		if k%7 == 3 {
			// uses the connection while queued messages are handled.
			w.Check(c.Emit("back", m.Body), "emit failed")
		}
		return nil
	}}}, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { time.Sleep(slow); return nil }
	})
	raw := rig.MemRaw("raw")
	send := func(s string) { w.Check(raw.Send(s) == nil, "raw send failed") }
	msg := func(i int) string { return fmt.Sprintf(";a;;m;0;0;%d", i) }
	connect := "$1;a;;" + neffos.OnNamespaceConnect + ";0;0;"
	i := 0
	if before > 0 {
		send(connect)
		for ; i < before; i++ {
			send(msg(i))
		}
		if chance(r, 50) {
			w.Settle(time.Duration(r.Intn(10)) * time.Millisecond)
		}
		send("M")
	} else {
		send("M")
		send(connect)
	}
	for ; i < n; i++ {
		send(msg(i))
		if r.Intn(5) == 0 {
			sleepy(r, 200)
		}
	}
	send("$2;a;;" + neffos.OnNamespaceDisconnect + ";0;0;")
	var got []string
	w.Call(func() {
		for {
			s, _, err := raw.Recv()
			if err != nil {
				w.Violate("the connection ended: %v", err)
			}
			got = append(got, s)
			if strings.HasPrefix(s, "$2;") {
				return
			}
		}
	}, "the answer to the last request")
	w.Check(mon.handled() == n, "server handled %d of %d before the last request's answer", mon.handled(), n)
	w.Check(got[0] == "Araw", "the first frame is %q instead of the ID", got[0])
	w.Sign(fmt.Sprint(n, before, slow, got))
	w.Nontrivial()
	w.Stat("queued_messages", int64(before))
	rig.Close()
}

// c05Flood: hundreds to thousands of messages arrive while a callback waits for an answer.
func c05Flood(w *W) {
	r := w.R
	kind := pick(r, transports)
	total := pick(r, []int{200, 1100, 1500, 3000})
	rounds := 1 + r.Intn(2)
	if w.Noise {
		total, rounds = pick(r, []int{200, 1100}), 1
	}
	mon := &seqMon{w: w, name: "receiver"}
	reached, sent := make(chan struct{}, 8), make(chan struct{}, 8)
	big := chance(r, 20)
	pad := ""
	if big {
		pad = strings.Repeat("x", 600)
	}
	w.Sample("transport %s: %d messages are sent, %d times, while a callback of the receiver waits for an answer", kind, total, rounds)
	rcv := neffos.Namespaces{"a": neffos.Events{
		"work": func(c *neffos.NSConn, m neffos.Message) error {
			mon.enter(seqOf(m.Body), "work")
			defer mon.leave()
			res, err := c.Ask(w.Ctx(), "slow", m.Body)
			w.Check(err == nil && string(res.Body) == string(m.Body), "the ask inside the callback got %q, %v", clip(string(res.Body), 30), err)
			return nil
		},
		"e": func(c *neffos.NSConn, m neffos.Message) error {
			mon.enter(seqOf(m.Body), "e")
			defer mon.leave()
			return nil
		},
	}}
	snd := neffos.Namespaces{"a": neffos.Events{
		"slow": func(c *neffos.NSConn, m neffos.Message) error {
			reached <- struct{}{}
			<-sent
			return neffos.Reply(m.Body)
		},
	}}
	sns := make(chan *neffos.NSConn, 1)
	toServer := chance(r, 50)
	hs, hc := snd, rcv
	if toServer {
		hs, hc = rcv, snd
	}
	hs["a"][neffos.OnNamespaceConnected] = func(c *neffos.NSConn, m neffos.Message) error { sns <- c; return nil }
	rig := NewRig(w, kind, hs)
	cli, _ := rig.Dial("x", hc)
	n := rig.Connect(cli, "a")
	if !toServer {
		n = <-sns
	}
	seq := 0
	emit := func(ev string) {
		w.Check(n.Emit(ev, []byte(strconv.Itoa(seq)+"|"+pad)), "an emit failed")
		seq++
	}
	for k := 0; k < rounds; k++ {
		emit("work")
		w.Call(func() { <-reached }, "the callback to ask")
		for i := 0; i < total; i++ {
			emit("e")
		}
		sent <- struct{}{}
		for i := 0; i < 20; i++ {
			emit("e")
		}
	}
	w.Await(func() bool { return mon.handled() >= seq }, "%d messages to be handled", seq)
	w.Settle(time.Millisecond)
	w.Check(mon.handled() == seq, "%d messages were handled instead of %d", mon.handled(), seq)
	w.Sign(fmt.Sprint(kind, total, rounds, toServer, big))
	w.Stat("flooded", int64(seq))
	w.Nontrivial()
	w.Call(rig.Close, "server close")
}
