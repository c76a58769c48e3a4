package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C11", Quick: 6000, Thorough: 40000, Run: func(w *W) {
		switch w.Case % 4 {
		case 1:
			c11Raw(w)
		case 3:
			c11Native(w)
		default:
			c11Dials(w)
		}
	},
		Rule: "a case is 2-10 concurrent dials (5 transports, random IDs and error texts) with a connect callback that delays, accepts, rejects, or uses the connection before it decides; or a raw client that sends acknowledgements, forged acknowledgements and messages before, during and after the connect callback; or a native-only server. Non-trivial: at least one connection was accepted or rejected while traffic of it was pending. Distinct: by the hash of the outcomes"})
}

var c11IDs = []string{"", "id", "H", "A", "M", "a;b", "世界 id", "id with spaces", "neffos(0x", "neffos(id:x", "0", "$1", "\"quoted\"", "x\ny", "@%!", " ", " led", "trailed ", "\ttab\t", "line\n", "\r\n", "\x00", "Ax", "MM", "UPPER lower", "%20+", strings.Repeat("long", 500)}

func c11Dials(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 2 + r.Intn(9)
	type plan struct {
		id, text string
		reject   bool
		delay    int
		use      string
		sconn    *neffos.Conn
		accepted bool
		upg      chan error
	}
	plans := make([]*plan, n)
	for i := range plans {
		p := &plan{id: pick(r, c11IDs), reject: chance(r, 45), upg: make(chan error, 1)}
		if chance(r, 70) {
			p.id += fmt.Sprint("#", i)
		}
		p.text = pick(r, []string{"no", "denied;because", "", "é世", "bad namespace", "A", "H", "write closed", "EOF", "a\nb", strings.Repeat("t", 300)})
		if chance(r, 60) {
			p.delay = r.Intn(4000)
		}
		p.use = pick(r, []string{"", "", "", "connect", "store", "emit"})
		plans[i] = p
	}
	always := chance(r, 30)
	var handled [64]int64
	var discon [64]int64
	mk := func() neffos.Namespaces {
		return neffos.Namespaces{"a": neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			if !c.Conn.IsClient() {
				if i, ok := c.Conn.Get("plan").(int); ok {
					atomic.AddInt64(&handled[i], 1)
				}
			}
			if m.Event == "who" {
				return neffos.Reply([]byte(c.Conn.ID()))
			}
			return nil
		}}}
	}
	rig := NewRig(w, kind, mk())
	rig.Srv.FireDisconnectAlways = always
	of := func(c *neffos.Conn) int {
		var i int
		fmt.Sscanf(c.Socket().Request().URL.Query().Get("n"), "%d", &i)
		return i
	}
	rig.Srv.IDGenerator = func(_ http.ResponseWriter, req *http.Request) string {
		var i int
		fmt.Sscanf(req.URL.Query().Get("n"), "%d", &i)
		return plans[i].id
	}
	rig.Srv.OnConnect = func(c *neffos.Conn) error {
		i := of(c)
		p := plans[i]
		p.sconn = c
		c.Set("plan", i)
		w.Event()
		w.Check(c.ID() == p.id, "the server's connection ID is %q, the generator returned %q", c.ID(), p.id)
		if p.delay > 0 {
			time.Sleep(time.Duration(p.delay) * time.Microsecond)
		}
		if p.use != "connect" {
			w.Check(atomic.LoadInt64(&handled[i]) == 0, "a message of connection %d was handled before its connect callback returned", i)
		}
		switch p.use {
		case "connect":
			if ns, err := c.Connect(w.Ctx(), "a"); err != nil || ns == nil {
				w.Violate("connect in OnConnect: %v", err)
			}
		case "store":
			c.Set("x", 1)
			c.Namespace("a")
		case "emit":
			w.Check(!c.Write(neffos.Message{Namespace: "a", Event: "e"}), "a write to a not connected namespace succeeded")
		}
		if p.reject {
			return errors.New(p.text)
		}
		p.accepted = true
		return nil
	}
	rig.Srv.OnDisconnect = func(c *neffos.Conn) { atomic.AddInt64(&discon[of(c)], 1) }
	rig.OnUpgrade = func(c *neffos.Conn, err error, req *http.Request) {
		var i int
		fmt.Sscanf(req.URL.Query().Get("n"), "%d", &i)
		plans[i].upg <- err
	}
	outcomes := make([]string, n)
	w.Go(n, "dials", func(i int) {
		p := plans[i]
		cli, err := neffos.Dial(context.Background(), rig.Dialer(nil, nil), rig.dialURL(p.id, fmt.Sprintf("n=%d", i)), mk())
		w.Event()
		what := fmt.Sprintf("dial %d (reject %v %q, use %q, id %q)", i, p.reject, p.text, p.use, clip(p.id, 40))
		if p.use == "connect" {
			// the callback decided after it used it: the dial succeeded, but a rejected one is terminated.
			if err != nil {
				// it may be terminated even before Dial returns.
				w.Check(p.reject, "%s failed: %v", what, err)
				outcomes[i] = "late-reject"
			} else if p.reject {
				w.Chan(cli.NotifyClose, "the termination of %s", what)
				outcomes[i] = "used-reject"
			}
			if p.reject {
				w.Call(func() {
					w.Check((<-p.upg) != nil, "Upgrade returned no error for %s", what)
				}, "Upgrade of %s", what)
				w.Await(func() bool { return p.sconn.IsClosed() }, "the server side of %s to be closed", what)
				return
			}
		} else if p.reject {
			w.Check(err != nil, "%s succeeded", what)
			w.Check(cli == nil, "%s returned a client", what)
			w.Check(err.Error() == p.text, "%s failed with %q", what, err)
			w.Call(func() {
				uerr := <-p.upg
				w.Check(uerr != nil && uerr.Error() == p.text, "Upgrade returned %v for %s", uerr, what)
			}, "Upgrade of %s", what)
			w.Await(func() bool { return p.sconn.IsClosed() }, "the server side of %s to be closed", what)
			w.Check(!p.sconn.Write(neffos.Message{Namespace: "a", Event: "e"}), "a write to a rejected connection succeeded")
			outcomes[i] = "reject"
			return
		}
		w.Check(err == nil && cli != nil, "%s failed: %v", what, err)
		w.Check(cli.ID == p.id, "%s: the client's ID is %q", what, clip(cli.ID, 60))
		w.Call(func() {
			uerr := <-p.upg
			w.Check(uerr == nil, "Upgrade returned %v for %s", uerr, what)
		}, "Upgrade of %s", what)
		w.Check(p.accepted, "%s succeeded before it was accepted", what)
		ns := rig.Connect(cli, "a")
		w.Check(ns.Conn.ID() == p.id && ns.String() == p.id && ns.Conn.Is(p.id) == (p.id != ""), "%s: the connection's ID is %q", what, clip(ns.Conn.ID(), 60))
		w.Call(func() {
			m, err := ns.Ask(w.Ctx(), "who", nil)
			w.Check(err == nil && string(m.Body) == p.id, "%s: the server's ID is %q, %v", what, clip(string(m.Body), 60), err)
		}, "ask")
		w.Check(!p.sconn.IsClosed(), "%s: the server's side is closed", what)
		outcomes[i] = "accept"
		if r := w.Rand(); chance(r, 50) {
			cli.Close()
			w.Await(func() bool { return atomic.LoadInt64(&discon[i]) == 1 }, "OnDisconnect of %s", what)
			outcomes[i] = "accept-close"
		}
	})
	live := 0
	for _, o := range outcomes {
		if o == "accept" {
			live++
		}
	}
	w.Await(func() bool { return rig.Srv.GetTotalConnections() == uint64(live) }, "the total of connections to be %d", live)
	rig.Srv.Do(func(*neffos.Conn) {}, false)
	for i, o := range outcomes {
		switch o {
		case "reject":
			w.Check(atomic.LoadInt64(&handled[i]) == 0, "rejected connection %d had messages handled", i)
			want := int64(0)
			if always {
				want = 1
			}
			w.Check(atomic.LoadInt64(&discon[i]) == want, "OnDisconnect fired %d times for a rejected connection, FireDisconnectAlways is %v", discon[i], always)
		case "accept":
			w.Check(atomic.LoadInt64(&discon[i]) == 0, "OnDisconnect fired for a live connection")
		}
		w.Stat(o, 1)
	}
	w.Sample("transport %s: %d dials: %s", kind, n, strings.Join(outcomes, " "))
	for i, p := range plans {
		w.Sign(p.id + p.text + outcomes[i])
	}
	w.Nontrivial()
	w.Call(rig.Close, "close")
}

// c11Raw: a raw client that does not follow the acknowledgement rules.
func c11Raw(w *W) {
	r := w.R
	release := make(chan struct{})
	var returned int32
	rejectText := ""
	if chance(r, 45) {
		rejectText = "rejected"
	}
	var mu sync.Mutex
	var bodies []string
	var sconn *neffos.Conn
	entered := make(chan struct{})
	id := "the-id"
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		w.Check(atomic.LoadInt32(&returned) > 0, "a message (%s %q) was handled before the connect callback returned", m.Event, m.Body)
		w.Check(rejectText == "", "a message (%s %q) of a rejected connection was handled", m.Event, m.Body)
		w.Check(c.Conn.ID() == id, "the connection's ID changed to %q", c.Conn.ID())
		if !neffos.IsSystemEvent(m.Event) {
			mu.Lock()
			bodies = append(bodies, string(m.Body))
			mu.Unlock()
		}
		return nil
	}
	rig := NewRig(w, "mem", HandlerAll(cb, "a", "b"), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			sconn = c
			close(entered)
			<-release
			if rejectText != "" {
				// nothing of it may be handled from now on.
				return errors.New(rejectText)
			}
			atomic.StoreInt32(&returned, 1)
			return nil
		}
	})
	peer := rig.MemRaw(id)
	var sent []string
	seq := 0
	acked := false
	var want []string
	connected := map[string]bool{}
	replies := 0
	send := func() {
		seq++
		f := ""
		switch r.Intn(12) {
		case 0:
			f = "A" + pick(r, []string{"", "forged", id})
			if acked {
				break
			}
		case 1:
			f = "H" + pick(r, []string{"", "err"})
		case 2, 3:
			f = "M" + pick(r, []string{"", "", "x", "M;;;;;;"})
			acked = true
		case 4:
			ns := pick(r, []string{"a", "b"})
			f = rawMsg{wait: fmt.Sprintf("$%d", seq), ns: ns, event: neffos.OnNamespaceConnect}.wire()
			connected[ns] = true
			replies++
		case 5:
			f = ""
		case 6:
			f = string(randBytes(r, 1+r.Intn(5))) // never starts with M, A, H
			if strings.ContainsAny(f, "MAH;") {
				f = "K"
			}
		default:
			ns := pick(r, []string{"a", "b"})
			body := fmt.Sprintf("m%d", seq)
			f = rawMsg{ns: ns, event: "e", body: body}.wire()
			if connected[ns] {
				want = append(want, body)
			}
		}
		sent = append(sent, f)
		peer.Send(f)
	}
	// the first frame may be the connect's request, nothing is handled anyway.
	pre := r.Intn(12)
	for i := 0; i < pre; i++ {
		send()
		sleepy(r, 300)
	}
	w.Chan(entered, "the connect callback")
	for i := 0; i < r.Intn(5); i++ {
		send()
	}
	sleepy(r, 2000)
	w.Check(sconn.ID() == id, "the ID changed to %q before the admission", sconn.ID())
	close(release)
	for i := 0; i < r.Intn(8); i++ {
		send()
		sleepy(r, 200)
	}
	if !acked {
		sent = append(sent, "M")
		peer.Send("M")
		acked = true
	}
	// the first frame that is not empty which the server sends.
	w.Call(func() {
		s, _, err := peer.Recv()
		if rejectText != "" {
			w.Check(err == nil && s == "H"+rejectText, "the first frame to a rejected client is %q, %v", s, err)
			_, _, err = peer.Recv()
			w.Check(err != nil, "a rejected client received more frames")
			return
		}
		w.Check(err == nil && s == "A"+id, "the first frame to an accepted client is %q, %v", s, err)
	}, "the acknowledgement")
	if rejectText != "" {
		w.Await(func() bool { return sconn.IsClosed() }, "the rejected connection to be closed")
		w.Stat("rejected", 1)
	} else {
		peer.Send(rawMsg{wait: "$end", ns: "a", event: neffos.OnNamespaceConnect}.wire())
		w.Call(func() {
			for {
				s, _, err := peer.Recv()
				w.Check(err == nil, "an accepted connection was closed: %v; sent %q", err, sent)
				m, ok := parseRaw(s)
				w.Check(ok && m.wait != "", "unexpected frame %q", s)
				if m.wait == "$end" {
					break
				}
			}
		}, "the reply of the last request")
		mu.Lock()
		w.Check(fmt.Sprint(bodies) == fmt.Sprint(want), "messages of the client should be handled after the admission, in order: %q, but were %q; sent %q", want, bodies, sent)
		mu.Unlock()
		w.Check(sconn.ID() == id, "the ID changed to %q", sconn.ID())
		w.Stat("accepted", 1)
		w.Stat("early_messages", int64(len(want)))
	}
	w.Sample("raw client, reject %v: %q", rejectText != "", clip(fmt.Sprintf("%q", sent), 300))
	w.Sign(fmt.Sprintf("%q", sent))
	if pre > 0 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "close")
}

// c11Native: a server that declares only the native-message callback.
func c11Native(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 1 + r.Intn(5)
	type st struct {
		reject bool
		delay  int
		ret    int32
		got    int64
		sconn  atomic.Pointer[neffos.Conn]
		gone   int32
	}
	sts := make([]*st, n)
	for i := range sts {
		sts[i] = &st{reject: chance(r, 45), delay: r.Intn(4000)}
	}
	of := func(c *neffos.Conn) *st {
		var i int
		fmt.Sscanf(c.ID(), "n%d", &i)
		return sts[i]
	}
	rig := NewRig(w, kind, neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		s := of(c.Conn)
		w.Check(atomic.LoadInt32(&s.ret) > 0, "a native message was handled before the connect callback returned")
		w.Check(!s.reject, "a native message of a rejected connection was handled")
		atomic.AddInt64(&s.got, 1)
		return nil
	}}, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			x := of(c)
			x.sconn.Store(c)
			time.Sleep(time.Duration(x.delay) * time.Microsecond)
			if x.reject {
				return errors.New("no")
			}
			atomic.StoreInt32(&x.ret, 1)
			return nil
		}
		s.OnDisconnect = func(c *neffos.Conn) { atomic.StoreInt32(&of(c).gone, 1) }
	})
	rejected := 0
	w.Go(n, "native clients", func(i int) {
		s := sts[i]
		cli, _, err := rig.TryDial(fmt.Sprintf("n%d", i), neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error { return nil }}, nil)
		if err != nil {
			w.Check(s.reject, "dial: %v", err)
			return
		}
		k := 1 + i
		c, err := cli.Connect(w.Ctx(), "")
		if err != nil || c == nil {
			w.Violate("connect of a native client: %v", err)
		}
		for j := 0; j < k; j++ {
			ok := c.Conn.Write(neffos.Message{Body: []byte("x"), IsNative: true})
			w.Check(ok || s.reject, "write failed")
		}
		if s.reject {
			w.Chan(cli.NotifyClose, "the termination of a rejected native client")
			w.Await(func() bool { c := s.sconn.Load(); return c != nil && c.IsClosed() }, "the server side of a rejected native client")
			return
		}
		w.Await(func() bool { return atomic.LoadInt64(&s.got) == int64(k) }, "the native messages")
		cli.Close()
		w.Await(func() bool { return atomic.LoadInt32(&s.gone) > 0 }, "OnDisconnect")
	})
	w.Await(func() bool { return rig.Srv.GetTotalConnections() == 0 }, "all to be gone")
	rig.Srv.Do(func(*neffos.Conn) {}, false)
	for _, s := range sts {
		if s.reject {
			rejected++
			w.Check(atomic.LoadInt32(&s.gone) == 0, "OnDisconnect fired for a rejected native connection")
		}
	}
	w.Sample("transport %s: %d native clients, %d rejected", kind, n, rejected)
	w.Sign(fmt.Sprint(kind, n, rejected, sts[0].delay))
	w.Stat("native", int64(n))
	w.Nontrivial()
	w.Call(rig.Close, "close")
}
