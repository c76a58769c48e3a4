package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C21", Quick: 3000, Thorough: 20000, Run: func(w *W) {
		switch w.Case % 6 {
		case 4:
			c21Asks(w)
		case 5:
			c21Init(w)
		default:
			c21Main(w)
		}
	},
		Rule: "a case is a server with 1-3 recording exchanges (optionally with initialization, connect errors, slow connects) and 2-6 connections over 5 transports which connect, disconnect (both sides, sometimes refused) and broadcast concurrently and end in various ways, some during the exchange's connect; the trace of every exchange and connection is run through the contract's automaton and compared with the callbacks and broadcasts of the application. Non-trivial: at least 3 subscriptions and 2 publishes were seen. Distinct: by the hash of the traces. The server's own disconnect callback may fail, and relayed messages are published as given"})
}

// excTrace is what the exchanges and the application's callbacks did, in one order.
type excTrace struct {
	w  *W
	mu sync.Mutex
	by map[*neffos.Conn][]string
}

func (t *excTrace) add(c *neffos.Conn, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	t.mu.Lock()
	t.by[c] = append(t.by[c], s)
	t.mu.Unlock()
	t.w.Event()
	t.w.Log("%s: %s", c.ID(), s)
}

func (t *excTrace) of(c *neffos.Conn) []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string(nil), t.by[c]...)
}

// recExc is a recording exchange.
type recExc struct {
	n         int
	t         *excTrace
	onConnect func(c *neffos.Conn) error
	ask       func(ctx context.Context, m neffos.Message, token string) (neffos.Message, error)
	notify    func(m neffos.Message, token string) error
	mu        sync.Mutex
	published [][]neffos.Message
	publishOK bool
}

func (e *recExc) OnConnect(c *neffos.Conn) error {
	e.t.add(c, "%d connect", e.n)
	var err error
	if e.onConnect != nil {
		err = e.onConnect(c)
	}
	e.t.add(c, "%d connect end %v", e.n, err)
	return err
}
func (e *recExc) OnDisconnect(c *neffos.Conn) { e.t.add(c, "%d disconnect", e.n) }
func (e *recExc) Publish(msgs []neffos.Message) bool {
	for _, m := range msgs {
		m.Serialize() // as every exchange that sends them somewhere does.
	}
	e.mu.Lock()
	e.published = append(e.published, append([]neffos.Message(nil), msgs...))
	e.mu.Unlock()
	e.t.w.Event()
	return e.publishOK
}
func (e *recExc) Subscribe(c *neffos.Conn, ns string) {
	e.t.add(c, "%d subscribe %s", e.n, ns)
}
func (e *recExc) Unsubscribe(c *neffos.Conn, ns string) {
	e.t.add(c, "%d unsubscribe %s", e.n, ns)
}
func (e *recExc) Ask(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
	return e.ask(ctx, m, token)
}
func (e *recExc) NotifyAsk(m neffos.Message, token string) error { return e.notify(m, token) }

type initExc struct {
	*recExc
	inits []neffos.Namespaces
	err   error
}

func (e *initExc) Init(nss neffos.Namespaces) error {
	e.inits = append(e.inits, nss)
	return e.err
}

type msgKey struct {
	ns, room, event, body, to string
	binary, native            bool
}

func keyOf(m neffos.Message) msgKey {
	return msgKey{m.Namespace, m.Room, m.Event, string(m.Body), m.To, m.SetBinary, m.IsNative}
}

func c21Main(w *W) {
	r := w.R
	kind := pick(r, transports)
	nexc := 1 + r.Intn(3)
	tr := &excTrace{w: w, by: map[*neffos.Conn][]string{}}
	var excs []*recExc
	type cl struct {
		id       string
		reject   int // 1..nexc: that exchange refuses, -1: the server's OnConnect
		cut      bool
		cli      *neffos.Client
		link     *Link
		ccon     *neffos.Conn
		sconn    *neffos.Conn
		wantSub  int
		wantUn   int
		sRefuse  sync.Map // namespace -> event which the server refuses
		inside   chan struct{}
		released chan struct{}
	}
	clis := map[string]*cl{}
	nss := []string{"", "a", "b;c"}
	sh, ch := neffos.Namespaces{}, neffos.Namespaces{"fence": neffos.Events{}}
	refusal := errors.New("refused")
	for _, ns := range nss {
		sh[ns] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
			x := clis[c.Conn.ID()]
			switch m.Event {
			case neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect:
				v, ok := x.sRefuse.Load(m.Namespace)
				if ok = ok && v == m.Event; ok && !(m.IsLocal && m.Event == neffos.OnNamespaceDisconnect) {
					return refusal
				}
				if m.Event == neffos.OnNamespaceDisconnect {
					what := "asked"
					if m.IsForced {
						what = "forced"
					}
					tr.add(c.Conn, "app disconnect %s %s", m.Namespace, what)
				}
				if ok { // its own disconnection, which happened already.
					return refusal
				}
			case neffos.OnNamespaceConnected:
				tr.add(c.Conn, "app connected %s", m.Namespace)
			case "bc":
				c.Conn.Server().Broadcast(c, neffos.Message{Namespace: m.Namespace, Event: "x", Body: m.Body})
			case "relay": // an asked message, as it came, to the others.
				c.Conn.Server().Broadcast(c, m)
				return neffos.Reply([]byte("relayed"))
			}
			return nil
		}}
		ch[ns] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
			w.Check(neffos.IsSystemEvent(m.Event) || m.Event == "f", "the server delivered %s by itself", m.Event)
			return nil
		}}
	}
	sh["fence"] = neffos.Events{"f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) }}
	for i := 0; i < nexc; i++ {
		i := i
		e := &recExc{n: i, t: tr, publishOK: chance(r, 80)}
		rr := w.Rand()
		var rmu sync.Mutex
		e.onConnect = func(c *neffos.Conn) error {
			x := clis[c.ID()]
			if x.cut && i == 0 {
				close(x.inside)
				<-x.released
			}
			rmu.Lock()
			d := rr.Intn(600)
			rmu.Unlock()
			time.Sleep(time.Duration(d) * time.Microsecond)
			if x.reject == i+1 {
				return fmt.Errorf("exchange %d refuses %s", i, x.id)
			}
			return nil
		}
		excs = append(excs, e)
	}
	var dis sync.Map // conn -> OnDisconnect fired
	always, noCallback := chance(r, 50), chance(r, 15)
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			x := clis[c.ID()]
			x.sconn = c
			tr.add(c, "app onconnect")
			if x.reject == -1 {
				return errors.New("server refuses " + x.id)
			}
			return nil
		}
		if !noCallback {
			s.OnDisconnect = func(c *neffos.Conn) { dis.Store(c, true) }
		}
		s.FireDisconnectAlways = always
		s.SyncBroadcaster = chance(r, 20)
		for _, e := range excs {
			if err := s.UseStackExchange(e); err != nil {
				w.Violate("UseStackExchange: %v", err)
			}
		}
	})
	var connMu sync.Mutex
	conns := map[string]*neffos.Conn{} // by ID
	for _, e := range excs[:1] {
		old := e.onConnect
		e.onConnect = func(c *neffos.Conn) error {
			connMu.Lock()
			conns[c.ID()] = c
			connMu.Unlock()
			return old(c)
		}
	}
	n := 2 + r.Intn(5)
	var list []*cl
	for i := 0; i < n; i++ {
		x := &cl{id: fmt.Sprintf("k%d", i), inside: make(chan struct{}), released: make(chan struct{})}
		switch {
		case chance(r, 15):
			x.reject = pick(r, []int{-1, 1, nexc})
		case chance(r, 20):
			x.cut = true
		}
		clis[x.id] = x
		list = append(list, x)
	}
	var bmu sync.Mutex
	var broadcasts [][]msgKey
	excluded := map[string]bool{} // the first body of broadcasts with a sender mark
	bseq := int64(0)
	bcast := func(x *cl, rr *randT) {
		k := 1 + rr.Intn(3)
		var msgs []neffos.Message
		var keys []msgKey
		for i := 0; i < k; i++ {
			m := neffos.Message{Namespace: pick(rr, nss), Room: pick(rr, []string{"", "r"}), Event: field(rr, 3), To: pick(rr, []string{"", "", "k0", "k1"}), SetBinary: chance(rr, 20)}
			m.Body = []byte(fmt.Sprintf("%d %s", atomic.AddInt64(&bseq, 1), textBody(rr, rr.Intn(20))))
			msgs = append(msgs, m)
			keys = append(keys, keyOf(m))
		}
		var except fmt.Stringer
		switch rr.Intn(5) {
		case 0:
			except = x.sconn
		case 1:
			if ns := x.sconn.Namespace("a"); ns != nil {
				except = ns
			}
		case 2:
			except = neffos.Exclude("k1")
		}
		given := append([]neffos.Message(nil), msgs...)
		bmu.Lock()
		broadcasts = append(broadcasts, keys)
		if except != nil {
			excluded[keys[0].body] = true
		}
		bmu.Unlock()
		w.Call(func() { rig.Srv.Broadcast(except, msgs...) }, "broadcast")
		for i := range msgs {
			w.Check(keyOf(msgs[i]) == keyOf(given[i]) && msgs[i].FromExplicit == "", "Broadcast modified its caller's message")
		}
	}
	var wg sync.WaitGroup
	for _, x := range list {
		x := x
		rr := w.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if x.cut { // lost while the exchange connects.
				link := &Link{}
				done := make(chan error, 1)
				ready := make(chan struct{})
				go func() {
					c, err := neffos.Dial(context.Background(), func(ctx context.Context, u string) (neffos.Socket, error) {
						s, err := rig.Dialer(link, nil)(ctx, u)
						close(ready)
						return s, err
					}, rig.dialURL(x.id, ""), ch)
					if err == nil {
						c.Close()
					}
					done <- err
				}()
				w.Chan(x.inside, "the exchange's connect")
				w.Chan(ready, "the dial")
				link.Cut()
				if chance(rr, 50) {
					time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
				}
				close(x.released)
				w.Call(func() { <-done }, "the dial of a lost connection")
				return
			}
			c, link, err := rig.TryDial(x.id, ch, nil)
			if x.reject != 0 {
				want := "server refuses " + x.id
				if x.reject > 0 {
					want = fmt.Sprintf("exchange %d refuses %s", x.reject-1, x.id)
				}
				w.Check(err != nil && err.Error() == want, "the dial of %s returned %v, expected %q", x.id, err, want)
				return
			}
			w.Check(err == nil, "dial of %s failed: %v", x.id, err)
			x.cli, x.link = c, link
			fence := rig.Connect(c, "fence")
			x.ccon = fence.Conn
			x.wantSub++ // the fence.
			w.Call(func() { fence.Ask(w.Ctx(), "f", nil) }, "fence")
			for k := 0; k < 4+rr.Intn(8); k++ {
				ns := pick(rr, nss)
				server := chance(rr, 40)
				conn := x.ccon
				if server {
					conn = x.sconn
				}
				refused := chance(rr, 20)
				switch y := rr.Intn(10); {
				case y < 5:
					was := x.sconn.Namespace(ns) != nil
					if refused && !was {
						x.sRefuse.Store(ns, neffos.OnNamespaceConnect)
					}
					var err error
					var nsc *neffos.NSConn
					w.Call(func() { nsc, err = conn.Connect(w.Ctx(), ns) }, "connect %q", ns)
					x.sRefuse.Delete(ns)
					if refused && !was {
						w.Check(err != nil, "a refused connect succeeded")
						break
					}
					w.Check(err == nil && nsc != nil, "connect failed: %v", err)
					if !was {
						x.wantSub++
					}
					w.Await(func() bool { return x.sconn.Namespace(ns) != nil && x.ccon.Namespace(ns) != nil }, "both sides of %q", ns)
					// the connected callback (of the reader) has ended.
					w.Call(func() { _, err = fence.Ask(w.Ctx(), "f", nil) }, "fence")
				case y < 8:
					nsc := conn.Namespace(ns)
					if nsc == nil {
						break
					}
					if refused {
						x.sRefuse.Store(ns, neffos.OnNamespaceDisconnect)
					}
					var err error
					w.Call(func() { err = nsc.Disconnect(w.Ctx()) }, "disconnect %q", ns)
					x.sRefuse.Delete(ns)
					if refused && server && x.sconn.Namespace(ns) == nil { // what the own callback returns does not matter.
						err = nil
					}
					if refused && !server {
						w.Check(err != nil, "a refused disconnect succeeded")
						break
					}
					w.Check(err == nil, "disconnect failed: %v", err)
					x.wantUn++
				default:
					bcast(x, rr)
				}
			}
			if chance(rr, 50) {
				if ns := x.ccon.Namespace("a"); ns != nil {
					body := fmt.Sprintf("%d bc", atomic.AddInt64(&bseq, 1))
					bmu.Lock()
					broadcasts = append(broadcasts, []msgKey{{ns: "a", event: "x", body: body}})
					excluded[body] = true
					bmu.Unlock()
					if chance(rr, 50) {
						bmu.Lock()
						broadcasts[len(broadcasts)-1][0].event = "relay"
						bmu.Unlock()
						w.Call(func() {
							res, err := ns.Ask(w.Ctx(), "relay", []byte(body))
							w.Check(err == nil && string(res.Body) == "relayed", "ask of %s: %q %v", x.id, res.Body, err)
						}, "ask that is relayed")
					} else {
						w.Check(ns.Emit("bc", []byte(body)), "emit failed")
					}
					w.Call(func() { fence.Ask(w.Ctx(), "f", nil) }, "fence")
				}
			}
			switch rr.Intn(4) {
			case 0:
				c.Close()
			case 1:
				x.sconn.Close()
			case 2:
				link.Cut()
			default: // by the server.
			}
		}()
	}
	w.Join(&wg, "clients")
	w.Call(rig.Close, "server close")
	// every connection that an exchange has seen ends with its disconnect.
	w.Await(func() bool {
		connMu.Lock()
		defer connMu.Unlock()
		for _, c := range conns {
			if _, ok := dis.Load(c); !ok && always && !noCallback {
				return false
			}
			for i := range excs {
				if !contains(tr.of(c), fmt.Sprintf("%d disconnect", i)) {
					return false
				}
			}
		}
		return len(conns) == n
	}, "the disconnect of all connections at all exchanges")
	// a second disconnect would be handled by the server's loop, which answers this after it.
	w.Call(func() { rig.Srv.Do(func(*neffos.Conn) {}, false) }, "the server's loop")
	subs, uns := 0, 0
	for _, x := range list {
		c := conns[x.id]
		t := tr.of(c)
		w.Sign(strings.Join(t, "|"))
		for i := 0; i < nexc; i++ {
			if x.reject > 0 && i >= x.reject {
				continue // not connected because a previous one refused.
			}
			state := 0 // 0 new, 1 connecting, 2 connected, 3 disconnected
			open := map[string]bool{}
			nsub, nun := 0, 0
			pend := map[string]bool{} // subscribed but the application was not notified yet.
			for k, ev := range t {
				p := fmt.Sprintf("%d ", i)
				if strings.HasPrefix(ev, "app connected ") {
					ns := ev[len("app connected "):]
					w.Check(open[ns] && pend[ns], "connected callback of %q before its subscribe at exchange %d: %v", ns, i, t[:k+1])
					delete(pend, ns)
					continue
				}
				if ev == "app onconnect" {
					w.Check(x.reject <= 0, "the server's OnConnect for a connection that an exchange refused: %v", t[:k+1])
					w.Check(state == 2 || state == 3, "the server's OnConnect before the exchange %d is connected: %v", i, t[:k+1])
					continue
				}
				if !strings.HasPrefix(ev, p) {
					continue
				}
				ev = ev[len(p):]
				switch {
				case ev == "connect":
					w.Check(state == 0, "exchange %d: connect of %s in state %d: %v", i, x.id, state, t[:k+1])
					state = 1
				case strings.HasPrefix(ev, "connect end"):
					w.Check(state == 1, "exchange %d: the connect of %s ended in state %d (a disconnect came before): %v", i, x.id, state, t[:k+1])
					state = 2
				case strings.HasPrefix(ev, "subscribe "):
					ns := ev[len("subscribe "):]
					w.Check(state == 2 && !open[ns], "exchange %d: subscribe of %s to %q in state %d, open %v: %v", i, x.id, ns, state, open[ns], t[:k+1])
					open[ns], pend[ns] = true, true
					if ns == "fence" {
						delete(pend, ns)
					}
					nsub++
				case strings.HasPrefix(ev, "unsubscribe "):
					ns := ev[len("unsubscribe "):]
					w.Check(state == 2 && open[ns], "exchange %d: unsubscribe of %s from %q in state %d, open %v: %v", i, x.id, ns, state, open[ns], t[:k+1])
					delete(open, ns)
					nun++
				case ev == "disconnect":
					w.Check(state == 2, "exchange %d: disconnect of %s in state %d: %v", i, x.id, state, t[:k+1])
					state = 3
				}
			}
			w.Check(state == 3, "exchange %d: %s is left in state %d: %v", i, x.id, state, t)
			w.Check(len(pend) == 0, "exchange %d: subscribe without a connected callback: %v", i, t)
			w.Check(nsub == x.wantSub && nun == x.wantUn, "exchange %d: %d subscribes and %d unsubscribes of %s, expected %d and %d: %v", i, nsub, nun, x.id, x.wantSub, x.wantUn, t)
			subs += nsub
			uns += nun
		}
	}
	for i, e := range excs {
		e.mu.Lock()
		var got, want []string
		for _, p := range e.published {
			var ks []msgKey
			for _, m := range p {
				ks = append(ks, keyOf(m))
			}
			got = append(got, fmt.Sprintf("%+v", ks))
			if !excluded[ks[0].body] {
				w.Check(p[0].FromExplicit == "", "exchange %d: a message without sender is marked with one", i)
			}
		}
		e.mu.Unlock()
		for _, k := range broadcasts {
			want = append(want, fmt.Sprintf("%+v", k))
		}
		sort.Strings(got)
		sort.Strings(want)
		w.Check(fmt.Sprint(got) == fmt.Sprint(want), "exchange %d published %v, expected %v", i, got, want)
	}
	w.Stat("subscribes", int64(subs))
	w.Stat("unsubscribes", int64(uns))
	w.Stat("publishes", int64(len(broadcasts)))
	w.Stat("exchanges", int64(nexc))
	w.Sample("%s, %d exchanges, %d connections, %d subscribes, %d unsubscribes, %d broadcasts", kind, nexc, n, subs, uns, len(broadcasts))
	if subs >= 3 && len(broadcasts) >= 2 {
		w.Nontrivial()
	}
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// c21Init: initialization errors and the namespaces given to it.
func c21Init(w *W) {
	r := w.R
	nss := neffos.Namespaces{"a": neffos.Events{}, "": neffos.Events{}}
	tr := &excTrace{w: w, by: map[*neffos.Conn][]string{}}
	type ie struct {
		e  neffos.StackExchange
		r  *recExc
		i  *initExc
		ok bool
	}
	var all []ie
	seq := 0
	rig := NewRig(w, "mem", nss, func(s *neffos.Server) {
		if chance(r, 20) {
			w.Check(s.UseStackExchange(nil) == nil, "a nil exchange is not ignored")
			w.Check(s.StackExchange == nil, "a nil exchange was registered")
		}
		for i := 0; i < 1+r.Intn(4); i++ {
			x := &recExc{n: seq, t: tr, publishOK: true}
			seq++
			switch r.Intn(3) {
			case 0:
				w.Check(s.UseStackExchange(x) == nil, "an exchange without initialization was refused")
				all = append(all, ie{x, x, nil, true})
			case 1:
				in := &initExc{recExc: x}
				w.Check(s.UseStackExchange(in) == nil, "an exchange was refused")
				all = append(all, ie{in, x, in, true})
			default:
				in := &initExc{recExc: x, err: fmt.Errorf("init %d", i)}
				err := s.UseStackExchange(in)
				w.Check(err == in.err, "the error of Init is %v, returned %v", in.err, err)
				all = append(all, ie{in, x, in, false})
			}
		}
	})
	used := 0
	for _, x := range all {
		if x.i != nil {
			w.Check(len(x.i.inits) == 1 && len(x.i.inits[0]) == len(nss), "Init was called %d times", len(x.i.inits))
			for ns := range nss {
				_, ok := x.i.inits[0][ns]
				w.Check(ok, "Init did not get namespace %q", ns)
			}
		}
		if x.ok {
			used++
		}
	}
	w.Check((rig.Srv.StackExchange != nil) == (used > 0), "%d exchanges are usable, the server has %v", used, rig.Srv.StackExchange)
	c, _ := rig.Dial("x", neffos.Namespaces{"a": neffos.Events{}, "": neffos.Events{}})
	n := rig.Connect(c, "a")
	w.Call(func() { n.Disconnect(w.Ctx()) }, "disconnect")
	rig.Connect(c, "")
	rig.Srv.Broadcast(nil, neffos.Message{Namespace: "a", Event: "e", Body: []byte("1")})
	c.Close()
	full := func(x ie) bool {
		tr.mu.Lock()
		defer tr.mu.Unlock()
		for _, t := range tr.by {
			if contains(t, fmt.Sprintf("%d disconnect", x.r.n)) {
				return true
			}
		}
		return false
	}
	for _, x := range all {
		if x.ok {
			x := x
			w.Await(func() bool { return full(x) }, "the disconnect at exchange %d", x.r.n)
			w.Check(len(x.r.published) == 1, "exchange %d published %d times", x.r.n, len(x.r.published))
		}
	}
	w.Await(func() bool { return rig.Srv.GetTotalConnections() == 0 }, "the end of the connection")
	w.Call(rig.Close, "server close")
	tr.mu.Lock()
	for _, t := range tr.by {
		for _, ev := range t {
			for _, x := range all {
				if !x.ok {
					w.Check(!strings.HasPrefix(ev, fmt.Sprintf("%d ", x.r.n)), "an exchange whose Init failed was used: %v", t)
				}
			}
		}
		for _, x := range all {
			if x.ok {
				var mine []string
				for _, ev := range t {
					if strings.HasPrefix(ev, fmt.Sprintf("%d ", x.r.n)) {
						mine = append(mine, ev[strings.IndexByte(ev, ' ')+1:])
					}
				}
				want := []string{"connect", "connect end <nil>", "subscribe a", "unsubscribe a", "subscribe ", "disconnect"}
				w.Check(fmt.Sprint(mine) == fmt.Sprint(want), "exchange %d saw %q, expected %q", x.r.n, mine, want)
			}
		}
	}
	tr.mu.Unlock()
	for _, x := range all {
		if !x.ok {
			w.Check(len(x.r.published) == 0, "an exchange whose Init failed has published")
		}
	}
	w.Stat("init", int64(len(all)))
	w.Sign(fmt.Sprint(len(all), used, w.Case%50))
	w.Sample("%d exchanges registered, %d usable", len(all), used)
	if used > 0 && used < len(all) {
		w.Nontrivial()
	}
}

// c21Asks: the server's Ask goes through the exchange, the reply of a client back through NotifyAsk.
func c21Asks(w *W) {
	r := w.R
	kind := pick(r, transports)
	nexc := 1 + r.Intn(2)
	tr := &excTrace{w: w, by: map[*neffos.Conn][]string{}}
	failFirst := nexc == 2 && chance(r, 50)
	notifyFail := nexc == 2 && chance(r, 50)
	var mu sync.Mutex
	waiting := map[string]chan neffos.Message{}
	var rig *Rig
	var sconns []*neffos.Conn
	notified := map[string]int{}
	var excs []*recExc
	for i := 0; i < nexc; i++ {
		i := i
		e := &recExc{n: i, t: tr, publishOK: true}
		e.ask = func(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
			w.Event()
			w.Check(token != "", "an ask without a token")
			if failFirst && i == 0 {
				return neffos.Message{}, errors.New("not this one")
			}
			w.Check(i == 0 || failFirst, "the second exchange was asked although the first one answered")
			ch := make(chan neffos.Message, 16)
			mu.Lock()
			_, dup := waiting[token]
			waiting[token] = ch
			cs := append([]*neffos.Conn(nil), sconns...)
			mu.Unlock()
			w.Check(!dup, "token %q was used twice", token)
			b := m.Serialize() // travels by bytes.
			for _, c := range cs {
				if m.To != "" && m.To != c.ID() {
					continue
				}
				in := c.DeserializeMessage(neffos.TextMessage, b)
				in.FromStackExchange = true
				c.Write(in)
			}
			select {
			case x := <-ch:
				return x, x.Err
			case <-ctx.Done():
				return neffos.Message{}, ctx.Err()
			}
		}
		e.notify = func(m neffos.Message, token string) error {
			w.Event()
			if notifyFail && i == 0 {
				return errors.New("not this one")
			}
			w.Check(i == 0 || notifyFail, "the second exchange was notified although the first one did it")
			mu.Lock()
			ch := waiting[token]
			notified[token]++
			mu.Unlock()
			if ch == nil {
				w.Violate("NotifyAsk with an unknown token %q", token)
			}
			m.ClearWait()
			out := neffos.DeserializeMessage(neffos.TextMessage, m.Serialize(), false, false)
			select {
			case ch <- out:
			default:
			}
			return nil
		}
		excs = append(excs, e)
	}
	sh := neffos.Namespaces{"a": neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
		w.Check(neffos.IsSystemEvent(m.Event), "a reply fired a callback: %s %q", m.Event, m.Body)
		return nil
	}}}
	rig = NewRig(w, kind, sh, func(s *neffos.Server) {
		for _, e := range excs {
			s.UseStackExchange(e)
		}
		s.OnConnect = func(c *neffos.Conn) error {
			mu.Lock()
			sconns = append(sconns, c)
			mu.Unlock()
			return nil
		}
	})
	ncli := 1 + r.Intn(3)
	for i := 0; i < ncli; i++ {
		i := i
		c, _ := rig.Dial(fmt.Sprintf("k%d", i), neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error {
			if bytes.HasSuffix(m.Body, []byte("err")) {
				return fmt.Errorf("k%d %s", i, m.Body)
			}
			return neffos.Reply([]byte(fmt.Sprintf("k%d %s", i, m.Body)))
		}}})
		rig.Connect(c, "a")
	}
	w.Await(func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(sconns) == ncli
	}, "connections")
	asks := int64(0)
	rs := make([]*randT, 4)
	for i := range rs {
		rs[i] = w.Rand()
	}
	w.Go(1+r.Intn(4), "askers", func(g int) {
		rr := rs[g]
		for k := 0; k < 3+rr.Intn(6); k++ {
			to := rr.Intn(ncli)
			body := fmt.Sprintf("%d.%d", g, k)
			fail := nexc == 1 && chance(rr, 30) // several exchanges are tried until one has no error.
			if fail {
				body += " err"
			}
			m := neffos.Message{Namespace: "a", Event: "q", Body: []byte(body)}
			addressed := chance(rr, 70)
			if addressed {
				m.To = fmt.Sprintf("k%d", to)
			}
			var rep neffos.Message
			var err error
			w.Call(func() { rep, err = rig.Srv.Ask(w.Ctx(), m) }, "server ask")
			got := string(rep.Body)
			if fail {
				w.Check(err != nil, "the error of an asked connection was lost")
				got = err.Error()
			} else {
				w.Check(err == nil, "an ask failed: %v", err)
			}
			w.Check(strings.HasSuffix(got, " "+body) && (!addressed || got == fmt.Sprintf("k%d %s", to, body)), "an ask of %q to %q was answered with %q", body, m.To, got)
			atomic.AddInt64(&asks, 1)
		}
	})
	w.Stat("asks", asks)
	w.Sign(fmt.Sprint(kind, ncli, nexc, asks, failFirst, notifyFail))
	w.Sample("%s: %d asks to %d connections through %d exchanges (first fails: %v, %v)", kind, asks, ncli, nexc, failFirst, notifyFail)
	w.Nontrivial()
	w.Call(rig.Close, "server close")
}
