package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C19", Quick: 900, Thorough: 7000, Run: c19,
		Rule: "a case is 1-3 servers that share an in-process Redis or NATS stand-in (with delivery jitter), 2-7 clients on them over 5 transports with random memberships (the empty namespace too, equal IDs, rooms with any name), 1-3 phases of concurrent broadcasters on all servers (goroutines and callbacks; room, To, excluded Conn/NSConn/ID), between them connects, disconnects, joins, leaves, closes and dials, besides connections that are rejected or lost while they are admitted; a membership model gives the exact set of receivers, and the broker's table of subscriptions is compared with the live memberships. Non-trivial: at least 10 deliveries and one server-to-server delivery (when there are more than one servers). Distinct: by the hash of the receive orders. The exchanges are configured in any of the supported ways (password, pool size, dial timeouts, several addresses of which some do not answer, 'With'), subscriptions may lag, the NATS broker may go away and come back while connections end (their subscriptions must not come back), and a server with another channel prefix shares the broker in 30 % of the cases and must see only its own broadcasts"})
	register(&Prop{ID: "C20", Quick: 900, Thorough: 6000, Run: c20,
		Rule: "a case is 1-3 servers that share an in-process Redis or NATS stand-in, 2-6 clients, 2-6 concurrent askers with 3-10 asks each from any server (goroutines and callbacks) addressed to an ID or a namespace, answered with replies, errors, late, twice, or never, with contexts that end, and connections that leave meanwhile; every result is checked against the answers of the permitted responders, and the broker's table must be free of the asks' subscriptions at the end. Non-trivial: at least 5 asks were answered. Distinct: by the hash of the results. Asks may be addressed to rooms, and the number of the broker's connections must return to what it was"})
}

type xmember struct {
	key   string // unique
	id    string
	srv   int
	cli   *neffos.Client
	link  *Link
	ns    map[string]*neffos.NSConn
	rooms map[string]map[string]bool
	gone  bool

	mu   sync.Mutex
	got  []string
	seen map[string]int
	cmu  sync.Mutex
	conn *neffos.Conn // the server's
}

// xworld is a set of servers that share a broker.
type xworld struct {
	w      *W
	b      *broker
	rigs   []*Rig
	nss    []string
	extra  int // subscriptions of others
	mem    []*xmember
	seq    int
	do     sync.Map // trigger -> func(*neffos.NSConn)
	mu     sync.Mutex
	byKey  map[string]*neffos.Conn // server connections by the key of the dial
	ready  map[string]bool         // key|ns: its Connected callback fired on the server
	client func(m *xmember) neffos.ConnHandler
}

func newXworld(w *W, kind string, nsrv int, set ...func(*broker)) *xworld {
	r := w.R
	x := &xworld{w: w, b: newBroker(w, kind, chance(r, 50)), nss: []string{"", "a", "b.c", "A", "b"}, byKey: map[string]*neffos.Conn{}, ready: map[string]bool{}}
	for _, f := range set {
		f(x.b)
	}
	key := func(c *neffos.Conn) string { return c.Socket().Request().URL.Query().Get("key") }
	for i := 0; i < nsrv; i++ {
		events := neffos.Events{
			neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
				x.mu.Lock()
				x.ready[key(c.Conn)+"|"+m.Namespace] = true
				x.mu.Unlock()
				return nil
			},
			neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
				x.mu.Lock()
				delete(x.ready, key(c.Conn)+"|"+m.Namespace)
				x.mu.Unlock()
				return nil
			},
			"do": func(c *neffos.NSConn, m neffos.Message) error {
				if f, ok := x.do.Load(string(m.Body)); ok {
					f.(func(*neffos.NSConn))(c)
				}
				return nil
			},
		}
		h := neffos.Namespaces{}
		for _, ns := range x.nss {
			h[ns] = events
		}
		tr := "mem"
		if chance(r, 30) {
			tr = pick(r, tcpTransports)
		}
		rig := NewRig(w, tr, h, func(s *neffos.Server) {
			s.OnConnect = func(c *neffos.Conn) error {
				if strings.HasPrefix(c.ID(), "reject") {
					return errors.New("rejected")
				}
				x.mu.Lock()
				x.byKey[key(c)] = c
				x.mu.Unlock()
				return nil
			}
		})
		if err := rig.Srv.UseStackExchange(x.b.exchange()); err != nil {
			w.Violate("UseStackExchange: %v", err)
		}
		x.rigs = append(x.rigs, rig)
	}
	return x
}

func (x *xworld) kinds() string {
	var k []string
	for _, r := range x.rigs {
		k = append(k, r.Kind)
	}
	return x.b.kind + " " + strings.Join(k, ",")
}

// dial adds a member.
func (x *xworld) dial(srv int, id string) *xmember {
	x.seq++
	m := &xmember{key: fmt.Sprint("k", x.seq), id: id, srv: srv, ns: map[string]*neffos.NSConn{}, rooms: map[string]map[string]bool{}, seen: map[string]int{}, link: &Link{}}
	rig := x.rigs[srv]
	var err error
	x.w.Call(func() {
		m.cli, err = neffos.Dial(context.Background(), rig.Dialer(m.link, nil), rig.dialURL(id, "key="+m.key), x.client(m))
	}, "dial %s", id)
	x.w.Check(err == nil, "dial of %s: %v", id, err)
	x.w.Await(func() bool { x.mu.Lock(); defer x.mu.Unlock(); m.conn = x.byKey[m.key]; return m.conn != nil }, "the server's connection of %s", id)
	x.mem = append(x.mem, m)
	return m
}

func (x *xworld) connect(m *xmember, ns string) {
	if m.ns[ns] != nil {
		return
	}
	m.ns[ns] = x.rigs[m.srv].Connect(m.cli, ns)
	m.rooms[ns] = map[string]bool{}
	x.w.Await(func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.ready[m.key+"|"+ns] }, "the server's connected callback of %s %s", m.id, ns)
}

func (x *xworld) join(m *xmember, ns, room string) {
	var err error
	x.w.Call(func() { _, err = m.ns[ns].JoinRoom(x.w.Ctx(), room) }, "join")
	x.w.Check(err == nil, "join: %v", err)
	m.rooms[ns][room] = true
}

func (x *xworld) disconnect(m *xmember, ns string) {
	var err error
	x.w.Call(func() {
		if x.w.R.Intn(2) == 0 {
			err = m.ns[ns].Disconnect(x.w.Ctx())
		} else {
			err = m.conn.Namespace(ns).Disconnect(x.w.Ctx())
		}
	}, "disconnect")
	x.w.Check(err == nil, "disconnect: %v", err)
	delete(m.ns, ns)
	delete(m.rooms, ns)
}

func (x *xworld) live() []*xmember {
	var l []*xmember
	for _, m := range x.mem {
		if !m.gone {
			l = append(l, m)
		}
	}
	return l
}

func (x *xworld) leave(m *xmember) {
	m.gone = true
	m.ns, m.rooms = map[string]*neffos.NSConn{}, map[string]map[string]bool{}
	switch x.w.R.Intn(3) {
	case 0:
		m.cli.Close()
	case 1:
		m.conn.Close()
	default:
		m.link.Cut()
	}
	x.w.Await(func() bool { return m.conn.IsClosed() }, "the end of %s", m.id)
}

// subs checks that no more subscriptions exist than the live connections need.
func (x *xworld) subs(what string) {
	n := x.extra
	for _, m := range x.live() {
		n += 1 + len(m.ns)
	}
	x.w.Await(func() bool { return len(x.b.table()) <= n }, "%s: the broker has at most %d subscriptions, it has %v", what, n, x.b.table())
	x.w.Check(true, "")
}

func (x *xworld) end() {
	for _, m := range x.live() {
		x.leave(m)
	}
	x.subs("at the end")
	x.w.Check(x.b.protocolError() == "", "protocol error at the broker: %s", x.b.protocolError())
	x.w.Stat("published", x.b.published)
	x.w.Stat("delivered_by_broker", x.b.delivered)
	for _, r := range x.rigs {
		x.w.Call(r.Close, "server close")
	}
	x.b.close()
}

// stranger is a server which shares the broker with another channel, whose client has an ID and the namespaces and rooms of the others.
// The returned function checks that it has its own broadcasts only.
func (x *xworld) stranger(prefix, id string, rooms []string) func() {
	w := x.w
	var got int32
	cb := func(c *neffos.NSConn, msg neffos.Message) error {
		if !neffos.IsSystemEvent(msg.Event) {
			w.Check(string(msg.Body) == "its own|", "the server with the channel %q received %q of the others", prefix, clip(string(msg.Body), 60))
			atomic.AddInt32(&got, 1)
		}
		return nil
	}
	h := HandlerAll(cb, x.nss...)
	rig := NewRig(w, "mem", HandlerAll(func(*neffos.NSConn, neffos.Message) error { return nil }, x.nss...))
	if err := rig.Srv.UseStackExchange(x.b.exchangeOf(prefix)); err != nil {
		w.Violate("UseStackExchange: %v", err)
	}
	cli, _, err := rig.TryDial(id, h, nil)
	w.Check(err == nil, "dial: %v", err)
	for _, ns := range x.nss {
		n := rig.Connect(cli, ns)
		for _, room := range rooms {
			w.Call(func() { _, err = n.JoinRoom(w.Ctx(), room) }, "join")
			w.Check(err == nil, "join: %v", err)
		}
	}
	x.extra += 1 + len(x.nss)
	w.Await(func() bool {
		n := 0
		for _, s := range x.b.table() {
			s = strings.TrimPrefix(s, "p:")
			// "neff" is not "neffos", whatever comes next.
			if rest := strings.TrimPrefix(s, prefix); s == prefix || rest != s && strings.IndexAny(rest[:1], "abcdefghijklmnopqrstuvwxyz0123456789") < 0 {
				n++
			}
		}
		return n >= x.extra
	}, "%d subscriptions of the server with the channel %q", x.extra, prefix)
	return func() {
		for _, to := range []string{"", id} {
			for _, ns := range x.nss {
				rig.Srv.Broadcast(nil, neffos.Message{Namespace: ns, Event: "e", To: to, Body: []byte("its own|")})
			}
		}
		w.Await(func() bool { return int(atomic.LoadInt32(&got)) >= 2*len(x.nss) }, "the own broadcasts of the server with the channel %q", prefix)
		w.Settle(2 * time.Millisecond)
		w.Check(int(atomic.LoadInt32(&got)) == 2*len(x.nss), "the server with the channel %q received %d of %d broadcasts", prefix, atomic.LoadInt32(&got), 2*len(x.nss))
		cli.Close()
		x.extra = 0
		w.Call(rig.Close, "server close")
	}
}

// c19Outage: connections end while the broker is away or refuses their subscription, their subscriptions must not come back.
func c19Outage(w *W) {
	r := w.R
	nsrv := 1 + r.Intn(2)
	x := newXworld(w, "nats", nsrv, func(b *broker) { b.reconnect = true; b.refuse = "refused" })
	x.client = func(m *xmember) neffos.ConnHandler {
		cb := func(c *neffos.NSConn, msg neffos.Message) error {
			w.Event()
			m.mu.Lock()
			m.seen[string(msg.Body)]++
			n := m.seen[string(msg.Body)]
			m.mu.Unlock()
			w.Check(n == 1, "%s received broadcast %q %d times", m.id, msg.Body, n)
			return nil
		}
		h := neffos.Namespaces{}
		for _, ns := range x.nss {
			h[ns] = neffos.Events{"e": cb}
		}
		return h
	}
	n := 2 + r.Intn(4)
	for i := 0; i < n; i++ {
		m := x.dial(r.Intn(nsrv), fmt.Sprint("id", i))
		for _, ns := range x.nss {
			if chance(r, 60) {
				x.connect(m, ns)
			}
		}
	}
	// how many connections subscribe to the same thing, whatever their names are.
	shape := func(names []string) string {
		k := map[string]int{}
		for _, n := range names {
			k[n]++
		}
		var l []int
		for _, c := range k {
			l = append(l, c)
		}
		sort.Ints(l)
		return fmt.Sprint(l)
	}
	same := func(what string) {
		want := []string{}
		for _, m := range x.live() {
			want = append(want, "id "+m.id)
			for ns := range m.ns {
				want = append(want, "namespace "+ns)
			}
		}
		sort.Strings(want)
		conns := nsrv + len(x.live())
		is := func() bool { return shape(x.b.table()) == shape(want) && x.b.count() == conns }
		w.Await(is, "%s: the broker to have the subscriptions %v on %d connections", what, want, conns)
		w.Settle(30 * time.Millisecond)
		w.Await(is, "%s: the broker to have the subscriptions %v on %d connections still, it has %v on %d", what, want, conns, x.b.table(), x.b.count())
		w.Check(true, "")
	}
	same("after the connects")
	refused := 0
	for i := r.Intn(3); i > 0; i-- {
		si := r.Intn(nsrv)
		_, _, err := x.rigs[si].TryDial("refused", neffos.Namespaces{"a": neffos.Events{}}, nil)
		w.Check(err != nil, "a connection whose subscription was refused is accepted")
		refused++
	}
	same("after refused ones")
	left := 0
	for rounds := 1 + r.Intn(2); rounds > 0; rounds-- {
		x.b.outage()
		w.Settle(time.Duration(r.Intn(20)) * time.Millisecond)
		for _, m := range x.live() {
			if len(x.live()) > 1 && chance(r, 50) {
				x.leave(m)
				left++
			}
		}
		w.Settle(time.Duration(10+r.Intn(10)) * time.Millisecond)
		x.b.back()
		same("after an outage")
	}
	for si, rig := range x.rigs {
		for _, ns := range x.nss {
			id := fmt.Sprint(si, ns)
			rig.Srv.Broadcast(nil, neffos.Message{Namespace: ns, Event: "e", Body: []byte(id)})
			for _, m := range x.live() {
				if m.ns[ns] != nil {
					w.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.seen[id] > 0 }, "%s: the broadcast %s after an outage", m.id, id)
				}
			}
		}
	}
	w.Sample("nats, %d servers, %d clients, %d of them left while the broker was away, %d refused", nsrv, n, left, refused)
	w.Sign(fmt.Sprint(nsrv, n, left, refused, x.b.table()))
	w.Stat("left_in_outage", int64(left))
	if left > 0 {
		w.Nontrivial()
	}
	x.end()
}

func c19(w *W) {
	if w.Case%15 == 7 {
		c19Outage(w)
		return
	}
	r := w.R
	x := newXworld(w, pick(r, []string{"redis", "nats"}), 1+r.Intn(3))
	var sent sync.Map // id -> neffos.Message
	x.client = func(m *xmember) neffos.ConnHandler {
		cb := func(c *neffos.NSConn, msg neffos.Message) error {
			if neffos.IsSystemEvent(msg.Event) {
				return nil
			}
			w.Event()
			p := strings.SplitN(string(msg.Body), "|", 2)
			if len(p) != 2 {
				w.Violate("%s received %+v", m.id, msg)
			}
			m.mu.Lock()
			m.got = append(m.got, p[0])
			m.seen[p[0]]++
			n := m.seen[p[0]]
			m.mu.Unlock()
			w.Check(n == 1, "%s received broadcast %s %d times", m.id, p[0], n)
			if v, ok := sent.Load(p[0]); ok {
				e := v.(neffos.Message)
				w.Check(msg.Namespace == e.Namespace && msg.Room == e.Room && msg.Event == e.Event, "broadcast %s to ns %q room %q event %q arrived as ns %q room %q event %q", p[0], e.Namespace, e.Room, e.Event, msg.Namespace, msg.Room, msg.Event)
				w.Check(string(msg.Body) == string(e.Body), "broadcast %s has another body, %d bytes, it was %d", p[0], len(msg.Body), len(e.Body))
			} else {
				w.Violate("%s received %q, nobody sent it", m.id, p[0])
			}
			w.Check(msg.Err == nil && !msg.IsNative, "broadcast %s arrived as %+v", p[0], msg)
			return nil
		}
		return HandlerAll(cb, x.nss...)
	}
	rooms := []string{"x", "y;y", "z z*", field(r, 4) + "r"}
	ids := []string{}
	dial := func() {
		id := fmt.Sprintf("id%d", len(x.mem))
		if chance(r, 10) {
			id = pick(r, x.nss[1:]) // equal to a namespace.
		}
		if len(ids) > 0 && chance(r, 20) {
			id = pick(r, ids)
		}
		ids = append(ids, id)
		m := x.dial(r.Intn(len(x.rigs)), id)
		for _, ns := range x.nss {
			if chance(r, 60) {
				x.connect(m, ns)
				for _, room := range rooms {
					if chance(r, 40) {
						x.join(m, ns, room)
					}
				}
			}
		}
	}
	for i := 0; i < 2+r.Intn(4); i++ {
		dial()
	}
	strange := func() {}
	if chance(r, 30) {
		strange = x.stranger(pick(r, []string{"neffos2", "neff", "n"}), pick(r, ids), rooms)
	}
	phases := 1 + r.Intn(3)
	cross, deliveries, notFor := 0, 0, 0
	for ph := 0; ph < phases; ph++ {
		gor := 1 + r.Intn(4)
		per := 3 + r.Intn(12)
		type exp struct {
			id   string
			who  map[*xmember]bool
			addr string
			g    int
		}
		var emu sync.Mutex
		var all []exp
		live := x.live()
		plan := make([]*rand.Rand, gor)
		for g := range plan {
			plan[g] = w.Rand()
		}
		// connections that come and go.
		stop := make(chan struct{})
		var churn sync.WaitGroup
		if chance(r, 50) {
			churn.Add(1)
			rc := w.Rand()
			go func() {
				defer churn.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						if i > 2 {
							return
						}
					default:
					}
					rig := pick(rc, x.rigs)
					p := dialRaw(w, rig, fmt.Sprint(pick(rc, []string{"reject", "hasty"}), i))
					if chance(rc, 70) {
						p.send([]byte("M"), false)
					}
					if chance(rc, 50) {
						p.send([]byte("$1;a;;_OnNamespaceConnect;0;0;"), false)
					}
					sleepy(rc, 3000)
					p.close()
				}
			}()
		}
		w.Go(gor, "the broadcasters", func(g int) {
			r := plan[g]
			si := r.Intn(len(x.rigs))
			srv := x.rigs[si].Srv
			var local []*xmember
			for _, m := range live {
				if m.srv == si {
					local = append(local, m)
				}
			}
			for k := 0; k < per; k++ {
				batch := 1
				if chance(r, 20) {
					batch = 2 + r.Intn(2)
				}
				var except fmt.Stringer
				var exm *xmember
				exID := ""
				switch {
				case chance(r, 25) && len(local) > 0:
					exm = pick(r, local)
					except = exm.conn
					if n := exm.conn.Namespace("a"); n != nil && chance(r, 50) {
						except = n
					}
				case chance(r, 20):
					exID = pick(r, append([]string{"ghost"}, ids...))
					except = neffos.Exclude(exID)
				}
				var msgs []neffos.Message
				var exps []exp
				for i := 0; i < batch; i++ {
					m := neffos.Message{Namespace: pick(r, x.nss), Event: "e" + field(r, 3)}
					if chance(r, 40) {
						m.Room = pick(r, rooms)
					}
					if chance(r, 25) {
						m.To = pick(r, append([]string{"ghost"}, ids...))
					}
					size := r.Intn(60)
					if chance(r, 5) {
						size = 70000
					}
					id := fmt.Sprintf("%d.%d.%d.%d~%d", ph, g, k, i, size)
					m.Body = []byte(id + "|" + strings.Repeat("x", size))
					sent.Store(id, neffos.Message{Namespace: m.Namespace, Room: m.Room, Event: m.Event, Body: append([]byte(nil), m.Body...)})
					who := map[*xmember]bool{}
					for _, t := range live {
						if t.ns[m.Namespace] == nil || m.Room != "" && !t.rooms[m.Namespace][m.Room] || m.To != "" && m.To != t.id || t == exm || exID != "" && t.id == exID {
							continue
						}
						who[t] = true
					}
					msgs = append(msgs, m)
					exps = append(exps, exp{id, who, m.Namespace + "|" + m.To, g})
				}
				emu.Lock()
				all = append(all, exps...)
				for _, e := range exps {
					for t := range e.who {
						if t.srv != si {
							cross++
						}
					}
					deliveries += len(e.who)
					notFor += len(live) - len(e.who)
				}
				emu.Unlock()
				// from here, or from inside of a callback.
				if m := pickNS(r, local); m != nil && chance(r, 25) {
					done := make(chan struct{})
					t := fmt.Sprint("t", ph, ".", g, ".", k)
					x.do.Store(t, func(*neffos.NSConn) { srv.Broadcast(except, msgs...); close(done) })
					w.Check(m.Emit("do", []byte(t)), "emit")
					w.Chan(done, "a broadcast inside of a callback")
				} else {
					w.Call(func() { srv.Broadcast(except, msgs...) }, "broadcast")
				}
			}
		})
		close(stop)
		w.Join(&churn, "the churn")
		// the expected ones arrive.
		for _, m := range live {
			for _, e := range all {
				if e.who[m] {
					w.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.seen[e.id] > 0 }, "%s (server %d): broadcast %s to %q", m.id, m.srv, e.id, e.addr)
				}
			}
		}
		// fences: one more by every server, by every address.
		for si, rig := range x.rigs {
			for _, ns := range x.nss {
				for i, to := range append([]string{""}, ids...) {
					if i > 0 && contains(ids[:i-1], to) {
						continue
					}
					id := fmt.Sprintf("end%d.%d.%s.%s~0", ph, si, ns, to)
					e := neffos.Message{Namespace: ns, To: to, Event: "end", Body: []byte(id + "|")}
					sent.Store(id, e)
					rig.Srv.Broadcast(nil, e)
					for _, m := range live {
						if m.ns[ns] != nil && (to == "" || m.id == to) {
							w.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.seen[id] > 0 }, "%s: the last broadcast %s", m.id, id)
						}
					}
				}
			}
		}
		for _, m := range live {
			m.mu.Lock()
			got := append([]string(nil), m.got...)
			m.mu.Unlock()
			pos := map[string]int{}
			for i, id := range got {
				pos[id] = i
			}
			last := map[string]int{}
			for _, e := range all {
				i, ok := pos[e.id]
				w.Check(ok == e.who[m], "%s (server %d) received broadcast %s: %v, expected %v (addressed to %q)", m.id, m.srv, e.id, ok, e.who[m], e.addr)
				if ok {
					k := fmt.Sprint(e.g, e.addr)
					if l, has := last[k]; has {
						w.Check(l < i, "%s received broadcast %s of a caller before an earlier one", m.id, e.id)
					}
					last[k] = i
				}
			}
			for _, id := range got {
				if strings.HasPrefix(id, fmt.Sprint(ph, ".")) {
					w.Sign(m.key + id)
				}
			}
		}
		x.subs("after a phase")
		// other memberships.
		for _, m := range live {
			switch r.Intn(6) {
			case 0:
				if chance(r, 50) {
					x.leave(m)
				}
			case 1:
				for _, ns := range x.nss {
					if m.ns[ns] != nil && chance(r, 50) {
						x.disconnect(m, ns)
						break
					}
				}
			case 2:
				x.connect(m, pick(r, x.nss))
			case 3:
				for _, ns := range x.nss {
					if m.ns[ns] != nil {
						room := pick(r, rooms)
						if m.rooms[ns][room] {
							w.Check(m.ns[ns].Room(room).Leave(w.Ctx()) == nil, "leave")
							delete(m.rooms[ns], room)
						} else {
							x.join(m, ns, room)
						}
					}
				}
			}
		}
		x.subs("after the changes")
		if chance(r, 40) {
			dial()
		}
	}
	w.Stat("deliveries", int64(deliveries))
	w.Stat("server_to_server", int64(cross))
	w.Stat("must_not", int64(notFor))
	w.Sample("%s, %d members, %d phases, %d deliveries (%d to another server), %d must not be", x.kinds(), len(x.mem), phases, deliveries, cross, notFor)
	if deliveries >= 10 && (len(x.rigs) == 1 || cross > 0) {
		w.Nontrivial()
	}
	strange()
	x.end()
}

// pickNS returns a namespace connection of some member, or nil.
func pickNS(r *randT, mem []*xmember) *neffos.NSConn {
	if len(mem) == 0 {
		return nil
	}
	m := pick(r, mem)
	var k []string
	for ns := range m.ns {
		k = append(k, ns)
	}
	if len(k) == 0 {
		return nil
	}
	sort.Strings(k)
	return m.ns[pick(r, k)]
}

// c20: asks through the exchange.
func c20(w *W) {
	r := w.R
	x := newXworld(w, pick(r, []string{"redis", "nats"}), 1+r.Intn(3))
	var amu sync.Mutex
	answers := map[string]map[string]bool{} // question -> possible answers so far
	answer := func(q, a string) {
		amu.Lock()
		if answers[q] == nil {
			answers[q] = map[string]bool{}
		}
		answers[q][a] = true
		amu.Unlock()
	}
	x.client = func(m *xmember) neffos.ConnHandler {
		rr := w.Rand()
		var rmu sync.Mutex
		cb := func(c *neffos.NSConn, msg neffos.Message) error {
			if neffos.IsSystemEvent(msg.Event) {
				return nil
			}
			w.Event()
			q := string(msg.Body)
			rmu.Lock()
			d, twice := rr.Intn(2000), chance(rr, 20)
			rmu.Unlock()
			switch msg.Event {
			case "reply":
				time.Sleep(time.Duration(d) * time.Microsecond)
				a := "r:" + m.key + ":" + q
				answer(q, a)
				if twice {
					b, _ := parseRaw(string(msg.Serialize()))
					b.body, b.isErr = a, false
					c.Conn.Socket().WriteText([]byte(b.wire()), 0)
				}
				return neffos.Reply([]byte(a))
			case "error":
				a := "failed;" + m.key + ":" + q
				answer(q, "E"+a)
				return errors.New(a)
			case "slow":
				time.Sleep(15 * time.Millisecond)
				answer(q, "r:late")
				return neffos.Reply([]byte("r:late"))
			}
			return nil // never answers.
		}
		return HandlerAll(cb, x.nss...)
	}
	var ids []string
	for i := 0; i < 2+r.Intn(5); i++ {
		id := fmt.Sprintf("id%d", i)
		if chance(r, 10) {
			id = pick(r, x.nss[1:]) // equal to a namespace.
		}
		if i > 0 && chance(r, 15) {
			id = ids[0]
		}
		ids = append(ids, id)
		m := x.dial(r.Intn(len(x.rigs)), id)
		for _, ns := range x.nss {
			if chance(r, 65) {
				x.connect(m, ns)
				if chance(r, 50) {
					x.join(m, ns, "the room")
				}
			}
		}
	}
	// the connections in whose callbacks is asked: they may not answer meanwhile.
	hosts := make([]*xmember, len(x.rigs))
	for i := range hosts {
		if chance(r, 60) {
			hosts[i] = x.dial(i, fmt.Sprint("host", i))
			for _, ns := range x.nss {
				x.connect(hosts[i], ns)
			}
		}
	}
	live := x.live()
	base := x.b.count()
	askers := 2 + r.Intn(5)
	per := 3 + r.Intn(8)
	rs := make([]*randT, askers)
	for i := range rs {
		rs[i] = w.Rand()
	}
	var replies, errs, ends, cross int64
	var leaver *xmember
	if len(live) > 2 && chance(r, 40) {
		leaver = live[0]
	}
	var wg sync.WaitGroup
	if leaver != nil {
		wg.Add(1)
		rl := w.Rand()
		go func() { defer wg.Done(); sleepy(rl, 6000); leaver.link.Cut() }()
	}
	w.Go(askers, "the askers", func(g int) {
		r := rs[g]
		si := r.Intn(len(x.rigs))
		srv := x.rigs[si].Srv
		for k := 0; k < per; k++ {
			q := fmt.Sprintf("q%d.%d", g, k) + padding(r)
			m := neffos.Message{Namespace: pick(r, x.nss), Event: pick(r, []string{"reply", "reply", "reply", "error", "slow", "never"}), Body: []byte(q)}
			if chance(r, 60) {
				m.To = pick(r, append([]string{"ghost"}, ids...))
			}
			if chance(r, 25) {
				m.Room = "the room"
			}
			var resp, sure []*xmember
			for _, t := range live {
				if t.ns[m.Namespace] != nil && (m.To == "" || m.To == t.id) && (m.Room == "" || t.rooms[m.Namespace][m.Room]) {
					resp = append(resp, t)
					if t != leaver && !strings.HasPrefix(t.id, "host") {
						sure = append(sure, t)
					}
				}
			}
			answered := len(sure) > 0 && m.Event != "never" && m.Event != "slow"
			d := time.Duration(2+r.Intn(12)) * time.Millisecond
			ctx, cancel := context.WithCancel(context.Background())
			over := context.Canceled
			if !answered {
				cancel()
				ctx, cancel, over = briefly(r, d)
			}
			var rep neffos.Message
			var err error
			ask := func() { rep, err = srv.Ask(ctx, m) }
			var in *neffos.NSConn
			if hosts[si] != nil && chance(r, 25) {
				in = pickNS(r, []*xmember{hosts[si]})
			}
			if in != nil {
				done := make(chan struct{})
				t := fmt.Sprint("t", g, ".", k)
				x.do.Store(t, func(*neffos.NSConn) { ask(); close(done) })
				w.Check(in.Emit("do", []byte(t)), "emit")
				w.Chan(done, "ask %s inside of a callback (%d responders)", q, len(sure))
			} else {
				w.Call(ask, "ask %s %+v (%d responders)", q, m, len(sure))
			}
			cancel()
			w.Event()
			w.Log("%s: %q To %q %s: %q %v", q, m.Namespace, m.To, m.Event, rep.Body, err)
			if err == nil || !errors.Is(err, over) {
				a := string(rep.Body)
				if err != nil {
					a = "E" + err.Error()
				}
				amu.Lock()
				ok := answers[q][a]
				amu.Unlock()
				w.Check(ok, "ask %s (%q to %q, %s) returned %q, %v, which nobody answered", q, m.Namespace, m.To, m.Event, rep.Body, err)
				mine := false
				for _, t := range resp {
					mine = mine || strings.Contains(a, ":late") || strings.Contains(a, t.key+":"+q)
					if t.srv != si {
						atomic.AddInt64(&cross, 1)
					}
				}
				w.Check(mine, "ask %s (%q to %q) was answered by somebody else: %q", q, m.Namespace, m.To, a)
				if err != nil {
					atomic.AddInt64(&errs, 1)
				} else {
					atomic.AddInt64(&replies, 1)
				}
			} else {
				w.Check(!answered, "ask %s has a responder, it returned %v", q, err)
				atomic.AddInt64(&ends, 1)
			}
			w.Sign(fmt.Sprint(q, m.Namespace, m.To, string(rep.Body), err))
		}
	})
	w.Join(&wg, "the leaver")
	if leaver != nil {
		w.Await(func() bool { return leaver.conn.IsClosed() }, "the end of a connection")
		leaver.gone, leaver.ns = true, map[string]*neffos.NSConn{}
	}
	// a hostile reply: no crash, no injection, nothing is answered.
	if len(live) > 0 && chance(r, 30) {
		m := pick(r, live)
		if m != leaver {
			for _, t := range []string{"1!x y\r\nPUB neffos.a 1\r\nz", "1!", "5!*", "neffos(0x", "#!1", "1!" + strings.Repeat("z", 300)} {
				m.link.Sock.WriteText([]byte(t+";a;;reply;0;0;x"), 0)
			}
		}
	}
	x.subs("after the asks")
	// the exchange still works for everybody.
	for si, rig := range x.rigs {
		for _, m := range x.live() {
			for ns := range m.ns {
				q := fmt.Sprintf("last%d.%s.%s", si, m.key, ns)
				var rep neffos.Message
				var err error
				w.Call(func() {
					rep, err = rig.Srv.Ask(w.Ctx(), neffos.Message{Namespace: ns, To: m.id, Event: "reply", Body: []byte(q)})
				}, "ask %s", q)
				w.Check(err == nil && strings.HasSuffix(string(rep.Body), ":"+q), "ask %s returned %q, %v", q, rep.Body, err)
				break
			}
		}
	}
	x.subs("after the last asks")
	// every ask may need a broker's connection of its own, not for longer than it takes. The clients' pools may grow a bit.
	w.Await(func() bool { return x.b.count() <= base+4 }, "the connections of the broker to be %d again, after %d asks they are %d", base, askers*per, x.b.count())
	w.Stat("replies", replies)
	w.Stat("errors", errs)
	w.Stat("ended_contexts", ends)
	w.Stat("other_server", cross)
	w.Sample("%s, %d members, %d askers x %d: %d replies, %d errors, %d ended", x.kinds(), len(x.mem), askers, per, replies, errs, ends)
	if replies+errs >= 5 {
		w.Nontrivial()
	}
	x.end()
}
