package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C15", Quick: 800, Thorough: 8000, Race: true, Run: c15,
		Rule:   "a case runs, under the race detector, either the chaos scenario (1-2 servers with no exchange, a recording one or the in-process Redis or NATS stand-in, 2-6 clients over 5 transports, 4-14 goroutines and callbacks on both sides that use the whole API of shared connections, namespaces, rooms and servers, with short contexts, while connections are dialed, refused, cut and closed) or the scenario of another property; only reports of the race detector with an access in the library, and concurrent map accesses, count. Non-trivial: at least 30 monitored events. Distinct: by the hash of the scenario's history",
		Assume: []string{"the race detector sees the accesses of the executions that ran, without a synchronization between them, whatever their real order was"}})
}

var c15Others = []string{}

func c15(w *W) {
	if len(c15Others) == 0 {
		for id := range props {
			switch id {
			case "C15", "C26": // itself; real time
				continue
			}
			c15Others = append(c15Others, id)
		}
		sort.Strings(c15Others)
	}
	w.Patience(20 * time.Second)
	if chance(w.R, 55) {
		c15Chaos(w)
		return
	}
	id := pick(w.R, c15Others)
	w.Stat("scenario_"+id, 1)
	props[id].Run(w)
	w.Sign(id)
	if atomic.LoadInt64(&w.events) >= 30 {
		w.Nontrivial()
	}
}

func c15Chaos(w *W) {
	r := w.R
	kind := pick(r, transports)
	nss := []string{"a", "b", ""}
	rooms := []string{"r1", "r2", "r3"}
	w.Patience(60 * time.Second)
	stop := make(chan struct{})
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	shortCtx := func(r *randT) (context.Context, context.CancelFunc) {
		return context.WithTimeout(context.Background(), time.Duration(1+r.Intn(40))*time.Millisecond)
	}
	rands := make(chan *randT, 64)
	for i := 0; i < 64; i++ {
		rands <- w.Rand()
	}
	var use func(r *randT, conn *neffos.Conn, depth int)
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		_ = m.Err
		if len(m.Body) > 0 {
			_ = string(m.Body)
		}
		_ = c.String()
		select {
		case r := <-rands:
			defer func() { rands <- r }()
			switch {
			case m.Event == "q":
				return neffos.Reply(m.Body)
			case m.Event == "fail":
				return errors.New("failed")
			case (m.Event == neffos.OnNamespaceConnect || m.Event == neffos.OnRoomJoin || m.Event == neffos.OnRoomLeave || m.Event == neffos.OnNamespaceDisconnect) && chance(r, 10):
				return errors.New("no")
			case chance(r, 8):
				use(r, c.Conn, 1)
			}
			c.Conn.Increment("callbacks")
		default:
		}
		return nil
	}
	handler := func(r *randT) neffos.ConnHandler {
		nh := neffos.Namespaces{}
		for _, ns := range nss {
			nh[ns] = neffos.Events{neffos.OnAnyEvent: cb}
			if ns == "" {
				nh[ns][neffos.OnNativeMessage] = cb
			}
		}
		if chance(r, 30) {
			return neffos.WithTimeout{ReadTimeout: time.Second, WriteTimeout: time.Second, Namespaces: nh}
		}
		return nh
	}
	nsrv := 1
	exc := pick(r, []string{"", "", "redis", "nats", "rec"})
	if exc == "redis" || exc == "nats" {
		nsrv = 1 + r.Intn(2)
	}
	var b *broker
	if exc == "redis" || exc == "nats" {
		b = newBroker(w, exc, chance(r, 50))
	}
	var mu sync.Mutex
	var conns []*neffos.Conn // both sides
	var links []*Link
	addConn := func(c *neffos.Conn) { mu.Lock(); conns = append(conns, c); mu.Unlock() }
	someConn := func(r *randT) *neffos.Conn {
		mu.Lock()
		defer mu.Unlock()
		if len(conns) == 0 {
			return nil
		}
		return pick(r, conns)
	}
	var rigs []*Rig
	for i := 0; i < nsrv; i++ {
		rig := NewRig(w, kind, handler(r), func(s *neffos.Server) {
			s.SyncBroadcaster = chance(r, 25)
			s.OnConnect = func(c *neffos.Conn) error {
				w.Event()
				addConn(c)
				if c.ID() == "refused" {
					return errors.New("refused")
				}
				select {
				case r := <-rands:
					defer func() { rands <- r }()
					if chance(r, 40) { // the first uses of a new connection, by several goroutines.
						for i := 0; i < 2+r.Intn(3); i++ {
							kind, us := r.Intn(8), r.Intn(60)
							go func() {
								time.Sleep(time.Duration(us) * time.Microsecond)
								switch kind {
								case 0, 1:
									c.Set("first", us)
								case 2, 3:
									c.Get("first")
								case 4:
									c.Increment("callbacks")
								case 5:
									c.Decrement("callbacks")
								case 6:
									c.Namespace("a")
									_ = c.ID()
									_ = c.String()
								default:
									c.IsClosed()
									c.Write(neffos.Message{Namespace: "a", Event: "e", Body: []byte("first")})
								}
							}()
						}
					}
					if chance(r, 15) {
						use(r, c, 1)
					}
				default:
				}
				return nil
			}
			s.OnDisconnect = func(c *neffos.Conn) {
				w.Event()
				c.Get("callbacks")
				c.Namespace("a")
				c.IsClosed()
				_ = c.WasReconnected()
			}
			s.OnUpgradeError = func(err error) { w.Event() }
		})
		var err error
		switch exc {
		case "rec":
			err = rig.Srv.UseStackExchange(&c15Exc{w: w})
			if chance(r, 50) {
				err = rig.Srv.UseStackExchange(&c15Exc{w: w})
			}
		case "redis", "nats":
			err = rig.Srv.UseStackExchange(b.exchange())
		}
		if err != nil {
			w.Inconclusive("exchange: %v", err)
		}
		rigs = append(rigs, rig)
	}
	var dials int64
	dial := func(r *randT) {
		rig := pick(r, rigs)
		id := fmt.Sprint("c", r.Intn(6))
		if chance(r, 10) {
			id = "refused"
		}
		link := &Link{}
		u := rig.dialURL(id, pick(r, []string{"", "X-Websocket-Header-A=b", "X-Websocket-Header-X-Websocket-Reconnect=2"}))
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		cli, err := neffos.Dial(ctx, rig.Dialer(link, nil), u, handler(r))
		cancel()
		if err != nil {
			return
		}
		atomic.AddInt64(&dials, 1)
		c2, cancel2 := shortCtx(r)
		n, err := cli.Connect(c2, pick(r, nss))
		cancel2()
		if err == nil && n != nil {
			addConn(n.Conn)
		}
		mu.Lock()
		links = append(links, link)
		mu.Unlock()
		if chance(r, 30) {
			go func() {
				select {
				case <-cli.NotifyClose:
				case <-stop:
				}
				_ = cli.ID
				cli.Close()
			}()
		}
		if chance(r, 20) {
			c3, cancel3 := shortCtx(r)
			cli.WaitServerConnect(c3, pick(r, nss))
			cancel3()
		}
	}
	use = func(r *randT, conn *neffos.Conn, depth int) {
		if conn == nil {
			return
		}
		ctx, cancel := shortCtx(r)
		defer cancel()
		name := pick(r, nss)
		n := conn.Namespace(name)
		srv := pick(r, rigs).Srv
		w.Event()
		switch op := r.Intn(26); op {
		case 0, 1:
			if !conn.IsClosed() || chance(r, 1) { // a server takes seconds to find out that it is closed.
				conn.Connect(ctx, name)
			}
		case 2:
			if n != nil && chance(r, 40) {
				n.Disconnect(ctx)
			}
		case 3:
			if chance(r, 10) {
				conn.DisconnectAll(ctx)
			}
		case 4, 5, 6:
			if n != nil {
				n.Emit("e", []byte("body"))
				n.EmitBinary("e", []byte("body"))
			}
		case 7, 8:
			if n != nil {
				n.Ask(ctx, pick(r, []string{"q", "fail", "none"}), []byte("q"))
			}
		case 9, 10:
			if n != nil {
				n.JoinRoom(ctx, pick(r, rooms))
			}
		case 11:
			if n != nil {
				if room := n.Room(pick(r, rooms)); room != nil {
					room.Emit("e", []byte("x"))
					_ = room.String()
					if chance(r, 50) {
						room.Leave(ctx)
					}
				}
			}
		case 12:
			if n != nil {
				for _, room := range n.Rooms() {
					_ = room.Name
				}
				if chance(r, 20) {
					n.LeaveAll(ctx)
				}
			}
		case 13:
			conn.Set("k", r.Intn(9))
			conn.Get("k")
			conn.Increment("n")
			conn.Decrement("n")
		case 14:
			conn.ID()
			_ = conn.String()
			conn.IsClosed()
			conn.Is("c1")
			conn.WasReconnected()
			conn.IsClient()
			conn.Server()
		case 15:
			conn.Write(neffos.Message{Namespace: name, Event: "e", Body: []byte("w")})
			conn.Write(neffos.Message{IsNative: true, Body: []byte("native")})
		case 16, 17, 18:
			m := neffos.Message{Namespace: name, Event: "e", Body: []byte("b"), SetBinary: chance(r, 30)}
			if chance(r, 30) {
				m.Room = pick(r, rooms)
			}
			if chance(r, 20) {
				m.To = fmt.Sprint("c", r.Intn(6))
			}
			switch r.Intn(4) {
			case 0:
				srv.Broadcast(neffos.Exclude("c1"), m)
			case 1:
				if !conn.IsClient() {
					srv.Broadcast(conn, m, neffos.Message{Namespace: name, Event: "e2"})
				}
			case 2:
				if n != nil && !conn.IsClient() {
					n.Broadcast(m)
					n.BroadcastOthers(m)
				}
			default:
				srv.Broadcast(nil, m)
			}
		case 19:
			if depth == 0 {
				m := neffos.Message{Namespace: name, Event: pick(r, []string{"q", "none"}), Body: []byte("q")}
				if chance(r, 50) {
					m.To = fmt.Sprint("c", r.Intn(6))
				}
				srv.Ask(ctx, m)
			}
		case 20:
			srv.GetTotalConnections()
			if depth == 0 {
				srv.Do(func(c *neffos.Conn) { c.Set("do", 1); c.Namespace("a") }, chance(r, 50))
			}
		case 21:
			if chance(r, 12) {
				conn.Close()
			}
		case 22:
			if chance(r, 12) {
				mu.Lock()
				var l *Link
				if len(links) > 0 {
					l = pick(r, links)
				}
				mu.Unlock()
				if l != nil {
					l.Cut()
				}
			}
		case 23:
			if depth == 0 {
				dial(r)
			}
		case 24:
			rec := httptest.NewRecorder()
			req := httptest.NewRequest(pick(r, []string{"HEAD", "POST", "GET"}), "http://x/ws?X-Websocket-Header-A=b", nil)
			srv.Upgrade(rec, req, nil, func(http.ResponseWriter, *http.Request) string { return "bad" })
		case 25:
			c3, cancel3 := context.WithTimeout(context.Background(), 3*time.Millisecond)
			conn.WaitConnect(c3, name)
			cancel3()
		}
	}
	for i := 0; i < 2+r.Intn(5); i++ {
		dial(r)
	}
	workers := 4 + r.Intn(11)
	steps := 15 + r.Intn(40)
	rs := make([]*randT, workers)
	for i := range rs {
		rs[i] = w.Rand()
	}
	deadline := time.Now().Add(6 * time.Second)
	w.Go(workers, "the users", func(g int) {
		r := rs[g]
		for k := 0; k < steps && time.Now().Before(deadline); k++ {
			c := someConn(r)
			if c == nil || c.IsClosed() && chance(r, 50) {
				dial(r)
				continue
			}
			use(r, c, 0)
		}
	})
	close(stop)
	_ = stopped
	for _, rig := range rigs {
		rig.Close()
		rig.Close()
	}
	mu.Lock()
	all := append([]*neffos.Conn(nil), conns...)
	mu.Unlock()
	for _, c := range all {
		c.Close()
	}
	if b != nil {
		b.close()
	}
	time.Sleep(5 * time.Millisecond)
	ev := atomic.LoadInt64(&w.events)
	w.Stat("chaos", 1)
	w.Stat("chaos_dials", dials)
	w.Stat("chaos_connections", int64(len(all)))
	if exc != "" {
		w.Stat("chaos_"+exc, 1)
	}
	w.Sample("chaos, %s, exchange %q, %d servers, %d dials, %d goroutines x %d, %d events", kind, exc, nsrv, dials, workers, steps, ev)
	w.Sign(fmt.Sprint(kind, exc, nsrv, dials, ev))
	if ev >= 30 {
		w.Nontrivial()
	}
}

// c15Exc is an exchange that takes everything and delivers locally.
type c15Exc struct {
	w    *W
	mu   sync.Mutex
	seen map[*neffos.Conn]int
}

func (e *c15Exc) note(c *neffos.Conn) {
	e.w.Event()
	e.mu.Lock()
	if e.seen == nil {
		e.seen = map[*neffos.Conn]int{}
	}
	e.seen[c]++
	e.mu.Unlock()
}
func (e *c15Exc) OnConnect(c *neffos.Conn) error             { e.note(c); return nil }
func (e *c15Exc) OnDisconnect(c *neffos.Conn)                { e.note(c) }
func (e *c15Exc) Subscribe(c *neffos.Conn, ns string)        { e.note(c) }
func (e *c15Exc) Unsubscribe(c *neffos.Conn, ns string)      { e.note(c) }
func (e *c15Exc) NotifyAsk(m neffos.Message, t string) error { return nil }
func (e *c15Exc) Ask(ctx context.Context, m neffos.Message, t string) (neffos.Message, error) {
	<-ctx.Done()
	return m, ctx.Err()
}
func (e *c15Exc) Publish(msgs []neffos.Message) bool {
	e.mu.Lock()
	var cs []*neffos.Conn
	for c := range e.seen {
		cs = append(cs, c)
	}
	e.mu.Unlock()
	for _, m := range msgs {
		m.FromStackExchange = true
		for _, c := range cs {
			c.Write(m)
		}
	}
	return true
}
