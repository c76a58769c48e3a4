package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C06", Quick: 1400, Thorough: 9000, Run: func(w *W) {
		if w.Case%6 == 5 {
			c06Connecting(w)
			return
		}
		bcast(w, chance(w.R, 25), false)
	},
		Rule: "a case is 2-6 clients with random memberships (namespaces, rooms, possibly equal IDs) on one of 5 transports, 1-3 phases of concurrent broadcasters (from goroutines and from server callbacks; single and multi message batches; room, To, excluded Conn/NSConn/Room/ID), stalled receivers and churning other connections; a membership model gives the exact expected sequence per caller and client. Non-trivial: at least 10 deliveries and at least one message that must not be delivered to somebody. Distinct: by the hash of the receive order. IDs that are prefixes of each other or differ by case, floods of broadcasts, large bodies between small ones, and the reuse of the caller's slice after the call are part of it"})
	register(&Prop{ID: "C07", Quick: 1000, Thorough: 8000, Run: func(w *W) {
		if w.Case%3 == 2 {
			c07Callbacks(w)
			return
		}
		bcast(w, true, true)
	},
		Rule: "a case is a server with the synchronous broadcaster: either the workload of C06 with the additional check that all receivers agree on the order of the broadcasts they share, or broadcasts from every server callback (connect, disconnect, namespace and room events, Do) while connections come and go. Non-trivial: at least 2 receivers shared at least 10 broadcasts, or a callback's broadcast was delivered. Distinct: by the hash of the receive order. Large bodies between small ones and a server loop kept busy (Do, connects) are part of it"})
}

type member struct {
	id    string
	cli   *neffos.Client
	ns    map[string]*neffos.NSConn
	rooms map[string]map[string]bool // ns -> rooms
	sconn *neffos.Conn

	mu    sync.Mutex
	got   []string // ids of messages in order, "phase.g.k.i"
	seen  map[string]int
	ends  map[string]bool
	stall chan struct{}
	slow  int
}

func (m *member) on(w *W) neffos.MessageHandlerFunc {
	rr := w.Rand()
	return func(c *neffos.NSConn, msg neffos.Message) error {
		if neffos.IsSystemEvent(msg.Event) {
			return nil
		}
		w.Event()
		b := string(msg.Body)
		if i := strings.IndexByte(b, '|'); i >= 0 {
			b = b[:i]
		}
		// the body tells what the message's fields were.
		p := strings.Split(b, "~") // id~ns~room~event
		if len(p) == 4 {
			w.Check(msg.Namespace == p[1] && msg.Room == p[2] && msg.Event == p[3], "broadcast %q arrived as ns %q room %q event %q", b, msg.Namespace, msg.Room, msg.Event)
		}
		m.mu.Lock()
		m.got = append(m.got, p[0])
		m.seen[p[0]]++
		n := m.seen[p[0]]
		if strings.HasPrefix(p[0], "end") {
			m.ends[p[0]] = true
		}
		st := m.stall
		d := 0
		if m.slow > 0 {
			d = rr.Intn(m.slow)
		}
		m.mu.Unlock()
		w.Check(n == 1, "client %s received broadcast %s %d times", m.id, p[0], n)
		if st != nil {
			<-st
		}
		if d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		return nil
	}
}

func bcast(w *W, syncMode, total bool) {
	r := w.R
	kind := pick(r, transports)
	ncli := 2 + r.Intn(5)
	if total && chance(r, 12) {
		ncli = 1
	}
	nss := []string{"a", pick(r, []string{"b;b", "A", "ab", "a "})}
	rooms := []string{"x", pick(r, []string{"y;y", "X", "xx", "x;"})}
	ids := []string{"m0", "m1", "m2", "m3", "m4", "m5"}
	if chance(r, 40) {
		ids = []string{"m1", "m10", "M1", "m", "m1 ", "1m1"} // similar ones.
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	} else if chance(r, 20) {
		ids[1] = "" // it can't be addressed or excluded by its ID.
	}
	gor := 1 + r.Intn(4)
	per := 3 + r.Intn(12)
	phases := 1 + r.Intn(3)
	churn := chance(r, 40)
	dup := chance(r, 25)
	stallOne := !syncMode && chance(r, 40)
	flood := chance(r, 10)
	if flood {
		gor, phases, per = 1+r.Intn(2), 1, 150+r.Intn(200)
	}
	hold := syncMode && chance(r, 30) // the server's loop is busy meanwhile.
	w.Sample("transport %s, sync %v, %d clients (equal IDs %v), %d broadcasters x %d x %d phases, churn %v, stalled receiver %v, busy loop %v, ids %q, namespaces %q, rooms %q", kind, syncMode, ncli, dup, gor, per, phases, churn, stallOne, hold, ids[:ncli], nss, rooms)
	var do sync.Map // trigger id -> func()
	rig := NewRig(w, kind, neffos.Namespaces{
		nss[0]: neffos.Events{"do": func(c *neffos.NSConn, m neffos.Message) error {
			if f, ok := do.Load(string(m.Body)); ok {
				f.(func(*neffos.NSConn))(c)
			}
			return nil
		}},
		nss[1]: neffos.Events{},
	}, func(s *neffos.Server) { s.SyncBroadcaster = syncMode })
	var mem []*member
	join := func(m *member, ns, room string) {
		_, err := m.ns[ns].JoinRoom(w.Ctx(), room)
		w.Check(err == nil, "join: %v", err)
		m.rooms[ns][room] = true
	}
	connect := func(m *member, ns string) {
		m.ns[ns] = rig.Connect(m.cli, ns)
		m.rooms[ns] = map[string]bool{}
	}
	for i := 0; i < ncli; i++ {
		m := &member{id: ids[i], ns: map[string]*neffos.NSConn{}, rooms: map[string]map[string]bool{}, seen: map[string]int{}, ends: map[string]bool{}}
		if dup && i == 1 {
			m.id = ids[0]
		}
		if chance(r, 30) {
			m.slow = 200
		}
		before := map[*neffos.Conn]bool{}
		rig.Srv.Do(func(c *neffos.Conn) { before[c] = true }, false)
		m.cli, _ = rig.Dial(m.id, HandlerAll(m.on(w), nss...))
		rig.Srv.Do(func(c *neffos.Conn) {
			if !before[c] && c.ID() == m.id {
				m.sconn = c
			}
		}, false)
		if m.sconn == nil {
			w.Violate("the server does not have the connection %s after its dial", m.id)
		}
		connect(m, nss[0])
		mem = append(mem, m)
	}
	expected := make([]map[int][]string, ncli) // client -> broadcaster -> ids
	for i := range expected {
		expected[i] = map[int][]string{}
	}
	var emu sync.Mutex
	deliveries, non := 0, 0
	stopChurn := make(chan struct{})
	var cwg sync.WaitGroup
	if churn {
		for k := 0; k < 2; k++ {
			cwg.Add(1)
			rr := w.Rand()
			go func(k int) {
				defer cwg.Done()
				for i := 0; ; i++ {
					select {
					case <-stopChurn:
						return
					default:
					}
					id := fmt.Sprintf("churn%d.%d", k, i)
					m := &member{id: id, seen: map[string]int{}, ends: map[string]bool{}}
					base := m.on(w)
					cli, link, err := rig.TryDial(id, neffos.Namespaces{nss[0]: {neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
						if msg.Room != "" && !neffos.IsSystemEvent(msg.Event) && msg.Room != rooms[0] {
							w.Violate("a connection that never joined room %q received %q", msg.Room, clip(string(msg.Body), 60))
						}
						return base(c, msg)
					}}}, nil)
					if err != nil {
						w.Violate("dial of a churning client: %v", err)
					}
					if ns, err := cli.Connect(w.Ctx(), nss[0]); err == nil && rr.Intn(2) == 0 {
						if rm, err := ns.JoinRoom(w.Ctx(), rooms[0]); err == nil && rr.Intn(2) == 0 {
							rm.Leave(w.Ctx())
						}
					}
					sleepy(rr, 1500)
					if rr.Intn(2) == 0 {
						cli.Close()
					} else {
						link.Cut()
					}
				}
			}(k)
		}
	}
	for ph := 0; ph < phases; ph++ {
		// membership changes, by this goroutine, finished before the broadcasts start.
		for _, m := range mem {
			if m.ns[nss[1]] == nil {
				if chance(r, 60) {
					connect(m, nss[1])
				}
			} else if chance(r, 30) {
				w.Check(m.ns[nss[1]].Disconnect(w.Ctx()) == nil, "disconnect failed")
				delete(m.ns, nss[1])
				delete(m.rooms, nss[1])
			}
			for _, ns := range nss {
				if m.ns[ns] == nil {
					continue
				}
				for _, rm := range rooms {
					if m.rooms[ns][rm] {
						if chance(r, 40) {
							w.Check(m.ns[ns].Room(rm).Leave(w.Ctx()) == nil, "leave failed")
							delete(m.rooms[ns], rm)
						}
					} else if chance(r, 50) {
						join(m, ns, rm)
					}
				}
			}
		}
		if stallOne && ph == 0 {
			mem[ncli-1].mu.Lock()
			mem[ncli-1].stall = make(chan struct{})
			mem[ncli-1].mu.Unlock()
			if e := memEndOf(rig, mem[ncli-1].id); e != nil {
				e.out.setLimit(2)
			}
		}
		release := make(chan struct{})
		if hold {
			held := make(chan struct{})
			go rig.Srv.Do(func(c *neffos.Conn) {
				select {
				case <-held:
				default:
					close(held)
				}
				<-release
			}, false)
			<-held
		}
		w.Go(gor, "broadcasters", func(g int) {
			rr := w.Rand()
			via := rr.Intn(ncli) // broadcasts through this member's server-side callback
			useCb := rr.Intn(3) == 0 && !stallOne && !flood
			big := stallOne && rr.Intn(2) == 0 && !flood
			for k := 0; k <= per; k++ {
				last := k == per
				var msgs []neffos.Message
				nb := 1
				if !last && rr.Intn(3) == 0 {
					nb = 1 + rr.Intn(3)
				}
				var except fmt.Stringer
				excluded := func(m *member) bool { return false }
				exMember := mem[rr.Intn(ncli)]
				viaOthers := false
				if !last {
					switch rr.Intn(7) {
					case 0:
						except = exMember.sconn
						excluded = func(m *member) bool { return m == exMember }
					case 1:
						except = exMember.sconn.Namespace(nss[0])
						excluded = func(m *member) bool { return m == exMember }
					case 2:
						if exMember.id == "" {
							break
						}
						except = neffos.Exclude(exMember.id)
						excluded = func(m *member) bool { return m.id == exMember.id }
					case 3:
						if rms := exMember.sconn.Namespace(nss[0]).Rooms(); len(rms) > 0 && exMember.id != "" {
							except = rms[0]
							excluded = func(m *member) bool { return m.id == exMember.id }
						}
					case 4:
						if useCb {
							viaOthers = true
							excluded = func(m *member) bool { return m == mem[via] }
						}
					}
				}
				for i := 0; i < nb; i++ {
					id := fmt.Sprintf("%d.%d.%d.%d", ph, g, k, i)
					m := neffos.Message{Namespace: pick(rr, nss), Event: pick(rr, []string{"e1", "e;2"})}
					if rr.Intn(3) == 0 {
						m.Room = pick(rr, rooms)
					}
					if rr.Intn(5) == 0 {
						m.To = mem[rr.Intn(ncli)].id
					}
					if rr.Intn(30) == 0 {
						m.To = "nobody"
					}
					m.SetBinary = rr.Intn(4) == 0
					if last {
						id = fmt.Sprintf("end%d.%d", ph, g)
						m = neffos.Message{Namespace: nss[0], Event: "e1"}
					}
					body := strings.Join([]string{id, m.Namespace, m.Room, m.Event}, "~")
					switch {
					case big && rr.Intn(4) > 0:
						body += "|" + strings.Repeat("z", 30000)
					case rr.Intn(8) == 0:
						// a large one between small ones.
						body += "|" + strings.Repeat("z", 1<<uint(6+rr.Intn(11)))
					}
					m.Body = []byte(body)
					msgs = append(msgs, m)
					emu.Lock()
					for ci, c := range mem {
						ok := c.ns[m.Namespace] != nil && (m.Room == "" || c.rooms[m.Namespace][m.Room]) && (m.To == "" || m.To == c.id) && !excluded(c)
						if ok {
							expected[ci][g] = append(expected[ci][g], id)
							deliveries++
						} else {
							non++
						}
					}
					emu.Unlock()
				}
				keep := append([]neffos.Message(nil), msgs...)
				send := func(c *neffos.NSConn) {
					switch {
					case viaOthers:
						c.BroadcastOthers(msgs...)
					case c != nil && except == nil && rr.Intn(2) == 0:
						c.Broadcast(msgs...)
					default:
						rig.Srv.Broadcast(except, msgs...)
					}
					for i := range msgs {
						if msgs[i].FromExplicit != keep[i].FromExplicit || msgs[i].To != keep[i].To || msgs[i].Namespace != keep[i].Namespace || msgs[i].Room != keep[i].Room || msgs[i].Event != keep[i].Event {
							w.Violate("Broadcast changed the caller's messages")
						}
						// the caller's slice is its own after the call.
						msgs[i].Event, msgs[i].Namespace, msgs[i].To, msgs[i].Body = "reused", nss[1], "", []byte("reused")
					}
				}
				if useCb {
					done := make(chan struct{})
					key := fmt.Sprintf("%d.%d.%d", ph, g, k)
					do.Store(key, func(c *neffos.NSConn) { send(c); close(done) })
					w.Check(mem[via].ns[nss[0]].Emit("do", []byte(key)), "emit failed")
					w.Chan(done, "the server's callback to broadcast")
				} else {
					w.Call(func() { send(nil) }, "Broadcast")
				}
				if rr.Intn(4) == 0 {
					sleepy(rr, 200)
				}
			}
		})
		close(release)
		waitFor := func(m *member) {
			for g := 0; g < gor; g++ {
				end := fmt.Sprintf("end%d.%d", ph, g)
				w.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.ends[end] }, "client %s to receive the last broadcast of caller %d", m.id, g)
			}
		}
		for i, m := range mem {
			if i == ncli-1 && stallOne && ph == 0 {
				continue
			}
			waitFor(m)
		}
		if stallOne && ph == 0 {
			m := mem[ncli-1]
			m.mu.Lock()
			close(m.stall)
			m.stall = nil
			m.mu.Unlock()
			waitFor(m)
		}
	}
	close(stopChurn)
	w.Join(&cwg, "churning clients")
	// a last common broadcast, so that anything that follows the expected messages is seen.
	rig.Srv.Broadcast(nil, neffos.Message{Namespace: nss[0], Event: "e1", Body: []byte("endall")})
	for _, m := range mem {
		w.Await(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.ends["endall"] }, "the final broadcast at %s", m.id)
	}
	common := 0
	for ci, m := range mem {
		m.mu.Lock()
		by := map[int][]string{}
		for _, id := range m.got {
			if id == "endall" {
				continue
			}
			var ph, g int
			if strings.HasPrefix(id, "end") {
				fmt.Sscanf(id, "end%d.%d", &ph, &g)
			} else if n, _ := fmt.Sscanf(id, "%d.%d.", &ph, &g); n != 2 {
				w.Violate("client %s received %q", m.id, clip(id, 80))
			}
			by[g] = append(by[g], id)
		}
		for g := 0; g < gor; g++ {
			w.Check(fmt.Sprint(by[g]) == fmt.Sprint(expected[ci][g]), "client %d (%s) should receive from caller %d: %v but received %v", ci, m.id, g, expected[ci][g], by[g])
		}
		w.Sign(strings.Join(m.got, ","))
		m.mu.Unlock()
	}
	if total {
		for i := range mem {
			for j := i + 1; j < len(mem); j++ {
				a, b := mem[i].got, mem[j].got
				pos := map[string]int{}
				for k, id := range b {
					pos[id] = k
				}
				prev, prevID := -1, ""
				for _, id := range a {
					p, ok := pos[id]
					if !ok {
						continue
					}
					common++
					// messages of one batch are written in order too.
					w.Check(p > prev, "clients %d and %d received %s and %s in different order", i, j, prevID, id)
					prev, prevID = p, id
				}
			}
		}
		w.Stat("common_pairs", int64(common))
	}
	w.Stat("deliveries", int64(deliveries))
	w.Stat("non_deliveries", int64(non))
	if deliveries >= 10 && non > 0 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "close")
}

func memEndOf(rig *Rig, id string) *memEnd {
	rig.mu.Lock()
	defer rig.mu.Unlock()
	for _, e := range rig.memEnds {
		if e.req != nil && e.req.URL.Query().Get("vid") == id {
			return e
		}
	}
	return nil
}

// c06Connecting: a connection that is already connected to the namespace when Broadcast is called gets it, even if
// it was connected a moment ago (in OnConnect, in the connected callback, right after a dial).
func c06Connecting(w *W) {
	r := w.R
	kind := pick(r, transports)
	n := 3 + r.Intn(8)
	where := pick(r, []string{"connected", "onconnect", "client", "joined"})
	syncMode := chance(r, 30)
	w.Sample("transport %s, sync %v: %d clients, the server broadcasts to the newcomer at %s", kind, syncMode, n, where)
	var mu sync.Mutex
	got := map[string][]string{}
	var srv *neffos.Server
	room := ""
	if where == "joined" {
		room = "r"
	}
	send := func(id string) {
		srv.Broadcast(nil, neffos.Message{Namespace: "a", Room: room, Event: "e", Body: []byte(id + ".1")}, neffos.Message{Namespace: "a", Room: room, Event: "e", To: id, Body: []byte(id + ".2")})
		srv.Broadcast(nil, neffos.Message{Namespace: "a", Room: room, Event: "e", Body: []byte(id + ".3")})
	}
	ev := neffos.Events{}
	switch where {
	case "connected":
		ev[neffos.OnNamespaceConnected] = func(c *neffos.NSConn, m neffos.Message) error { send(c.Conn.ID()); return nil }
	case "joined":
		ev[neffos.OnRoomJoined] = func(c *neffos.NSConn, m neffos.Message) error { send(c.Conn.ID()); return nil }
	}
	rig := NewRig(w, kind, neffos.Namespaces{"a": ev}, func(s *neffos.Server) {
		s.SyncBroadcaster = syncMode
		srv = s
		if where == "onconnect" {
			s.OnConnect = func(c *neffos.Conn) error {
				_, err := c.Connect(w.Ctx(), "a")
				w.Check(err == nil, "server connect: %v", err)
				send(c.ID())
				return nil
			}
		}
	})
	var inv int64
	w.Go(n, "newcomers", func(i int) {
		id := fmt.Sprintf("n%d", i)
		cli, _ := rig.Dial(id, neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
			w.Event()
			mu.Lock()
			got[id] = append(got[id], string(m.Body))
			mu.Unlock()
			if strings.HasSuffix(string(m.Body), ".2") && string(m.Body) != id+".2" {
				w.Violate("%s received a message to %s", id, m.Body)
			}
			return nil
		}}})
		switch where {
		case "onconnect":
			w.Call(func() {
				if ns, err := cli.WaitServerConnect(w.Ctx(), "a"); err != nil || ns == nil {
					w.Violate("wait connect: %v", err)
				}
			}, "wait server connect")
		default:
			ns := rig.Connect(cli, "a")
			if where == "joined" {
				_, err := ns.JoinRoom(w.Ctx(), "r")
				w.Check(err == nil, "join: %v", err)
			}
		}
		if where == "client" {
			send(id)
		}
		w.Await(func() bool {
			mu.Lock()
			defer mu.Unlock()
			k := 0
			for _, b := range got[id] {
				if strings.HasPrefix(b, id+".") {
					k++
				}
			}
			return k >= 3
		}, "%s to receive what was broadcast at its own %s", id, where)
		atomic.AddInt64(&inv, 1)
	})
	mu.Lock()
	for id, g := range got {
		last := map[string]string{}
		for _, b := range g {
			p := strings.SplitN(b, ".", 2)
			w.Check(p[1] > last[p[0]], "%s received %v", id, g)
			last[p[0]] = p[1]
		}
		w.Sign(id + strings.Join(g, ","))
	}
	mu.Unlock()
	w.Stat("newcomers", inv)
	w.Nontrivial()
	rig.Close()
}

// c07Callbacks: broadcasts from every callback of a server with the synchronous broadcaster.
func c07Callbacks(w *W) {
	r := w.R
	kind := pick(r, transports)
	var mu sync.Mutex
	sentIDs := []string{}
	issued := []string{} // Broadcast returned
	var seq int
	var srv *neffos.Server
	send := func(where string) {
		mu.Lock()
		seq++
		id := fmt.Sprintf("%s#%d", where, seq)
		sentIDs = append(sentIDs, id)
		mu.Unlock()
		srv.Broadcast(nil, neffos.Message{Namespace: "w", Event: "e", Body: []byte(id)})
		mu.Lock()
		issued = append(issued, id)
		mu.Unlock()
		w.Event()
	}
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		send(m.Event)
		if m.Event == "many" {
			for i := 0; i < 5; i++ {
				send("many")
			}
		}
		return nil
	}
	rig := NewRig(w, kind, neffos.Namespaces{"w": neffos.Events{}, "a": neffos.Events{neffos.OnAnyEvent: cb}}, func(s *neffos.Server) {
		s.SyncBroadcaster = true
		srv = s
		s.OnConnect = func(c *neffos.Conn) error { send("connect"); return nil }
		s.OnDisconnect = func(c *neffos.Conn) { send("disconnect"); send("disconnect2") }
	})
	nw := 2 + r.Intn(2)
	gots := make([][]string, nw)
	seen := make([]map[string]bool, nw)
	ch := func(i int) neffos.MessageHandlerFunc {
		return func(c *neffos.NSConn, m neffos.Message) error {
			mu.Lock()
			gots[i] = append(gots[i], string(m.Body))
			dupl := seen[i][string(m.Body)]
			seen[i][string(m.Body)] = true
			mu.Unlock()
			w.Event()
			w.Check(!dupl, "watcher %d received %s twice", i, m.Body)
			return nil
		}
	}
	var watchers []*neffos.Client
	for i := 0; i < nw; i++ {
		seen[i] = map[string]bool{}
		c, _ := rig.Dial(fmt.Sprintf("watch%d", i), neffos.Namespaces{"w": neffos.Events{"e": ch(i)}})
		rig.Connect(c, "w")
		watchers = append(watchers, c)
	}
	mu.Lock()
	base := len(sentIDs)
	mu.Unlock()
	act := 1 + r.Intn(4)
	w.Sample("transport %s: %d watchers, %d actors that connect, join, leave, disconnect, close or are cut; every server callback broadcasts", kind, nw, act)
	w.Go(act, "actors", func(a int) {
		rr := w.Rand()
		for k := 0; k < 1+rr.Intn(3); k++ {
			id := fmt.Sprintf("actor%d.%d", a, k)
			cli, link := rig.Dial(id, neffos.Namespaces{"a": neffos.Events{}})
			ns := rig.Connect(cli, "a")
			rooms := rr.Intn(3)
			for i := 0; i < rooms; i++ {
				w.Call(func() { ns.JoinRoom(w.Ctx(), fmt.Sprintf("r%d", i)) }, "join")
			}
			if rr.Intn(2) == 0 {
				ns.Emit("many", nil)
			}
			if rr.Intn(3) == 0 {
				w.Call(func() { rig.Srv.Do(func(c *neffos.Conn) { send("do") }, rr.Intn(2) == 0) }, "Do")
			}
			if rr.Intn(3) == 0 {
				w.Call(func() { ns.LeaveAll(w.Ctx()) }, "leave all")
			}
			switch rr.Intn(4) {
			case 0:
				w.Call(func() { ns.Disconnect(w.Ctx()) }, "disconnect")
				cli.Close()
			case 1:
				cli.Close()
			case 2:
				link.Cut()
			case 3:
				w.Call(func() {
					rig.Srv.Do(func(c *neffos.Conn) {
						if c.ID() == id {
							c.Close()
						}
					}, false)
				}, "server-side close in Do")
			}
		}
	})
	w.Await(func() bool { return rig.Srv.GetTotalConnections() == uint64(nw) }, "the actors to be gone")
	// Do runs after the registry's updates; every callback broadcast so far is queued before this one.
	w.Call(func() { rig.Srv.Do(func(*neffos.Conn) {}, false) }, "Do")
	mu.Lock()
	before := append([]string(nil), issued...) // a last callback may still be about to broadcast, it is not judged.
	in := map[string]bool{}
	for _, id := range sentIDs[base:] {
		in[id] = true
	}
	mu.Unlock()
	srv.Broadcast(nil, neffos.Message{Namespace: "w", Event: "e", Body: []byte("final")})
	for i := range watchers {
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return seen[i]["final"] }, "the final broadcast at watcher %d", i)
	}
	mu.Lock()
	// what each one received before the final one.
	tail := func(g []string) []string {
		var o []string
		for _, x := range g {
			if x == "final" {
				break
			}
			if in[x] {
				o = append(o, x)
			}
		}
		return o
	}
	for i := range watchers {
		t := map[string]bool{}
		for _, x := range tail(gots[i]) {
			t[x] = true
		}
		for _, id := range before {
			w.Check(!in[id] || t[id], "watcher %d did not receive %s", i, id)
		}
		w.Check(fmt.Sprint(tail(gots[i])) == fmt.Sprint(tail(gots[0])), "watchers received different orders: %v and %v", tail(gots[0]), tail(gots[i]))
	}
	w.Sign(strings.Join(gots[0], ","))
	w.Stat("callback_broadcasts", int64(len(sentIDs)-base))
	mu.Unlock()
	w.Nontrivial()
	rig.Close()
}
