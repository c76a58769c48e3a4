package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/kataras/neffos"
)

// life drives connections through histories of connects, joins, leaves, disconnects and traffic started by either
// side, one operation at a time, against a model that gives the exact result, memberships and callbacks.
type life struct {
	w    *W
	r    *rand.Rand
	rig  *Rig
	rec  *Rec
	clis []*lifeCli
	nss  []string // pool of namespaces

	rooms []string           // pool of rooms
	decl  [2]map[string]bool // declared, server and client

	deny sync.Map // key -> error
	do   sync.Map // key -> func
	seq  int
	fen  int64
	cbm  sync.Map // sent by callbacks, not arrived
	cbn  int64
	ops  []string

	checkEvents bool // C10
	stats       map[string]int64
}

type lifeCli struct {
	id    string
	cli   *neffos.Client
	link  *Link
	sconn *neffos.Conn
	ccon  *neffos.Conn
	ns    [2]map[string]*neffos.NSConn // handles, possibly stale
	rooms [2]map[string]*neffos.Room   // handles by ns+"\x00"+room, possibly stale
	model map[string]map[string]bool   // connected namespaces and their rooms
	exp   [2]map[string][]string       // expected callbacks, by namespace
	fence sync.Map
	gone  chan struct{}
	down  bool
}

const (
	sideS = 0
	sideC = 1
)

var sideName = [2]string{"server", "client"}

func denyKey(side int, id, event, ns, room string) string {
	return fmt.Sprintf("%d|%s|%s|%s|%s", side, id, event, ns, room)
}

var lifeNS = []string{"", "a", "b;1", "chat/room", "ü"}
var lifeRooms = []string{"r1", "r;2", " ", "r1 ", "Ω"}

func newLife(w *W, kind string, ncli int, checkEvents bool) *life {
	r := w.R
	l := &life{w: w, r: r, rec: &Rec{w: w}, checkEvents: checkEvents, stats: map[string]int64{}}
	l.nss = append([]string(nil), lifeNS...)
	r.Shuffle(len(l.nss), func(i, j int) { l.nss[i], l.nss[j] = l.nss[j], l.nss[i] })
	l.nss = l.nss[:2+r.Intn(3)]
	l.rooms = append([]string(nil), lifeRooms...)
	r.Shuffle(len(l.rooms), func(i, j int) { l.rooms[i], l.rooms[j] = l.rooms[j], l.rooms[i] })
	l.rooms = l.rooms[:1+r.Intn(4)]
	hs := [2]neffos.Namespaces{{}, {}}
	for side := 0; side < 2; side++ {
		l.decl[side] = map[string]bool{}
		for i, ns := range l.nss {
			if i > 0 && chance(r, 12) {
				continue // not declared by this side.
			}
			l.decl[side][ns] = true
			ev := neffos.Events{}
			cb := l.callback(side)
			if chance(r, 50) {
				ev[neffos.OnAnyEvent] = cb
			} else {
				for _, e := range []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, "m", "m;2", "cbm"} {
					ev[e] = cb
				}
			}
			hs[side][ns] = ev
		}
		side := side
		hs[side]["ctl"] = neffos.Events{
			"f": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) },
			"do": func(c *neffos.NSConn, m neffos.Message) error {
				if f, ok := l.do.Load(string(m.Body)); ok {
					f.(func())()
				}
				return nil
			},
			"bf": func(c *neffos.NSConn, m neffos.Message) error {
				for _, x := range l.clis {
					if x.ccon == c.Conn {
						x.fence.Store(string(m.Body), true)
					}
				}
				return nil
			},
		}
	}
	smap := sync.Map{}
	l.rig = NewRig(w, kind, hs[sideS], func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { smap.Store(c.ID(), c); return nil }
		s.OnDisconnect = func(c *neffos.Conn) {
			for _, x := range l.clis {
				if x.sconn == c {
					close(x.gone)
				}
			}
		}
		s.SyncBroadcaster = chance(r, 25)
	})
	for i := 0; i < ncli; i++ {
		c := &lifeCli{id: fmt.Sprintf("k%d", i), model: map[string]map[string]bool{}, gone: make(chan struct{})}
		for s := 0; s < 2; s++ {
			c.ns[s] = map[string]*neffos.NSConn{}
			c.rooms[s] = map[string]*neffos.Room{}
			c.exp[s] = map[string][]string{}
		}
		c.cli, c.link = l.rig.Dial(c.id, hs[sideC])
		n := l.rig.Connect(c.cli, "ctl")
		c.ccon = n.Conn
		v, ok := smap.Load(c.id)
		w.Check(ok, "no server side connection of %s", c.id)
		c.sconn = v.(*neffos.Conn)
		w.Check(n.Conn.ID() == c.id && c.cli.ID == c.id, "client's ID %q, should be %q", c.cli.ID, c.id)
		l.clis = append(l.clis, c)
	}
	w.Sample("transport %s, namespaces %q (server declares %d, client %d), rooms %q, %d clients", kind, l.nss, len(l.decl[0]), len(l.decl[1]), l.rooms, ncli)
	return l
}

func (l *life) callback(side int) neffos.MessageHandlerFunc {
	return func(c *neffos.NSConn, m neffos.Message) error {
		e := evOf(c, m)
		want := "S"
		if side == sideC {
			want = "C"
		}
		l.w.Check(e.Side == want, "a %s callback was called with a connection of the other side", sideName[side])
		if m.Event == "cbm" {
			l.w.Event()
			v, ok := l.cbm.Load(string(m.Body))
			l.w.Check(ok && v.(string) == sideName[1-side]+c.Conn.ID()+m.Namespace+"|"+m.Room, "a message that a callback sent arrives as %q for room %q of %q of %s: %v", m.Body, m.Room, m.Namespace, c.Conn.ID(), v)
			l.cbm.Delete(string(m.Body))
			return nil
		}
		l.rec.add(e)
		if l.checkEvents && neffos.IsSystemEvent(m.Event) {
			l.inside(side, c, m)
		}
		if err, ok := l.deny.Load(denyKey(side, c.Conn.ID(), m.Event, m.Namespace, m.Room)); ok {
			return err.(error)
		}
		return nil
	}
}

// inside checks what the connection looks like, and what can be sent, inside a callback.
func (l *life) inside(side int, c *neffos.NSConn, m neffos.Message) {
	w := l.w
	n := c.Conn.Namespace(m.Namespace)
	in := m.Room != "" && c.Room(m.Room) != nil
	is := func(ok bool, what string) {
		w.Check(ok, "inside the callback of %s (%s, room %q of %q, local %v, forced %v): %s", m.Event, sideName[side], m.Room, m.Namespace, m.IsLocal, m.IsForced, what)
	}
	send := func() bool {
		k := fmt.Sprint("cb", atomic.AddInt64(&l.cbn, 1))
		l.cbm.Store(k, sideName[side]+c.Conn.ID()+m.Namespace+"|"+m.Room)
		ok := c.Conn.Write(neffos.Message{Namespace: m.Namespace, Room: m.Room, Event: "cbm", Body: []byte(k)})
		if !ok {
			l.cbm.Delete(k)
		}
		return ok
	}
	switch m.Event {
	case neffos.OnNamespaceConnect:
		is(n == nil, "the namespace is already connected")
		ok := send()
		is(!ok, "a message to the namespace was accepted")
	case neffos.OnNamespaceConnected:
		is(n == c, "the namespace is not connected")
		ok := send()
		is(ok, "a message to the namespace was not accepted")
	case neffos.OnNamespaceDisconnect:
		is(len(c.Rooms()) == 0 || !m.IsForced && !m.IsLocal && side == sideS, "it is still in rooms")
	case neffos.OnRoomJoin:
		is(n == c && !in, "the namespace is not connected or the room is joined already")
		ok := send()
		is(!ok, "a message to the room was accepted")
	case neffos.OnRoomJoined:
		is(n == c && in, "the room is not joined")
		ok := send()
		is(ok, "a message to the room was not accepted")
	case neffos.OnRoomLeave:
		is(n == c && in, "the room is not there anymore")
		if !m.IsForced && !m.IsLocal {
			ok := send()
			is(ok, "a message to the room was not accepted")
		}
	case neffos.OnRoomLeft:
		is(n == c && !in, "the room is still there")
		ok := send()
		is(!ok, "a message to the room was accepted")
	}
}

func (l *life) conn(c *lifeCli, side int) *neffos.Conn {
	if side == sideS {
		return c.sconn
	}
	return c.ccon
}

func evKey(e Ev) string {
	s := e.Event + "|" + e.Room
	if e.Local {
		s += "|local"
	}
	if e.Forced {
		s += "|forced"
	}
	if !neffos.IsSystemEvent(e.Event) {
		s += "|" + e.Body
	}
	return s
}

func key(event, room string, local, forced bool) string {
	return evKey(Ev{Event: event, Room: room, Local: local, Forced: forced})
}

// canon sorts the leaves of different rooms that follow each other, their order is not specified.
func canon(xs []string) []string {
	out := append([]string(nil), xs...)
	isLeave := func(s string) bool {
		return strings.HasPrefix(s, neffos.OnRoomLeave+"|") || strings.HasPrefix(s, neffos.OnRoomLeft+"|")
	}
	for i := 0; i < len(out); {
		j := i
		for j < len(out) && isLeave(out[j]) {
			j++
		}
		if j == i {
			i++
			continue
		}
		run := out[i:j]
		sort.SliceStable(run, func(a, b int) bool { return strings.SplitN(run[a], "|", 3)[1] < strings.SplitN(run[b], "|", 3)[1] })
		i = j
	}
	return out
}

func (l *life) expect(c *lifeCli, side int, ns string, evs ...string) {
	c.exp[side][ns] = append(c.exp[side][ns], evs...)
}

// fence waits until whatever was sent so far on the connection was handled, by both sides.
func (l *life) fence(c *lifeCli) {
	if c.down {
		return
	}
	n := fmt.Sprint(atomic.AddInt64(&l.fen, 1))
	for side := 0; side < 2; side++ {
		ns := l.conn(c, side).Namespace("ctl")
		l.w.Call(func() {
			m, err := ns.Ask(l.w.Ctx(), "f", []byte(n))
			l.w.Check(err == nil && string(m.Body) == n, "an ordinary request on another namespace failed: %q %v", m.Body, err)
		}, "a fence request of the %s", sideName[side])
	}
}

// check compares both sides with the model.
func (l *life) check(what string) {
	w := l.w
	for _, c := range l.clis {
		for side := 0; side < 2; side++ {
			for _, ns := range l.nss {
				n := l.conn(c, side).Namespace(ns)
				rooms, connected := c.model[ns]
				w.Check((n != nil) == connected, "after %s: namespace %q of %s connected on the %s: %v, should be %v", what, ns, c.id, sideName[side], n != nil, connected)
				if n == nil {
					continue
				}
				var got, want []string
				for _, rm := range n.Rooms() {
					got = append(got, rm.Name)
					w.Check(rm.NSConn == n, "room's namespace connection is another one")
				}
				for rm := range rooms {
					want = append(want, rm)
				}
				sort.Strings(got)
				sort.Strings(want)
				w.Check(fmt.Sprint(got) == fmt.Sprint(want), "after %s: rooms of %q of %s on the %s are %q, should be %q", what, ns, c.id, sideName[side], got, want)
				for _, rm := range l.rooms {
					w.Check((n.Room(rm) != nil) == rooms[rm], "after %s: Room(%q) of %s on the %s", what, rm, c.id, sideName[side])
				}
			}
		}
	}
	// the fence's answer may be read by the asker itself while the reader still handles them.
	w.Await(func() bool {
		n := 0
		l.cbm.Range(func(k, v interface{}) bool { n++; return true })
		return n == 0
	}, "the messages that callbacks sent to be handled, after %s", what)
	l.checkCallbacks(what)
}

func (l *life) checkCallbacks(what string) {
	evs := l.rec.all()
	by := map[string][]string{}
	for _, e := range evs {
		if !l.checkEvents && neffos.IsSystemEvent(e.Event) {
			continue
		}
		k := e.Side + "|" + e.Conn + "|" + e.NS
		by[k] = append(by[k], evKey(e))
	}
	for _, c := range l.clis {
		for side := 0; side < 2; side++ {
			s := "S"
			if side == sideC {
				s = "C"
			}
			for _, ns := range l.nss {
				k := s + "|" + c.id + "|" + ns
				want := c.exp[side][ns]
				if !l.checkEvents {
					var only []string
					for _, x := range want {
						if !neffos.IsSystemEvent(strings.SplitN(x, "|", 2)[0]) {
							only = append(only, x)
						}
					}
					want = only
				}
				got := canon(by[k])
				want = canon(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					i := 0
					for i < len(got) && i < len(want) && got[i] == want[i] {
						i++
					}
					l.w.Violate("after %s: %s callbacks of %s on namespace %q differ from the expected ones at %d: got %q, expected %q", what, sideName[side], c.id, ns, i, clipList(got, i), clipList(want, i))
				}
				delete(by, k)
			}
		}
	}
	for k, v := range by {
		l.w.Violate("after %s: callbacks of nobody: %s %q", what, k, v)
	}
	l.w.Check(true, "")
}

func clipList(xs []string, i int) []string {
	if i > 2 {
		xs = xs[i-2:]
	}
	if len(xs) > 6 {
		xs = xs[:6]
	}
	return xs
}

func (l *life) refuse(side int, c *lifeCli, event, ns, room string) string {
	l.seq++
	text := fmt.Sprintf("no;%d %s", l.seq, room)
	l.deny.Store(denyKey(side, c.id, event, ns, room), errors.New(text))
	return text
}

func (l *life) allow() { l.deny.Range(func(k, _ interface{}) bool { l.deny.Delete(k); return true }) }

// run runs f as the side of the connection, possibly inside one of its callbacks.
func (l *life) run(c *lifeCli, side int, what string, f func()) {
	l.ops = append(l.ops, what)
	l.w.Log("op %s", what)
	if chance(l.r, 75) {
		l.w.Call(f, "%s", what)
		return
	}
	done := make(chan struct{})
	l.seq++
	k := fmt.Sprintf("%d", l.seq)
	l.do.Store(k, func() { f(); close(done) })
	if !l.conn(c, 1-side).Namespace("ctl").Emit("do", []byte(k)) {
		l.w.Violate("emit failed")
	}
	l.w.Chan(done, "%s inside a callback", what)
}

func (l *life) wantErr(what string, err error, text string) {
	if text == "" {
		l.w.Check(err == nil, "%s failed: %v", what, err)
		return
	}
	l.w.Check(err != nil && err.Error() == text, "%s should fail with %q but the result is %v", what, text, err)
}

func (l *life) opConnect(c *lifeCli, side int, ns string) {
	w, r := l.w, l.r
	other := 1 - side
	what := fmt.Sprintf("connect of %s to %q by the %s", c.id, ns, sideName[side])
	_, already := c.model[ns]
	text, local := "", ""
	switch k := r.Intn(8); {
	case already:
	case k == 0 && l.decl[side][ns]:
		local = l.refuse(side, c, neffos.OnNamespaceConnect, ns, "")
		what += " (refused by itself)"
	case k <= 2 && l.decl[side][ns] && l.decl[other][ns]:
		text = l.refuse(other, c, neffos.OnNamespaceConnect, ns, "")
		what += " (refused by the other side)"
	}
	bad := ""
	if !l.decl[side][ns] || !l.decl[other][ns] {
		bad = neffos.ErrBadNamespace.Error()
	}
	var n *neffos.NSConn
	var err error
	l.run(c, side, what, func() { n, err = l.conn(c, side).Connect(w.Ctx(), ns) })
	l.fence(c)
	l.allow()
	on, ond := neffos.OnNamespaceConnect, neffos.OnNamespaceConnected
	switch {
	case already:
		w.Check(err == nil && n == l.conn(c, side).Namespace(ns) && n == c.ns[side][ns], "%s, which is already connected: %v", what, err)
	case !l.decl[side][ns]:
		l.wantErr(what, err, bad)
		w.Check(err == neffos.ErrBadNamespace, "%s: not the known error", what)
	case local != "":
		l.wantErr(what, err, local)
		l.expect(c, side, ns, key(on, "", true, false))
	case bad != "":
		l.expect(c, side, ns, key(on, "", true, false))
		l.wantErr(what, err, bad)
		w.Check(err == neffos.ErrBadNamespace, "%s: not the known error", what)
	case text != "":
		l.wantErr(what, err, text)
		l.expect(c, side, ns, key(on, "", true, false))
		l.expect(c, other, ns, key(on, "", false, false))
		l.stats["refused_connects"]++
	default:
		l.wantErr(what, err, "")
		w.Check(n != nil, "%s returned nothing", what)
		c.model[ns] = map[string]bool{}
		l.expect(c, side, ns, key(on, "", true, false), key(ond, "", true, false))
		l.expect(c, other, ns, key(on, "", false, false), key(ond, "", false, false))
		for s := 0; s < 2; s++ {
			c.ns[s][ns] = l.conn(c, s).Namespace(ns)
		}
		w.Check(n == c.ns[side][ns], "%s returned another namespace connection than the connected one", what)
		l.stats["connects"]++
	}
	if err != nil {
		w.Check(n == nil, "%s failed but returned a connection", what)
	}
	l.check(what)
}

func sortedRooms(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// withRooms returns a namespace of which some room is joined, if any, else the given one.
func (l *life) withRooms(c *lifeCli, ns string) string {
	if chance(l.r, 70) {
		for _, n := range l.nss {
			if len(c.model[n]) > 0 {
				return n
			}
		}
	}
	return ns
}

func (l *life) opDisconnect(c *lifeCli, side int, ns string) {
	w, r := l.w, l.r
	other := 1 - side
	what := fmt.Sprintf("disconnect of %s from %q by the %s", c.id, ns, sideName[side])
	rooms, connected := c.model[ns]
	h := c.ns[side][ns]
	if h == nil {
		return
	}
	text := ""
	if connected && r.Intn(4) == 0 {
		t := l.refuse(other, c, neffos.OnNamespaceDisconnect, ns, "")
		what += " (refused by the other side)"
		if other == sideS {
			text = t
		}
	} else if connected && r.Intn(6) == 0 {
		l.refuse(side, c, neffos.OnNamespaceDisconnect, ns, "") // its own error changes nothing.
	}
	var err error
	l.run(c, side, what, func() { err = h.Disconnect(w.Ctx()) })
	l.fence(c)
	l.allow()
	switch {
	case !connected:
		w.Check(err == neffos.ErrBadNamespace, "%s that is not connected: %v", what, err)
	case text != "":
		l.wantErr(what, err, text)
		l.expect(c, other, ns, key(neffos.OnNamespaceDisconnect, "", false, false))
		l.stats["refused_disconnects"]++
	default:
		l.wantErr(what, err, "")
		if other == sideS {
			l.expect(c, other, ns, key(neffos.OnNamespaceDisconnect, "", false, false))
		}
		for _, rm := range sortedRooms(rooms) {
			l.expect(c, other, ns, key(neffos.OnRoomLeave, rm, false, true), key(neffos.OnRoomLeft, rm, false, true))
			l.expect(c, side, ns, key(neffos.OnRoomLeave, rm, true, true), key(neffos.OnRoomLeft, rm, true, true))
		}
		l.expect(c, side, ns, key(neffos.OnNamespaceDisconnect, "", true, false))
		if other == sideC {
			l.expect(c, other, ns, key(neffos.OnNamespaceDisconnect, "", false, false))
		}
		delete(c.model, ns)
		l.stats["disconnects"]++
	}
	l.check(what)
}

func (l *life) opDisconnectAll(c *lifeCli, side int) {
	w := l.w
	other := 1 - side
	what := fmt.Sprintf("disconnect of %s from all namespaces by the %s", c.id, sideName[side])
	var err error
	l.ops = append(l.ops, what)
	w.Log("op %s", what)
	w.Call(func() { err = l.conn(c, side).DisconnectAll(w.Ctx()) }, "%s", what)
	l.wantErr(what, err, "")
	l.rig.Connect(c.cli, "ctl")
	l.fence(c)
	for ns, rooms := range c.model {
		if other == sideS {
			l.expect(c, other, ns, key(neffos.OnNamespaceDisconnect, "", false, false))
		}
		for _, rm := range sortedRooms(rooms) {
			l.expect(c, other, ns, key(neffos.OnRoomLeave, rm, false, true), key(neffos.OnRoomLeft, rm, false, true))
			l.expect(c, side, ns, key(neffos.OnRoomLeave, rm, true, true), key(neffos.OnRoomLeft, rm, true, true))
		}
		l.expect(c, side, ns, key(neffos.OnNamespaceDisconnect, "", true, false))
		if other == sideC {
			l.expect(c, other, ns, key(neffos.OnNamespaceDisconnect, "", false, false))
		}
		delete(c.model, ns)
		l.stats["disconnects"]++
	}
	l.check(what)
}

func (l *life) opJoin(c *lifeCli, side int, ns, room string) {
	w, r := l.w, l.r
	other := 1 - side
	what := fmt.Sprintf("join of %s to room %q of %q by the %s", c.id, room, ns, sideName[side])
	rooms, connected := c.model[ns]
	h := c.ns[side][ns]
	if h == nil || (!connected && h.Room(room) != nil) {
		return
	}
	if connected {
		h = l.conn(c, side).Namespace(ns)
	}
	text := ""
	if connected && !rooms[room] && r.Intn(4) == 0 {
		text = l.refuse(other, c, neffos.OnRoomJoin, ns, room)
		what += " (refused by the other side)"
	}
	own := ""
	if connected && !rooms[room] && text == "" && r.Intn(8) == 0 {
		own = l.refuse(side, c, neffos.OnRoomJoin, ns, room)
		what += " (refused by itself)"
	}
	if r.Intn(8) == 0 {
		l.refuse(other, c, neffos.OnRoomJoined, ns, room) // no effect.
		l.refuse(side, c, neffos.OnRoomJoined, ns, room)
	}
	var rm *neffos.Room
	var err error
	l.run(c, side, what, func() { rm, err = h.JoinRoom(w.Ctx(), room) })
	l.fence(c)
	l.allow()
	switch {
	case !connected:
		w.Check(err != nil && rm == nil, "%s succeeded on a disconnected namespace", what)
	case rooms[room]:
		w.Check(err == nil && rm == h.Room(room) && rm != nil, "%s that is already joined: %v", what, err)
	case text != "":
		l.wantErr(what, err, text)
		w.Check(rm == nil, "%s was refused but returned a room", what)
		l.expect(c, other, ns, key(neffos.OnRoomJoin, room, false, false))
		l.stats["refused_joins"]++
	case own != "":
		// the other side has joined already (see the limits), leave it from there.
		l.wantErr(what, err, own)
		w.Check(rm == nil && h.Room(room) == nil, "%s was refused but it is joined", what)
		l.expect(c, side, ns, key(neffos.OnRoomJoin, room, true, false))
		l.expect(c, other, ns, key(neffos.OnRoomJoin, room, false, false), key(neffos.OnRoomJoined, room, false, false))
		if rm := l.conn(c, other).Namespace(ns).Room(room); rm != nil {
			var err error
			l.run(c, other, what+", undone", func() { err = rm.Leave(w.Ctx()) })
			l.wantErr(what+", undone", err, "")
			l.expect(c, other, ns, key(neffos.OnRoomLeave, room, true, false), key(neffos.OnRoomLeft, room, true, false))
			l.fence(c)
		}
		l.stats["refused_joins"]++
	default:
		l.wantErr(what, err, "")
		w.Check(rm != nil && rm.Name == room && rm.NSConn == h, "%s returned a wrong room", what)
		rooms[room] = true
		l.expect(c, side, ns, key(neffos.OnRoomJoin, room, true, false), key(neffos.OnRoomJoined, room, true, false))
		l.expect(c, other, ns, key(neffos.OnRoomJoin, room, false, false), key(neffos.OnRoomJoined, room, false, false))
		for s := 0; s < 2; s++ {
			c.rooms[s][ns+"\x00"+room] = l.conn(c, s).Namespace(ns).Room(room)
		}
		l.stats["joins"]++
	}
	l.check(what)
}

func (l *life) opLeave(c *lifeCli, side int, ns, room string) {
	w, r := l.w, l.r
	other := 1 - side
	if rooms := sortedRooms(c.model[ns]); len(rooms) > 0 && chance(r, 60) {
		room = pick(r, rooms)
	}
	h := c.rooms[side][ns+"\x00"+room]
	if h == nil {
		return
	}
	what := fmt.Sprintf("leave of %s from room %q of %q by the %s", c.id, room, ns, sideName[side])
	rooms := c.model[ns]
	in := rooms[room] && h.NSConn == l.conn(c, side).Namespace(ns)
	if rooms[room] && !in {
		return // a handle of a previous namespace connection.
	}
	text, own := "", ""
	if in && r.Intn(4) == 0 {
		t := l.refuse(other, c, neffos.OnRoomLeave, ns, room)
		what += " (refused by the other side)"
		if other == sideS {
			text = t
		}
	} else if in && side == sideS && r.Intn(6) == 0 {
		own = l.refuse(side, c, neffos.OnRoomLeave, ns, room)
		what += " (refused by itself)"
	}
	if r.Intn(8) == 0 {
		l.refuse(other, c, neffos.OnRoomLeft, ns, room) // no effect.
		l.refuse(side, c, neffos.OnRoomLeft, ns, room)
	}
	var err error
	l.run(c, side, what, func() { err = h.Leave(w.Ctx()) })
	l.fence(c)
	l.allow()
	switch {
	case !in:
		w.Check(err != nil, "%s that is not joined succeeded", what)
	case text != "":
		l.wantErr(what, err, text)
		l.expect(c, other, ns, key(neffos.OnRoomLeave, room, false, false))
		l.stats["refused_leaves"]++
	case own != "":
		// the client has left already (see the limits), try again.
		l.wantErr(what, err, own)
		w.Check(h.NSConn.Room(room) != nil, "%s was refused but it is left", what)
		l.expect(c, side, ns, key(neffos.OnRoomLeave, room, true, false))
		l.expect(c, other, ns, key(neffos.OnRoomLeave, room, false, false), key(neffos.OnRoomLeft, room, false, false))
		l.run(c, side, what+", again", func() { err = h.Leave(w.Ctx()) })
		l.wantErr(what+", again", err, "")
		l.expect(c, side, ns, key(neffos.OnRoomLeave, room, true, false), key(neffos.OnRoomLeft, room, true, false))
		l.fence(c)
		delete(rooms, room)
		l.stats["refused_leaves"]++
	default:
		l.wantErr(what, err, "")
		delete(rooms, room)
		l.expect(c, side, ns, key(neffos.OnRoomLeave, room, true, false), key(neffos.OnRoomLeft, room, true, false))
		l.expect(c, other, ns, key(neffos.OnRoomLeave, room, false, false), key(neffos.OnRoomLeft, room, false, false))
		l.stats["leaves"]++
	}
	l.check(what)
}

func (l *life) opLeaveAll(c *lifeCli, side int, ns string) {
	w := l.w
	other := 1 - side
	h := c.ns[side][ns]
	rooms, connected := c.model[ns]
	if h == nil || !connected {
		return
	}
	what := fmt.Sprintf("leave of %s from all rooms of %q by the %s", c.id, ns, sideName[side])
	var err error
	l.run(c, side, what, func() { err = h.LeaveAll(w.Ctx()) })
	l.fence(c)
	l.wantErr(what, err, "")
	for _, rm := range sortedRooms(rooms) {
		l.expect(c, side, ns, key(neffos.OnRoomLeave, rm, true, false), key(neffos.OnRoomLeft, rm, true, false))
		l.expect(c, other, ns, key(neffos.OnRoomLeave, rm, false, false), key(neffos.OnRoomLeft, rm, false, false))
		delete(rooms, rm)
		l.stats["leaves"]++
	}
	l.check(what)
}

// opTraffic sends something through a handle that may be stale.
func (l *life) opTraffic(c *lifeCli, side int, ns, room string) {
	w, r := l.w, l.r
	other := 1 - side
	rooms, connected := c.model[ns]
	l.seq++
	body := fmt.Sprintf("t%d;x", l.seq)
	event := pick(r, []string{"m", "m;2"})
	h, rh := c.ns[side][ns], c.rooms[side][ns+"\x00"+room]
	got := func(rm string) {
		l.expect(c, other, ns, evKey(Ev{Event: event, Room: rm, Body: body}))
		l.stats["delivered"]++
	}
	conn := l.conn(c, side)
	what := ""
	switch r.Intn(6) {
	case 0, 1: // namespace emit.
		if h == nil {
			return
		}
		what = fmt.Sprintf("emit of %s to %q by the %s", c.id, ns, sideName[side])
		var ok bool
		l.run(c, side, what, func() {
			if r.Intn(2) == 0 {
				ok = h.Emit(event, []byte(body))
			} else {
				ok = h.EmitBinary(event, []byte(body))
			}
		})
		w.Check(ok == connected, "%s reported %v, the namespace is connected: %v", what, ok, connected)
		if connected {
			got("")
		} else {
			l.stats["refused_sends"]++
		}
	case 2: // room emit.
		if rh == nil {
			return
		}
		what = fmt.Sprintf("emit of %s to room %q of %q by the %s", c.id, room, ns, sideName[side])
		var ok bool
		l.run(c, side, what, func() { ok = rh.Emit(event, []byte(body)) })
		w.Check(ok == rooms[room], "%s reported %v, the room is joined: %v", what, ok, rooms[room])
		if rooms[room] {
			got(room)
		} else {
			l.stats["refused_sends"]++
		}
	case 3: // Conn.Write of anything.
		rm := ""
		if r.Intn(2) == 0 {
			rm = room
		}
		what = fmt.Sprintf("write of %s to %q, room %q by the %s", c.id, ns, rm, sideName[side])
		var ok bool
		l.run(c, side, what, func() {
			ok = conn.Write(neffos.Message{Namespace: ns, Room: rm, Event: event, Body: []byte(body)})
		})
		want := connected && (rm == "" || rooms[rm])
		w.Check(ok == want, "%s reported %v, should be %v", what, ok, want)
		if want {
			got(rm)
		} else {
			l.stats["refused_sends"]++
		}
	case 4: // an ask on something that is not connected or joined fails; on a connected one the callback refuses.
		rm := ""
		if r.Intn(2) == 0 {
			rm = room
		}
		want := connected && (rm == "" || rooms[rm])
		what = fmt.Sprintf("ask of %s to %q, room %q by the %s", c.id, ns, rm, sideName[side])
		text := ""
		if want {
			text = l.refuse(other, c, event, ns, rm)
		}
		var err error
		l.run(c, side, what, func() {
			_, err = conn.Ask(w.Ctx(), neffos.Message{Namespace: ns, Room: rm, Event: event, Body: []byte(body)})
		})
		if want {
			l.wantErr(what, err, text)
			got(rm)
		} else {
			w.Check(err != nil, "%s succeeded on something that is not connected or joined", what)
			l.stats["refused_sends"]++
		}
		l.allow()
	case 5: // a broadcast, by membership at the server.
		rm := ""
		if r.Intn(2) == 0 {
			rm = room
		}
		what = fmt.Sprintf("broadcast to %q, room %q", ns, rm)
		l.run(c, sideS, what, func() {
			l.rig.Srv.Broadcast(nil, neffos.Message{Namespace: ns, Room: rm, Event: event, Body: []byte(body)})
			l.rig.Srv.Broadcast(nil, neffos.Message{Namespace: "ctl", Event: "bf", Body: []byte(body)})
		})
		for _, x := range l.clis {
			if x.down {
				continue
			}
			w.Await(func() bool { _, ok := x.fence.Load(body); return ok }, "the broadcast that follows at %s", x.id)
			if rs, ok := x.model[ns]; ok && (rm == "" || rs[rm]) {
				l.expect(x, sideC, ns, evKey(Ev{Event: event, Room: rm, Body: body}))
				l.stats["delivered"]++
			} else {
				l.stats["not_delivered"]++
			}
		}
	}
	l.fence(c)
	l.check(what)
}

// end terminates a connection and expects the forced events.
func (l *life) end(c *lifeCli, how string) {
	w := l.w
	l.ops = append(l.ops, how+" of "+c.id)
	w.Log("op %s of %s", how, c.id)
	switch how {
	case "client close":
		w.Call(c.cli.Close, "client close")
	case "server side close":
		w.Call(c.sconn.Close, "server side close")
	case "cut":
		c.link.Cut()
	case "server close":
		w.Call(l.rig.Srv.Close, "server close")
	}
	for _, x := range l.clis {
		if x.down || (x != c && how != "server close") {
			continue
		}
		w.Chan(x.cli.NotifyClose, "NotifyClose of %s after %s", x.id, how)
		w.Chan(x.gone, "OnDisconnect of %s after %s", x.id, how)
		x.down = true
		for ns, rooms := range x.model {
			for side := 0; side < 2; side++ {
				for _, rm := range sortedRooms(rooms) {
					l.expect(x, side, ns, key(neffos.OnRoomLeave, rm, true, true), key(neffos.OnRoomLeft, rm, true, true))
				}
				l.expect(x, side, ns, key(neffos.OnNamespaceDisconnect, "", true, true))
			}
			delete(x.model, ns)
			l.stats["forced_disconnects"]++
		}
	}
	l.check(how)
}

func (l *life) report() {
	for k, v := range l.stats {
		l.w.Stat(k, v)
	}
	l.w.Stat("operations", int64(len(l.ops)))
	l.w.Sign(strings.Join(l.ops, "\n"))
}
