package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C25", Quick: 1800, Thorough: 15000, Run: runC25,
		Rule: "a case is a generated tree of handlers (events, namespaces, timeouts, joins, incremental registration) for each side, whose flattened table is known; the table is read back, the inputs are compared before and after, and 30-120 messages of declared, undeclared, similar and system events for all namespaces, rooms and kinds are sent by both sides and the fired callbacks are compared with the table. Non-trivial: an override, an any-event fallback and an undeclared event were exercised. Distinct: by the hash of table and messages. Struct controllers are part of the composed handlers"})
}

// a table of labels: namespace > event > label.
type labels map[string]map[string]string

func (l labels) clone() labels {
	o := labels{}
	o.add(l)
	return o
}

func (l labels) add(o labels) (overrides int) {
	for ns, evs := range o {
		if l[ns] == nil {
			l[ns] = map[string]string{}
		}
		for e, x := range evs {
			if l[ns][e] != "" {
				overrides++
			}
			l[ns][e] = x
		}
	}
	return
}

func (l labels) String() string {
	var s []string
	for ns, evs := range l {
		s = append(s, fmt.Sprintf("%q:", ns))
		for e, x := range evs {
			s = append(s, fmt.Sprintf("%q.%q=%s", ns, e, x))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

type fired struct {
	label string
	ns    string
	event string
	room  string
	body  string
	conn  string
}

type dispatch struct {
	w         *W
	side      string
	n         int
	overrides int
	mu        sync.Mutex
	log       []fired
	probes    int
	inputs    []func() // checks of the inputs
	nss, evs  []string
}

func (d *dispatch) cb() (neffos.MessageHandlerFunc, string) {
	d.n++
	label := fmt.Sprintf("%s%d", d.side, d.n)
	return func(c *neffos.NSConn, m neffos.Message) error {
		f := fired{label: label, ns: m.Namespace, event: m.Event, room: m.Room, body: string(m.Body)}
		if c != nil {
			f.conn = c.Conn.ID()
		}
		d.mu.Lock()
		d.log = append(d.log, f)
		d.mu.Unlock()
		d.w.Event()
		if strings.HasPrefix(f.body, "err") {
			return fmt.Errorf("an error")
		}
		if strings.HasPrefix(f.body, "ask") {
			return neffos.Reply([]byte(label))
		}
		return nil
	}, label
}

func (d *dispatch) events(r *randT) (neffos.Events, map[string]string) {
	e, l := neffos.Events{}, map[string]string{}
	for i := r.Intn(5); i > 0; i-- {
		name := pick(r, d.evs)
		cb, label := d.cb()
		if chance(r, 30) {
			e.On(name, cb)
		} else {
			e[name] = cb
		}
		l[name] = label
	}
	if chance(r, 30) {
		cb, label := d.cb()
		e[neffos.OnAnyEvent] = cb
		l[neffos.OnAnyEvent] = label
	}
	return e, l
}

// read reads the table back from the namespaces.
func (d *dispatch) read(nss neffos.Namespaces) labels {
	out := labels{}
	for ns, evs := range nss {
		if evs == nil {
			continue
		}
		out[ns] = map[string]string{}
		for e, cb := range evs {
			// callbacks of a closing connection may still fire, so the call is recognized by its body.
			d.probes++
			body := fmt.Sprint("probe", d.probes)
			cb(nil, neffos.Message{Body: []byte(body)})
			d.mu.Lock()
			var rest []fired
			n := 0
			for _, f := range d.log {
				if f.body == body && f.conn == "" {
					out[ns][e] = f.label
					n++
				} else {
					rest = append(rest, f)
				}
			}
			d.log = rest
			d.mu.Unlock()
			d.w.Check(n <= 1, "a callback fired %d times by one call", n)
		}
	}
	return out
}

func (d *dispatch) watch(h neffos.ConnHandler, want labels, what string) {
	w := d.w
	want = want.clone()
	d.inputs = append(d.inputs, func() {
		got := d.read(h.GetNamespaces())
		w.Check(got.String() == want.String(), "%s: a handler was modified (or does not expose what it was given): it is now %s, expected %s", what, got, want)
	})
}

// dispCtl is a static controller whose methods call the callbacks of a table.
type dispCtl struct {
	Namespace string
	cbs       map[string]neffos.MessageHandlerFunc
}

func (c *dispCtl) E(n *neffos.NSConn, m neffos.Message) error       { return c.cbs["E"](n, m) }
func (c *dispCtl) OnE(n *neffos.NSConn, m neffos.Message) error     { return c.cbs["OnE"](n, m) }
func (c *dispCtl) Once(n *neffos.NSConn, m neffos.Message) error    { return c.cbs["Once"](n, m) }
func (c *dispCtl) OnOnce(n *neffos.NSConn, m neffos.Message) error  { return c.cbs["OnOnce"](n, m) }
func (c *dispCtl) MoreOn(n *neffos.NSConn, m neffos.Message) error  { return c.cbs["MoreOn"](n, m) }
func (c *dispCtl) OnEvent(n *neffos.NSConn, m neffos.Message) error { return c.cbs["OnEvent"](n, m) }
func (c *dispCtl) OnRoomJoined(n *neffos.NSConn, m neffos.Message) error {
	return c.cbs["OnRoomJoined"](n, m)
}
func (c *dispCtl) OnNamespaceConnected(n *neffos.NSConn, m neffos.Message) error {
	return c.cbs["OnNamespaceConnected"](n, m)
}
func (c *dispCtl) NotAnEvent(m neffos.Message) error                     { return c.cbs["E"](nil, m) }
func (c *dispCtl) NoError(n *neffos.NSConn, m neffos.Message)            { c.cbs["E"](nil, m) }
func (c *dispCtl) More(n *neffos.NSConn, m neffos.Message, _ bool) error { return c.cbs["E"](n, m) }
func (c *dispCtl) Result(n *neffos.NSConn, m neffos.Message) (error, error) {
	return nil, c.cbs["E"](n, m)
}

// structure: a static controller as a handler or as the events of one.
func (d *dispatch) structure(r *randT) (neffos.ConnHandler, labels) {
	c := &dispCtl{cbs: map[string]neffos.MessageHandlerFunc{}}
	names := map[string]string{}
	for _, m := range []string{"E", "OnE", "Once", "OnOnce", "MoreOn", "OnEvent", "OnRoomJoined", "OnNamespaceConnected"} {
		c.cbs[m], names[m] = d.cb()
	}
	ns := pick(r, d.nss)
	var st *neffos.Struct
	if chance(r, 40) {
		c.Namespace = ns
		st = neffos.NewStruct(c)
	} else {
		c.Namespace = pick(r, []string{"", ns, "z"})
		st = neffos.NewStruct(c)
		if ns == "" {
			c.Namespace = "" // it is the field's then.
		}
		d.w.Check(st.SetNamespace(ns) == st, "SetNamespace returns another Struct")
	}
	match := func(m string) (string, bool) { return m, true }
	switch prefix := pick(r, []string{"On", "On", "O", "OnO", "OnE", "", "Once", "onE", "E"}); r.Intn(4) {
	case 0:
		st.SetEventMatcher(neffos.EventPrefixMatcher(prefix))
		match = func(m string) (string, bool) { return m, m[:min(len(prefix), len(m))] == prefix }
	case 1:
		st.SetEventMatcher(neffos.EventTrimPrefixMatcher(prefix))
		match = func(m string) (string, bool) {
			if len(m) < len(prefix) || m[:len(prefix)] != prefix {
				return "", false
			}
			return m[len(prefix):], true
		}
	case 2:
		to := map[string]string{"E": "e", "OnE": "f", "MoreOn": "ee", "OnEvent": "e;f", "Once": "_OnOther"}
		match = func(m string) (string, bool) { e, ok := to[m]; return e, ok }
		st.SetEventMatcher(match)
	}
	l := map[string]string{}
	for m, label := range names {
		if isSystemMethod(m) {
			l["_"+m] = label
		} else if ev, ok := match(m); ok {
			l[ev] = label
		}
	}
	if chance(r, 30) {
		e := st.Events()
		d.watch(e, labels{"": l}, "the events of a struct")
		return e, labels{"": l}
	}
	d.watch(st, labels{ns: l}, "struct")
	if chance(r, 30) {
		st.SetTimeouts(time.Minute, time.Minute)
	}
	return st, labels{ns: l}
}

func (d *dispatch) gen(r *randT, depth int) (neffos.ConnHandler, labels) {
	if chance(r, 15) {
		return d.structure(r)
	}
	k := r.Intn(6)
	if depth == 0 {
		k = r.Intn(3)
	}
	switch k {
	case 0:
		e, l := d.events(r)
		d.watch(e, labels{"": l}, "events")
		return e, labels{"": l}
	case 1, 2:
		n, l := neffos.Namespaces{}, labels{}
		for i := r.Intn(3); i >= 0; i-- {
			ns := pick(r, d.nss)
			if chance(r, 30) {
				cb, label := d.cb()
				ev := pick(r, d.evs)
				got := n.On(ns, ev, cb)
				if l[ns] == nil {
					l[ns] = map[string]string{}
				}
				l[ns][ev] = label
				d.w.Check(len(got) == len(l[ns]) && len(n[ns]) == len(l[ns]), "Namespaces.On lost events")
			} else {
				var lb map[string]string
				n[ns], lb = d.events(r)
				l[ns] = lb
			}
		}
		d.watch(n, l, "namespaces")
		return n, l
	case 3:
		t, l := neffos.WithTimeout{}, labels{}
		if chance(r, 30) {
			t.ReadTimeout, t.WriteTimeout = time.Minute, time.Minute
		}
		if chance(r, 80) {
			n, nl := neffos.Namespaces{}, labels{}
			for i := r.Intn(3); i >= 0; i-- {
				ns := pick(r, d.nss)
				var lb map[string]string
				n[ns], lb = d.events(r)
				nl[ns] = lb
			}
			t.Namespaces = n
			l.add(nl)
			d.watch(n, nl, "the namespaces of a timeout")
		}
		if chance(r, 60) {
			e, el := d.events(r)
			t.Events = e
			d.overrides += l.add(labels{"": el})
			d.watch(e, labels{"": el}, "the events of a timeout")
		}
		d.watch(t, l, "timeout")
		return t, l
	default:
		var hs []neffos.ConnHandler
		l := labels{}
		for i := r.Intn(4); i >= 0; i-- {
			h, hl := d.gen(r, depth-1)
			hs = append(hs, h)
			d.overrides += l.add(hl)
		}
		h := neffos.JoinConnHandlers(hs...)
		d.watch(h, l, "join")
		return h, l
	}
}

func newDispatch(w *W, side string) (*dispatch, neffos.ConnHandler, labels) {
	r := w.R
	d := &dispatch{w: w, side: side,
		nss: []string{"", "a", "b", "A", "a;", "a b"},
		evs: []string{"e", "f", "E", "ee", "", "e;f", "_OnOther", "Once", "OnE", "vent", neffos.OnRoomJoined, neffos.OnNamespaceConnected, neffos.OnRoomLeft, neffos.OnNamespaceDisconnect}}
	h, l := d.gen(r, 3)
	// whatever was generated, joined with a fence.
	fence := neffos.Namespaces{"fence": neffos.Events{"f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) }}}
	if _, isEvents := h.(neffos.Events); isEvents && chance(r, 20) {
		h.(neffos.Events)["fence!"] = fence["fence"]["f"]
	} else {
		switch r.Intn(3) {
		case 0:
			h = neffos.JoinConnHandlers(h, fence)
		case 1:
			h = neffos.WithTimeout{Namespaces: neffos.JoinConnHandlers(fence, h).GetNamespaces()}
		default:
			n := h.GetNamespaces()
			c := neffos.Namespaces{}
			for k, v := range n {
				c[k] = v
			}
			for k := range c {
				if c[k] == nil {
					delete(c, k)
				}
			}
			c["fence"] = fence["fence"]
			h = c
		}
	}
	return d, h, l
}

func runC25(w *W) {
	r := w.R
	kind := pick(r, transports)
	sd, sh, sl := newDispatch(w, "s")
	cd, ch, cl := newDispatch(w, "c")
	_, sFence := sh.GetNamespaces()["fence"]
	_, cFence := ch.GetNamespaces()["fence"]
	sNS, cNS := sFence, cFence
	for _, d := range []*dispatch{sd, cd} {
		for _, f := range d.inputs {
			f()
		}
	}
	var sconn *neffos.Conn
	ready := make(chan struct{})
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { sconn = c; close(ready); return nil }
	})
	c, _ := rig.Dial("x", ch)
	w.Chan(ready, "the server's connection")
	all := append([]string{"fence", "undeclared"}, sd.nss...)
	type pair struct{ s, c *neffos.NSConn }
	conns := map[string]pair{}
	declared := func(l labels, fence bool, ns string) bool { return l[ns] != nil || fence && ns == "fence" }
	// which namespaces can be connected is part of the table.
	for _, ns := range all {
		both := declared(sl, sNS, ns) && declared(cl, cNS, ns)
		var cn *neffos.NSConn
		var err error
		w.Call(func() { cn, err = c.Connect(w.Ctx(), ns) }, "connect to %q", ns)
		if !both {
			w.Check(err == neffos.ErrBadNamespace, "connect to namespace %q, declared by server %v and client %v, returned %v", ns, declared(sl, sNS, ns), declared(cl, cNS, ns), err)
			continue
		}
		w.Check(err == nil && cn != nil, "connect to declared namespace %q failed: %v", ns, err)
		w.Await(func() bool { return sconn.Namespace(ns) != nil }, "the server side of %q", ns)
		conns[ns] = pair{sconn.Namespace(ns), cn}
	}
	// sees what the connected callbacks did, then starts from an empty log.
	var names []string
	for ns := range conns {
		names = append(names, ns)
	}
	sort.Strings(names)
	resolve := func(l labels, ns, ev string) string {
		if x, ok := l[ns][ev]; ok {
			return x
		}
		return l[ns][neffos.OnAnyEvent]
	}
	expect := func(d *dispatch, l labels, what string, want []fired) {
		d.mu.Lock()
		got := append([]fired(nil), d.log...)
		d.log = nil
		d.mu.Unlock()
		w.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s on side %s: fired %v, expected %v; table %s", what, d.side, got, want, l)
	}
	system := func(l labels, seq ...string) (out []fired) { // ns, event, room triples
		for i := 0; i+2 < len(seq); i += 3 {
			if x := resolve(l, seq[i], seq[i+1]); x != "" {
				out = append(out, fired{label: x, ns: seq[i], event: seq[i+1], room: seq[i+2], conn: "x"})
			}
		}
		return
	}
	sent, undeclared, fallback := 0, 0, 0
	if len(names) > 0 {
		// the callbacks of the connects, in the order of the calls.
		var ws, wc []fired
		for _, ns := range all {
			if _, ok := conns[ns]; ok {
				wc = append(wc, system(cl, ns, neffos.OnNamespaceConnect, "", ns, neffos.OnNamespaceConnected, "")...)
				ws = append(ws, system(sl, ns, neffos.OnNamespaceConnect, "", ns, neffos.OnNamespaceConnected, "")...)
			} else {
				if declared(cl, cNS, ns) { // asked locally first.
					wc = append(wc, system(cl, ns, neffos.OnNamespaceConnect, "")...)
				}
			}
		}
		// the server's connected callback may follow its reply.
		w.Await(func() bool { sd.mu.Lock(); defer sd.mu.Unlock(); return len(sd.log) >= len(ws) }, "the callbacks of the server's namespaces, %d", len(ws))
		expect(cd, cl, "connects", wc)
		expect(sd, sl, "connects", ws)
		for round := 0; round < 3+r.Intn(4); round++ {
			ns := pick(r, names)
			p := conns[ns]
			toServer := chance(r, 50)
			from, to, l, d := p.c, p.s, sl, sd
			if !toServer {
				from, to, l, d = p.s, p.c, cl, cd
			}
			_ = to
			room := ""
			if chance(r, 30) {
				room = "room"
				var err error
				w.Call(func() { _, err = p.c.JoinRoom(w.Ctx(), room) }, "join")
				w.Check(err == nil, "join failed: %v", err)
				if chance(r, 0) {
					round--
				}
				ws, wc := system(sl, ns, neffos.OnRoomJoin, room, ns, neffos.OnRoomJoined, room), system(cl, ns, neffos.OnRoomJoin, room, ns, neffos.OnRoomJoined, room)
				expect(sd, sl, "join", ws)
				expect(cd, cl, "join", wc)
			}
			var want []fired
			for k := 0; k < 10+r.Intn(10); k++ {
				ev := pick(r, append([]string{"undeclared", "_OnX", "e ", "OnAnyEvent", "g", "é"}, sd.evs[:7]...))
				body := fmt.Sprint("m", sent)
				x := resolve(l, ns, ev)
				m := neffos.Message{Namespace: ns, Room: room, Event: ev, SetBinary: chance(r, 20)}
				switch {
				case x != "" && chance(r, 30):
					body = fmt.Sprint("ask", sent)
					m.Body = []byte(body)
					var reply neffos.Message
					var err error
					w.Call(func() { reply, err = from.Conn.Ask(w.Ctx(), m) }, "ask %q of %q", ev, ns)
					w.Check(err == nil && string(reply.Body) == x, "an ask of event %q was answered by %q, %v, expected %s", ev, reply.Body, err, x)
				default:
					m.Body = []byte(body)
					w.Check(from.Conn.Write(m), "write failed")
				}
				if x != "" {
					want = append(want, fired{x, ns, ev, room, body, "x"})
					if _, ok := l[ns][ev]; !ok {
						fallback++
					}
				} else {
					undeclared++
				}
				sent++
			}
			// a fence on the same connection.
			if pf, ok := conns["fence"]; ok {
				f := pf.c
				if !toServer {
					f = pf.s
				}
				var err error
				w.Call(func() { _, err = f.Ask(w.Ctx(), "f", nil) }, "fence")
				w.Check(err == nil, "fence: %v", err)
			} else {
				// any request to an undeclared namespace is answered in order.
				var err error
				w.Call(func() {
					_, err = from.Conn.Ask(w.Ctx(), neffos.Message{Namespace: "undeclared", Event: neffos.OnNamespaceDisconnect})
				}, "fence")
				w.Check(err == nil, "fence: %v", err)
			}
			expect(d, l, "messages", want)
			od, ol := cd, cl
			if !toServer {
				od, ol = sd, sl
			}
			expect(od, ol, "messages to the other side", nil)
			if room != "" {
				var err error
				w.Call(func() { err = p.c.LeaveAll(w.Ctx()) }, "leave")
				w.Check(err == nil, "leave failed: %v", err)
				expect(sd, sl, "leave", system(sl, ns, neffos.OnRoomLeave, room, ns, neffos.OnRoomLeft, room))
				expect(cd, cl, "leave", system(cl, ns, neffos.OnRoomLeave, room, ns, neffos.OnRoomLeft, room))
			}
		}
	}
	w.Call(rig.Close, "server close")
	w.Await(func() bool { return conns == nil || sconn.IsClosed() }, "the close")
	// the inputs are as before, also after changing the used handlers.
	for _, d := range []*dispatch{sd, cd} {
		for _, f := range d.inputs {
			f()
		}
	}
	w.Stat("messages", int64(sent))
	w.Stat("undeclared", int64(undeclared))
	w.Stat("any_event_fallbacks", int64(fallback))
	w.Stat("overrides", int64(sd.overrides+cd.overrides))
	w.Sign(sl.String() + cl.String() + fmt.Sprint(sent))
	w.Sample("%s: server %s; client %s", kind, clip(sl.String(), 200), clip(cl.String(), 200))
	if undeclared > 0 && fallback > 0 {
		w.Nontrivial()
	}
}
