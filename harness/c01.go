package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C01", Quick: 1400, Thorough: 10000, Run: runC01,
		Rule: "a case is either a batch of generated messages through Serialize/DeserializeMessage, or generated namespaces, rooms, events and bodies sent through a real connection of one of 5 transports in both directions (emit, binary emit, room emit, write, broadcast), or malformed payloads from a raw peer. Non-trivial: at least one field with a separator or a non-ASCII text, or a body with separators. Distinct: by the hash of the generated inputs"})
	register(&Prop{ID: "C02", Quick: 1200, Thorough: 10000, Run: runC02,
		Rule: "a case is a connection of one of 5 transports on which generated reply bodies and error texts are returned by callbacks of both sides to asks, plain messages, connects, joins, leaves and disconnects. Non-trivial: replies and errors were both observed. Distinct: by the hash of the generated inputs. The messages that a callback writes out before its result (emits of its own) are counted as well"})
}

func runC01(w *W) {
	switch w.Case % 5 {
	case 0:
		c01Codec(w)
	case 1:
		c01Malformed(w)
	default:
		c01EndToEnd(w)
	}
}

func sameBody(a, b []byte) bool { return bytes.Equal(a, b) }

func c01Codec(w *W) {
	r := w.R
	for i := 0; i < 400; i++ {
		m := neffos.Message{Namespace: field(r, 6), Room: field(r, 6), Event: field(r, 6)}
		if m.Event == neffos.OnNativeMessage {
			continue
		}
		native := chance(r, 30)
		switch r.Intn(4) {
		case 0:
			m.Body = randBytes(r, bodySize(r))
		case 1:
			m.Body = textBody(r, bodySize(r))
		case 2:
			m.Body = []byte(strings.Repeat(";", r.Intn(12)))
		case 3:
			m.Err = errors.New(string(textBody(r, r.Intn(40))))
		}
		body := append([]byte(nil), m.Body...)
		typ := neffos.MessageType(neffos.TextMessage)
		if chance(r, 50) {
			typ = neffos.MessageType(neffos.BinaryMessage)
		}
		ser := m.Serialize()
		keep := append([]byte(nil), ser...)
		got := neffos.DeserializeMessage(typ, ser, native, false)
		w.Event()
		w.Check(bytes.Equal(ser, keep), "deserialization changed its input")
		w.Check(bytes.Equal(m.Body, body), "serialization changed the body")
		in := fmt.Sprintf("ns %q room %q event %q body %q err %v", m.Namespace, m.Room, m.Event, clip(string(m.Body), 80), m.Err)
		w.Check(got.Namespace == m.Namespace && got.Room == m.Room && got.Event == m.Event, "%s came back as ns %q room %q event %q", in, got.Namespace, got.Room, got.Event)
		w.Check(got.SetBinary == (typ == neffos.BinaryMessage), "%s: binary kind is %v", in, got.SetBinary)
		w.Check(!got.IsNative && !got.FromStackExchange && got.FromExplicit == "" && got.To == "" && !got.IsForced && !got.IsLocal, "%s: flags are set: %+v", in, got)
		w.Check(!got.IsWait(true) && !got.IsWait(false), "%s: it waits for a reply", in)
		if m.Err != nil {
			w.Check(got.Err != nil && got.Err.Error() == m.Err.Error(), "%s: the error came back as %v", in, got.Err)
			w.Check(len(got.Body) == 0, "%s: has body %q", in, got.Body)
		} else {
			w.Check(got.Err == nil, "%s: error %v", in, got.Err)
			w.Check(sameBody(got.Body, body), "%s: the body came back as %q", in, clip(string(got.Body), 80))
		}
		if again := got.Serialize(); true {
			w.Check(bytes.Equal(again, keep), "%s: serialized again it is %q instead of %q", in, clip(string(again), 200), clip(string(keep), 200))
		}
		if i%50 == 0 {
			w.Sign(in)
		}
	}
	// objects.
	type obj struct {
		A string
		B []int
		C map[string]string
	}
	for i := 0; i < 20; i++ {
		o := obj{A: string(textBody(r, r.Intn(30))), B: []int{r.Int(), r.Int()}, C: map[string]string{field(r, 3): field(r, 3)}}
		b := neffos.Marshal(o)
		m := neffos.Message{Event: "e", Body: b}
		got := neffos.DeserializeMessage(neffos.TextMessage, m.Serialize(), false, false)
		var back obj
		err := got.Unmarshal(&back)
		w.Check(err == nil && fmt.Sprint(back) == fmt.Sprint(o), "object %v came back as %v, %v", o, back, err)
		x := custom{string(randBytes(r, 20))}
		var y custom
		m = neffos.Message{Event: "e", Body: neffos.Marshal(x)}
		got = neffos.DeserializeMessage(neffos.BinaryMessage, m.Serialize(), false, false)
		err = got.Unmarshal(&y)
		w.Check(err == nil && y.v == x.v, "custom object %q came back as %q, %v", x.v, y.v, err)
	}
	w.Sample("400 generated messages through Serialize and DeserializeMessage")
	w.Stat("codec_messages", 400)
	w.Nontrivial()
}

type custom struct{ v string }

func (c custom) Marshal() ([]byte, error)  { return append([]byte("<"), c.v...), nil }
func (c *custom) Unmarshal(b []byte) error { c.v = strings.TrimPrefix(string(b), "<"); return nil }

type sent struct {
	ns, room, event string
	body            []byte
	binary          bool
}

func (s sent) String() string {
	return fmt.Sprintf("ns %q room %q event %q body(%d) %q binary %v", s.ns, s.room, s.event, len(s.body), clip(string(s.body), 60), s.binary)
}

func distinctFields(r *rand.Rand, n, max int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		f := field(r, max)
		if seen[f] || strings.HasPrefix(f, "_On") {
			continue
		}
		seen[f] = true
		out = append(out, f)
	}
	return out
}

func c01EndToEnd(w *W) {
	r := w.R
	kind := pick(r, transports)
	nss := distinctFields(r, 1+r.Intn(3), 5)
	events := distinctFields(r, 1+r.Intn(4), 5)
	rooms := distinctFields(r, 1+r.Intn(3), 5)
	var roomsOK []string
	for _, x := range rooms {
		if x != "" {
			roomsOK = append(roomsOK, x)
		}
	}
	if len(roomsOK) == 0 {
		roomsOK = []string{"r;1"}
	}
	type got struct {
		sent
		copy []byte
		m    neffos.Message
	}
	var mu sync.Mutex
	recv := map[string][]*got{"S": nil, "C": nil}
	cb := func(side string, ns, event string) neffos.MessageHandlerFunc {
		return func(c *neffos.NSConn, m neffos.Message) error {
			g := &got{sent{ns, m.Room, event, append([]byte(nil), m.Body...), m.SetBinary}, nil, m}
			w.Event()
			w.Check(m.Namespace == ns && m.Event == event, "callback of ns %q event %q got ns %q event %q", ns, event, m.Namespace, m.Event)
			w.Check(m.Err == nil && !m.IsLocal && !m.IsForced && !m.IsNative && m.To == "" && m.FromExplicit == "", "flags of a received message: %+v", m)
			mu.Lock()
			recv[side] = append(recv[side], g)
			mu.Unlock()
			return nil
		}
	}
	mk := func(side string) neffos.Namespaces {
		h := neffos.Namespaces{}
		for _, ns := range nss {
			h[ns] = neffos.Events{}
			for _, e := range events {
				h[ns][e] = cb(side, ns, e)
			}
		}
		return h
	}
	rig := NewRig(w, kind, mk("S"))
	cli, _ := rig.Dial("id;"+field(r, 3), mk("C"))
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	cns, sns := map[string]*neffos.NSConn{}, map[string]*neffos.NSConn{}
	for _, ns := range nss {
		cns[ns] = rig.Connect(cli, ns)
		sns[ns] = sconn.Namespace(ns)
		w.Check(sns[ns] != nil, "namespace %q is not connected on the server", ns)
		for _, rm := range roomsOK {
			_, err := cns[ns].JoinRoom(w.Ctx(), rm)
			w.Check(err == nil, "join of room %q: %v", rm, err)
			w.Check(sns[ns].Room(rm) != nil && cns[ns].Room(rm) != nil, "room %q is not joined on both sides", rm)
		}
	}
	nmsg := 6 + r.Intn(20)
	for side, m := range map[string]map[string]*neffos.NSConn{"S": cns, "C": sns} { // receiver side, sender's namespaces
		var out []sent
		for i := 0; i < nmsg; i++ {
			s := sent{ns: pick(r, nss), event: pick(r, events), binary: chance(r, 50)}
			if s.binary {
				s.body = randBytes(r, bodySize(r))
				if chance(r, 20) {
					s.body = []byte(strings.Repeat(";", r.Intn(12)))
				}
			} else {
				s.body = textBody(r, bodySize(r))
			}
			if i == 0 && chance(r, 25) {
				s.body = []byte(strings.Repeat("y", 200000+r.Intn(100000)))
			}
			orig := append([]byte(nil), s.body...)
			ns := m[s.ns]
			ok := false
			how := r.Intn(4)
			if how == 3 && side == "S" {
				how = 2
			}
			switch how {
			case 0:
				s.room = pick(r, roomsOK)
				if s.binary {
					ok = ns.Conn.Write(neffos.Message{Namespace: s.ns, Room: s.room, Event: s.event, Body: s.body, SetBinary: true})
				} else {
					ok = ns.Room(s.room).Emit(s.event, s.body)
				}
			case 1:
				if s.binary {
					ok = ns.EmitBinary(s.event, s.body)
				} else {
					ok = ns.Emit(s.event, s.body)
				}
			case 2:
				if chance(r, 50) {
					s.room = pick(r, roomsOK)
				}
				ok = ns.Conn.Write(neffos.Message{Namespace: s.ns, Room: s.room, Event: s.event, Body: s.body, SetBinary: s.binary})
			case 3:
				if chance(r, 50) {
					s.room = pick(r, roomsOK)
				}
				rig.Srv.Broadcast(nil, neffos.Message{Namespace: s.ns, Room: s.room, Event: s.event, Body: s.body, SetBinary: s.binary})
				ok = true
				// the broadcast has its own path, keep the order observable.
				n := len(out) + 1
				w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(recv[side]) >= n }, "broadcast %s", s)
			}
			w.Check(ok, "sending %s reported failure", s)
			w.Check(bytes.Equal(orig, s.body), "sending changed the caller's body")
			out = append(out, s)
		}
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(recv[side]) >= len(out) }, "%d messages at %s", len(out), side)
		// fence.
		fe := sent{ns: nss[0], event: events[0], body: []byte("fence")}
		m[fe.ns].Emit(fe.event, fe.body)
		out = append(out, fe)
		w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(recv[side]) >= len(out) }, "fence at %s", side)
		mu.Lock()
		w.Check(len(recv[side]) == len(out), "%d messages received, %d sent", len(recv[side]), len(out))
		for i, g := range recv[side] {
			s := out[i]
			w.Check(g.ns == s.ns && g.room == s.room && g.event == s.event && g.binary == s.binary && sameBody(g.body, s.body),
				"sent %s, received %s (%s)", s, g.sent, kind)
			w.Check(sameBody(g.m.Body, s.body), "the received body of %s changed after its callback", s)
			w.Sign(s.String())
		}
		mu.Unlock()
		w.Stat("messages_end_to_end", int64(len(out)))
	}
	w.Sample("transport %s namespaces %q events %q rooms %q, %d messages each way", kind, nss, events, roomsOK, nmsg)
	w.Nontrivial()
	rig.Close()
}

// c01Malformed: payloads that are not messages fire nothing, between valid ones.
func c01Malformed(w *W) {
	r := w.R
	rec := &Rec{w: w}
	var order []string
	var mu sync.Mutex
	any := func(c *neffos.NSConn, m neffos.Message) error {
		rec.on(c, m)
		if m.Event == "v" {
			mu.Lock()
			order = append(order, string(m.Body))
			mu.Unlock()
		}
		return nil
	}
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnAnyEvent: any}, "": neffos.Events{neffos.OnAnyEvent: any}}
	rig := NewRig(w, "mem", h)
	raw := rig.MemRaw("raw")
	raw.Send("M")
	for i, ns := range []string{"a", ""} {
		raw.Send(fmt.Sprintf("$%d;%s;;%s;0;0;", i+1, ns, neffos.OnNamespaceConnect))
	}
	var conn *neffos.Conn
	// two frames for the connects, one for the ID.
	for i := 0; i < 3; i++ {
		w.Call(func() { raw.Recv() }, "handshake")
	}
	rig.Srv.Do(func(c *neffos.Conn) { conn = c }, false)
	w.Await(func() bool { return conn.Namespace("a") != nil && conn.Namespace("") != nil }, "namespaces")
	n := 5 + r.Intn(20)
	var want []string
	bad := 0
	for i := 0; i < n; i++ {
		if chance(r, 60) {
			// fewer separators than a message has.
			k := r.Intn(6)
			var p string
			switch r.Intn(4) {
			case 0:
				p = string(randBytes(r, r.Intn(30)))
			case 1:
				p = strings.Repeat(";", k)
			case 2:
				parts := []string{"", "a", "", "v", "0", "0", "bad"}[:k+1]
				p = strings.Join(parts, ";")
			default:
				p = string(textBody(r, r.Intn(40)))
			}
			if strings.Count(p, ";") >= 6 {
				continue
			}
			raw.Send(p)
			w.Log("raw %q", p)
			bad++
			w.Sign(p)
			err := conn.HandlePayload(neffos.TextMessage, []byte(p))
			w.Check(err == neffos.ErrInvalidPayload, "payload %q handled as %v", p, err)
		}
		id := fmt.Sprintf("%d;%d", i, r.Intn(1000))
		raw.Send(";" + pick(r, []string{"a", ""}) + ";;v;0;0;" + id)
		want = append(want, id)
	}
	w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(order) >= len(want) }, "%d valid messages", len(want))
	mu.Lock()
	defer mu.Unlock()
	w.Check(fmt.Sprint(order) == fmt.Sprint(want), "valid messages %q arrived as %q", want, order)
	for _, e := range rec.all() {
		w.Check(e.Event == "v" || neffos.IsSystemEvent(e.Event), "a malformed payload fired %s", e)
	}
	w.Stat("malformed_payloads", int64(bad))
	w.Sample("%d valid and %d malformed payloads of a raw client", len(want), bad)
	w.Nontrivial()
	rig.Close()
}

// ---- C02 ----

var errStatic = errors.New("a registered; error")

type dynErr struct{ prefix string }

func (d *dynErr) Error() string              { return d.prefix }
func (d *dynErr) ResolveError(s string) bool { return strings.HasPrefix(s, d.prefix) }

var errDyn = &dynErr{"dynamic#"}

func errText(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return field(r, 8)
	case 2:
		return ";;;;;;;" + field(r, 3)
	case 3:
		return string(textBody(r, 200+r.Intn(2000)))
	default:
		return "error " + string(textBody(r, r.Intn(40)))
	}
}

// result is what a callback should return.
type result struct {
	kind string // reply, error, known, dyn, nil
	err  error
	text string
}

func genResult(r *rand.Rand, asText bool, withNil bool) result {
	k := r.Intn(10)
	switch {
	case k < 4:
		var b []byte
		if asText {
			b = textBody(r, bodySize(r))
		} else {
			b = randBytes(r, bodySize(r))
		}
		if r.Intn(6) == 0 {
			b = nil
		}
		return result{"reply", neffos.Reply(b), string(b)}
	case k < 7:
		t := errText(r)
		for strings.HasPrefix(t, errDyn.prefix) {
			t = errText(r)
		}
		if chance(r, 15) { // almost a registered one.
			t = nearKnown(r)
		}
		e := errors.New(t)
		if r.Intn(3) == 0 {
			e = fmt.Errorf("%w", e)
		}
		return result{"error", e, t}
	case k == 7:
		e := pick(r, []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, errStatic})
		if r.Intn(3) == 0 {
			return result{"known", errors.New(e.Error()), e.Error()} // same text, other value.
		}
		return result{"known", e, e.Error()}
	case k == 8:
		t := errDyn.prefix + field(r, 4)
		return result{"dyn", errors.New(t), t}
	default:
		if withNil {
			return result{"nil", nil, ""}
		}
		return result{"reply", neffos.Reply([]byte("x")), "x"}
	}
}

// nearKnown is a text that resembles the one of a registered error.
func nearKnown(r *randT) string {
	t := pick(r, []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, errStatic}).Error()
	switch r.Intn(6) {
	case 0:
		return t + pick(r, []string{" ", "s", ": more", ";", "\n"})
	case 1:
		return pick(r, []string{" ", "a ", "chat: ", ";", "\t"}) + t
	case 2:
		return t[:len(t)-1]
	case 3:
		return t[1:]
	case 4:
		return strings.ToUpper(t)
	default:
		return "x" + errDyn.prefix + "1"
	}
}

func knownOf(text string) error {
	for _, e := range []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, errStatic} {
		if e.Error() == text {
			return e
		}
	}
	if errDyn.ResolveError(text) {
		return errDyn
	}
	return nil
}

func checkErr(w *W, what string, text string, got error) {
	w.Check(got != nil, "%s: error %q arrived as no error", what, clip(text, 80))
	if k := knownOf(text); k != nil {
		w.Check(got == k, "%s: the registered error %q arrived as another value %#v", what, text, got)
		return
	}
	w.Check(got.Error() == text, "%s: error %q arrived as %q", what, clip(text, 200), clip(got.Error(), 200))
}

func runC02(w *W) {
	neffos.RegisterKnownError(errStatic)
	neffos.RegisterKnownError(errDyn)
	neffos.RegisterKnownError(errStatic)
	r := w.R
	kind := pick(r, transports)
	var mu sync.Mutex
	plan := map[string]result{} // by the request's body
	lifecycle := map[string]result{}
	type back struct {
		ns, room, event string
		body            string
		err             error
		side            string
	}
	var backs []back
	var ran map[string]int = map[string]int{}
	answer := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		mu.Lock()
		defer mu.Unlock()
		p, ok := plan[string(m.Body)]
		if !ok || m.Err != nil {
			side := "S"
			if c.Conn.IsClient() {
				side = "C"
			}
			backs = append(backs, back{m.Namespace, m.Room, m.Event, string(m.Body), m.Err, side})
			return nil
		}
		ran[string(m.Body)]++
		return p.err
	}
	life := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		if m.IsLocal {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		return lifecycle[m.Event].err
	}
	// out leaves the request's room or namespace before it answers.
	out := func(c *neffos.NSConn, m neffos.Message) error {
		w.Event()
		var err error
		if how := strings.SplitN(string(m.Body), " ", 2)[0]; how == "leave" {
			err = c.Room("r;m").Leave(w.Ctx())
		} else if how == "disconnect" {
			err = c.Disconnect(w.Ctx())
		}
		w.Check(err == nil, "%s: %v", m.Body, err)
		mu.Lock()
		defer mu.Unlock()
		return plan[string(m.Body)].err
	}
	h := func() neffos.Namespaces {
		nss := neffos.Namespaces{}
		for _, ns := range []string{"a;b", "c"} {
			nss[ns] = neffos.Events{"e;1": answer, "f": answer, "out": out, neffos.OnNamespaceConnect: life, neffos.OnNamespaceDisconnect: life, neffos.OnRoomJoin: life, neffos.OnRoomLeave: life}
		}
		return nss
	}
	rig := NewRig(w, kind, h())
	cli, _ := rig.Dial("c", h())
	var sconn *neffos.Conn
	rig.Srv.Do(func(c *neffos.Conn) { sconn = c }, false)
	// lifecycle refusals.
	refuse := func(ev string) string {
		var t string
		for {
			t = errText(r)
			if knownOf(t) == nil && t != "" {
				break
			}
		}
		if chance(r, 20) {
			t = pick(r, []string{"", errStatic.Error(), nearKnown(r)})
		}
		mu.Lock()
		lifecycle[ev] = result{"error", errors.New(t), t}
		mu.Unlock()
		return t
	}
	allow := func(ev string) { mu.Lock(); delete(lifecycle, ev); mu.Unlock() }
	errs := 0
	byServer := chance(r, 40)
	connect := func(ns string) (*neffos.NSConn, error) {
		defer w.Waiting("connect")()
		if byServer {
			return sconn.Connect(w.Ctx(), ns)
		}
		return cli.Connect(w.Ctx(), ns)
	}
	if chance(r, 50) {
		t := refuse(neffos.OnNamespaceConnect)
		ns, err := connect("c")
		w.Check(ns == nil, "refused connect returned a namespace")
		checkErr(w, "connect", t, err)
		allow(neffos.OnNamespaceConnect)
		errs++
	}
	for _, ns := range []string{"a;b", "c"} {
		n, err := connect(ns)
		w.Check(err == nil && n != nil, "connect: %v", err)
	}
	var cns *neffos.NSConn
	{
		n, err := cli.Connect(w.Ctx(), "a;b")
		w.Check(err == nil, "connect: %v", err)
		cns = n
	}
	sns := sconn.Namespace("a;b")
	if chance(r, 50) {
		t := refuse(neffos.OnRoomJoin)
		rm, err := cns.JoinRoom(w.Ctx(), "r;m")
		w.Check(rm == nil, "refused join returned a room")
		checkErr(w, "join", t, err)
		allow(neffos.OnRoomJoin)
		errs++
	}
	_, err := cns.JoinRoom(w.Ctx(), "r;m")
	w.Check(err == nil, "join: %v", err)
	if chance(r, 50) {
		t := refuse(neffos.OnRoomLeave)
		checkErr(w, "leave", t, cns.Room("r;m").Leave(w.Ctx()))
		allow(neffos.OnRoomLeave)
		t = refuse(neffos.OnNamespaceDisconnect)
		checkErr(w, "disconnect", t, cns.Disconnect(w.Ctx()))
		allow(neffos.OnNamespaceDisconnect)
		errs++
	}
	n := 8 + r.Intn(25)
	replies := 0
	for i := 0; i < n; i++ {
		side, from := "S", cns // who answers
		if chance(r, 50) {
			side, from = "C", sns
		}
		asText := chance(r, 50)
		key := fmt.Sprintf("req-%d-%s", i, field(r, 3))
		m := neffos.Message{Namespace: "a;b", Event: pick(r, []string{"e;1", "f"}), Body: []byte(key), SetBinary: !asText}
		if chance(r, 40) {
			m.Room = "r;m"
		}
		ask := chance(r, 60)
		p := genResult(r, asText, !ask)
		mu.Lock()
		plan[key] = p
		b0 := len(backs)
		mu.Unlock()
		w.Sign(fmt.Sprint(side, ask, m.Room, p.kind, p.text))
		if ask {
			var res neffos.Message
			var err error
			w.Call(func() {
				if m.Room == "" && asText && chance(r, 50) {
					res, err = from.Ask(w.Ctx(), m.Event, m.Body)
				} else {
					res, err = from.Conn.Ask(w.Ctx(), m)
				}
			}, "ask %d", i)
			what := fmt.Sprintf("ask %d answered by %s", i, side)
			if p.kind == "reply" {
				w.Check(err == nil, "%s: reply %q arrived as error %v", what, clip(p.text, 80), err)
				w.Check(string(res.Body) == p.text, "%s: reply %q arrived as %q", what, clip(p.text, 80), clip(string(res.Body), 80))
				w.Check(res.Namespace == m.Namespace && res.Room == m.Room && res.Event == m.Event, "%s: the reply's fields %q %q %q", what, res.Namespace, res.Room, res.Event)
				replies++
			} else {
				checkErr(w, what, p.text, err)
				errs++
			}
		} else {
			w.Check(from.Conn.Write(m), "write failed")
		}
		// fence from the answering side: everything it sent back is handled.
		mu.Lock()
		fk := fmt.Sprintf("fence-%d", i)
		plan[fk] = result{"reply", neffos.Reply([]byte(fk)), fk}
		mu.Unlock()
		var fres neffos.Message
		var ferr error
		w.Call(func() { fres, ferr = from.Ask(w.Ctx(), "f", []byte(fk)) }, "fence %d", i)
		w.Check(ferr == nil && string(fres.Body) == fk, "fence: %q %v", fres.Body, ferr)
		other := sns
		if from == sns {
			other = cns
		}
		w.Call(func() { fres, ferr = other.Ask(w.Ctx(), "f", []byte(fk)) }, "fence back %d", i)
		w.Check(ferr == nil && string(fres.Body) == fk, "fence back: %q %v", fres.Body, ferr)
		mu.Lock()
		nb := append([]back(nil), backs[b0:]...)
		times := ran[key]
		mu.Unlock()
		w.Check(times == 1, "the callback ran %d times for request %d", times, i)
		asker := "C"
		if side == "C" {
			asker = "S"
		}
		switch {
		case ask || p.kind == "nil":
			w.Check(len(nb) == 0, "request %d (ask %v, %s) fired at the sender: %+v", i, ask, p.kind, nb)
		default:
			w.Check(len(nb) == 1, "the result %s %q of plain message %d fired %d callbacks at the sender: %+v", p.kind, clip(p.text, 60), i, len(nb), nb)
			b := nb[0]
			w.Check(b.side == asker && b.ns == m.Namespace && b.room == m.Room && b.event == m.Event, "the result of plain message %d arrived at %+v", i, b)
			if p.kind == "reply" {
				w.Check(b.err == nil && b.body == p.text, "the reply of plain message %d arrived as %q %v", i, clip(b.body, 80), b.err)
				replies++
			} else {
				checkErr(w, fmt.Sprintf("plain message %d", i), p.text, b.err)
				w.Check(b.body == "", "an error came with a body")
				errs++
			}
		}
	}
	for i, how := range []string{"leave", "disconnect"} {
		if chance(r, 40) {
			continue
		}
		from := pick(r, []*neffos.NSConn{cns, sns})
		m := neffos.Message{Namespace: "a;b", Event: "out", Body: []byte(fmt.Sprint(how, " ", i))}
		if from.Room("r;m") != nil && (how == "leave" || chance(r, 50)) {
			m.Room = "r;m"
		}
		p := genResult(r, true, false)
		mu.Lock()
		plan[string(m.Body)] = p
		mu.Unlock()
		var res neffos.Message
		var err error
		w.Call(func() { res, err = from.Conn.Ask(w.Ctx(), m) }, "ask whose callback does %s", how)
		what := fmt.Sprintf("ask of %v (room %q) whose callback answered after its %s", from.Conn.IsClient(), m.Room, how)
		w.Sign(fmt.Sprint(what, p.kind, p.text))
		if p.kind == "reply" {
			w.Check(err == nil && string(res.Body) == p.text, "%s: reply %q arrived as %q, %v", what, clip(p.text, 80), clip(string(res.Body), 80), err)
			replies++
		} else {
			checkErr(w, what, p.text, err)
			errs++
		}
	}
	w.Stat("replies", int64(replies))
	w.Stat("errors", int64(errs))
	w.Sample("transport %s, %d requests, %d replies, %d errors", kind, n, replies, errs)
	if replies > 0 && errs > 0 {
		w.Nontrivial()
	}
	w.Check(func() bool { b, _ := json.Marshal(cli.ID); return string(b) == `"c"` }(), "ID %q", cli.ID)
	rig.Close()
}
