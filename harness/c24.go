package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C24", Quick: 1800, Thorough: 12000, Run: runC24,
		Rule: "a case is one of 6 controller shapes (connection field first, last, embedded or unexported siblings; static; values of 17 field kinds) used on the server, the client or both, with a namespace given in one of 4 ways, an event matcher and possibly an injector, by 2-5 connections that connect, are refused, send, disconnect and connect again concurrently; every method call records its instance, which is compared with the connection, the registered value and the expected event mapping. Non-trivial: at least two instances of the same registered value were alive at once (or a static one was shared). Distinct: by the hash of shapes and calls"})
}

type ctlCall struct {
	inst   interface{}
	ns     *neffos.NSConn // seen by the instance
	method string
	msg    neffos.Message
	count  int
	err    string // a field mismatch seen by the instance
}

type ctlRec struct {
	w     *W
	mu    sync.Mutex
	calls []ctlCall
	// check compares the static fields of an instance with the registered ones.
	refuse int32
}

func (r *ctlRec) on(inst interface{}, ns *neffos.NSConn, method string, msg neffos.Message, count *int, state string) error {
	*count++
	n := *count
	r.mu.Lock()
	r.calls = append(r.calls, ctlCall{inst, ns, method, msg, n, state})
	r.mu.Unlock()
	id := "?"
	if ns != nil {
		id = ns.Conn.ID()
	}
	r.w.Event()
	r.w.Log("%p %s %s %q local=%v", inst, id, method, clip(string(msg.Body), 30), msg.IsLocal)
	if method == "OnNamespaceConnect" && atomic.LoadInt32(&r.refuse) > 0 && !msg.IsLocal {
		return errors.New("refused")
	}
	if method == "Echo" && string(msg.Body) == "ask" {
		return neffos.Reply([]byte(fmt.Sprintf("%p:%d", inst, n)))
	}
	return nil
}

// CtlPair is a nested value whose fields are all exported.
type CtlPair struct {
	A, B int
	S    string
}

// CtlOwn decides by itself what is zero.
type CtlOwn struct{ A, B int }

// IsZero is for the reflection of the library.
func (c CtlOwn) IsZero() bool { return c.A == 0 && c.B == 0 }

// CtlStatic are static fields of many kinds.
type CtlStatic struct {
	Text   string
	Number int
	Float  float64
	Flag   bool
	Ptr    *int
	Map    map[string]int
	Slice  []string
	Array  [2]int
	Func   func() int
	Chan   chan int
	Iface  interface{}
	Time   time.Time
	Nested struct{ A, b int }
	Dur    time.Duration
	Pair   CtlPair
	Grid   [2][2]string
	Own    CtlOwn
}

// same compares static fields.
func (a CtlStatic) same(b CtlStatic) string {
	switch {
	case a.Text != b.Text:
		return "Text"
	case a.Number != b.Number:
		return "Number"
	case a.Float != b.Float:
		return "Float"
	case a.Flag != b.Flag:
		return "Flag"
	case a.Ptr != b.Ptr:
		return "Ptr"
	case reflect.ValueOf(a.Map).Pointer() != reflect.ValueOf(b.Map).Pointer():
		return "Map"
	case !reflect.DeepEqual(a.Slice, b.Slice):
		return "Slice"
	case a.Array != b.Array:
		return "Array"
	case reflect.ValueOf(a.Func).Pointer() != reflect.ValueOf(b.Func).Pointer():
		return "Func"
	case a.Chan != b.Chan:
		return "Chan"
	case fmt.Sprint(a.Iface) != fmt.Sprint(b.Iface):
		return "Iface"
	case !a.Time.Equal(b.Time):
		return "Time"
	case a.Nested != b.Nested:
		return "Nested"
	case a.Dur != b.Dur:
		return "Dur"
	case a.Pair != b.Pair:
		return "Pair"
	case a.Grid != b.Grid:
		return "Grid"
	case a.Own != b.Own:
		return "Own"
	}
	return ""
}

// ctlFirst: the connection is the first field, flat static fields, private state.
type ctlFirst struct {
	Conn   *neffos.NSConn
	Rec    *ctlRec
	Text   string
	Number int
	Float  float64
	Flag   bool
	Ptr    *int
	Map    map[string]int
	Slice  []string
	Array  [2]int
	Func   func() int
	Chan   chan int
	Iface  interface{}
	Time   time.Time
	Nested struct{ A, b int }
	Dur    time.Duration
	Pair   CtlPair
	Grid   [2][2]string
	Own    CtlOwn
	Calls  int // not set in the registered value: own state of the instance.
	Log    []string
	hidden string
	want   *CtlStatic
}

func (c *ctlFirst) static() CtlStatic {
	return CtlStatic{c.Text, c.Number, c.Float, c.Flag, c.Ptr, c.Map, c.Slice, c.Array, c.Func, c.Chan, c.Iface, c.Time, c.Nested, c.Dur, c.Pair, c.Grid, c.Own}
}
func (c *ctlFirst) on(m string, msg neffos.Message) error {
	c.Log = append(c.Log, m)
	state := fmt.Sprintf("log %d hidden %q", len(c.Log), c.hidden)
	if c.hidden == "" {
		c.hidden = "mine"
	}
	return c.Rec.on(c, c.Conn, m, msg, &c.Calls, state)
}
func (c *ctlFirst) OnNamespaceConnect(msg neffos.Message) error {
	return c.on("OnNamespaceConnect", msg)
}
func (c *ctlFirst) OnNamespaceConnected(msg neffos.Message) error {
	return c.on("OnNamespaceConnected", msg)
}
func (c *ctlFirst) OnNamespaceDisconnect(msg neffos.Message) error {
	return c.on("OnNamespaceDisconnect", msg)
}
func (c *ctlFirst) OnRoomJoin(msg neffos.Message) error               { return c.on("OnRoomJoin", msg) }
func (c *ctlFirst) OnRoomJoined(msg neffos.Message) error             { return c.on("OnRoomJoined", msg) }
func (c *ctlFirst) OnRoomLeave(msg neffos.Message) error              { return c.on("OnRoomLeave", msg) }
func (c *ctlFirst) OnRoomLeft(msg neffos.Message) error               { return c.on("OnRoomLeft", msg) }
func (c *ctlFirst) Echo(msg neffos.Message) error                     { return c.on("Echo", msg) }
func (c *ctlFirst) OnChat(msg neffos.Message) error                   { return c.on("OnChat", msg) }
func (c *ctlFirst) OnChatOther(msg neffos.Message) error              { return c.on("OnChatOther", msg) }
func (c *ctlFirst) OnOnce(msg neffos.Message) error                   { return c.on("OnOnce", msg) }
func (c *ctlFirst) HandleIt(msg neffos.Message) error                 { return c.on("HandleIt", msg) }
func (c *ctlFirst) Helper() string                                    { return "" }
func (c *ctlFirst) NoError(msg neffos.Message)                        { c.on("NoError", msg) }
func (c *ctlFirst) PtrMsg(msg *neffos.Message) error                  { return c.on("PtrMsg", *msg) }
func (c *ctlFirst) WithConn(_ *neffos.NSConn, m neffos.Message) error { return c.on("WithConn", m) }

// ctlLast: the connection is the last field and nothing but an Echo and a connected event.
type ctlLast struct {
	Rec   *ctlRec
	Calls int
	Conn  *neffos.NSConn
}

func (c *ctlLast) OnNamespaceConnected(msg neffos.Message) error {
	return c.Rec.on(c, c.Conn, "OnNamespaceConnected", msg, &c.Calls, "")
}
func (c *ctlLast) Echo(msg neffos.Message) error {
	return c.Rec.on(c, c.Conn, "Echo", msg, &c.Calls, "")
}
func (c *ctlLast) OnChat(msg neffos.Message) error {
	return c.Rec.on(c, c.Conn, "OnChat", msg, &c.Calls, "")
}

// ctlEmb embeds the connection, its namespace comes from a field.
type ctlEmb struct {
	*neffos.NSConn
	Rec       *ctlRec
	Namespace string
	Calls     int
}

func (c *ctlEmb) OnNamespaceConnect(msg neffos.Message) error {
	return c.Rec.on(c, c.NSConn, "OnNamespaceConnect", msg, &c.Calls, "")
}
func (c *ctlEmb) OnNamespaceDisconnect(msg neffos.Message) error {
	return c.Rec.on(c, c.NSConn, "OnNamespaceDisconnect", msg, &c.Calls, "")
}
func (c *ctlEmb) Echo(msg neffos.Message) error {
	return c.Rec.on(c, c.NSConn, "Echo", msg, &c.Calls, "")
}
func (c *ctlEmb) OnChat(msg neffos.Message) error {
	return c.Rec.on(c, c.NSConn, "OnChat", msg, &c.Calls, "")
}

// ctlMeth has its namespace from a method.
type ctlMeth struct {
	Rec   *ctlRec
	Conn  *neffos.NSConn
	NS    string
	Calls int
}

func (c *ctlMeth) Namespace() string { return c.NS }
func (c *ctlMeth) Echo(msg neffos.Message) error {
	return c.Rec.on(c, c.Conn, "Echo", msg, &c.Calls, "")
}
func (c *ctlMeth) OnNamespaceDisconnect(msg neffos.Message) error {
	return c.Rec.on(c, c.Conn, "OnNamespaceDisconnect", msg, &c.Calls, "")
}

// ctlStat has no connection: one shared value.
type ctlStat struct {
	Rec   *ctlRec
	calls int64
}

func (c *ctlStat) on(ns *neffos.NSConn, m string, msg neffos.Message) error {
	n := int(atomic.AddInt64(&c.calls, 1))
	n--
	return c.Rec.on(c, ns, m, msg, &n, "")
}
func (c *ctlStat) OnNamespaceConnect(ns *neffos.NSConn, msg neffos.Message) error {
	return c.on(ns, "OnNamespaceConnect", msg)
}
func (c *ctlStat) OnNamespaceConnected(ns *neffos.NSConn, msg neffos.Message) error {
	return c.on(ns, "OnNamespaceConnected", msg)
}
func (c *ctlStat) OnNamespaceDisconnect(ns *neffos.NSConn, msg neffos.Message) error {
	return c.on(ns, "OnNamespaceDisconnect", msg)
}
func (c *ctlStat) Echo(ns *neffos.NSConn, msg neffos.Message) error { return c.on(ns, "Echo", msg) }
func (c *ctlStat) OnChat(ns *neffos.NSConn, msg neffos.Message) error {
	return c.on(ns, "OnChat", msg)
}
func (c *ctlStat) WithoutConn(msg neffos.Message) error { return c.on(nil, "WithoutConn", msg) }

// the methods with the signature of an event, per shape.
var ctlMethods = map[string][]string{
	"first":  {"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft", "Echo", "OnChat", "OnChatOther", "OnOnce", "HandleIt"},
	"last":   {"OnNamespaceConnected", "Echo", "OnChat"},
	"emb":    {"OnNamespaceConnect", "OnNamespaceDisconnect", "Echo", "OnChat"},
	"meth":   {"OnNamespaceDisconnect", "Echo"},
	"static": {"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "Echo", "OnChat"},
}

var systemMethods = []string{"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft"}

func isSystemMethod(m string) bool {
	for _, s := range systemMethods {
		if m == s {
			return true
		}
	}
	return false
}

// ctlSide is a side that uses a controller.
type ctlSide struct {
	shape   string
	ns      string
	rec     *ctlRec
	reg     interface{} // the registered value
	before  string      // its print
	static  CtlStatic
	matcher string
	handler neffos.ConnHandler
	table   map[string]string // event > method
	inject  bool
	mu      sync.Mutex
	made    map[*neffos.NSConn]interface{}
	kept    interface{} // injected mark
}

func (s *ctlSide) describe() string {
	v := reflect.ValueOf(s.reg).Elem()
	var sb strings.Builder
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		switch {
		case f.Name == "calls" || f.Name == "Rec":
		case f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Map || f.Type.Kind() == reflect.Chan || f.Type.Kind() == reflect.Ptr:
			fmt.Fprintf(&sb, "%s=%x ", f.Name, v.Field(i).Pointer())
		case f.Type.Kind() == reflect.Slice:
			fmt.Fprintf(&sb, "%s=%d@%x ", f.Name, v.Field(i).Len(), v.Field(i).Pointer())
		default:
			fmt.Fprintf(&sb, "%s=%v ", f.Name, v.Field(i))
		}
	}
	return sb.String()
}

func newCtlSide(w *W, shape, ns string) *ctlSide {
	r := w.R
	s := &ctlSide{shape: shape, ns: ns, rec: &ctlRec{w: w}, made: map[*neffos.NSConn]interface{}{}}
	switch shape {
	case "first":
		st := CtlStatic{}
		if chance(r, 60) {
			st.Text = "text;" + fmt.Sprint(r.Intn(100))
		}
		if chance(r, 60) {
			st.Number = 1 + r.Intn(100)
		}
		if chance(r, 50) {
			st.Float = 0.5
		}
		if chance(r, 50) {
			st.Flag = true
		}
		if chance(r, 50) {
			st.Ptr = new(int)
		}
		if chance(r, 50) {
			st.Map = pick(r, []map[string]int{{"a": 1}, {}})
		}
		if chance(r, 50) {
			st.Slice = pick(r, [][]string{{"x", "y"}, {}, {""}})
		}
		if chance(r, 50) {
			st.Array = pick(r, [][2]int{{0, 7}, {7, 0}, {7, 7}})
		}
		if chance(r, 50) {
			st.Func = func() int { return 3 }
		}
		if chance(r, 50) {
			st.Chan = make(chan int)
		}
		if chance(r, 50) {
			st.Iface = pick(r, []interface{}{"if", 3, 4.5, true})
		}
		if chance(r, 50) {
			st.Time = time.Now()
		}
		if chance(r, 50) {
			st.Nested.A = 3
		}
		if chance(r, 50) {
			st.Dur = time.Second
		}
		if chance(r, 60) {
			st.Pair = pick(r, []CtlPair{{A: 1}, {B: 1}, {S: "s"}, {1, 2, "s"}})
		}
		if chance(r, 60) {
			st.Grid = pick(r, [][2][2]string{{{"a", ""}, {"", ""}}, {{"", ""}, {"", "d"}}, {{"", "b"}, {"c", ""}}})
		}
		if chance(r, 60) {
			st.Own = pick(r, []CtlOwn{{A: 1}, {B: 1}, {1, 1}})
		}
		s.static = st
		s.reg = &ctlFirst{Rec: s.rec, Text: st.Text, Number: st.Number, Float: st.Float, Flag: st.Flag, Ptr: st.Ptr, Map: st.Map, Slice: st.Slice, Array: st.Array,
			Func: st.Func, Chan: st.Chan, Iface: st.Iface, Time: st.Time, Nested: st.Nested, Dur: st.Dur, Pair: st.Pair, Grid: st.Grid, Own: st.Own, hidden: "registered"}
	case "last":
		s.reg = &ctlLast{Rec: s.rec}
	case "emb":
		s.reg = &ctlEmb{Rec: s.rec, Namespace: ns}
	case "meth":
		s.reg = &ctlMeth{Rec: s.rec, NS: ns}
	case "static":
		s.reg = &ctlStat{Rec: s.rec}
	}
	var st *neffos.Struct
	if chance(r, 20) {
		st = neffos.NewStruct(reflect.ValueOf(s.reg))
	} else {
		st = neffos.NewStruct(s.reg)
	}
	w.Check(neffos.NewStruct(st) == st, "NewStruct of a Struct is another one")
	s.table = map[string]string{}
	s.matcher = pick(r, []string{"", "", "prefix", "trim", "custom", "none"})
	if shape == "last" || shape == "meth" {
		s.matcher = pick(r, []string{"", "custom"})
	}
	var match func(string) (string, bool)
	switch s.matcher {
	case "":
		match = func(m string) (string, bool) { return m, true }
	case "prefix":
		st.SetEventMatcher(neffos.EventPrefixMatcher("On"))
		match = func(m string) (string, bool) { return m, strings.HasPrefix(m, "On") }
	case "trim":
		st.SetEventMatcher(neffos.EventTrimPrefixMatcher("On"))
		match = func(m string) (string, bool) { return strings.TrimPrefix(m, "On"), strings.HasPrefix(m, "On") }
	case "custom":
		match = func(m string) (string, bool) { return "e-" + strings.ToLower(m), m != "HandleIt" }
		st.SetEventMatcher(func(m string) (string, bool) {
			if isSystemMethod(m) {
				w.Violate("the matcher was asked for the system event %s", m)
			}
			return match(m)
		})
	case "none":
		match = func(string) (string, bool) { return "", false }
		st.SetEventMatcher(match)
	}
	for _, m := range ctlMethods[shape] {
		if isSystemMethod(m) {
			s.table["_"+m] = m
			continue
		}
		if ev, ok := match(m); ok {
			s.table[ev] = m
		}
	}
	if shape != "static" && shape != "emb" && chance(r, 30) {
		s.inject = true
		st.SetInjector(func(typ reflect.Type, c *neffos.NSConn) reflect.Value {
			w.Check(typ == reflect.TypeOf(s.reg).Elem(), "the injector was called for %v", typ)
			w.Check(c != nil && c.Conn != nil, "the injector was called without a connection")
			v := reflect.New(typ)
			v.Elem().FieldByName("Rec").Set(reflect.ValueOf(s.rec))
			s.mu.Lock()
			old := s.made[c]
			s.made[c] = v.Interface()
			s.mu.Unlock()
			w.Check(old == nil, "the injector was called twice for a namespace connection")
			return v
		})
	}
	fence := neffos.Namespaces{"fence": neffos.Events{"f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) }}}
	switch way := r.Intn(3); {
	case (shape == "meth" || shape == "emb") && way > 0:
		// by its own method or field.
		s.handler = neffos.JoinConnHandlers(st, fence)
	case way == 1:
		fence[ns] = st.Events()
		s.handler = fence
	default:
		s.handler = neffos.JoinConnHandlers(fence, st.SetNamespace(ns))
	}
	got := s.handler.GetNamespaces()[ns]
	w.Check(got != nil, "shape %s: namespace %q is not declared", shape, ns)
	for ev := range s.table {
		w.Check(got[ev] != nil, "shape %s, matcher %q: event %q is not declared", shape, s.matcher, ev)
	}
	for ev := range got {
		if s.table[ev] == "" && !(ev == neffos.OnNamespaceConnect && shape != "static") {
			w.Violate("shape %s, matcher %q: unexpected event %q", shape, s.matcher, ev)
		}
	}
	s.before = s.describe()
	return s
}

func (s *ctlSide) calls() []ctlCall {
	s.rec.mu.Lock()
	defer s.rec.mu.Unlock()
	return append([]ctlCall(nil), s.rec.calls...)
}

func c24Panics(w *W) {
	bad := map[string]interface{}{"nil": nil, "not a pointer": ctlLast{}, "pointer to int": new(int), "no methods": &struct{ A int }{}, "a connection": &neffos.NSConn{}}
	for name, v := range bad {
		func() {
			defer func() { w.Check(recover() != nil, "NewStruct of %s did not panic", name) }()
			neffos.NewStruct(v)
		}()
	}
}

func runC24(w *W) {
	r := w.R
	if w.Case%50 == 0 {
		c24Panics(w)
	}
	kind := pick(r, transports)
	ns := pick(r, []string{"ctl", "my;space", "n", "ü"})
	shapes := []string{"first", "first", "first", "last", "emb", "meth", "static"}
	owner := r.Intn(3) // 0 server, 1 client, 2 both
	plain := neffos.Namespaces{ns: neffos.Events{}, "fence": neffos.Events{"f": func(*neffos.NSConn, neffos.Message) error { return neffos.Reply(nil) }}}
	var srv, cli *ctlSide
	var sh, ch neffos.ConnHandler = plain, plain
	if owner != 1 {
		srv = newCtlSide(w, pick(r, shapes), ns)
		sh = srv.handler
	}
	if owner != 0 {
		cli = newCtlSide(w, pick(r, shapes), ns)
		ch = cli.handler
	}
	var mu sync.Mutex
	sconns := map[string]*neffos.Conn{}
	rig := NewRig(w, kind, sh, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			mu.Lock()
			sconns[c.ID()] = c
			mu.Unlock()
			return nil
		}
	})
	n := 2 + r.Intn(4)
	candidates := []string{"Echo", "OnChat", "Chat", "ChatOther", "OnChatOther", "HandleIt", "Helper", "NoError", "PtrMsg", "WithConn", "WithoutConn", "e-echo", "e-onchat", "e-handleit", "e-onchatother",
		"echo", "Namespace", "static", "OnNamespaceConnectX", ""}

	type session struct { // a namespace connection of a side that has a controller
		side  *ctlSide
		ns    *neffos.NSConn
		want  []string // methods expected, exactly, of remote traffic
		bodys []string
	}
	var sessions []*session
	var smu sync.Mutex
	var alive, maxAlive int32
	refusals := int64(0)
	w.Go(n, "the users of the controllers", func(i int) {
		rr := w.Rand()
		id := fmt.Sprint("c", i)
		c, _ := rig.Dial(id, ch)
		cf := rig.Connect(c, "fence")
		mu.Lock()
		sc := sconns[id]
		mu.Unlock()
		for round := 0; round < 1+rr.Intn(3); round++ {
			var cn *neffos.NSConn
			for {
				var err error
				cn, err = c.Connect(w.Ctx(), ns)
				if err == nil {
					break
				}
				if srv == nil || err.Error() != "refused" {
					w.Violate("connect to %q failed: %v", ns, err)
				}
				atomic.AddInt64(&refusals, 1)
				atomic.StoreInt32(&srv.rec.refuse, 0)
			}
			if a := atomic.AddInt32(&alive, 1); a > 1 {
				atomic.StoreInt32(&maxAlive, a)
			}
			w.Await(func() bool { return sc.Namespace(ns) != nil }, "the server side of the namespace connection of %s", id)
			sn := sc.Namespace(ns)
			sf := sc.Namespace("fence")
			rooms := 0
			var open []*session
			drive := func(side *ctlSide, own, peer, fence *neffos.NSConn) {
				s := &session{side: side, ns: own}
				open = append(open, s)
				smu.Lock()
				sessions = append(sessions, s)
				smu.Unlock()
				for k := 0; k < 3+rr.Intn(10); k++ {
					ev := pick(rr, candidates)
					body := fmt.Sprintf("%s-%d-%d", id, round, k)
					if m := side.table[ev]; m != "" && ev != "" {
						s.want = append(s.want, m)
						s.bodys = append(s.bodys, body)
					}
					w.Check(peer.Emit(ev, []byte(body)), "an emit failed")
				}
				if side.table["Echo"] == "Echo" && chance(rr, 70) {
					s.want = append(s.want, "Echo")
					s.bodys = append(s.bodys, "ask")
					m, err := peer.Ask(w.Ctx(), "Echo", []byte("ask"))
					w.Check(err == nil && strings.HasPrefix(string(m.Body), "0x"), "an ask was answered with %q, %v", m.Body, err)
				}
				_, err := fence.Ask(w.Ctx(), "f", nil)
				w.Check(err == nil, "the fence failed: %v", err)
			}
			if srv != nil {
				drive(srv, sn, cn, cf)
			}
			if cli != nil {
				drive(cli, cn, sn, sf)
			}
			if chance(rr, 40) {
				_, err := cn.JoinRoom(w.Ctx(), "room")
				w.Check(err == nil, "join failed: %v", err)
				rooms++
			}
			atomic.AddInt32(&alive, -1)
			if srv != nil && srv.table[neffos.OnNamespaceConnect] != "" && chance(rr, 25) {
				atomic.StoreInt32(&srv.rec.refuse, 1) // the next connect of anyone is refused, an instance of a refused one is never used.
			}
			last := chance(rr, 20)
			if last {
				c.Close()
				w.Await(func() bool { return sc.IsClosed() }, "the close of %s", id)
				break
			}
			var err error
			if chance(rr, 50) {
				err = cn.Disconnect(context.Background())
			} else {
				err = sn.Disconnect(context.Background())
			}
			w.Check(err == nil, "disconnect failed: %v", err)
			w.Await(func() bool { return cn.Conn.Namespace(ns) == nil && sc.Namespace(ns) == nil }, "both sides of %s to be disconnected from the namespace", id)
		}
	})
	// all sessions are over; check the calls.
	check := func(s *ctlSide) {
		if s == nil {
			return
		}
		byNS := map[*neffos.NSConn][]ctlCall{}
		inst := map[interface{}]*neffos.NSConn{}
		for _, c := range s.calls() {
			w.Check(c.ns != nil, "shape %s: method %s was called without a connection", s.shape, c.method)
			if s.shape == "static" {
				w.Check(c.inst == s.reg, "a static controller's method was called on another value")
			} else {
				w.Check(c.inst != s.reg, "shape %s: method %s was called on the registered value", s.shape, c.method)
				if prev, ok := inst[c.inst]; ok {
					w.Check(prev == c.ns, "shape %s: an instance is used by two namespace connections (%s, %s)", s.shape, prev, c.ns)
				}
				inst[c.inst] = c.ns
			}
			byNS[c.ns] = append(byNS[c.ns], c)
		}
		for nc, cs := range byNS {
			for i, c := range cs {
				w.Check(c.msg.Namespace == ns, "shape %s: method %s was called for namespace %q", s.shape, c.method, c.msg.Namespace)
				ev := ""
				for e, m := range s.table {
					if m == c.method {
						ev = e
					}
				}
				w.Check(ev == c.msg.Event, "shape %s, matcher %q: method %s was called for event %q", s.shape, s.matcher, c.method, c.msg.Event)
				if s.shape == "static" {
					continue
				}
				w.Check(c.inst == cs[0].inst, "shape %s: two instances serve the namespace connection of %s", s.shape, nc)
				w.Check(c.count == i+1, "shape %s: call %d of the instance of %s counted %d, its state is not its own", s.shape, i+1, nc, c.count)
				if s.shape == "first" {
					hidden := "mine"
					if i == 0 {
						hidden = ""
					}
					w.Check(c.err == fmt.Sprintf("log %d hidden %q", i+1, hidden), "the state of an instance is %s at its call %d", c.err, i+1)
					f := c.inst.(*ctlFirst)
					if !s.inject {
						w.Check(f.static().same(s.static) == "", "static field %s of an instance differs from the registered one", f.static().same(s.static))
					}
				}
				if s.inject {
					s.mu.Lock()
					made := s.made[nc]
					s.mu.Unlock()
					w.Check(made == c.inst, "shape %s: the injected value is not the one used", s.shape)
				}
			}
		}
		total := 0
		for _, ses := range sessions {
			if ses.side != s {
				continue
			}
			total++
			var got, bodys []string
			for _, c := range byNS[ses.ns] {
				if !isSystemMethod(c.method) {
					got = append(got, c.method)
					bodys = append(bodys, string(c.msg.Body))
				}
			}
			w.Check(reflect.DeepEqual(got, ses.want) && reflect.DeepEqual(bodys, ses.bodys), "shape %s, matcher %q: the methods called for the namespace connection of %s are %v (%v), expected %v (%v)", s.shape, s.matcher, ses.ns, got, bodys, ses.want, ses.bodys)
		}
		w.Check(s.describe() == s.before, "shape %s: the registered value changed from %s to %s", s.shape, s.before, s.describe())
		if s.shape != "static" && len(inst) > 1 && maxAlive > 1 || s.shape == "static" && total > 1 {
			w.Nontrivial()
		}
		w.Stat("calls", int64(len(s.calls())))
		w.Stat("instances", int64(len(inst)))
		w.Stat("sessions_"+s.shape, int64(total))
		w.Sign(fmt.Sprint(s.shape, s.matcher, s.inject, len(inst), total, len(s.calls())))
	}
	check(srv)
	check(cli)
	w.Stat("refusals", refusals)
	desc := func(s *ctlSide) string {
		if s == nil {
			return "plain"
		}
		return fmt.Sprintf("%s/%s/inject=%v", s.shape, s.matcher, s.inject)
	}
	w.Sample("%s, server %s, client %s, %d connections", kind, desc(srv), desc(cli), n)
	w.Call(rig.Close, "server close")
}
