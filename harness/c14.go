package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	gobwasws "github.com/gobwas/ws"
	gorillaws "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

func init() {
	register(&Prop{ID: "C14", Quick: 2200, Thorough: 15000, Run: func(w *W) {
		switch w.Case % 4 {
		case 0, 1:
			c14Server(w)
		case 2:
			c14Frames(w)
		default:
			c14Client(w)
		}
	},
		Rule: "a case runs 1-4 hostile peers (random bytes, grammar-based and mutated messages, forged tokens and system events, handshakes out of turn, protocol violations at the frame level, truncations, abrupt closes) against a server with 2-3 well-behaved clients, or a hostile server against a client, over 5 transports; what the callbacks saw is matched against an independent model of what each peer's payloads permit, and the well-behaved clients' asks and broadcasts are checked meanwhile. Non-trivial: at least 10 hostile payloads were sent and the victims completed their work. Distinct: by the hash of the payloads. A peer that claims another connection as the sender of its message must not be believed"})
}

// hostile is what a hostile peer sends.
type hpay struct {
	b      []byte
	binary bool
}

var hWaits = []string{"", "", "$1", "$2", "$77", "5", "#1", "$", "#", "!", "$!x", "1!abc", "neffos(0x1(a))", "neffos(id:x", "neffos(0x", "$neffos(0x", "é", "0", "\x00"}
var hEvents = []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomLeave, neffos.OnNamespaceConnected, neffos.OnRoomJoined, neffos.OnRoomLeft, neffos.OnNativeMessage, neffos.OnAnyEvent, "e", "e", "e", "relay", "work", "refuse", "unknown", "", "_", "a@%!semicolon@%!b"}
var hNS = []string{"n", "n", "n", "", "w", "w", "no", "stay", "undeclared", "N", "n ", "@%!semicolon@%!"}
var hRooms = []string{"", "", "", "r", "q", "r;"}
var hFlags = []string{"0", "0", "0", "0", "1", "", "2", "x", "11", "true"}

func hBody(r *randT) string {
	switch r.Intn(4) {
	case 0:
		return ""
	case 1:
		return string(randBytes(r, r.Intn(40)))
	case 2:
		return string(textBody(r, r.Intn(200)))
	}
	return fmt.Sprint("b", r.Intn(1000))
}

func isNotification(ev string) bool {
	return ev == neffos.OnNamespaceConnected || ev == neffos.OnRoomJoined || ev == neffos.OnRoomLeft
}
func isNegotiation(ev string) bool {
	return ev == neffos.OnNamespaceConnect || ev == neffos.OnNamespaceDisconnect || ev == neffos.OnRoomJoin || ev == neffos.OnRoomLeave
}

// genHostile generates a payload. Notifications that are forged have a body that starts with "F",
// only theirs does, so they are told apart from the library's own.
func genHostile(r *randT) hpay {
	for {
		p := hpay{binary: chance(r, 30)}
		switch x := r.Intn(100); {
		case x < 12:
			p.b = randBytes(r, 1+r.Intn(60))
		case x < 20:
			p.b = []byte(pick(r, []string{"M", "A", "H", "Mxx", "Aid", "Herror", ";", ";;;;;", ";;;;;;", ";;;;;;;;;;;;", "$;;;;;;", "#;;;;;;", "!;;;;;;", "1;;;;;;", "neffos(0x;;;;;;", "\x00", "\xff\xfe", " ", "null", "{}", "$1", "$1;n", "$1;n;;_OnNamespaceConnect;0;0"}))
		case x < 40: // a valid step.
			p.b = []byte(pick(r, []string{
				"$1;n;;_OnNamespaceConnect;0;0;", "$2;w;;_OnNamespaceConnect;0;0;", "$3;;;_OnNamespaceConnect;0;0;", "$3;stay;;_OnNamespaceConnect;0;0;",
				"$4;n;r;_OnRoomJoin;0;0;", "$5;n;;_OnNamespaceDisconnect;0;0;", "$6;n;r;_OnRoomLeave;0;0;", ";n;;e;0;0;ok", ";n;;relay;0;0;hello", "neffos(0x1(a));n;;relay;0;0;h1", "neffos(id:victim0;n;;relay;0;0;h2", "neffos(0x;n;r;relay;0;0;h3", "neffos(id:;n;;relay;0;0;h4", ";n;;work;0;0;x", "$8;n;;e;0;0;q"}))
		default:
			f := []string{pick(r, hWaits), pick(r, hNS), pick(r, hRooms), pick(r, hEvents), pick(r, hFlags), pick(r, hFlags), hBody(r)}
			if isNotification(f[3]) {
				f[6] = "F" + f[6]
			}
			p.b = []byte(strings.Join(f, ";"))
			if x > 80 { // mutate.
				for k := 0; k < 1+r.Intn(3) && len(p.b) > 0; k++ {
					i := r.Intn(len(p.b))
					switch r.Intn(4) {
					case 0:
						p.b = append(p.b[:i:i], p.b[i+1:]...)
					case 1:
						p.b[i] = byte(r.Intn(256))
					case 2:
						p.b = append(p.b[:i:i], append([]byte(";"), p.b[i:]...)...)
					case 3:
						p.b = p.b[:i]
					}
				}
			}
		}
		if chance(r, 2) {
			p.b = append(p.b, bytes.Repeat([]byte("z"), 70000)...)
		}
		if len(p.b) == 0 {
			continue
		}
		if !utf8.Valid(p.b) {
			p.binary = true
		}
		if f, ok := parseRaw(string(p.b)); ok {
			if isNotification(f.event) && !strings.HasPrefix(f.body, "F") || isNegotiation(f.event) && strings.HasPrefix(f.body, "F") {
				continue
			}
			if f.body == "fence" {
				continue
			}
		}
		return p
	}
}

func hKey(ns, room, event, body string) string {
	return fmt.Sprintf("%q %q %q %d %q", ns, room, event, len(body), clip(body, 80))
}

// hModel is what the payloads of one peer permit, on the receiving side.
type hModel struct {
	toServer  bool
	native    bool
	declared  map[string]bool
	connected map[string]bool
	user      []string       // permitted user events, in order
	userNS    []string       // and their namespaces
	life      map[string]int // upper bounds of lifecycle callbacks
}

func newHModel(toServer, native bool) *hModel {
	return &hModel{toServer: toServer, native: native, connected: map[string]bool{}, life: map[string]int{},
		declared: map[string]bool{"": true, "n": true, "w": true, "no": true, "stay": true, "fence": true}}
}

func (h *hModel) feed(b []byte) {
	if len(b) == 0 {
		return
	}
	p := strings.SplitN(string(b), ";", 7)
	if len(p) != 7 {
		if h.native && (h.connected[""] || !h.toServer) {
			h.userNS = append(h.userNS, "")
			h.user = append(h.user, hKey("", "", neffos.OnNativeMessage, string(b)))
		}
		return
	}
	wait, ns, room, event := p[0], unesc(p[1]), unesc(p[2]), unesc(p[3])
	if strings.HasPrefix(wait, "neffos(0x") || strings.HasPrefix(wait, "neffos(id:") {
		wait = ""
	}
	if h.toServer && wait != "" && wait[0] != '$' {
		return // a reply.
	}
	body := p[6]
	if p[4] == "1" {
		body = "E:" + body
	}
	noop := p[5] == "1"
	switch event {
	case neffos.OnNamespaceConnect:
		if wait == "" || noop || !h.declared[ns] || h.connected[ns] && h.toServer {
			return
		}
		h.life[event+ns]++
		if ns != "no" {
			h.connected[ns] = true
			h.life[neffos.OnNamespaceConnected+ns]++
			h.life[neffos.OnNamespaceDisconnect+ns]++ // at most one, sometime.
		}
	case neffos.OnNamespaceDisconnect:
		if wait == "" || noop || !h.connected[ns] {
			return
		}
		if ns == "stay" && h.toServer {
			h.life[event+ns]++ // refused.
			return
		}
		if h.toServer {
			h.connected[ns] = false
		}
	case neffos.OnRoomJoin:
		if h.connected[ns] || !h.toServer {
			for _, e := range []string{neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft} {
				h.life[e+ns]++
			}
		}
	case neffos.OnRoomLeave:
		if h.connected[ns] || !h.toServer {
			h.life[event+ns]++ // it may be asked while the close forces it too.
		}
	default:
		if h.connected[ns] || !h.toServer {
			h.user = append(h.user, hKey(ns, room, event, body))
			h.userNS = append(h.userNS, ns)
		}
	}
}

// late drops what was for a namespace that was never connected: a client keeps
// the messages of a namespace while it is connecting to it.
func (h *hModel) late() {
	var user []string
	for i, k := range h.user {
		if h.connected[h.userNS[i]] {
			user = append(user, k)
		}
	}
	h.user = user
}

// check matches what a connection's callbacks saw.
func (h *hModel) check(w *W, who string, seen []Ev) {
	life := map[string]int{}
	forced := map[string]bool{}
	j := 0
	for _, e := range seen {
		if e.Event == neffos.OnNamespaceDisconnect && e.Forced {
			forced[e.NS] = true
		}
		if e.Event == neffos.OnNamespaceConnect && forced[e.NS] {
			continue // a request which was being handled while the connection closed.
		}
		body := e.Body
		if e.Err != nil && !isNegotiation(e.Event) {
			body = "E:" + e.Err.Error()
		}
		if isNegotiation(e.Event) || isNotification(e.Event) && !strings.HasPrefix(strings.TrimPrefix(body, "E:"), "F") {
			life[e.Event+e.NS]++
			w.Check(life[e.Event+e.NS] <= h.life[e.Event+e.NS], "%s: callback %s fired %d times, its payloads permit %d", who, e, life[e.Event+e.NS], h.life[e.Event+e.NS])
			continue
		}
		k := hKey(e.NS, e.Room, e.Event, body)
		for j < len(h.user) && h.user[j] != k {
			j++
		}
		if j >= len(h.user) {
			w.Log("permitted: %s", strings.Join(h.user, "\n  "))
			w.Violate("%s: callback %s fired for nothing that was sent (in this order) to a connected namespace", who, e)
		}
		j++
		w.Check(true, "")
	}
}

// c14World is a server with well-behaved clients.
type c14World struct {
	w        *W
	rig      *Rig
	native   bool
	victims  []*victim
	mu       sync.Mutex
	seen     map[string][]Ev // by connection ID
	relayed  []string        // what should reach every victim
	conns    map[string]int
	asked    map[string]int // bodies of asks to hostile peers
	answered sync.Map       // tokens' bodies that were answered
	closed   map[string]int
	seq      int64
}

type victim struct {
	id   string
	c    *neffos.Client
	ns   *neffos.NSConn
	mu   sync.Mutex
	got  []string
	done int32
	asks int
}

func newC14World(w *W, kind string) *c14World {
	r := w.R
	x := &c14World{w: w, seen: map[string][]Ev{}, conns: map[string]int{}, closed: map[string]int{}, native: chance(r, 40)}
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Check(m.FromExplicit == "", "a peer has set the sender of its message %s to %q", m.Event, m.FromExplicit)
		id := c.Conn.ID()
		if !strings.HasPrefix(id, "victim") {
			e := evOf(c, m)
			x.mu.Lock()
			x.seen[id] = append(x.seen[id], e)
			x.mu.Unlock()
			w.Log("%s", e)
			w.Event()
		}
		switch {
		case m.Event == neffos.OnNamespaceConnect && m.Namespace == "no":
			return errors.New("no")
		case m.Event == neffos.OnNamespaceDisconnect && m.Namespace == "stay" && !m.IsForced:
			return errors.New("stay")
		case m.Event == "refuse":
			return errors.New("refused")
		case m.Event == "relay" && !m.IsNative:
			b := string(m.Body)
			if m.Err != nil {
				b = "E:" + m.Err.Error()
			}
			if m.Namespace == "n" && (m.Room == "" || m.Room == "r") {
				x.mu.Lock()
				x.relayed = append(x.relayed, b)
				x.mu.Unlock()
			}
			c.Conn.Server().Broadcast(nil, m)
		case m.Event == "work":
			k := fmt.Sprint("k", atomic.AddInt64(&x.seq, 1))
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(2+len(m.Body)%10)*time.Millisecond)
			defer cancel()
			rep, err := c.Ask(ctx, "q", []byte(k))
			if err == nil {
				_, sent := x.answered.Load(k)
				w.Check(sent && string(rep.Body) == "R"+k, "an ask %q to a hostile peer returned %q", k, rep.Body)
			}
		case m.Event == "echo":
			return neffos.Reply(m.Body)
		case string(m.Body) == "fence":
			return neffos.Reply([]byte("fence"))
		}
		return nil
	}
	h := HandlerAll(cb, "", "n", "w", "no", "stay", "fence")
	if x.native {
		h[""][neffos.OnNativeMessage] = cb
	}
	x.rig = NewRig(w, kind, h, func(s *neffos.Server) {
		s.SyncBroadcaster = chance(r, 20)
		s.OnConnect = func(c *neffos.Conn) error {
			if strings.HasPrefix(c.ID(), "reject") {
				return errors.New("rejected")
			}
			x.mu.Lock()
			x.conns[c.ID()]++
			x.mu.Unlock()
			return nil
		}
		s.OnDisconnect = func(c *neffos.Conn) {
			x.mu.Lock()
			x.closed[c.ID()]++
			x.mu.Unlock()
		}
	})
	for i := 0; i < 2+r.Intn(2); i++ {
		v := &victim{id: fmt.Sprint("victim", i)}
		vcb := func(c *neffos.NSConn, m neffos.Message) error {
			w.Check(m.FromExplicit == "", "a relayed message has the sender %q", m.FromExplicit)
			if m.Event == "relay" {
				b := string(m.Body)
				if m.Err != nil {
					b = "E:" + m.Err.Error()
				}
				v.mu.Lock()
				v.got = append(v.got, b)
				v.mu.Unlock()
				w.Event()
			} else if m.Event == neffos.OnNamespaceDisconnect || m.Event == neffos.OnRoomLeft {
				w.Check(atomic.LoadInt32(&v.done) > 0, "%s lost its %s", v.id, m.Event)
			}
			return nil
		}
		v.c, _ = x.rig.Dial(v.id, HandlerAll(vcb, "n"))
		v.ns = x.rig.Connect(v.c, "n")
		_, err := v.ns.JoinRoom(w.Ctx(), "r")
		w.Check(err == nil, "join: %v", err)
		x.victims = append(x.victims, v)
	}
	return x
}

// work runs the victims until stop, then it checks that nothing was lost.
func (x *c14World) work(stop chan struct{}) *sync.WaitGroup {
	var wg sync.WaitGroup
	for _, v := range x.victims {
		v := v
		r := x.w.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					if i > 5 {
						return
					}
				default:
				}
				b := fmt.Sprint(v.id, "-", i)
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				rep, err := v.ns.Ask(ctx, "echo", []byte(b))
				cancel()
				x.w.Check(err == nil && string(rep.Body) == b, "%s: ask %q was answered with %q, %v", v.id, b, rep.Body, err)
				v.asks++
				if i%7 == 3 {
					x.w.Check(v.ns.Room("r").Emit("relay", []byte("from "+b)), "%s: an emit failed", v.id)
				}
				sleepy(r, 500)
			}
		}()
	}
	return &wg
}

// end checks the victims and ends the world.
func (x *c14World) end(models map[string]*hModel) {
	w := x.w
	for _, v := range x.victims { // everything they emitted was handled.
		_, err := v.ns.Ask(w.Ctx(), "echo", []byte("last"))
		w.Check(err == nil, "%s: the last ask: %v", v.id, err)
	}
	// the hostile connections are gone.
	w.Await(func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		for id, n := range x.conns {
			if !strings.HasPrefix(id, "victim") && x.closed[id] != n {
				return false
			}
		}
		return atomic.LoadInt64(&x.rig.inflight) == 0
	}, "the end of the hostile connections")
	// a hostile message may still be handled: what was relayed is read last.
	relayed := func() []string {
		x.mu.Lock()
		defer x.mu.Unlock()
		want := append([]string(nil), x.relayed...)
		sort.Strings(want)
		return want
	}
	for _, v := range x.victims {
		n := func() int { v.mu.Lock(); defer v.mu.Unlock(); return len(v.got) }
		w.Await(func() bool { return n() >= len(relayed()) }, "%s: %d relayed messages", v.id, len(relayed()))
	}
	w.Settle(2 * time.Millisecond)
	want := relayed()
	for _, v := range x.victims {
		v.mu.Lock()
		got := append([]string(nil), v.got...)
		v.mu.Unlock()
		sort.Strings(got)
		w.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s received other broadcasts than the ones that were sent:\n%q\n%q", v.id, got, want)
		w.Stat("victim_asks", int64(v.asks))
	}
	w.Stat("relayed", int64(len(want)))
	x.mu.Lock()
	for _, v := range x.victims {
		w.Check(x.closed[v.id] == 0 && !v.ns.Conn.IsClosed(), "%s was disconnected", v.id)
	}
	for id, evs := range x.seen {
		m := models[id]
		if m == nil {
			w.Violate("a callback fired for %q, which sent nothing valid: %s", id, evs[0])
		}
		m.check(w, id, evs)
		w.Stat("hostile_callbacks", int64(len(evs)))
	}
	x.mu.Unlock()
	for _, v := range x.victims {
		atomic.StoreInt32(&v.done, 1)
		v.c.Close()
	}
	w.Call(x.rig.Close, "server close")
}

// c14Server: hostile messages to a server.
func c14Server(w *W) {
	r := w.R
	kind := pick(r, transports)
	x := newC14World(w, kind)
	stop := make(chan struct{})
	victims := x.work(stop)
	models := map[string]*hModel{}
	np := 1 + r.Intn(4)
	rs := make([]*randT, np)
	ids := make([]string, np)
	for i := range ids {
		rs[i] = w.Rand()
		ids[i] = fmt.Sprint(pick(r, []string{"h", "h", "h", "h", "reject"}), i)
		models[ids[i]] = newHModel(true, x.native)
	}
	if np > 1 && chance(r, 15) {
		ids[1] = "h0same" // just another ID.
		models[ids[1]] = newHModel(true, x.native)
	}
	sent := int64(0)
	w.Go(np, "the hostile peers", func(i int) {
		r := rs[i]
		m := models[ids[i]]
		p := dialRaw(w, x.rig, ids[i])
		ended := make(chan struct{})
		fenced := make(chan struct{})
		var fenceOnce sync.Once
		mode := r.Intn(4)
		var smu sync.Mutex
		send := func(b []byte, bin bool) error { smu.Lock(); defer smu.Unlock(); return p.send(b, bin) }
		go func() {
			defer close(ended)
			rr := w.Rand()
			for {
				b, _, err := p.recv()
				if err != nil {
					return
				}
				w.Event()
				s := string(b)
				if strings.Contains(s, "victim") && !strings.Contains(s, ";relay;") {
					w.Violate("%s was sent %q", ids[i], s)
				}
				if strings.HasPrefix(s, "$fence;") {
					fenceOnce.Do(func() { close(fenced) })
				}
				if f, ok := parseRaw(s); ok && f.event == "q" && f.wait != "" && f.wait[0] != '$' { // an ask.
					switch {
					case mode == 0:
						x.answered.Store(f.body, true)
						send([]byte(f.wait+";n;;q;0;0;R"+f.body), false)
						if chance(rr, 50) { // again, and again.
							send([]byte(f.wait+";n;;q;0;0;Rlate"), false)
							send([]byte(f.wait+";n;;q;0;0;Rlate"), true)
						}
					case mode == 1: // another token.
						send([]byte(f.wait+"0;n;;q;0;0;Rother"), false)
						send([]byte("#"+f.wait+";n;;q;0;0;Rother"), false)
					case mode == 2:
						send([]byte("$"+f.wait+";undeclared;;q;0;0;Rother"), false)
					}
				}
			}
		}()
		acked := false
		n := 15 + r.Intn(50)
		ackAt := r.Intn(n)
		if chance(r, 60) {
			ackAt = 0
		}
		if chance(r, 5) {
			ackAt = -1
		}
		for k := 0; k < n; k++ {
			if k == ackAt && !acked {
				if send([]byte("M"), chance(r, 30)) != nil {
					break
				}
				acked = true
			}
			pl := genHostile(r)
			if pl.b[0] == 'M' && !acked {
				acked = true // it's the handshake.
			} else if len(pl.b) > 0 {
				m.feed(pl.b)
			}
			atomic.AddInt64(&sent, 1)
			w.Sign(fmt.Sprintf("%q", pl.b))
			w.Log("%s sends %q", ids[i], clip(string(pl.b), 120))
			if send(pl.b, pl.binary) != nil {
				break
			}
			if chance(r, 3) {
				send(nil, chance(r, 50)) // empty.
			}
			if chance(r, 20) {
				sleepy(r, 300)
			}
		}
		if strings.HasPrefix(ids[i], "reject") {
			*m = *newHModel(true, x.native)
			m.connected = nil
			if !acked {
				p.close()
			}
			w.Chan(ended, "%s: the end of a rejected connection", ids[i])
			return
		}
		if !acked {
			*m = *newHModel(true, x.native) // it was never admitted, nothing fires.
		} else if chance(r, 70) { // it's still a peer.
			f := "$8;fence;;_OnNamespaceConnect;0;0;"
			m.feed([]byte(f))
			send([]byte(f), false)
			f = "$fence;fence;;e;0;0;fence"
			m.feed([]byte(f))
			send([]byte(f), false)
			w.Call(func() {
				select {
				case <-fenced:
				case <-ended:
				}
			}, "%s: an answer or the end", ids[i])
		}
		p.close()
		w.Chan(ended, "%s: the end of the connection", ids[i])
	})
	close(stop)
	w.Join(victims, "the victims")
	x.end(models)
	w.Stat("hostile_payloads", sent)
	w.Sample("messages to a server, %s, %d peers %v, %d payloads, native %v", kind, np, ids, sent, x.native)
	if sent >= 10 {
		w.Nontrivial()
	}
}

const evilText = ";n;;evil\xff\xfe;0;0;\xc3\x28"

// evilFrames generates bytes which break the websocket protocol; nothing valid follows.
func evilFrames(r *randT, fromClient bool) ([]byte, string) {
	key := [4]byte{1, 2, 3, byte(r.Intn(256))}
	f := wsFrame{fin: true, op: opText, masked: fromClient, key: key, payload: []byte(";n;;evil;0;0;x")}
	switch r.Intn(15) {
	case 0:
		f.op = byte(3 + r.Intn(5))
		return f.enc(-1), "reserved opcode"
	case 1:
		f.op = byte(11 + r.Intn(5))
		return f.enc(-1), "reserved control opcode"
	case 2:
		f.rsv = byte(1 + r.Intn(7))
		return f.enc(-1), "reserved bits"
	case 3:
		f.masked = !f.masked
		return f.enc(-1), "wrong masking"
	case 4:
		f.op, f.payload = opPing, randBytes(r, 126+r.Intn(100))
		return f.enc(-1), "large ping"
	case 5:
		f.op, f.fin = pick(r, []byte{opPing, opClose, opPong}), false
		return f.enc(-1), "fragmented control"
	case 6:
		f.op, f.payload = opClose, []byte{1}
		return f.enc(-1), "short close"
	case 7:
		f.op, f.payload = opClose, append([]byte{byte(r.Intn(256)), byte(r.Intn(256))}, randBytes(r, r.Intn(60))...)
		return f.enc(-1), "close with a random code"
	case 8:
		f.op = opCont
		return f.enc(-1), "a continuation of nothing"
	case 9:
		f.fin = false
		return f.enc(-1), "an unfinished message"
	case 10:
		f.fin = false
		g := f
		g.fin = true
		return append(f.enc(-1), g.enc(-1)...), "a message inside of another"
	case 11:
		return f.enc(int64(len(f.payload)) + 1 + int64(r.Intn(1000))), "a truncated frame"
	case 12:
		b := f.enc(1 << uint(20+r.Intn(43)))
		if chance(r, 30) {
			b[2] = 0xff // negative
		}
		return b, "a huge frame"
	case 13:
		f.payload = []byte(evilText)
		return f.enc(-1), "text which is not UTF-8"
	}
	b := randBytes(r, 1+r.Intn(300))
	// never, by luck, a valid frame of a valid message.
	b[0] |= 0x70
	return b, "random bytes"
}

// c14Frames: hostile bytes to a server.
func c14Frames(w *W) {
	r := w.R
	kind := pick(r, tcpTransports)
	x := newC14World(w, kind)
	stop := make(chan struct{})
	victims := x.work(stop)
	models := map[string]*hModel{}
	np := 2 + r.Intn(4)
	rs := make([]*randT, np)
	kinds := make([]string, np)
	for i := range rs {
		rs[i] = w.Rand()
		models[fmt.Sprint("h", i)] = newHModel(true, x.native)
	}
	host := x.rig.ln.Addr().String()
	sent := int64(0)
	w.Go(np, "the hostile peers", func(i int) {
		r := rs[i]
		id := fmt.Sprint("h", i)
		m := models[id]
		if chance(r, 20) { // no handshake at all.
			kinds[i] = "http"
			c, err := net.Dial("tcp", host)
			if err != nil {
				return
			}
			key := "dGhlIHNhbXBsZSBub25jZQ=="
			s := pick(r, []string{"GET /ws?vid=bad HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n", "GET /ws?vid=bad HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\n\r\n",
				"GET /ws?vid=bad HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: " + key + "\r\n\r\n",
				"POST /ws?vid=bad HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + key + "\r\nContent-Length: 3\r\n\r\nabc",
				"GET /ws?vid=bad HTTP/1.0\r\n\r\n", "\x16\x03\x01\x00\x00", "M", string(randBytes(r, 200))})
			c.Write([]byte(s + string(randBytes(r, r.Intn(50)))))
			sleepy(r, 2000)
			c.Close()
			atomic.AddInt64(&sent, 1)
			return
		}
		var early []byte
		frameOf := func(b []byte, bin bool) []byte {
			f := wsFrame{fin: true, op: opText, masked: true, payload: b}
			r.Read(f.key[:])
			if bin {
				f.op = opBin
			}
			if len(b) > 1 && chance(r, 15) { // fragmented, with pings between.
				k := 1 + r.Intn(len(b)-1)
				f1, f2 := f, f
				f1.fin, f1.payload = false, b[:k]
				f2.op, f2.payload = opCont, b[k:]
				out := f1.enc(-1)
				if chance(r, 50) {
					out = append(out, wsFrame{fin: true, op: opPing, masked: true, payload: []byte("p")}.enc(-1)...)
				}
				return append(out, f2.enc(-1)...)
			}
			return f.enc(-1)
		}
		var stream []byte
		n := r.Intn(20)
		acked := false
		for k := 0; k < n; k++ {
			if k == n/4 && !acked {
				stream = append(stream, frameOf([]byte("M"), false)...)
				acked = true
			}
			pl := genHostile(r)
			w.Sign(fmt.Sprintf("%q", pl.b))
			atomic.AddInt64(&sent, 1)
			if pl.b[0] == 'M' && !acked {
				acked = true
			} else {
				m.feed(pl.b)
			}
			stream = append(stream, frameOf(pl.b, pl.binary)...)
		}
		if !acked {
			*m = *newHModel(true, x.native)
		}
		var evil []byte
		evil, kinds[i] = evilFrames(r, true)
		if kinds[i] == "text which is not UTF-8" && strings.HasSuffix(kind, ">gorilla") && acked {
			m.feed([]byte(evilText))
		}
		w.Sign(fmt.Sprintf("%x", evil))
		stream = append(stream, evil...)
		if chance(r, 30) {
			k := r.Intn(len(stream))
			early, stream = stream[:k], stream[k:]
		}
		c, br, err := wsDial(x.rig.dialURL(id, ""), early)
		if err != nil {
			if len(early) > 0 && strings.HasSuffix(kind, ">gorilla") { // it refuses data before the handshake is done.
				*m = *newHModel(true, x.native)
				return
			}
			w.Inconclusive("raw dial: %v", err)
		}
		ended := make(chan struct{})
		go func() {
			defer close(ended)
			for {
				f, err := readWS(br)
				if err != nil {
					return
				}
				w.Event()
				if e := wsProtocolError(f, false); e != "" {
					w.Violate("the server sent %s: %s", f, e)
				}
			}
		}()
		for len(stream) > 0 {
			k := len(stream)
			if chance(r, 50) {
				k = 1 + r.Intn(len(stream))
			}
			if _, err := c.Write(stream[:k]); err != nil {
				break
			}
			stream = stream[k:]
			if chance(r, 20) {
				sleepy(r, 500)
			}
		}
		sleepy(r, 3000)
		switch r.Intn(3) {
		case 0:
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		case 1:
			if t, ok := c.(*net.TCPConn); ok {
				t.CloseWrite()
				w.Chan(ended, "%s: the end after %s", id, kinds[i])
			}
		}
		c.Close()
		w.Chan(ended, "%s: the end of the connection", id)
	})
	close(stop)
	w.Join(victims, "the victims")
	for _, evs := range x.seen {
		for _, e := range evs {
			// gorilla does not validate the text's encoding.
			w.Check(!strings.HasPrefix(e.Event, "evil") || strings.HasSuffix(kind, ">gorilla") && e.Event == "evil\xff\xfe", "a broken frame fired %s", e)
		}
	}
	x.end(models)
	w.Stat("hostile_payloads", sent)
	for _, k := range kinds {
		w.Stat("evil: "+k, 1)
	}
	w.Sample("frames to a server, %s, %d peers %v, %d messages", kind, np, kinds, sent)
	w.Nontrivial()
}

// c14Client: a hostile server and a client, beside a well-behaved pair.
func c14Client(w *W) {
	r := w.R
	kind := pick(r, transports)
	x := newC14World(w, pick(r, transports))
	stop := make(chan struct{})
	victims := x.work(stop)
	native := chance(r, 40)
	m := newHModel(false, native)
	var mu sync.Mutex
	var seen []Ev
	var cconn *neffos.Conn
	cb := func(c *neffos.NSConn, m neffos.Message) error {
		w.Check(m.FromExplicit == "", "a peer has set the sender of its message %s to %q", m.Event, m.FromExplicit)
		mu.Lock()
		seen = append(seen, evOf(c, m))
		cconn = c.Conn
		mu.Unlock()
		w.Event()
		switch {
		case m.Event == neffos.OnNamespaceConnect && m.Namespace == "no":
			return errors.New("no")
		case m.Event == "refuse":
			return errors.New("refused")
		case m.Event == "work":
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Millisecond)
			defer cancel()
			rep, err := c.Ask(ctx, "q", []byte("x"))
			w.Check(err != nil, "an ask to a hostile server returned %q", rep.Body)
		}
		return nil
	}
	h := HandlerAll(cb, "", "n", "w", "no", "stay", "fence")
	if native {
		h[""][neffos.OnNativeMessage] = cb
	}
	rp := w.Rand()
	n := 10 + r.Intn(50)
	ackAt := r.Intn(4) * r.Intn(5)
	ack := pick(r, []string{"Aid", "Aid", "Aid", "Aid", "A", "Hgo away", "Aid;x"})
	if chance(r, 10) {
		ackAt = -1
	}
	if chance(r, 10) {
		ackAt = 0
	}
	var tail []byte
	evilKind := ""
	if kind != "mem" {
		tail, evilKind = evilFrames(rp, false)
	}
	sent := int64(0)
	var mmu sync.Mutex
	// serve runs the hostile server; answer is the client's requests.
	serve := func(send func(b []byte, bin bool) error, recv func() (string, error), raw func([]byte), closeIt func()) {
		recvEnd := make(chan struct{})
		go func() {
			defer close(recvEnd)
			for {
				s, err := recv()
				if err != nil {
					return
				}
				w.Event()
				if f, ok := parseRaw(s); ok && f.event == neffos.OnNamespaceConnect && f.wait != "" {
					mmu.Lock()
					k := f.ns
					yes := len(s)%2 == 0
					if yes { // what follows may be for a connected namespace.
						m.connected[k] = true
						for _, e := range []string{neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect} {
							m.life[e+k]++
						}
					}
					rep := f.wait + ";;;;;;"
					if !yes {
						rep = f.wait + "9;;;;;;"
					}
					m.feed([]byte(rep))
					send([]byte(rep), false)
					mmu.Unlock()
				}
			}
		}()
		for k := 0; k < n; k++ {
			if k == ackAt {
				if send([]byte(ack), false) != nil {
					break
				}
			}
			pl := genHostile(rp)
			if k == 0 && chance(rp, 20) {
				pl = hpay{b: []byte("M")}
			}
			if ackAt < 0 || k < ackAt || k == ackAt && false {
				if pl.b[0] == 'A' || pl.b[0] == 'H' {
					continue
				}
			}
			mmu.Lock()
			m.feed(pl.b)
			w.Sign(fmt.Sprintf("%q", pl.b))
			sent++
			err := send(pl.b, pl.binary)
			mmu.Unlock()
			if err != nil {
				break
			}
			if chance(rp, 20) {
				sleepy(rp, 300)
			}
		}
		if raw != nil {
			if evilKind == "text which is not UTF-8" && strings.HasPrefix(kind, "gorilla") {
				mmu.Lock()
				m.feed([]byte(evilText)) // gorilla doesn't validate it.
				mmu.Unlock()
			}
			raw(tail)
		}
		sleepy(rp, 4000)
		closeIt()
		w.Chan(recvEnd, "the end of the client's frames")
	}
	served := make(chan struct{})
	var d neffos.Dialer
	u := "ws://x"
	if kind == "mem" {
		d = func(ctx context.Context, u string) (neffos.Socket, error) {
			c, srv := memPipe()
			go func() {
				defer close(served)
				serve(func(b []byte, bin bool) error { return srv.write(b, bin, 0) },
					func() (string, error) { s, _, err := srv.Recv(); return s, err }, nil, func() { srv.conn.Close() })
			}()
			return c, nil
		}
	} else {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			w.Inconclusive("listen: %v", err)
		}
		defer ln.Close()
		u = "ws://" + ln.Addr().String() + "/"
		if strings.HasPrefix(kind, "gorilla") {
			d = gorilla.Dialer(&gorillaws.Dialer{}, http.Header{})
		} else {
			d = gobwas.Dialer(gobwasws.Dialer{})
		}
		bad := chance(r, 10)
		go func() {
			defer close(served)
			c, err := ln.Accept()
			if err != nil {
				return
			}
			if bad { // not even a handshake.
				ackAt = -1
				br := bufio.NewReader(c)
				http.ReadRequest(br)
				c.Write([]byte(pick(rp, []string{"HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: wrong\r\n\r\nAid", "\r\n\r\n", "HTTP/1.1 101", string(randBytes(rp, 100))})))
				c.Close()
				return
			}
			var early []byte
			br, _, err := wsAccept(c, early)
			if err != nil {
				c.Close()
				return
			}
			serve(func(b []byte, bin bool) error {
				f := wsFrame{fin: true, op: opText, payload: b}
				if bin {
					f.op = opBin
				}
				_, err := c.Write(f.enc(-1))
				return err
			}, func() (string, error) {
				f, err := readWS(br)
				if err == nil {
					if e := wsProtocolError(f, true); e != "" {
						w.Violate("the client sent %s: %s", f, e)
					}
				}
				return string(f.payload), err
			}, func(b []byte) { c.Write(b) }, func() { c.Close() })
		}()
	}
	var cli *neffos.Client
	var err error
	w.Call(func() { cli, err = neffos.Dial(w.Ctx(), d, u, h) }, "the dial of a hostile server")
	if err == nil {
		w.Check(ackAt >= 0 && ack[0] == 'A', "a dial succeeded without an ID")
		w.Check(cli.ID == ack[1:], "the client's ID is %q, the server sent %q", cli.ID, ack)
		for k := 0; k < 3; k++ {
			ctx, cancel := context.WithTimeout(context.Background(), 4*time.Millisecond)
			w.Call(func() { cli.Connect(ctx, pick(r, []string{"n", "w", "no", "undeclared"})) }, "a connect with a deadline")
			cancel()
		}
		w.Chan(served, "the hostile server's end")
		w.Chan(cli.NotifyClose, "the client's end")
		mu.Lock()
		if cconn != nil {
			w.Check(cconn.IsClosed(), "the client is not closed")
		}
		mu.Unlock()
	} else {
		w.Stat("dial_errors", 1)
		w.Chan(served, "the hostile server's end")
	}
	close(stop)
	w.Join(victims, "the victims")
	for _, ns := range []string{"n", "w", "no", "stay", ""} {
		m.life[neffos.OnNamespaceConnect+ns] += 4 // its own connects.
	}
	mu.Lock()
	m.late()
	m.check(w, "the client", seen)
	w.Stat("hostile_callbacks", int64(len(seen)))
	mu.Unlock()
	x.end(map[string]*hModel{})
	w.Stat("hostile_payloads", sent)
	if evilKind != "" {
		w.Stat("evil: "+evilKind, 1)
	}
	w.Sample("a hostile server, %s, %d payloads, handshake %q at %d, then %q, dial: %v", kind, sent, ack, ackAt, evilKind, err)
	if sent >= 10 {
		w.Nontrivial()
	}
}
