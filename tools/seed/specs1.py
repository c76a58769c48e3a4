SEEDS = [
dict(id='room-ask-ungated', prop='C09', needs='an Ask (not an Emit) to a room that was not joined',
 breaks='a request addressed to a not joined room is written to the wire and answered by the other side',
 edits=[('conn.go', 'if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {', 'if msg.Room != "" && msg.wait == "" && !msg.isRoomJoin() && !msg.isRoomLeft() {')],
 imports=['time'],
 demo='''
func TestDemo(t *testing.T) {
	fired := make(chan string, 10)
	h := neffos.Namespaces{"a": neffos.Events{"ev": func(c *neffos.NSConn, m neffos.Message) error {
		if !c.Conn.IsClient() {
			fired <- m.Room
		}
		return neffos.Reply([]byte("pong"))
	}}}
	s := demoServer(h)
	_, n := demoMust(t, s, "x", h, "a")
	if _, err := n.Conn.Ask(demoCtx(2*time.Second), neffos.Message{Namespace: "a", Room: "r", Event: "ev"}); err == nil {
		t.Fatal("a request to a not joined room was answered")
	}
	select {
	case r := <-fired:
		t.Fatalf("event of room %q", r)
	case <-time.After(100 * time.Millisecond):
	}
}
'''),
dict(id='forced-leave-events', prop='C10', needs='a connection joined to two or more rooms that is closed or disconnected while joined',
 breaks='from the second room on, the forced leave fires OnRoomLeft twice and OnRoomLeave never',
 edits=[('conn_namespace.go', '''			ns.events.fireEvent(ns, leaveMsg)
		}

		leaveMsg.Event = OnRoomLeave
	}
''', '''			ns.events.fireEvent(ns, leaveMsg)
		}
	}
''')],
 imports=['sync', 'time'],
 demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	n := map[string]int{}
	count := func(c *neffos.NSConn, m neffos.Message) error {
		if !c.Conn.IsClient() {
			mu.Lock()
			n[m.Event]++
			mu.Unlock()
		}
		return nil
	}
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnRoomLeave: count, neffos.OnRoomLeft: count}}
	s := demoServer(h)
	gone := make(chan struct{})
	s.OnDisconnect = func(*neffos.Conn) { close(gone) }
	c, ns := demoMust(t, s, "x", h, "a")
	for _, r := range []string{"1", "2", "3"} {
		if _, err := ns.JoinRoom(demoCtx(2*time.Second), r); err != nil {
			t.Fatal(err)
		}
	}
	c.Close()
	<-gone
	mu.Lock()
	defer mu.Unlock()
	if n[neffos.OnRoomLeave] != 3 || n[neffos.OnRoomLeft] != 3 {
		t.Fatalf("%v", n)
	}
}
'''),
dict(id='same-id-excluded', prop='C06', needs='two connections of the same server with the same ID, one of them excluded from a broadcast',
 breaks='excluding a connection from a broadcast also excludes other connections that have the same ID',
 edits=[('server.go', 'return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, c.id, c)', 'return fmt.Sprintf("neffos(0x%s(%s))", s.uuid, c.id)')],
 imports=['time', 'sync'],
 demo='''
func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	client := func(name string) neffos.Namespaces {
		return neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
			got <- name
			return nil
		}}}
	}
	var mu sync.Mutex
	var conns []*neffos.NSConn
	s := demoServer(neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
		mu.Lock()
		conns = append(conns, c)
		mu.Unlock()
		return nil
	}}})
	demoMust(t, s, "user", client("first"), "a")
	demoUntil(t, 2*time.Second, "connected", func() bool { mu.Lock(); defer mu.Unlock(); return len(conns) == 1 })
	demoMust(t, s, "user", client("second"), "a")
	demoUntil(t, 2*time.Second, "connected", func() bool { mu.Lock(); defer mu.Unlock(); return len(conns) == 2 })
	s.Broadcast(conns[0], neffos.Message{Namespace: "a", Event: "e"})
	select {
	case n := <-got:
		if n != "second" {
			t.Fatal("the excluded one received it")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("the other connection of the same user did not receive it")
	}
}
'''),
]
