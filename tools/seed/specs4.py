MININATS = '''
// a tiny NATS.
type demoNats struct {
	ln   net.Listener
	mu   sync.Mutex
	subs map[net.Conn]map[string]string
}

func newDemoNats() *demoNats {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	n := &demoNats{ln: ln, subs: map[net.Conn]map[string]string{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go n.serve(c)
		}
	}()
	return n
}

func (n *demoNats) serve(c net.Conn) {
	defer c.Close()
	n.mu.Lock()
	n.subs[c] = map[string]string{}
	n.mu.Unlock()
	defer func() { n.mu.Lock(); delete(n.subs, c); n.mu.Unlock() }()
	fmt.Fprintf(c, "INFO {\\"server_id\\":\\"x\\",\\"version\\":\\"2.10.0\\",\\"proto\\":1,\\"headers\\":true,\\"max_payload\\":8388608}\\r\\n")
	br := bufio.NewReader(c)
	for {
		line, err := br.ReadString('\\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "PING":
			n.mu.Lock()
			c.Write([]byte("PONG\\r\\n"))
			n.mu.Unlock()
		case "SUB":
			n.mu.Lock()
			n.subs[c][f[len(f)-1]] = f[1]
			n.mu.Unlock()
		case "UNSUB":
			n.mu.Lock()
			delete(n.subs[c], f[1])
			n.mu.Unlock()
		case "PUB":
			k, _ := strconv.Atoi(f[len(f)-1])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(br, b); err != nil {
				return
			}
			n.mu.Lock()
			for o, subs := range n.subs {
				for sid, s := range subs {
					if o != c && s == f[1] {
						fmt.Fprintf(o, "MSG %s %s %d\\r\\n%s", s, sid, k, b)
					}
				}
			}
			n.mu.Unlock()
		}
	}
}

func (n *demoNats) use(s *neffos.Server) {
	e, err := nats.NewStackExchange("nats://" + n.ln.Addr().String())
	if err != nil {
		panic(err)
	}
	s.UseStackExchange(e)
}
'''
NIMP = ['bufio','fmt','io','net','strconv','strings','sync','time','github.com/kataras/neffos/stackexchange/nats']
SEEDS = [
dict(id='join-locked', prop='C16', needs="a room join callback (of the other side's join) that joins or leaves another room of the namespace connection",
 breaks='the callback runs while the rooms are locked, so it blocks forever and the connection with it',
 edits=[('conn_namespace.go', '''	_, ok := ns.rooms[msg.Room]
	ns.roomsMutex.RUnlock()
	if !ok {
		err := ns.events.fireEvent(ns, msg)
		if err != nil {''', '''	_, ok := ns.rooms[msg.Room]
	if ok {
		ns.roomsMutex.RUnlock()
	} else {
		err := ns.events.fireEvent(ns, msg)
		ns.roomsMutex.RUnlock()
		if err != nil {''')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnRoomJoin: func(c *neffos.NSConn, m neffos.Message) error {
		if m.Room == "r" && !m.IsLocal && !c.Conn.IsClient() {
			_, err := c.JoinRoom(demoCtx(3e9), "lobby")
			return err
		}
		return nil
	}}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	if _, err := ns.JoinRoom(demoCtx(5e9), "r"); err != nil {
		t.Fatal(err)
	}
	if ns.Room("lobby") == nil {
		t.Fatal("not joined")
	}
}
'''),
dict(id='subject-case', prop='C19', needs='the NATS exchange, two namespaces whose names differ by case only and a connection of both',
 breaks='both namespaces share a subject, so a connection of both receives their broadcasts twice',
 edits=[('stackexchange/nats/stackexchange_nats.go', 'return exc.SubjectPrefix + "." + namespace\n', 'return exc.SubjectPrefix + "." + strings.ToLower(namespace)\n')],
 imports=NIMP,
 demo=MININATS+'''
func TestDemo(t *testing.T) {
	n := newDemoNats()
	got := make(chan string, 100)
	ev := neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error { got <- m.Namespace + string(m.Body); return nil }}
	h := neffos.Namespaces{"Chat": ev, "chat": ev}
	s1, s2 := demoServer(h), demoServer(h)
	n.use(s1)
	n.use(s2)
	cli, ns := demoMust(t, s1, "x", h, "Chat")
	if _, err := cli.Connect(demoCtx(5e9), "chat"); err != nil {
		t.Fatal(err)
	}
	ns.Ask(demoCtx(1e8), "none", nil)
	for i := 0; i < 10; i++ {
		s2.Broadcast(nil, neffos.Message{Namespace: "Chat", Event: "e", Body: []byte(fmt.Sprint(i))})
		select {
		case b := <-got:
			if b != fmt.Sprint("Chat", i) {
				t.Fatal(b)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("lost")
		}
	}
	select {
	case b := <-got:
		t.Fatal("again: ", b)
	case <-time.After(200 * time.Millisecond):
	}
}
'''),
dict(id='sync-large', prop='C07', needs='the synchronous broadcaster, a broadcast with a body of more than 4 KB and a smaller one right after it',
 breaks='large broadcasts are written in the background, so the ones that follow them may overtake them at some receivers',
 edits=[('server.go', """		if !c.Write(msg) && c.IsClosed() {
""", """		ok := true
		if c.server.SyncBroadcaster && len(msg.Body) > 4096 {
			go c.Write(msg) // do not hold back the server's loop.
		} else {
			ok = c.Write(msg)
		}

		if !ok && c.IsClosed() {
""")],
 imports=['fmt','time'],
 demo="""
func TestDemo(t *testing.T) {
	got := make(chan string, 100000)
	h := neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error { got <- string(m.Body[:6]); return nil }}}
	s := demoServer(h)
	s.SyncBroadcaster = true
	demoMust(t, s, "x", h, "a")
	const n = 1000
	for i := 0; i < n; i++ {
		b := make([]byte, 10+(i%2)*20000)
		copy(b, fmt.Sprintf("%06d", i))
		s.Broadcast(nil, neffos.Message{Namespace: "a", Event: "e", Body: b, SetBinary: true})
	}
	for i := 0; i < n; i++ {
		select {
		case b := <-got:
			if b != fmt.Sprintf("%06d", i) {
				t.Fatalf("broadcast %s arrived instead of %d", b, i)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("lost")
		}
	}
}
"""),
dict(id='ask-subscribe-late', prop='C20', needs='the NATS exchange and a responder that answers before the subscription of the ask is done',
 breaks='the ask subscribes to its answer after it was published, so that a fast answer is lost and the ask does not end',
 edits=[('stackexchange/nats/stackexchange_nats.go', """	subConn, err := exc.opts.Connect()

	if err != nil {
		return
	}

	defer subConn""", """	if !exc.publish(msg) {
		return response, neffos.ErrWrite
	}

	subConn, err := exc.opts.Connect()
	if err != nil {
		return
	}

	defer subConn"""), ('stackexchange/nats/stackexchange_nats.go', """	if !exc.publish(msg) {
		return response, neffos.ErrWrite
	}

	select {""", """	select {""")],
 imports=NIMP,
 demo=MININATS+"""
func TestDemo(t *testing.T) {
	n := newDemoNats()
	h := neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(append(m.Body, '!')) }}}
	s1, s2 := demoServer(h), demoServer(h)
	n.use(s1)
	n.use(s2)
	demoMust(t, s1, "x", h, "a")
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 50; i++ {
		m, err := s2.Ask(demoCtx(5e9), neffos.Message{Namespace: "a", Event: "q", To: "x", Body: []byte(fmt.Sprint(i))})
		if err != nil || string(m.Body) != fmt.Sprint(i, "!") {
			t.Fatalf("%d: %q %v", i, m.Body, err)
		}
	}
}
"""),
dict(id='again-connected', prop='C23', needs='both sides connect to the same namespace at the same time',
 breaks='the request of a simultaneous connect fires the connected callback once more',
 edits=[('conn.go', """	ns := c.Namespace(msg.Namespace)
	if ns != nil {
		c.writeEmptyReply(msg.wait)
		return
	}

	events, ok := c.namespaces[msg.Namespace]
""", """	if ns := c.Namespace(msg.Namespace); ns != nil {
		c.writeEmptyReply(msg.wait)
		c.notifyNamespaceConnected(ns, msg)
		return
	}

	events, ok := c.namespaces[msg.Namespace]
"""), ('conn.go', """	ns = newNSConn(c, msg.Namespace, events)
	err := events.fireEvent(ns, msg)
	if err != nil {
		msg.Err = err
""", """	ns := newNSConn(c, msg.Namespace, events)
	err := events.fireEvent(ns, msg)
	if err != nil {
		msg.Err = err
""")],
 imports=['sync','sync/atomic'],
 demo="""
func TestDemo(t *testing.T) {
	var n int32
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
		if !c.Conn.IsClient() {
			atomic.AddInt32(&n, 1)
		}
		return nil
	}}}
	s := demoServer(h)
	conns := make(chan *neffos.Conn, 1)
	s.OnConnect = func(c *neffos.Conn) error { conns <- c; return nil }
	cli, err := demoDial(s, "x", h)
	if err != nil {
		t.Fatal(err)
	}
	c := <-conns
	for i := int32(1); i <= 300; i++ {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { cli.Connect(demoCtx(5e9), "a"); wg.Done() }()
		go func() { c.Connect(demoCtx(5e9), "a"); wg.Done() }()
		wg.Wait()
		ns, err := cli.Connect(demoCtx(5e9), "a")
		if err != nil {
			t.Fatal(err)
		}
		if err := ns.Disconnect(demoCtx(5e9)); err != nil {
			t.Fatal(err)
		}
		if k := atomic.LoadInt32(&n); k != i {
			t.Fatalf("connected %d times after %d rounds", k, i)
		}
	}
}
"""),
]
