SEEDS = [
dict(id='ack-shared-buffer', prop='C11', needs='two admissions whose acknowledgements are written at the same time, on a socket that is slow to copy',
 breaks='the acknowledgement prefix has spare capacity, so the append of one connection overwrites the ID of another: a client gets the ID of someone else',
 edits=[('conn.go', 'ackIDBinaryB    = []byte{ackIDBinary}', 'ackIDBinaryB    = append(make([]byte, 0, 64), ackIDBinary)')],
 imports=['context', 'fmt', 'sync', 'time', 'net/http'],
 demo='''
type slowEnd struct{ *demoEnd }

func (e slowEnd) WriteText(b []byte, d time.Duration) error {
	time.Sleep(5 * time.Millisecond)
	return e.demoEnd.WriteText(b, d)
}

func TestDemo(t *testing.T) {
	s := neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		sock, err := demoUpgrader(w, r)
		if err != nil {
			return nil, err
		}
		return slowEnd{sock.(*demoEnd)}, nil
	}, neffos.Namespaces{"a": neffos.Events{}})
	s.IDGenerator = func(_ http.ResponseWriter, r *http.Request) string { return r.URL.Query().Get("id") }
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		id := fmt.Sprintf("id%d", i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := neffos.Dial(context.Background(), func(context.Context, string) (neffos.Socket, error) {
				c, e := demoPipe()
				demoServe(s, e, id)
				return c, nil
			}, "ws://mem", neffos.Namespaces{"a": neffos.Events{}})
			if err != nil || c.ID != id {
				t.Errorf("%s became %v %v", id, c, err)
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='notify-first', prop='C13', needs='a listener of NotifyClose and a namespace disconnect callback that takes a while',
 breaks='NotifyClose fires before the disconnect callbacks are done',
 edits=[('conn.go', '''		if !c.shouldHandleOnlyNativeMessages {
			for _, ns''', '''		close(c.closeCh)

		if !c.shouldHandleOnlyNativeMessages {
			for _, ns'''), ('conn.go', '''		close(c.closeCh)
		c.socket.NetConn().Close()''', '''		c.socket.NetConn().Close()''')],
 imports=['time', 'sync/atomic'],
 demo='''
func TestDemo(t *testing.T) {
	var done int32
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
		if c.Conn.IsClient() {
			time.Sleep(50 * time.Millisecond)
			atomic.StoreInt32(&done, 1)
		}
		return nil
	}}}
	s := demoServer(h)
	c, _ := demoMust(t, s, "x", h, "a")
	go c.Close()
	<-c.NotifyClose
	if atomic.LoadInt32(&done) == 0 {
		t.Fatal("notified before the disconnect callback")
	}
}
'''),
dict(id='early-unregister', prop='C12', needs='a namespace disconnect callback that takes a while on the server',
 breaks='OnDisconnect fires and the connection is not counted anymore before its namespaces were disconnected',
 edits=[('conn.go', '''		if !c.IsClient() {
			go func() {
				c.server.disconnect <- c
			}()
		}

		close(c.closeCh)''', '''		close(c.closeCh)'''), ('conn.go', '''		if !c.shouldHandleOnlyNativeMessages {
			for _, ns''', '''		if !c.IsClient() {
			go func() {
				c.server.disconnect <- c
			}()
		}

		if !c.shouldHandleOnlyNativeMessages {
			for _, ns''')],
 imports=['time', 'sync/atomic'],
 demo='''
func TestDemo(t *testing.T) {
	var done int32
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
		if !c.Conn.IsClient() {
			time.Sleep(50 * time.Millisecond)
			atomic.StoreInt32(&done, 1)
		}
		return nil
	}}}
	s := demoServer(h)
	gone := make(chan int32, 1)
	s.OnDisconnect = func(c *neffos.Conn) { gone <- atomic.LoadInt32(&done) }
	c, _ := demoMust(t, s, "x", h, "a")
	c.Close()
	if <-gone == 0 {
		t.Fatal("OnDisconnect before the namespace's disconnect")
	}
}
'''),
dict(id='escape-one', prop='C01', needs='a namespace, room or event name with two or more semicolons',
 breaks='only the first semicolon is escaped, so the fields are shifted on the other side',
 edits=[('message.go', 'return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, -1)', 'return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, 1)')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	in := neffos.Message{Namespace: "n", Event: "a;b;c", Body: []byte("x")}
	out := neffos.DeserializeMessage(neffos.TextMessage, in.Serialize(), false, false)
	if out.Event != in.Event || string(out.Body) != "x" {
		t.Fatalf("%+v", out)
	}
}
'''),
dict(id='param-infix', prop='C27', needs='an URL parameter that contains the prefix somewhere after its start',
 breaks='URL parameters which only contain the header prefix are set as request headers',
 edits=[('server.go', 'if idx != 0 { // must be prefix.', 'if idx == -1 { // must be prefix.'), ('server.go', 'k = k[len(URLParamAsHeaderPrefix):]', 'k = k[idx+len(URLParamAsHeaderPrefix):]')],
 imports=['net/http', 'net/http/httptest', 'errors'],
 demo='''
func TestDemo(t *testing.T) {
	var got http.Header
	s := neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		got = r.Header.Clone()
		return nil, errors.New("no")
	}, neffos.Namespaces{})
	s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/?My-X-Websocket-Header-Authorization=evil", nil))
	if got.Get("Authorization") != "" {
		t.Fatal(got)
	}
}
'''),
dict(id='disconnect-mark', prop='C10', needs='NSConn#Disconnect (not DisconnectAll or Close) with a callback that looks at IsLocal',
 breaks='the disconnect event of the side that called Disconnect is marked as caused by the remote side',
 edits=[('conn.go', '''	msg.IsLocal = true
	ns.events.fireEvent(ns, msg)

	c.notify''', '''	ns.events.fireEvent(ns, msg)

	c.notify''')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	got := make(chan bool, 1)
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceDisconnect: func(c *neffos.NSConn, m neffos.Message) error {
		if c.Conn.IsClient() {
			got <- m.IsLocal
		}
		return nil
	}}}
	s := demoServer(h)
	_, n := demoMust(t, s, "x", h, "a")
	if err := n.Disconnect(nil); err != nil {
		t.Fatal(err)
	}
	if !<-got {
		t.Fatal("not local")
	}
}
'''),
dict(id='known-prefix', prop='C02', needs='an error whose text starts with the text of a known one',
 breaks='the error arrives as the known error and the rest of its text is lost',
 edits=[('message.go', 'if knownErr.Error() == errorText {', 'if strings.HasPrefix(errorText, knownErr.Error()) {')],
 imports=['errors'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error { return errors.New("bad room: it is full") }}}
	s := demoServer(h)
	_, n := demoMust(t, s, "x", h, "a")
	if _, err := n.Ask(nil, "e", nil); err == nil || err.Error() != "bad room: it is full" {
		t.Fatal(err)
	}
}
'''),
dict(id='join-alias', prop='C25', needs='the same namespace in two joined handlers and a look at (or another use of) the first one',
 breaks='JoinConnHandlers writes the events of the later handlers into the first one',
 edits=[('conn_handler.go', 'namespaces[namespace] = clonedEvents', 'namespaces[namespace] = events')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	f := func(c *neffos.NSConn, m neffos.Message) error { return nil }
	a := neffos.Namespaces{"n": neffos.Events{"x": f}}
	b := neffos.Namespaces{"n": neffos.Events{"y": f}}
	neffos.JoinConnHandlers(a, b)
	if len(a["n"]) != 1 {
		t.Fatal("the first handler has been changed")
	}
}
'''),
dict(id='publish-short', prop='C21', needs='two exchanges, the first one fails to publish',
 breaks='the second exchange does not see a broadcast that the first one failed to publish',
 edits=[('stackexchange.go', '''	okParent := s.parent.Publish(msgs)
	okCurrent := s.current.Publish(msgs)

	return okParent && okCurrent''', '''	return s.parent.Publish(msgs) && s.current.Publish(msgs)''')],
 imports=['context'],
 demo='''
type recExc struct {
	ok bool
	n  int
}

func (r *recExc) OnConnect(c *neffos.Conn) error          { return nil }
func (r *recExc) OnDisconnect(c *neffos.Conn)             {}
func (r *recExc) Publish(msgs []neffos.Message) bool      { r.n++; return r.ok }
func (r *recExc) Subscribe(c *neffos.Conn, ns string)     {}
func (r *recExc) Unsubscribe(c *neffos.Conn, ns string)   {}
func (r *recExc) NotifyAsk(m neffos.Message, token string) error { return nil }
func (r *recExc) Ask(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
	return neffos.Message{}, nil
}

func TestDemo(t *testing.T) {
	s := demoServer(neffos.Namespaces{"a": neffos.Events{}})
	a, b := &recExc{}, &recExc{ok: true}
	s.UseStackExchange(a)
	s.UseStackExchange(b)
	s.Broadcast(nil, neffos.Message{Namespace: "a", Event: "e"})
	if a.n != 1 || b.n != 1 {
		t.Fatal(a.n, b.n)
	}
}
'''),
dict(id='no-unsubscribe', prop='C21', needs='a namespace disconnection that the client asked for, with an exchange',
 breaks='the exchange is not told to unsubscribe when the client disconnects from the namespace',
 edits=[('conn.go', '''	c.notifyNamespaceDisconnect(ns, msg)

	c.writeEmptyReply(msg.wait)''', '''	c.writeEmptyReply(msg.wait)''')],
 imports=['context', 'sync/atomic', 'time'],
 demo='''
type recExc struct {
	unsub int32
}

func (r *recExc) OnConnect(c *neffos.Conn) error          { return nil }
func (r *recExc) OnDisconnect(c *neffos.Conn)             {}
func (r *recExc) Publish(msgs []neffos.Message) bool      { return true }
func (r *recExc) Subscribe(c *neffos.Conn, ns string)     {}
func (r *recExc) Unsubscribe(c *neffos.Conn, ns string)   { atomic.AddInt32(&r.unsub, 1) }
func (r *recExc) NotifyAsk(m neffos.Message, token string) error { return nil }
func (r *recExc) Ask(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
	return neffos.Message{}, nil
}

func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{}}
	s := demoServer(h)
	a := &recExc{}
	s.UseStackExchange(a)
	_, n := demoMust(t, s, "x", h, "a")
	if err := n.Disconnect(nil); err != nil {
		t.Fatal(err)
	}
	demoUntil(t, 2*time.Second, "unsubscribe", func() bool { return atomic.LoadInt32(&a.unsub) == 1 })
}
'''),
dict(id='server-ask-error', prop='C22', needs='a server Ask whose responder returns an error',
 breaks='Server#Ask returns a nil error for an error reply',
 edits=[('server.go', 'return receive, receive.Err', 'return receive, nil')],
 imports=['errors', 'time'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error { return errors.New("nope") }}}
	s := demoServer(h)
	demoMust(t, s, "x", h, "a")
	demoUntil(t, 2*time.Second, "the connection", func() bool { return s.GetTotalConnections() == 1 })
	if _, err := s.Ask(demoCtx(3*time.Second), neffos.Message{Namespace: "a", Event: "e", To: "x"}); err == nil || err.Error() != "nope" {
		t.Fatal(err)
	}
}
'''),
dict(id='get-unlocked', prop='C15', race=True, needs='a Get of a connection\'s store while its first Set runs',
 breaks='Get reads the store field outside of its lock: a data race',
 edits=[('conn.go', '''	c.storeMutex.RLock()
	if c.store == nil {
		c.storeMutex.RUnlock()
		return nil
	}

	v :=''', '''	if c.store == nil {
		return nil
	}

	c.storeMutex.RLock()
	v :=''')],
 imports=['sync'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{}}
	s := demoServer(h)
	for i := 0; i < 20; i++ {
		_, n := demoMust(t, s, "x", h, "a")
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k == 0 {
					n.Conn.Set("k", 1)
				} else {
					n.Conn.Get("k")
				}
			}()
		}
		wg.Wait()
	}
}
'''),
dict(id='array-field', prop='C24', needs='a controller with a static array field whose last element is zero',
 breaks='the array is taken as empty and the static field is not given to the instances',
 edits=[('reflect.go', 'zero = zero && isZero(v.Index(i))', 'zero = isZero(v.Index(i))')],
 imports=['time'],
 demo='''
type Ctl struct {
	*neffos.NSConn
	Arr [2]int
	Out chan int
}

func (c *Ctl) Ev(m neffos.Message) error { c.Out <- c.Arr[0]; return nil }

func TestDemo(t *testing.T) {
	out := make(chan int, 1)
	s := demoServer(neffos.NewStruct(&Ctl{Arr: [2]int{7, 0}, Out: out}).SetNamespace("a"))
	_, n := demoMust(t, s, "x", neffos.Namespaces{"a": neffos.Events{}}, "a")
	n.Emit("Ev", nil)
	select {
	case v := <-out:
		if v != 7 {
			t.Fatal(v)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("nothing")
	}
}
'''),
dict(id='struct-timeouts', prop='C26', needs='a struct handler with a write timeout that differs from the read timeout',
 breaks='the write timeout of a struct handler is the read one',
 edits=[('conn_handler.go', 'writeTimeout = s.writeTimeout', 'writeTimeout = s.readTimeout')],
 imports=['time', 'net/http', 'sync/atomic'],
 demo='''
type Ctl2 struct{ *neffos.NSConn }

func (c *Ctl2) Ev(m neffos.Message) error { return nil }

type recEnd struct {
	*demoEnd
	w *int64
}

func (e recEnd) WriteText(b []byte, d time.Duration) error {
	atomic.StoreInt64(e.w, int64(d))
	return e.demoEnd.WriteText(b, d)
}

func TestDemo(t *testing.T) {
	var w int64
	s := neffos.New(func(rw http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		sock, err := demoUpgrader(rw, r)
		if err != nil {
			return nil, err
		}
		return recEnd{sock.(*demoEnd), &w}, nil
	}, neffos.NewStruct(&Ctl2{}).SetNamespace("a").SetTimeouts(0, 7*time.Second))
	demoMust(t, s, "x", neffos.Namespaces{"a": neffos.Events{}}, "a")
	if d := time.Duration(atomic.LoadInt64(&w)); d != 7*time.Second {
		t.Fatal(d)
	}
}
'''),
dict(id='ask-before-local', prop='C08', needs='a connect callback that refuses on the side that calls Connect',
 breaks='the remote side is asked, and gets connected, before the local callback refuses',
 edits=[('conn.go', '''	err := events.fireEvent(ns, connectMessage)
	if err != nil {
		return nil, err
	}

	// println("ask connect")
	_, err = c.Ask(ctx, connectMessage) // waits for answer no matter if already connected on the other side.
	if err != nil {
		return nil, err
	}
''', '''	// println("ask connect")
	_, err := c.Ask(ctx, connectMessage) // waits for answer no matter if already connected on the other side.
	if err != nil {
		return nil, err
	}

	if err = events.fireEvent(ns, connectMessage); err != nil {
		return nil, err
	}
''')],
 imports=['errors', 'time'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{}}
	s := demoServer(h)
	var sc *neffos.Conn
	got := make(chan *neffos.Conn, 1)
	s.OnConnect = func(c *neffos.Conn) error { got <- c; return nil }
	c, err := demoDial(s, "x", neffos.Namespaces{"a": neffos.Events{neffos.OnNamespaceConnect: func(c *neffos.NSConn, m neffos.Message) error { return errors.New("no") }}})
	if err != nil {
		t.Fatal(err)
	}
	sc = <-got
	if _, err := c.Connect(demoCtx(2*time.Second), "a"); err == nil {
		t.Fatal("connected")
	}
	time.Sleep(20 * time.Millisecond)
	if sc.Namespace("a") != nil {
		t.Fatal("the server's side is connected")
	}
}
'''),
dict(id='first-set', prop='C18', needs='the first two writes of a connection\'s store at the same time',
 breaks='the map is replaced by the second of two simultaneous first writes, the first value is lost',
 edits=[('conn.go', '''	c.storeMutex.Lock()
	if c.store == nil {
		c.store = make(map[string]interface{})
	}
	c.store[key] = value
	c.storeMutex.Unlock()
''', '''	c.storeMutex.RLock()
	empty := c.store == nil
	c.storeMutex.RUnlock()

	c.storeMutex.Lock()
	if empty {
		c.store = make(map[string]interface{})
	}
	c.store[key] = value
	c.storeMutex.Unlock()
''')],
 imports=['sync', 'fmt'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{}}
	s := demoServer(h)
	for i := 0; i < 4000; i++ {
		c, n := demoMust(t, s, "x", h, "a")
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < 8; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				n.Conn.Set(fmt.Sprint(k), k)
			}()
		}
		close(start)
		wg.Wait()
		for k := 0; k < 8; k++ {
			if n.Conn.Get(fmt.Sprint(k)) != k {
				t.Fatalf("value %d is lost", k)
			}
		}
		c.Close()
	}
}
'''),
dict(id='native-mixed', prop='C28', needs='a handler with a native callback alone in the empty namespace and other namespaces too',
 breaks='the connection is taken as native only, the other namespaces can not be used',
 edits=[('conn.go', 'if len(c.namespaces) == 1 && len(emptyNamespace) == 1 {', 'if len(emptyNamespace) == 1 {')],
 imports=['time'],
 demo='''
func TestDemo(t *testing.T) {
	native := func(c *neffos.NSConn, m neffos.Message) error { return nil }
	got := make(chan string, 1)
	h := neffos.Namespaces{"": neffos.Events{neffos.OnNativeMessage: native}, "a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
		if !c.Conn.IsClient() {
			got <- string(m.Body)
		}
		return nil
	}}}
	s := demoServer(h)
	_, n := demoMust(t, s, "x", h, "a")
	n.Emit("e", []byte("hi"))
	select {
	case b := <-got:
		if b != "hi" {
			t.Fatal(b)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("nothing")
	}
}
'''),
dict(id='short-token', prop='C14', needs='a peer that sends a message with a token of one character',
 breaks='the process panics by an index out of range',
 edits=[('message.go', 'fromStackExchange := len(wait) > 2 && wait[1] == waitComesFromStackExchange', 'fromStackExchange := wait != "" && wait[1] == waitComesFromStackExchange')],
 imports=['time'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{}}
	s := demoServer(h)
	e := demoRaw(s, "x")
	e.send("1;a;;e;0;0;")
	time.Sleep(50 * time.Millisecond)
	demoMust(t, s, "y", h, "a")
}
'''),
]
