SEEDS = [
dict(id='escape-four', prop='C01', needs='a namespace, room or event name with five or more semicolons',
 breaks='only the first four semicolons of a name are escaped, so the fields are shifted on the other side',
 edits=[('message.go', 'return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, -1)', 'return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, 4)')],
 imports=['time'],
 demo='''
func TestDemo(t *testing.T) {
	got := make(chan neffos.Message, 1)
	h := neffos.Namespaces{"a": neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
		if !neffos.IsSystemEvent(m.Event) {
			got <- m
		}
		return nil
	}}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	ns.Emit("1;2;3;4;5;6", []byte("body"))
	select {
	case m := <-got:
		if m.Event != "1;2;3;4;5;6" || string(m.Body) != "body" {
			t.Fatalf("%+v", m)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nothing arrived")
	}
}
'''),
dict(id='async-large', prop='C05', needs='a binary message larger than 4096 bytes followed by another message, and a callback that takes a while',
 breaks='large binary messages are handled by another goroutine, at the same time with the messages that follow them',
 edits=[('conn.go', '''		c.HandlePayload(msgTyp, b)
		atomic.StoreUint32(c.isInsideHandler, 0)
	}''', '''		if msgTyp == BinaryMessage && len(b) > 4096 {
			go c.HandlePayload(msgTyp, b)
		} else {
			c.HandlePayload(msgTyp, b)
		}
		atomic.StoreUint32(c.isInsideHandler, 0)
	}''')],
 imports=['time'],
 demo='''
func TestDemo(t *testing.T) {
	order := make(chan int, 10)
	h := neffos.Namespaces{"a": neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
		if len(m.Body) > 10 {
			time.Sleep(50 * time.Millisecond)
		}
		order <- len(m.Body)
		return nil
	}}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	ns.EmitBinary("e", make([]byte, 10000))
	ns.Emit("e", []byte("x"))
	if a, b := <-order, <-order; a != 10000 || b != 1 {
		t.Fatal(a, b)
	}
}
'''),
dict(id='trim-cutset', prop='C25', needs='a controller with EventTrimPrefixMatcher("On") and a method like OnOnce, whose name continues with letters of the prefix',
 breaks='the event is registered without more of its letters than the prefix, so its messages are not dispatched to the method',
 edits=[('conn_handler.go', 'return methodName[len(prefixToTrim):], true', 'return strings.TrimLeft(methodName, prefixToTrim), true')],
 imports=[],
 demo='''
type demoCtl struct{}

func (*demoCtl) OnOnce(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply([]byte("once")) }

func TestDemo(t *testing.T) {
	st := neffos.NewStruct(new(demoCtl)).SetNamespace("a").SetEventMatcher(neffos.EventTrimPrefixMatcher("On"))
	s := demoServer(st)
	_, ns := demoMust(t, s, "x", neffos.Namespaces{"a": neffos.Events{}}, "a")
	m, err := ns.Ask(demoCtx(3e9), "Once", nil)
	if err != nil || string(m.Body) != "once" {
		t.Fatal(m.Body, err)
	}
}
'''),
dict(id='empty-frame', prop='C14', needs='a peer that sends an empty frame before its acknowledgement',
 breaks='an empty first frame makes the server panic, which ends the whole process',
 edits=[('conn.go', '''		if len(b) == 0 {
			continue
		}
''', '''		if len(b) == 0 && c.isAcknowledged() {
			continue
		}
''')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	evil, e := demoPipe()
	demoServe(s, e, "evil")
	evil.send("")
	for i := 0; i < 50; i++ {
		if _, err := ns.Ask(demoCtx(5e9), "q", nil); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
dict(id='coarse-token', prop='C03', needs='two asks of one connection within a tenth of a microsecond step of the token, i.e. concurrent askers',
 breaks='the tokens of requests that start at about the same time are equal, so one of them takes the reply of the other and the other one waits forever',
 edits=[('message.go', 'wait := strconv.FormatInt(now, 10)', 'wait := strconv.FormatInt(now/1000, 10)')],
 imports=['fmt', 'sync'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(m.Body) }}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				b := fmt.Sprint(g, "-", i)
				m, err := ns.Ask(demoCtx(3e9), "q", []byte(b))
				if err != nil || string(m.Body) != b {
					t.Errorf("asked %s, answered %s, %v", b, m.Body, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='cancel-error', prop='C04', needs='an Ask whose context is canceled (not expired) while it waits',
 breaks='a canceled Ask is reported as one that has exceeded its deadline',
 edits=[('conn.go', '''		return Message{}, ctx.Err()
	case receive := <-ch:
		return receive, receive.Err''', '''		return Message{}, context.DeadlineExceeded
	case receive := <-ch:
		return receive, receive.Err''')],
 imports=['context', 'time'],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error { return nil }}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(20*time.Millisecond, cancel)
	if _, err := ns.Ask(ctx, "q", nil); err != context.Canceled {
		t.Fatal(err)
	}
}
'''),
dict(id='fragment-ping', prop='C17', needs='a peer that sends a ping between the fragments of a message, on a gobwas server',
 breaks='the ping is not answered',
 edits=[('gobwas/socket.go', 'OnIntermediate: controlHandler,', 'OnIntermediate: func(gobwas.Header, io.Reader) error { return nil },')],
 imports=['net', 'net/http/httptest', 'strings', 'bufio', 'net/http', 'time', 'io', 'github.com/kataras/neffos/gobwas'],
 demo='''
func TestDemo(t *testing.T) {
	s := neffos.New(gobwas.DefaultUpgrader, neffos.Namespaces{"a": neffos.Events{}})
	srv := httptest.NewServer(s)
	defer srv.Close()
	c, err := net.Dial("tcp", strings.TrimPrefix(srv.URL, "http://"))
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	io.WriteString(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
	br := bufio.NewReader(c)
	if _, err := http.ReadResponse(br, nil); err != nil {
		t.Fatal(err)
	}
	mask := []byte{0, 0, 0, 0}
	frame := func(first byte, p string) { c.Write(append(append([]byte{first, 0x80 | byte(len(p))}, mask...), p...)) }
	frame(0x81, "M")
	frame(0x01, "$1;a;;_OnNamesp")
	frame(0x89, "hello")
	frame(0x80, "aceConnect;0;0;")
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(br, h); err != nil {
			t.Fatal("no pong: ", err)
		}
		p := make([]byte, h[1]&0x7f)
		io.ReadFull(br, p)
		if h[0] == 0x8a && string(p) == "hello" {
			return
		}
		if h[0] == 0x81 && strings.HasPrefix(string(p), "$1") {
			t.Fatal("the message is answered but its ping is not")
		}
	}
}
'''),
dict(id='empty-reply', prop='C02', needs='a callback that replies with an empty body to a message that has one',
 breaks='an empty reply carries the body of the request back',
 edits=[('message.go', '''		if b, ok := isReply(err); ok {
			body = b
		} else {''', '''		if b, ok := isReply(err); ok && len(b) > 0 {
			body = b
		} else if !ok {''')],
 imports=[],
 demo='''
func TestDemo(t *testing.T) {
	h := neffos.Namespaces{"a": neffos.Events{"q": func(c *neffos.NSConn, m neffos.Message) error { return neffos.Reply(nil) }}}
	s := demoServer(h)
	_, ns := demoMust(t, s, "x", h, "a")
	m, err := ns.Ask(demoCtx(3e9), "q", []byte("question"))
	if err != nil || len(m.Body) != 0 {
		t.Fatal(string(m.Body), err)
	}
}
'''),
]
