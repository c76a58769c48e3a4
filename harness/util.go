package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/kataras/neffos"
)

var quietLog = log.New(io.Discard, "", 0)

// Ev is a callback that fired.
type Ev struct {
	Side   string // "S" or "C"
	Conn   string // connection ID
	C      *neffos.Conn
	NS     string
	Room   string
	Event  string
	Body   string
	Err    error
	Local  bool
	Forced bool
	Binary bool
	Native bool
}

func (e Ev) String() string {
	s := fmt.Sprintf("%s[%s] %s/%s/%s %q", e.Side, e.Conn, e.NS, e.Room, e.Event, clip(e.Body, 60))
	if e.Err != nil {
		s += " err=" + fmt.Sprintf("%q", clip(e.Err.Error(), 60))
	}
	if e.Local {
		s += " local"
	}
	if e.Forced {
		s += " forced"
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func evOf(c *neffos.NSConn, m neffos.Message) Ev {
	side := "S"
	if c.Conn.IsClient() {
		side = "C"
	}
	return Ev{Side: side, Conn: c.Conn.ID(), C: c.Conn, NS: m.Namespace, Room: m.Room, Event: m.Event, Body: string(m.Body), Err: m.Err,
		Local: m.IsLocal, Forced: m.IsForced, Binary: m.SetBinary, Native: m.IsNative}
}

// Rec records callbacks.
type Rec struct {
	w   *W
	mu  sync.Mutex
	evs []Ev
}

func (r *Rec) add(e Ev) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
	r.w.Event()
	r.w.Log("%s", e)
}

func (r *Rec) on(c *neffos.NSConn, m neffos.Message) { r.add(evOf(c, m)) }

func (r *Rec) all() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Ev(nil), r.evs...)
}

func (r *Rec) reset() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := r.evs
	r.evs = nil
	return e
}

func (r *Rec) count(f func(Ev) bool) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, e := range r.evs {
		if f(e) {
			n++
		}
	}
	return n
}

type randT = rand.Rand

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

// text alphabets for generated fields.
var alphabet = []string{"a", "b", "z", "Z", "0", "1", "7", " ", ";", ";;", "/", "\\", "\"", "'", "\n", "\r\n", "\t", "$", "#", "!", "@", "%", "_", "-", ".", ":", "(", ")", "é", "世界", "🙂", "M", "A", "H", "neffos(", "id", "semicolon", "{}", "*", "\x00", "ß"}

// field generates a namespace, room or event name: any text without the reserved escape.
func field(r *rand.Rand, max int) string {
	for {
		n := r.Intn(max + 1)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(pick(r, alphabet))
		}
		s := sb.String()
		if strings.Contains(s, "@%!") || strings.HasSuffix(s, "@") || strings.HasSuffix(s, "@%") {
			continue
		}
		if strings.Contains(s, "@%") {
			continue
		}
		return s
	}
}

var bodySizes = []int{0, 1, 2, 10, 124, 125, 126, 127, 500, 1023, 1024, 4096, 65535 - 30, 65535, 65536, 65537, 70000}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// textBody generates valid UTF-8.
func textBody(r *rand.Rand, n int) []byte {
	if r.Intn(3) == 0 {
		var sb strings.Builder
		for sb.Len() < n {
			if r.Intn(25) == 0 {
				sb.WriteString("@%!semicolon@%!") // the escape of the names, nothing special in a body.
				continue
			}
			sb.WriteString(pick(r, alphabet))
		}
		return []byte(sb.String())
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return b
}

// padding makes a few bodies larger than the others.
func padding(r *rand.Rand) string {
	if r.Intn(12) > 0 {
		return ""
	}
	return "." + strings.Repeat("p", 1<<uint(5+r.Intn(12)))
}

// briefly is a context that ends soon, by its deadline or by a cancel, and its error then.
func briefly(r *rand.Rand, d time.Duration) (context.Context, context.CancelFunc, error) {
	if r.Intn(2) == 0 {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		return ctx, cancel, context.DeadlineExceeded
	}
	ctx, cancel := context.WithCancel(context.Background())
	t := time.AfterFunc(d, cancel)
	return ctx, func() { t.Stop(); cancel() }, context.Canceled
}

func bodySize(r *rand.Rand) int {
	if r.Intn(4) > 0 {
		return r.Intn(300)
	}
	return pick(r, bodySizes)
}
