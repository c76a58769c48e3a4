package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/kataras/neffos"
)

func init() {
	register(&Prop{ID: "C18", Quick: 1000, Thorough: 9000, Run: runC18,
		Rule: "a case is 2-4 connections (both sides of them) whose stores are used by 2-8 goroutines and by callbacks: recorded histories of Set, Get, Increment and Decrement with values of several types on 1-3 keys, each checked for linearizability (porcupine, per store and key), and large counter storms checked for conservation and distinct results, and 10-29 new stores whose first uses start at the same moment. Non-trivial: operations of different goroutines overlapped in time. Distinct: by the hash of the results. Some cases use 200-2000 keys"})
}

type stOp struct {
	kind string // set, get, inc, dec
	val  interface{}
}

var storeModel = porcupine.Model{
	Init: func() interface{} { return nil },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		in := input.(stOp)
		n, _ := state.(int)
		switch in.kind {
		case "set":
			return true, in.val
		case "get":
			return state == output, state
		case "inc":
			return output == interface{}(n+1), n + 1
		default:
			return output == interface{}(n-1), n - 1
		}
	},
	DescribeOperation: func(i, o interface{}) string { return fmt.Sprintf("%v -> %v", i, o) },
}

type stHist struct {
	mu  sync.Mutex
	ops map[string][]porcupine.Operation // by store and key
	clk int64
}

func (h *stHist) do(w *W, c *neffos.Conn, store, key string, g int, op stOp) {
	call := atomic.AddInt64(&h.clk, 1)
	var out interface{}
	switch op.kind {
	case "set":
		c.Set(key, op.val)
	case "get":
		out = c.Get(key)
	case "inc":
		out = c.Increment(key)
	default:
		out = c.Decrement(key)
	}
	ret := atomic.AddInt64(&h.clk, 1)
	h.mu.Lock()
	h.ops[store+"\x00"+key] = append(h.ops[store+"\x00"+key], porcupine.Operation{ClientId: g, Input: op, Call: call, Output: out, Return: ret})
	h.mu.Unlock()
	w.Event()
}

func runC18(w *W) {
	r := w.R
	kind := pick(r, transports)
	var hist atomic.Pointer[stHist]
	var keys atomic.Pointer[[]string]
	randomOp := func(rr *randT, mix int) stOp {
		switch x := rr.Intn(10); {
		case x < mix:
			return stOp{kind: pick(rr, []string{"inc", "dec", "inc"})}
		case x < 8:
			return stOp{kind: "get"}
		default:
			var v interface{}
			switch rr.Intn(6) {
			case 0:
				v = fmt.Sprint("s", rr.Intn(1000))
			case 1:
				v = int64(rr.Intn(1000))
			case 2:
				v = nil
			case 3:
				v = float64(rr.Intn(10)) + 0.5
			default:
				v = rr.Intn(1000) * 1000
			}
			return stOp{kind: "set", val: v}
		}
	}
	var cbMu sync.Mutex
	cbRand := w.Rand()
	h := func(side string) neffos.Namespaces {
		return neffos.Namespaces{"n": neffos.Events{"op": func(c *neffos.NSConn, m neffos.Message) error {
			if hh := hist.Load(); hh != nil {
				ks := *keys.Load()
				cbMu.Lock()
				op, k := randomOp(cbRand, 5), pick(cbRand, ks)
				cbMu.Unlock()
				hh.do(w, c.Conn, side+c.Conn.ID(), k, 100, op)
			}
			return neffos.Reply(nil)
		}}}
	}
	var mu sync.Mutex
	sconns := map[string]*neffos.Conn{}
	rig := NewRig(w, kind, h("S"), func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error {
			mu.Lock()
			sconns[c.ID()] = c
			mu.Unlock()
			return nil
		}
	})
	type target struct {
		name string
		c    *neffos.Conn
		ns   *neffos.NSConn
	}
	var stores []target
	for i := 0; i < 1+r.Intn(2); i++ {
		id := fmt.Sprint("c", i)
		c, _ := rig.Dial(id, h("C"))
		ns := rig.Connect(c, "n")
		mu.Lock()
		sc := sconns[id]
		mu.Unlock()
		stores = append(stores, target{"C" + id, ns.Conn, ns}, target{"S" + id, sc, ns})
	}
	// untouched keys are nil.
	for _, s := range stores {
		w.Check(s.c.Get("nothing") == nil, "Get of a key that was never set returned a value")
	}
	rounds := 12
	if w.Tier == "thorough" {
		rounds = 40
	}
	overlaps := 0
	for round := 0; round < rounds; round++ {
		hh := &stHist{ops: map[string][]porcupine.Operation{}}
		ks := []string{}
		for i := 0; i <= r.Intn(3); i++ {
			ks = append(ks, fmt.Sprintf("k%d.%d", round, i))
		}
		keys.Store(&ks)
		hist.Store(hh)
		g := 2 + r.Intn(7)
		mix := 2 + r.Intn(6)
		perG := 6 + r.Intn(8)
		rs := make([]*randT, g)
		for i := range rs {
			rs[i] = w.Rand()
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rr := rs[i]
				<-start
				for k := 0; k < perG; k++ {
					s := pick(rr, stores)
					if rr.Intn(20) == 0 {
						s.ns.Ask(w.Ctx(), "op", nil)
						continue
					}
					hh.do(w, s.c, s.name, pick(rr, ks), i, randomOp(rr, mix))
				}
			}(i)
		}
		close(start)
		w.Join(&wg, "the users of the stores")
		hist.Store(nil)
		for k, ops := range hh.ops {
			for i := range ops {
				for j := range ops[:i] {
					if ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
						overlaps++
					}
				}
			}
			res := porcupine.CheckOperationsTimeout(storeModel, ops, 20*time.Second)
			w.Stat("histories", 1)
			w.Stat("operations", int64(len(ops)))
			w.Sign(fmt.Sprint(len(ops), overlaps))
			if res == porcupine.Illegal {
				for _, o := range ops {
					w.Log("g%d [%d,%d] %v %v -> %v", o.ClientId, o.Call, o.Return, o.Input.(stOp).kind, o.Input.(stOp).val, o.Output)
				}
			}
			w.Check(res != porcupine.Illegal, "the history of key %q is not linearizable", k)
			if res == porcupine.Unknown {
				w.Stat("unknown", 1)
			}
		}
	}
	// counter storm: conservation, distinct results.
	s := pick(r, stores)
	other := stores[(len(stores)-1+r.Intn(2))%len(stores)]
	g, n := 2+r.Intn(7), 400
	up := chance(r, 50) // only increments: all results are different.
	res := make([][]int, g)
	var net int64
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		rr := w.Rand()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < n; k++ {
				if up || rr.Intn(2) == 0 {
					res[i] = append(res[i], s.c.Increment("storm"))
					atomic.AddInt64(&net, 1)
				} else {
					s.c.Decrement("storm")
					atomic.AddInt64(&net, -1)
				}
				if rr.Intn(30) == 0 {
					s.c.Set("unrelated", k) // other keys of the store.
				}
			}
		}(i)
	}
	close(start)
	w.Join(&wg, "the counters")
	w.Check(s.c.Get("storm") == interface{}(int(net)), "the counter is %v after a net of %d", s.c.Get("storm"), net)
	if up {
		seen := map[int]bool{}
		for i := range res {
			for k, v := range res[i] {
				w.Check(!seen[v], "two increments returned %d", v)
				w.Check(v >= 1 && v <= g*n, "an increment returned %d of %d", v, g*n)
				if k > 0 {
					w.Check(v > res[i][k-1], "increments of a goroutine returned %d after %d", v, res[i][k-1])
				}
				seen[v] = true
			}
		}
	}
	c18Many(w, pick(r, stores).c)
	c18First(w)
	if other.c != s.c {
		w.Check(other.c.Get("storm") == nil, "a value of another connection's store is visible")
	}
	w.Stat("storm_operations", int64(g*n))
	w.Stat("overlapping_pairs", int64(overlaps))
	w.Sample("%s, %d stores, %d rounds, storm of %d goroutines", kind, len(stores), rounds, g)
	if overlaps > 0 {
		w.Nontrivial()
	}
	w.Call(rig.Close, "server close")
}

// c18First: the first uses of new stores, by goroutines that start at the same moment.
func c18First(w *W) {
	r := w.R
	n := 10 + r.Intn(20)
	var mu sync.Mutex
	var conns []*neffos.Conn
	rig := NewRig(w, "mem", neffos.Namespaces{"n": neffos.Events{}}, func(s *neffos.Server) {
		s.OnConnect = func(c *neffos.Conn) error { mu.Lock(); conns = append(conns, c); mu.Unlock(); return nil }
	})
	for i := 0; i < n; i++ {
		rig.MemRaw(fmt.Sprint("f", i))
	}
	w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(conns) == n }, "%d connections", n)
	for _, c := range conns {
		c := c
		g := 2 + r.Intn(3)
		kinds := make([]int, g)
		for i := range kinds {
			kinds[i] = r.Intn(3)
		}
		var ready int32
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for k := 0; atomic.LoadInt32(&ready) < int32(g); k++ {
					if k > 1000 {
						runtime.Gosched()
					}
				}
				key := fmt.Sprint("own", i)
				switch kinds[i] {
				case 0:
					c.Set(key, i)
				case 1:
					c.Increment("count")
				default:
					c.Get(key)
					c.Set(key, i)
				}
			}(i)
		}
		w.Join(&wg, "the first users of a store")
		incs := 0
		for i, k := range kinds {
			if k == 1 {
				incs++
			} else {
				v := c.Get(fmt.Sprint("own", i))
				w.Check(v == interface{}(i), "a value that was set while the store was new is %v instead of %d", v, i)
			}
		}
		if incs > 0 {
			v := c.Get("count")
			w.Check(v == interface{}(incs), "%d increments of a new store gave %v", incs, v)
		}
		w.Event()
	}
	w.Stat("new_stores", int64(n))
	w.Call(rig.Close, "server close")
}

// c18Many: a store with many keys, each goroutine has its own.
func c18Many(w *W, c *neffos.Conn) {
	r := w.R
	n := pick(r, []int{10, 70, 300})
	g := 1 + r.Intn(3)
	rs := make([]*randT, g)
	for i := range rs {
		rs[i] = w.Rand()
	}
	w.Go(g, "the users of many keys", func(i int) {
		rr := rs[i]
		model := map[string]interface{}{}
		for k := 0; k < 3*n; k++ {
			key := fmt.Sprintf("many%d.%d", i, rr.Intn(n))
			switch rr.Intn(6) {
			case 0:
				model[key] = nil
				c.Set(key, nil)
			case 1:
				v, _ := model[key].(int)
				model[key] = v + 1
				got := c.Increment(key)
				w.Check(got == v+1, "an increment of %q, which is %d, returned %d", key, v, got)
			default:
				v := pick(rr, []interface{}{k, fmt.Sprint(k), "", 0, false})
				model[key] = v
				c.Set(key, v)
			}
			if rr.Intn(4) == 0 {
				key = fmt.Sprintf("many%d.%d", i, rr.Intn(n))
				got := c.Get(key)
				w.Check(got == model[key], "Get of %q returned %v instead of %v, one of %d keys", key, got, model[key], len(model))
			}
		}
		for key, v := range model {
			got := c.Get(key)
			w.Check(got == v, "Get of %q returned %v instead of %v, one of %d keys", key, got, v, len(model))
		}
		w.Event()
	})
	w.Stat("many_keys", int64(n*g))
}
