package sched

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// P27: serving and calling leave nothing behind.
func P27(c *Ctx) {
	_, recs := malformed()
	type req struct {
		name string
		rec  func(xid uint32) []byte
	}
	var reqs []req
	for k := kNull; k < kinds; k++ {
		if k == kBlock || k == kHold {
			continue
		}
		k := k
		reqs = append(reqs, req{fmt.Sprintf("kind %d", k), func(xid uint32) []byte {
			switch k {
			case kEcho, kSlowEcho, kKeep, kTwice:
				return echoCall(xid, k, 300)
			}
			return call(xid, k, w32(nil, xid)).bytes()
		}})
	}
	reqs = append(reqs,
		req{"no arguments", func(xid uint32) []byte { return call(xid, kEcho, nil).bytes() }},
		req{"large", func(xid uint32) []byte { return echoCall(xid, kEcho, 70000) }},
		req{"no program", func(xid uint32) []byte { k := call(xid, kEcho, nil); k.Prog = 7; return k.bytes() }},
		req{"no version", func(xid uint32) []byte { k := call(xid, kEcho, nil); k.Vers = 7; return k.bytes() }},
		req{"no procedure", func(xid uint32) []byte { return call(xid, 1000, nil).bytes() }},
		req{"RPC version", func(xid uint32) []byte { k := call(xid, kEcho, nil); k.Rpcvers = 3; return k.bytes() }},
		req{"empty", func(uint32) []byte { return nil }},
	)
	for _, i := range []int{3, 20, 39, 41, 58, len(recs) - 1} {
		i := i
		reqs = append(reqs, req{fmt.Sprintf("malformed %d", i), func(uint32) []byte { return recs[i] }})
	}
	// how a connection ends, after its requests
	ends := []struct {
		name string
		tail []byte
		err  error
	}{
		{"closed", nil, nil},
		{"closed within a header", []byte{0x80, 0}, nil},
		{"closed within a record", []byte{0x80, 0, 0, 100, 1, 2, 3}, nil},
		{"not a last fragment", []byte{0, 0, 0, 4, 1, 2, 3, 4}, nil},
		{"reset", nil, errors.New("connection reset")},
	}
	wfault := func(mode int) func(k int, p []byte) (int, error) {
		switch mode {
		case 1:
			return func(int, []byte) (int, error) { return 0, errors.New("broken pipe") }
		case 2:
			return func(_ int, p []byte) (int, error) { return len(p) / 2, errors.New("broken pipe") }
		case 3:
			return func(k int, p []byte) (int, error) {
				if k%2 == 1 {
					return 0, errors.New("broken pipe")
				}
				return len(p), nil
			}
		}
		return nil
	}
	const many, allowed, rounds = 24, 8, 12
	bound := 2
	if c.Thor {
		bound = 3
	}
	c.R.Bounds["goroutines"] = fmt.Sprintf("%d kinds of requests and %d ways for a connection to end, writes working or failing in 3 ways; %d requests on one connection and %d connections with one request each, one after another, at most %d goroutines may remain when all is over; also %d connections in a row that end while up to 24 handlers run: no more than %d goroutines more may remain than after the first; and, for 3 requests at once, under up to %d deviations from the default schedule", len(reqs), len(ends), many, many, allowed, rounds, allowed, bound)
	over := func(x *X, what string) bool {
		if n := len(x.S.Unfinished()); n > allowed {
			x.Fail("left", "%s: %d goroutines remain: %s", what, n, list(x.S.Unfinished()))
			return true
		}
		return false
	}
	c.explore("one by one", Opts{Split: true}, func(x *X) {
		q := reqs[x.Pick(len(reqs), 0)]
		e := ends[x.Pick(len(ends), 0)]
		wf := x.Pick(4, 0)
		conns := x.Pick(2, 0) == 1
		mix := x.Pick(2, 0) == 1
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		w := newWorld(x)
		w.std()
		end := func(k *Conn, s *serving) {
			k.in = append(k.in, e.tail...)
			k.rerr = e.err
			k.eof = true
			x.S.Run()
			if !s.done {
				x.Fail("serving", "serving has not ended although the connection has (%s)", e.name)
			}
		}
		var k *Conn
		var s *serving
		for i := 0; i < many; i++ {
			if k == nil || conns {
				k = x.conn(nil)
				k.wfault = wfault(wf)
				s = w.serve(k)
			}
			r := q
			if mix && i%2 == 1 {
				r = reqs[i%len(reqs)]
			}
			k.in = append(k.in, frame(r.rec(uint32(i)))...)
			x.S.Run()
			if n := len(x.S.Unfinished()); n > allowed+1 {
				x.Fail("left", "after %d requests (%s), all of which are done, %d goroutines remain: %s", i+1, q.name, n, list(x.S.Unfinished()))
				return
			}
			if conns {
				end(k, s)
			}
		}
		if !conns {
			end(k, s)
		}
		if over(x, fmt.Sprintf("%d requests (%s), connections ended (%s)", many, q.name, e.name)) {
			return
		}
		x.Observe(fmt.Sprintf("%s/%s/%d/%v/%v: %d goroutines", q.name, e.name, wf, conns, mix, len(x.S.Unfinished())))
	})
	c.explore("peer gone", Opts{Split: true}, func(x *X) {
		e := ends[x.Pick(len(ends), 0)]
		wf := x.Pick(4, 0)
		n := []int{1, 2, 3, 8, 24}[x.Pick(5, 0)]
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		w := newWorld(x)
		w.std()
		first := 0
		for round := 0; round < rounds; round++ {
			w.relAll = false
			k := x.conn(nil)
			k.wfault = wfault(wf)
			s := w.serve(k)
			for i := 0; i < n; i++ {
				k.in = append(k.in, frame(echoCall(uint32(i), kBlock, 12))...)
			}
			k.in = append(k.in, e.tail...)
			k.rerr, k.eof = e.err, true
			x.S.Run()
			w.relAll = true
			x.S.Run()
			if !s.done {
				x.Fail("serving", "serving has not ended although the connection has (%s)", e.name)
				return
			}
			left := len(x.S.Unfinished())
			if round == 0 {
				first = left
			}
			if left > first+allowed {
				x.Fail("left", "connections, each of which ended (%s) while %d handlers ran, which then ended: after the first %d goroutines remain, after %d connections %d: %s", e.name, n, first, round+1, left, list(x.S.Unfinished()))
				return
			}
		}
		x.Observe(fmt.Sprintf("%s/%d/%d", e.name, wf, n))
	})
	c.explore("schedules", Opts{Bound: bound, Split: true, Delay: true}, func(x *X) {
		q := []int{0, 3, 10, len(reqs) - 1}[x.Pick(4, 0)]
		e := ends[x.Pick(len(ends), 0)]
		wf := x.Pick(2, 0)
		w := newWorld(x)
		w.std()
		w.yields = 1
		var ks []*Conn
		var ss []*serving
		for i := 0; i < 2; i++ {
			k := x.conn(nil)
			k.wfault = wfault(wf)
			ks, ss = append(ks, k), append(ss, w.serve(k))
		}
		for i := 0; i < 3; i++ {
			k := ks[i%2]
			k.in = append(k.in, frame(reqs[(q+i)%len(reqs)].rec(uint32(i)))...)
		}
		for _, k := range ks {
			k.in = append(k.in, e.tail...)
			k.rerr, k.eof = e.err, true
		}
		x.S.Run()
		for _, s := range ss {
			if !s.done {
				x.Fail("serving", "serving has not ended although the connection has (%s)", e.name)
				return
			}
		}
		if n := len(x.S.Unfinished()); n > 3 {
			x.Fail("left", "%d goroutines remain: %s", n, list(x.S.Unfinished()))
		}
		x.Observe(fmt.Sprint(len(x.S.Unfinished())))
	})
	c.explore("client", Opts{Split: true}, func(x *X) {
		kind := x.Pick(6, 0)
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		for i := 0; i < many; i++ {
			t := &peer{}
			switch kind {
			case 0:
				t.answer = func(rec []byte) []byte {
					return frame(append(append([]byte{}, rec[:4]...), w32(nil, 1, 0, 0, 0, 0, 5)...))
				}
			case 1:
				t.answer = func(rec []byte) []byte { return frame(w32(nil, 99, 1, 0, 0, 0, 0, 5)) }
			case 2:
				t.answer = func(rec []byte) []byte {
					return frame(append(append([]byte{}, rec[:4]...), w32(nil, 1, 0, 0, 0, 4)...))
				}
			case 3:
				t.rerr = errors.New("connection reset")
			case 4:
				t.wfault = func(int, []byte) (int, error) { return 0, errors.New("broken pipe") }
			}
			x.Go("Client.Call", func() {
				cl := rfc1057.MakeClient(t, 100, 2)
				var a, b xdr.Uint32
				for j := 0; j < 3; j++ {
					if kind == 5 {
						cl.Call(1, cred0(), cred0(), &Bad{Before: 1}, &b)
					} else {
						cl.Call(1, cred0(), cred0(), &a, &b)
					}
				}
			})
			x.S.Run()
		}
		if over(x, fmt.Sprintf("%d calls by %d clients (peer %d)", 3*many, many, kind)) {
			return
		}
		x.Observe(fmt.Sprint(kind, len(x.S.Unfinished())))
	})

	// Memory: connections, arguments and results are garbage afterwards.
	if c.Only != "" && c.Only != "memory" || c.Shard != 0 || c.R.Stop() {
		return
	}
	c.R.Bounds["memory"] = fmt.Sprintf("the same requests and endings with %d connections one after another on one server that stays: at most %d connections, %[2]d decoding states and %[2]d results remain reachable", many, allowed)
	for _, q := range reqs {
		for _, e := range ends {
			for wf := 0; wf < 3; wf++ {
				if c.R.Expired() || c.R.Stop() {
					return
				}
				if c.memory(q.name, e.name, q.rec, e.tail, e.err, wfault(wf), many, allowed) {
					return
				}
			}
		}
	}
}

func cred0() rfc1057.Opaque_auth { return rfc1057.Opaque_auth{} }

// feed is a connection of plain goroutines: it gives its bytes, waits until
// idle says so, and ends.
type feed struct {
	mu   sync.Mutex
	in   []byte
	wait func()
	err  error
	wf   func(int, []byte) (int, error)
	n    int
}

func (f *feed) Read(p []byte) (int, error) {
	if len(f.in) == 0 {
		f.wait()
		if f.err != nil {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := copy(p, f.in)
	f.in = f.in[n:]
	return n, nil
}

func (f *feed) Write(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.wf != nil {
		return f.wf(f.n-1, p)
	}
	return len(p), nil
}

// memory is not an exploration of schedules: one server, plain goroutines.
func (c *Ctx) memory(rn, en string, rec func(uint32) []byte, tail []byte, end error, wf func(int, []byte) (int, error), many, allowed int) (bad bool) {
	x := &X{c: c}
	w := newWorld(x)
	var mu sync.Mutex
	var gone, made [3]int64
	track := func(v any) {
		at := 2
		switch o := v.(type) {
		case *feed:
			runtime.SetFinalizer(o, func(*feed) { atomic.AddInt64(&gone[0], 1) })
			at = 0
		case *xdr.XdrState:
			runtime.SetFinalizer(o, func(*xdr.XdrState) { atomic.AddInt64(&gone[1], 1) })
			at = 1
		case *Blob:
			if o == nil {
				return
			}
			runtime.SetFinalizer(o, func(*Blob) { atomic.AddInt64(&gone[2], 1) })
		case *Bad:
			runtime.SetFinalizer(o, func(*Bad) { atomic.AddInt64(&gone[2], 1) })
		default:
			return
		}
		atomic.AddInt64(&made[at], 1)
	}
	for k := kNull; k < kinds; k++ {
		h := w.handler(triple{100, 2, uint32(k)}, k, 0)
		w.s.Register(100, 2, uint32(k), func(a *xdr.XdrState) (xdr.Xdrable, error) {
			mu.Lock()
			defer mu.Unlock()
			track(a)
			r, err := h(a)
			track(r)
			return r, err
		})
	}
	base := runtime.NumGoroutine()
	func() {
		for i := 0; i < many; i++ {
			f := &feed{err: end, wf: wf}
			f.in = append(frame(rec(uint32(i))), tail...)
			// the connection ends once nothing else happens any more
			f.wait = func() {
				for k := 0; k < 20; k++ {
					runtime.Gosched()
				}
			}
			track(f)
			w.s.Run(f)
		}
	}()
	c.R.Evaluations++
	c.R.Traces++
	c.R.Transitions += int64(many)
	deadline := time.Now().Add(10 * time.Second)
	var left [3]int64
	var routines int64
	few := func() bool {
		for _, n := range left {
			if n > int64(allowed) {
				return false
			}
		}
		return routines <= int64(allowed)
	}
	for {
		runtime.GC()
		runtime.Gosched()
		time.Sleep(time.Millisecond)
		for i := range left {
			left[i] = atomic.LoadInt64(&made[i]) - atomic.LoadInt64(&gone[i])
		}
		routines = int64(runtime.NumGoroutine() - base)
		if few() || time.Now().After(deadline) {
			break
		}
	}
	runtime.KeepAlive(w)
	c.R.State([]byte("memory"), []byte(rn), []byte(en), []byte(fmt.Sprint(wf == nil)))
	if !few() {
		c.R.Violate("memory:"+rn+":"+en, replayInfo{c.Prop, "memory", 0, nil, rn + ", " + en}, "after %d connections (%s, %s), all of which have ended, %v of %v connections, decoding states and results are still reachable, and there are %d more goroutines", many, rn, en, left, made, routines)
		return true
	}
	return false
}
