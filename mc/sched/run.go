// Package sched explores the RPC server and client under a controlled
// scheduler and environment.
package sched

import (
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif/mc/codec"
	"verif/mc/enum"
	"verif/mc/res"
	"verif/mc/vsched"
)

type Ctx struct {
	R       *res.Run
	Thor    bool
	Shard   int
	N       int
	Only    string
	Prop    string
	scen    int
	Targets []*codec.Target
	replay  []int
	rbound  int
}

func Main(targets []*codec.Target) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	n := flag.Int("n", 1, "")
	out := flag.String("out", "", "")
	limit := flag.Int("limit", 600, "")
	only := flag.String("case", "", "")
	choices := flag.String("choices", "", "")
	bound := flag.Int("bound", 0, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f // the server logs failed requests there
	}
	c := &Ctx{R: res.New(*prop, *out, time.Duration(*limit)*time.Second), Thor: *tier == "thorough", Shard: *shard, N: *n, Only: *only, Prop: *prop, Targets: targets, rbound: *bound}
	if *choices != "" {
		c.replay = []int{}
		for _, f := range strings.Split(*choices, ",") {
			var k int
			fmt.Sscan(f, &k)
			c.replay = append(c.replay, k)
		}
	}
	f := map[string]func(*Ctx){
		"P13": P13, "P14": P14, "P15": P15, "P16": P16, "P17": P17,
		"P18": P18, "P19": P19, "P20": P20, "P21": P21, "P22": P22, "P23": P23, "P27": P27,
	}[*prop]
	if f == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	f(c)
	c.R.Save()
}

func yield() { vsched.Yield() }

// X is one execution of a scenario.
type X struct {
	S     *vsched.Sched
	Ch    *enum.Chooser
	c     *Ctx
	kind  string
	fail  string
	obs   string
	conns []*Conn
}

func (x *X) Fail(kind, f string, a ...any) {
	if x.fail == "" {
		x.kind = kind
		x.fail = fmt.Sprintf(f, a...)
	}
}

// Observe names the execution's observable outcome.
func (x *X) Observe(s string) { x.obs = s }

func (x *X) Go(name string, f func()) { x.S.Spawn(name, f) }

// KeyOrders makes the order of every range over a map a choice without cost:
// every order of up to 4 keys, otherwise the rotations and their reverses.
func (x *X) KeyOrders() {
	vsched.KeyOrder = func(n int) []int {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		if n > 4 {
			k := x.Pick(2*n, 0)
			for i := range o {
				o[i] = (i + k/2) % n
				if k%2 == 1 {
					o[i] = n - 1 - o[i]
				}
			}
			return o
		}
		for i := n; i > 1; i-- {
			k := i - 1 - x.Pick(i, 0)
			o[i-1], o[k] = o[k], o[i-1]
		}
		return o
	}
}

// Pick is an environment choice.
func (x *X) Pick(n, cost int) int { return x.Ch.Pick(n, cost) }

type Opts struct {
	Big   bool // messages may be huge
	Bound int
	Lib   bool
	Pool  bool // pool behaviour is a choice
	Split bool // explored by all shards together instead of by one
	Delay bool // every deviation from the order of threads counts, not only preemptions
	Cap   int
}

type replayInfo struct {
	Property, Scenario string
	Bound              int
	Choices            []int
	Note               string
}

// explore runs body on every schedule within the bound.
func (c *Ctx) explore(name string, o Opts, body func(x *X)) {
	c.scen++
	if c.Only != "" && c.Only != name {
		return
	}
	if !o.Split && c.Only == "" && c.scen%c.N != c.Shard || !o.Split && c.Only != "" && c.Shard != 0 {
		return
	}
	if c.R.Stop() || c.R.Expired() {
		return
	}
	vsched.SetLib(o.Lib)
	vsched.AllocLimit = 1 << 28
	if o.Big {
		vsched.AllocLimit = 0
	}
	vsched.PoolChoices = o.Pool
	vsched.DelayBound = o.Delay
	ch := enum.New(o.Bound)
	if o.Split && c.Only == "" {
		ch.Part(c.Shard, c.N)
	}
	if c.replay != nil {
		ch = enum.Replay(c.rbound, c.replay)
	}
	execs := 0
	for ch.Next() {
		x := c.one(name, o, ch, body)
		execs++
		if x.obs != "" {
			if c.R.State([]byte(name), []byte(x.obs)) {
				c.R.Outcome("distinct observations")
				c.R.Sample("%s choices %v: %s", name, enum.Trim(ch.Choices()), x.obs)
			}
		}
		if x.fail != "" {
			choices := append([]int{}, ch.Choices()...)
			// the same schedule again, to see whether it is reproducible
			same := 0
			for k := 0; k < 3; k++ {
				y := c.one(name, o, replayOf(o.Bound, choices), body)
				if y.fail != "" {
					same++
				}
			}
			c.R.Violate(name+":"+x.kind, replayInfo{c.Prop, name, o.Bound, enum.Trim(choices), fmt.Sprintf("check.sh %s -case %q; reproduced %d of 3", c.Prop, name, same)},
				"%s: %s\nschedule: %v (bound %d; reproduced %d of 3 times)", name, x.fail, enum.Trim(choices), o.Bound, same)
			break
		}
		if execs&0x3f == 0 && c.R.Expired() {
			c.R.Notes = append(c.R.Notes, fmt.Sprintf("%s: stopped by the deadline after %d schedules (shard %d)", name, execs, c.Shard))
			break
		}
		if o.Cap > 0 && execs >= o.Cap {
			c.R.Exhaustive = false
			c.R.Notes = append(c.R.Notes, fmt.Sprintf("%s: capped at %d schedules (shard %d)", name, execs, c.Shard))
			break
		}
	}
	if ch.Diverged > 0 {
		c.R.Notes = append(c.R.Notes, fmt.Sprintf("%s: %d schedules diverged on replay", name, ch.Diverged))
		c.R.Exhaustive = false
	}
	c.R.States += ch.Nodes
	c.R.Outcome("scenarios")
}

func replayOf(bound int, choices []int) *enum.Chooser {
	r := enum.Replay(bound, choices)
	r.Next()
	return r
}

func (c *Ctx) one(name string, o Opts, ch *enum.Chooser, body func(x *X)) *X {
	vsched.KeyOrder = nil
	s := vsched.Start(ch)
	x := &X{S: s, Ch: ch, c: c}
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				x.Fail("panic", "panic: %v\n%s", p, st)
			}
		}()
		body(x)
	}()
	if len(s.Panics) > 0 {
		x.fail = ""
		x.Fail("panic", "%s", s.Panics[0])
	}
	if s.Livelock {
		x.fail = ""
		x.Fail("livelock", "no end after %d statements", s.Steps())
	}
	s.Kill()
	c.R.Evaluations++
	c.R.Traces++
	c.R.Transitions += s.Steps()
	return x
}

// Conn is one side of a byte stream. A Write call is atomic with respect to
// other Write calls, as net.Conn guarantees, but takes time: other threads
// may run while it copies.
type Conn struct {
	x      *X
	in     []byte
	rpos   int
	eof    bool
	rerr   error // instead of io.EOF
	splits map[int]bool
	eofNow bool // the last bytes come together with the error
	zeros  map[int]bool
	fails  map[int]error // once, before the byte there
	out    []byte
	writes int
	busy   bool
	wfault func(k int, p []byte) (n int, err error)
	peer   *Conn // pipe
	reads  int
	whole  bool                   // copy writes in one step
	hold   func(k, part int) bool // whether the k-th write may go on before (0) or after (1) its first half
}

func (x *X) conn(in []byte) *Conn {
	c := &Conn{x: x, in: in}
	x.conns = append(x.conns, c)
	return c
}

// pipe returns two connected ends.
func (x *X) pipe() (a, b *Conn) {
	a, b = x.conn(nil), x.conn(nil)
	a.peer, b.peer = b, a
	return
}

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	vsched.Wait(func() bool { return c.rpos < len(c.in) || c.eof })
	c.reads++
	if c.rpos >= len(c.in) {
		return 0, c.end()
	}
	if c.zeros[c.rpos] {
		c.zeros[c.rpos] = false
		return 0, nil
	}
	if e := c.fails[c.rpos]; e != nil {
		delete(c.fails, c.rpos)
		return 0, e
	}
	n := min(len(p), len(c.in)-c.rpos)
	for i := 1; i < n && len(c.splits)+len(c.fails) > 0; i++ {
		if c.splits[c.rpos+i] || c.fails[c.rpos+i] != nil {
			n = i
			break
		}
	}
	copy(p[:n], c.in[c.rpos:])
	c.rpos += n
	if c.rpos == len(c.in) && c.eof && c.eofNow {
		return n, c.end()
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	vsched.Wait(func() bool { return !c.busy })
	c.busy = true
	k := c.writes
	c.writes++
	n, err := len(p), error(nil)
	if c.wfault != nil {
		n, err = c.wfault(k, p)
	}
	buf := make([]byte, n)
	h := n
	pass := func(part int) {
		if c.hold != nil {
			vsched.Wait(func() bool { return c.hold(k, part) })
		}
	}
	pass(0)
	if !c.whole {
		h = copy(buf[:n/2], p)
		yield()
		pass(1)
	} else {
		h = 0
	}
	copy(buf[h:], p[h:n])
	c.out = append(c.out, buf...)
	if c.peer != nil {
		c.peer.in = append(c.peer.in, buf...)
	}
	c.busy = false
	yield()
	return n, err
}

func (c *Conn) end() error {
	if c.rerr != nil {
		return c.rerr
	}
	return io.EOF
}
