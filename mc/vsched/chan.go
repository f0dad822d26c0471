package vsched

import (
	"fmt"
	"reflect"
)

// Channels. Instrumented code makes its channels through Made and calls Rx,
// Tx or Select before each operation on one: these wait virtually until the
// operation cannot block. A channel without a buffer is really one with room,
// so that the two parties of a rendezvous need not run at the same time; which
// two parties meet is decided here.

// Room is the capacity of the stand-in for a channel of capacity n.
func Room(n int) int {
	if n == 0 {
		return 64
	}
	return n
}

type vchan struct {
	v            reflect.Value
	unbuf        bool
	closed       bool
	recvq, sendq []*cwait
	pending      int // matched senders that have not sent yet
}

// cwait is a thread that waits in one or several channel operations.
type cwait struct {
	chans   []*vchan // per case; nil if none to meet in
	matched int      // case in which it has been met, or -1
}

var (
	permChans = map[uintptr]*vchan{} // made outside executions
	execChans = map[uintptr]*vchan{}
)

// Made registers a channel of capacity n.
func Made(ch any, n int) any {
	v := reflect.ValueOf(ch)
	c := &vchan{v: v, unbuf: n == 0}
	if active != nil {
		execChans[v.Pointer()] = c
	} else {
		permChans[v.Pointer()] = c
	}
	return ch
}

func chanOf(v reflect.Value) *vchan {
	if v.IsNil() {
		return nil
	}
	if c := execChans[v.Pointer()]; c != nil {
		return c
	}
	return permChans[v.Pointer()]
}

func resetChans() {
	if len(execChans) > 0 {
		execChans = map[uintptr]*vchan{}
	}
	for _, c := range permChans {
		c.recvq, c.sendq, c.pending = nil, nil, 0
	}
}

// Case is one case of a select statement.
type Case struct {
	v    reflect.Value
	c    *vchan
	send bool
}

func R(ch any) Case { v := reflect.ValueOf(ch); return Case{v, chanOf(v), false} }
func S(ch any) Case { v := reflect.ValueOf(ch); return Case{v, chanOf(v), true} }

// Rx returns ch once receiving from it does not block.
func Rx(ch any) any {
	if c := R(ch); virtual(c) {
		choose([]Case{c}, false)
	}
	return ch
}

// Tx returns ch once sending to it does not block.
func Tx(ch any) any {
	if c := S(ch); virtual(c) {
		choose([]Case{c}, false)
	}
	return ch
}

func virtual(c Case) bool {
	return active != nil && curMode == scheduled && (c.c != nil || c.v.IsNil())
}

func Close(ch any) {
	v := reflect.ValueOf(ch)
	if c := chanOf(v); c != nil {
		if on() != nil {
			Wait(func() bool { return c.pending == 0 })
		}
		c.closed = true
	}
	v.Close()
}

func ChanLen(ch any) int {
	v := reflect.ValueOf(ch)
	if c := chanOf(v); c != nil && c.unbuf {
		return 0
	}
	return v.Len()
}

func ChanCap(ch any) int {
	v := reflect.ValueOf(ch)
	if c := chanOf(v); c != nil && c.unbuf {
		return 0
	}
	return v.Cap()
}

// Select returns the index of the case to be taken, -1 for the default.
func Select(def bool, cases ...Case) int {
	if active == nil || curMode != scheduled {
		return realSelect(def, cases)
	}
	return choose(cases, def)
}

// realSelect polls: outside executions nobody depends on fairness.
func realSelect(def bool, cases []Case) int {
	for {
		for i := range cases {
			if cases[i].ready() {
				return i
			}
		}
		if def {
			return -1
		}
		yieldReal()
	}
}

func free(q []*cwait) *cwait {
	for _, w := range q {
		if w.matched < 0 {
			return w
		}
	}
	return nil
}

func (k *Case) ready() bool {
	if k.v.IsNil() {
		return false
	}
	c := k.c
	if c == nil { // somebody else's channel
		if k.send {
			return k.v.Len() < k.v.Cap()
		}
		if k.v.Len() > 0 {
			return true
		}
		x, ok := k.v.TryRecv()
		return x.IsValid() && !ok
	}
	switch {
	case c.closed:
		return true
	case c.unbuf && k.send:
		return free(c.recvq) != nil
	case c.unbuf:
		return free(c.sendq) != nil
	case k.send:
		return k.v.Len() < k.v.Cap()
	}
	return k.v.Len() > 0
}

func choose(cases []Case, def bool) int {
	s := active
	if s.killing {
		Wait(func() bool { return true })
		return realSelect(def, cases)
	}
	pick := func() int {
		var r []int
		for i := range cases {
			if cases[i].ready() {
				r = append(r, i)
			}
		}
		switch len(r) {
		case 0:
			return -1
		case 1:
			return r[0]
		}
		if s.ch.Left() <= 0 {
			return r[0]
		}
		return r[s.ch.Pick(len(r), 1)]
	}
	i := pick()
	if i < 0 && def {
		return -1
	}
	if i < 0 {
		w := &cwait{chans: make([]*vchan, len(cases)), matched: -1}
		foreign := false
		for k := range cases {
			c := cases[k].c
			if c == nil {
				foreign = foreign || !cases[k].v.IsNil()
				continue
			}
			if !c.unbuf {
				continue
			}
			w.chans[k] = c
			if cases[k].send {
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		if foreign {
			s.foreign++
		}
		Wait(func() bool {
			if w.matched >= 0 {
				return true
			}
			for k := range cases {
				if cases[k].ready() {
					return true
				}
			}
			return false
		})
		if foreign {
			s.foreign--
		}
		for k, c := range w.chans {
			if c != nil {
				if cases[k].send {
					c.sendq = without(c.sendq, w)
				} else {
					c.recvq = without(c.recvq, w)
				}
			}
		}
		if i = w.matched; i >= 0 {
			if cases[i].send {
				cases[i].c.pending--
			}
			return i
		}
		i = pick()
	}
	k := &cases[i]
	if k.c == nil || !k.c.unbuf || k.c.closed {
		return i
	}
	if k.send {
		meet(free(k.c.recvq), k.c)
		return i
	}
	meet(free(k.c.sendq), k.c)
	k.c.pending++
	Wait(func() bool { return k.v.Len() > 0 })
	return i
}

func meet(w *cwait, c *vchan) {
	for k, d := range w.chans {
		if d == c {
			w.matched = k
			return
		}
	}
}

func without(q []*cwait, w *cwait) []*cwait {
	var out []*cwait
	for _, x := range q {
		if x != w {
			out = append(out, x)
		}
	}
	return out
}

// AllocLimit is how large a slice instrumented code may make; 0: no limit.
var AllocLimit int

// Alloc is the length or capacity of a slice that is about to be made.
func Alloc(n int) int {
	if AllocLimit > 0 && n > AllocLimit {
		panic(fmt.Sprintf("making a slice of %d elements, for messages of less than %d bytes", n, AllocLimit))
	}
	return n
}
