package vsched

import "sync"

// Mutex, RWMutex and WaitGroup stand in for those of package sync: a thread
// that has to wait waits virtually. Outside an execution they are the real
// ones.

type vstate struct {
	gen     int64
	locked  bool
	readers int
}

func (v *vstate) of(s *Sched) *vstate {
	if v.gen != s.gen {
		*v = vstate{gen: s.gen}
	}
	return v
}

func on() *Sched {
	if s := active; s != nil && curMode == scheduled && !s.killing {
		return s
	}
	return nil
}

type Mutex struct {
	m sync.Mutex
	v vstate
}

func (m *Mutex) Lock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.Lock()
		}
		return
	}
	Wait(func() bool { return !m.v.of(s).locked })
	m.v.of(s).locked = true
}

func (m *Mutex) TryLock() bool {
	s := on()
	if s == nil {
		return active != nil || m.m.TryLock()
	}
	if m.v.of(s).locked {
		return false
	}
	m.v.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.Unlock()
		}
		return
	}
	if !m.v.of(s).locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.v.locked = false
}

type RWMutex struct {
	m sync.RWMutex
	v vstate
}

func (m *RWMutex) Lock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.Lock()
		}
		return
	}
	Wait(func() bool { v := m.v.of(s); return !v.locked && v.readers == 0 })
	m.v.of(s).locked = true
}

func (m *RWMutex) Unlock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.Unlock()
		}
		return
	}
	m.v.of(s).locked = false
}

func (m *RWMutex) RLock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.RLock()
		}
		return
	}
	Wait(func() bool { return !m.v.of(s).locked })
	m.v.of(s).readers++
}

func (m *RWMutex) RUnlock() {
	s := on()
	if s == nil {
		if active == nil {
			m.m.RUnlock()
		}
		return
	}
	m.v.of(s).readers--
}

func (m *RWMutex) TryLock() bool {
	s := on()
	if s == nil {
		return active != nil || m.m.TryLock()
	}
	v := m.v.of(s)
	if v.locked || v.readers > 0 {
		return false
	}
	v.locked = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	s := on()
	if s == nil {
		return active != nil || m.m.TryRLock()
	}
	v := m.v.of(s)
	if v.locked {
		return false
	}
	v.readers++
	return true
}

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	w sync.WaitGroup
	v vstate
}

func (w *WaitGroup) Add(n int) {
	s := on()
	if s == nil {
		if active == nil {
			w.w.Add(n)
		}
		return
	}
	w.v.of(s).readers += n
	if w.v.readers < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := on()
	if s == nil {
		if active == nil {
			w.w.Wait()
		}
		return
	}
	Wait(func() bool { return w.v.of(s).readers == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once stands in for sync.Once.
type Once struct {
	o    sync.Once
	v    vstate
	done bool
}

func (o *Once) Do(f func()) {
	s := on()
	if s == nil {
		if active == nil {
			o.o.Do(f)
		}
		return
	}
	v := o.v.of(s)
	switch v.readers {
	case 0:
		v.readers = 1
		defer func() { v.readers = 2 }()
		f()
	case 1:
		Wait(func() bool { return o.v.readers == 2 })
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L sync.Locker
	q []*bool
	c *sync.Cond
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if on() == nil {
		if s := active; s != nil {
			Wait(func() bool { return true }) // ends the thread
			return
		}
		if c.c == nil {
			c.c = sync.NewCond(c.L)
		}
		c.c.Wait()
		return
	}
	go1 := new(bool)
	c.q = append(c.q, go1)
	c.L.Unlock()
	Wait(func() bool { return *go1 })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if c.c != nil {
		c.c.Signal()
	}
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if c.c != nil {
		c.c.Broadcast()
	}
	for _, p := range c.q {
		*p = true
	}
	c.q = nil
}
