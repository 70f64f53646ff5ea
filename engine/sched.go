package main

// Goroutines of the program under test, channels, locks and virtual time.
// One goroutine runs at a time (baton passing); a goroutine runs until it
// blocks. Virtual time advances only when nothing else can run, as in
// testing/synctest. Delay points (nd.Point) let the solver-driven search
// postpone a goroutine until everybody else has blocked.

import (
	"fmt"
	"sort"
)

type G struct {
	m      *Machine
	name   string
	fr     *Frame
	depth  int
	resume chan struct{}
	nkids  int
	dead   bool
	why    string // what it is blocked on

	// channel operation results
	selIdx int
	selVal Value
	selOK  bool
	points int
	id     int // index among the goroutines of the path, -1 for none
	vc     vclock
	steps  []int64 // when it passed each of its ordering points, see order
}

type waiter struct {
	g    *G
	idx  int
	v    Value // to be sent
	done *bool // shared among the cases of one select
}

type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	timer  *timerObj
	id     int
	// clocks of the race detection
	sn, rn  int
	timerVC vclock
}

type timerObj struct {
	when   int64
	period int64
	seq    int
	active bool
	fire   func()
}

type mutexState struct {
	locked  bool
	readers int
	wwait   int
	q       []*G
}

type wgState struct {
	n int
	q []*G
}

type pathSched struct {
	gs       []*G
	runq     []*G
	quiesce  []*G
	now      int64
	timers   []*timerObj
	tseq     int
	mutexes  map[*Cell]*mutexState
	wgs      map[*Cell]*wgState
	conds    map[*Cell][]*G
	timerOf  map[*Cell]*timerObj
	chanOf   map[*Cell]*ChanObj
	smaps    map[*Cell]*MapObj
	avals    map[*Cell]Iface
	pools    map[*Cell][]Value
	clk      map[interface{}]vclock
	acc      map[interface{}]*raceRec
	nchan    int
	switches int
	nsteps   int64
}

const baseTime = int64(946684800) * 1e9 // 2000-01-01 UTC, as testing/synctest

func (m *Machine) newChan(n int) *ChanObj {
	if n < 0 {
		m.targetPanicStr("makechan: size out of range")
	}
	m.s.nchan++
	return &ChanObj{cap: n, id: m.s.nchan}
}

func (m *Machine) spawn(parent *G, c *Closure, args []Value, named bool) *G {
	if c == nil {
		m.targetPanicStr("go of nil func value")
	}
	if m.inInit > 0 {
		m.unsupported("go statement in package initialisation")
	}
	name := "m"
	if parent != nil && (!named || parent.name[0] != 'm') {
		name = "x"
	} else if parent != nil {
		name = fmt.Sprintf("%s.%d", parent.name, parent.nkids)
		parent.nkids++
	}
	g := &G{m: m, name: name, resume: make(chan struct{}, 1), id: len(m.s.gs)}
	if m.race && parent != nil {
		g.vc = parent.vc.copy()
		parent.tick()
	}
	g.tick()
	m.s.gs = append(m.s.gs, g)
	m.s.runq = append(m.s.runq, g)
	m.gwg.Add(1)
	go m.gmain(g, c, args)
	return g
}

func (m *Machine) gmain(g *G, c *Closure, args []Value) {
	defer m.gwg.Done()
	<-g.resume
	var end *pathEnd
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case killSig:
			case targetPanic:
				if m.killing {
					return
				}
				end = &pathEnd{kind: "panic", reason: "panic in goroutine " + g.name + ": " + m.describeSafe(x.v)}
			case abortSig:
				end = &pathEnd{kind: x.kind, reason: x.reason}
			default:
				if !m.killing {
					end = &pathEnd{kind: "internal", reason: fmt.Sprint(x) + " @ " + g.where() + "\n" + stack()}
				}
			}
		}()
		if m.killing {
			panic(killSig{})
		}
		m.cur = g
		if g.name != "m" && g.name[0] == 'm' {
			m.order(g)
		}
		m.callClosure(g, c, args)
	}()
	g.dead = true
	if m.killing {
		return
	}
	if end == nil && g.name == "m" {
		end = &pathEnd{kind: "done"}
	}
	if end != nil {
		m.pathDone <- end
		return
	}
	m.schedNext()
}

// schedNext hands the baton to the next runnable goroutine. The caller must
// not continue unless it is resumed.
func (m *Machine) schedNext() {
	g := m.pickNext()
	if g == nil {
		m.pathDone <- &pathEnd{kind: "deadlock", reason: m.blockedReport()}
		return
	}
	m.s.switches++
	m.cur = g
	g.resume <- struct{}{}
}

func (m *Machine) pickNext() *G {
	for {
		if n := len(m.s.runq); n > 0 {
			g := m.s.runq[0]
			m.s.runq = m.s.runq[1:]
			return g
		}
		if n := len(m.s.quiesce); n > 0 {
			g := m.s.quiesce[0]
			m.s.quiesce = m.s.quiesce[1:]
			return g
		}
		if !m.fireTimers() {
			return nil
		}
	}
}

func (m *Machine) fireTimers() bool {
	var live []*timerObj
	for _, t := range m.s.timers {
		if t.active {
			live = append(live, t)
		}
	}
	m.s.timers = live
	if len(live) == 0 {
		return false
	}
	sort.SliceStable(live, func(i, j int) bool {
		if live[i].when != live[j].when {
			return live[i].when < live[j].when
		}
		return live[i].seq < live[j].seq
	})
	t := live[0]
	if t.when > m.s.now {
		if t.when-m.s.now > m.maxTime {
			panic(abortSig{"time", "virtual time limit"})
		}
		m.s.now = t.when
	}
	if m.s.now > m.maxTime {
		panic(abortSig{"time", "virtual time limit"})
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.active = false
	}
	m.firing = true
	t.fire()
	m.firing = false
	return true
}

func (m *Machine) blockedReport() string {
	s := ""
	for _, g := range m.s.gs {
		if !g.dead {
			s += fmt.Sprintf("%s blocked on %s at %s; ", g.name, g.why, g.where())
		}
	}
	return s
}

// park blocks g until somebody makes it ready.
func (m *Machine) park(g *G, why string) {
	if m.inInit > 0 {
		m.unsupported("blocking in package initialisation")
	}
	g.why = why
	m.schedNextOrEnd(g)
	<-g.resume
	if m.killing {
		panic(killSig{})
	}
	g.why = ""
	m.cur = g
}

func (m *Machine) schedNextOrEnd(self *G) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortSig); ok {
				m.pathDone <- &pathEnd{kind: a.kind, reason: a.reason}
				return
			}
			panic(r)
		}
	}()
	m.schedNext()
}

// order records the place of g's next ordering point in the global order; the
// native replay makes goroutines pass them at these (virtual) times.
func (m *Machine) order(g *G) {
	m.s.nsteps++
	g.steps = append(g.steps, m.s.now+m.s.nsteps)
}

func (m *Machine) ready(g *G) { m.s.runq = append(m.s.runq, g) }

// yield lets every other runnable goroutine go first.
func (m *Machine) yield(g *G) {
	m.ready(g)
	m.park(g, "yield")
}

func (m *Machine) addTimer(d int64, period int64, fire func()) *timerObj {
	m.s.tseq++
	if d < 0 {
		d = 0
	}
	t := &timerObj{when: m.s.now + d, period: period, seq: m.s.tseq, active: true, fire: fire}
	m.s.timers = append(m.s.timers, t)
	return t
}

func (m *Machine) sleep(g *G, d int64) {
	if d <= 0 {
		m.yield(g)
		return
	}
	m.addTimer(d, 0, func() { m.ready(g) })
	m.park(g, "sleep")
}

// channels ------------------------------------------------------------------

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done != nil {
			if *w.done {
				continue
			}
			*w.done = true
		}
		return w
	}
	return nil
}

func liveWaiters(q []*waiter, self *bool) bool {
	for _, w := range q {
		if w.done == nil || !*w.done {
			return true
		}
	}
	return false
}

func (m *Machine) trySend(c *ChanObj, v Value) bool {
	if c.closed {
		panic(targetPanic{m.runtimeErr("send on closed channel")})
	}
	if w := dequeue(&c.recvq); w != nil {
		if c.cap == 0 {
			m.rendezvous(m.cur, w.g)
		} else {
			m.sent(m.cur, c)
			m.received(w.g, c)
		}
		w.g.selIdx, w.g.selVal, w.g.selOK = w.idx, v, true
		m.ready(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		m.sent(m.cur, c)
		c.buf = append(append([]Value{}, c.buf...), v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(c *ChanObj) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		m.received(m.cur, c)
		if w := dequeue(&c.sendq); w != nil {
			m.sent(w.g, c)
			c.buf = append(append([]Value{}, c.buf...), w.v)
			w.g.selIdx, w.g.selOK = w.idx, true
			m.ready(w.g)
		}
		return v, true, true
	}
	if w := dequeue(&c.sendq); w != nil {
		m.rendezvous(m.cur, w.g)
		w.g.selIdx, w.g.selOK = w.idx, true
		m.ready(w.g)
		return w.v, true, true
	}
	if c.closed {
		m.acquire(m.cur, c)
		return nil, false, true
	}
	return nil, false, false
}

func (m *Machine) chanSend(g *G, c *ChanObj, v Value) {
	if c == nil {
		m.park(g, "send on nil channel")
	}
	if m.trySend(c, v) {
		return
	}
	d := false
	c.sendq = append(c.sendq, &waiter{g: g, v: v, done: &d})
	m.park(g, "chan send")
	if !g.selOK {
		panic(targetPanic{m.runtimeErr("send on closed channel")})
	}
}

func (m *Machine) chanRecv(g *G, c *ChanObj) (Value, bool) {
	if c == nil {
		m.park(g, "receive from nil channel")
	}
	if v, ok, done := m.tryRecv(c); done {
		return v, ok
	}
	d := false
	c.recvq = append(c.recvq, &waiter{g: g, done: &d})
	m.park(g, "chan receive")
	v := g.selVal
	g.selVal = nil
	return v, g.selOK
}

func (m *Machine) chanClose(g *G, c *ChanObj) {
	if c == nil {
		panic(targetPanic{m.runtimeErr("close of nil channel")})
	}
	if c.closed {
		panic(targetPanic{m.runtimeErr("close of closed channel")})
	}
	c.closed = true
	m.release(g, c)
	for {
		w := dequeue(&c.recvq)
		if w == nil {
			break
		}
		m.acquire(w.g, c)
		w.g.selIdx, w.g.selVal, w.g.selOK = w.idx, nil, false
		m.ready(w.g)
	}
	for {
		w := dequeue(&c.sendq)
		if w == nil {
			break
		}
		w.g.selIdx, w.g.selOK = w.idx, false
		m.ready(w.g)
	}
}

type selCase struct {
	ch   *ChanObj
	send bool
	v    Value
}

func (m *Machine) doSelect(g *G, cs []selCase, blocking bool) (int, Value, bool) {
	var rdy []int
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || liveWaiters(c.ch.recvq, nil) || len(c.ch.buf) < c.ch.cap {
				rdy = append(rdy, i)
			}
		} else if len(c.ch.buf) > 0 || liveWaiters(c.ch.sendq, nil) || c.ch.closed {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 && m.selForks > 0 {
			m.selForks--
			k = rdy[m.choose("select", len(rdy))]
		}
		c := cs[k]
		if c.send {
			m.trySend(c.ch, c.v)
			return k, nil, false
		}
		v, ok, _ := m.tryRecv(c.ch)
		return k, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	done := false
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, idx: i, v: c.v, done: &done}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	m.park(g, "select")
	i := g.selIdx
	if cs[i].send && !g.selOK {
		panic(targetPanic{m.runtimeErr("send on closed channel")})
	}
	v := g.selVal
	g.selVal = nil
	return i, v, g.selOK
}

// locks ------------------------------------------------------------------------

func (m *Machine) mu(c *Cell) *mutexState {
	s := m.s.mutexes[c]
	if s == nil {
		s = &mutexState{}
		m.s.mutexes[c] = s
	}
	return s
}

func (m *Machine) wakeAll(s *mutexState) {
	q := s.q
	s.q = nil
	for _, g := range q {
		m.ready(g)
	}
}

func (m *Machine) lock(g *G, c *Cell) {
	s := m.mu(c)
	s.wwait++
	for s.locked || s.readers > 0 {
		s.q = append(s.q, g)
		m.park(g, "mutex lock")
	}
	s.wwait--
	s.locked = true
	m.acquire(g, c)
	m.acquire(g, rkey{c})
}

func (m *Machine) tryLock(c *Cell) bool {
	s := m.mu(c)
	if s.locked || s.readers > 0 {
		return false
	}
	s.locked = true
	m.acquire(m.cur, c)
	m.acquire(m.cur, rkey{c})
	return true
}

func (m *Machine) unlock(c *Cell) {
	s := m.mu(c)
	if !s.locked {
		panic(abortSig{"panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	s.locked = false
	m.release(m.cur, c)
	m.wakeAll(s)
}

func (m *Machine) rlock(g *G, c *Cell) {
	s := m.mu(c)
	// a pending writer blocks new readers, as sync.RWMutex documents
	for s.locked || s.wwait > 0 {
		s.q = append(s.q, g)
		m.park(g, "rwmutex rlock")
		if !s.locked {
			break // readers waiting when a writer leaves get in before the next writer
		}
	}
	s.readers++
	m.acquire(g, c)
}

func (m *Machine) runlock(c *Cell) {
	s := m.mu(c)
	if s.readers <= 0 {
		panic(abortSig{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	s.readers--
	m.release(m.cur, rkey{c})
	if s.readers == 0 {
		m.wakeAll(s)
	}
}
