package main

// Data races: happens-before clocks of the goroutines of a path (Go's memory
// model: go statements, channels, locks, wait groups, conditions, atomics,
// timers), and the last accesses of the repository's code to every location.
// Two accesses of one location, one of them a write, that no synchronisation
// orders are a violation. On only after nd.Races.

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinInto(a, b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (g *G) tick() {
	if g.id >= 0 {
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id]++
	}
}

type rkey struct{ c *Cell }

func (m *Machine) acquire(g *G, key interface{}) {
	if m.race {
		g.vc = joinInto(g.vc, m.s.clk[key])
	}
}

func (m *Machine) release(g *G, key interface{}) {
	if m.race {
		m.s.clk[key] = joinInto(m.s.clk[key], g.vc)
		g.tick()
	}
}

func (m *Machine) acqRel(g *G, key interface{}) {
	m.acquire(g, key)
	m.release(g, key)
}

// rendezvous orders both goroutines' pasts before both futures.
func (m *Machine) rendezvous(a, b *G) {
	if !m.race {
		return
	}
	v := a.vc.copy()
	a.vc = joinInto(a.vc, b.vc)
	b.vc = joinInto(b.vc, v)
	a.tick()
	b.tick()
}

type slotKey struct {
	c *ChanObj
	i int
}

// sent and received: a value of a buffered channel passes through its slot.
func (m *Machine) sent(g *G, c *ChanObj) {
	if !m.race || c.cap == 0 {
		return
	}
	k := slotKey{c, c.sn % c.cap}
	c.sn++
	if m.firing {
		m.s.clk[k] = joinInto(m.s.clk[k], c.timerVC)
		return
	}
	m.acqRel(g, k)
}

func (m *Machine) received(g *G, c *ChanObj) {
	if !m.race || c.cap == 0 {
		return
	}
	k := slotKey{c, c.rn % c.cap}
	c.rn++
	m.acqRel(g, k)
}

type raceAcc struct {
	g   int
	clk uint32
	fn  *ssa.Function
	pos token.Pos
}

type raceRec struct {
	w, aw raceAcc // the last write, and the last atomic one
	r, ar []raceAcc
}

func (m *Machine) raceCell(fr *Frame, c *Cell, write bool) {
	if c.kids != nil {
		for _, k := range c.kids {
			m.raceCell(fr, k, write)
		}
		return
	}
	m.raceObj(fr, c, write)
}

func (m *Machine) raceSlice(fr *Frame, s SliceV, from, to int, write bool) {
	for i := from; i < to && s.arr != nil; i++ {
		m.raceCell(fr, s.arr.cells[s.off+i], write)
	}
}

func (m *Machine) raceObj(fr *Frame, key interface{}, write bool) {
	m.raceAccess(fr, key, write, false)
}

// raceAtomic is an atomic access: ordered with the other atomic ones.
func (m *Machine) raceAtomic(g *G, c *Cell, write bool) {
	if m.race && g.fr != nil && g.fr.rec && c != nil && c.kids == nil {
		m.raceAccess(g.fr, c, write, true)
	}
}

func (m *Machine) raceAccess(fr *Frame, key interface{}, write, atomic bool) {
	g := fr.g
	if g == nil || g.id < 0 || m.inInit > 0 {
		return
	}
	rec := m.s.acc[key]
	if rec == nil {
		rec = &raceRec{w: raceAcc{g: -1}, aw: raceAcc{g: -1}}
		m.s.acc[key] = rec
	}
	if len(g.vc) <= g.id {
		g.tick()
	}
	for fr.pos == token.NoPos && fr.caller != nil {
		fr = fr.caller
	}
	for !fr.cf.inRepo && !fr.cf.user && fr.caller != nil {
		fr = fr.caller
	}
	cur := raceAcc{g.id, g.vc[g.id], fr.cf.fn, fr.pos}
	after := func(a raceAcc, aw bool) {
		if a.g < 0 || a.g == g.id {
			return
		}
		m.asserts++
		if a.clk > g.vc.at(a.g) {
			m.raceFound(a, aw, cur, write)
		}
	}
	after(rec.w, true)
	if write {
		for _, r := range rec.r {
			after(r, false)
		}
	}
	if !atomic {
		after(rec.aw, true)
		if write {
			for _, r := range rec.ar {
				after(r, false)
			}
		}
	}
	switch {
	case write && atomic:
		rec.aw = cur
	case write:
		rec.w = cur
		rec.r = rec.r[:0]
	case atomic:
		rec.ar = raceRead(rec.ar, cur)
	default:
		rec.r = raceRead(rec.r, cur)
	}
}

func raceRead(l []raceAcc, cur raceAcc) []raceAcc {
	for i := range l {
		if l[i].g == cur.g {
			l[i] = cur
			return l
		}
	}
	return append(l, cur)
}

func (m *Machine) raceFound(a raceAcc, aw bool, b raceAcc, bw bool) {
	name := func(x raceAcc, w bool) string {
		s := "read"
		if w {
			s = "write"
		}
		p := m.eng.fset.Position(x.pos)
		f := p.Filename
		if i := strings.LastIndexByte(f, '/'); i >= 0 {
			f = f[i+1:]
		}
		return fmt.Sprintf("%s in %s (%s:%d)", s, strings.ReplaceAll(x.fn.String(), modPath+".", ""), f, p.Line)
	}
	x, y := name(a, aw), name(b, bw)
	if y < x {
		x, y = y, x
	}
	msg := "data race: " + x + ", " + y
	m.violate("race", msg, m.model)
	panic(abortSig{"violation", msg})
}
