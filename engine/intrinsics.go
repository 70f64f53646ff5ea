package main

// Functions the engine implements itself: the harness API, synchronisation,
// time, assembly-backed byte searching, and formatting.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/kataras/neffos"
const ndPath = modPath + "/verifh/nd"

type intrFn = func(g *G, cf *cfunc, args []Value) Value

var intrinsics map[string]intrFn

func skipInit(path string) bool {
	switch path {
	case "crypto/rand", "crypto/internal/rand", "crypto/sha1", "vendor/golang.org/x/net/http/httpguts":
		return false
	case "runtime", "os", "syscall", "net", "reflect", "log", "crypto/tls", "crypto/x509", "encoding/json", "math/rand", "math/rand/v2",
		"encoding/binary", "internal/poll", "time", "testing", "mime", "mime/multipart", "net/http/httptrace", "fmt", "github.com/google/uuid", ndPath:
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/")
}

func (m *Machine) runtimeErr(msg string) Iface {
	if m.eng.runtimeErrT != nil {
		return Iface{m.eng.runtimeErrT, Str{s: msg}}
	}
	return Iface{types.Typ[types.String], Str{s: msg}}
}

func (m *Machine) describeSafe(v Iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(v.t)
		}
	}()
	return m.describe(v)
}

// describe renders a panic value using the current model.
func (m *Machine) describe(v Iface) string {
	switch x := v.v.(type) {
	case Str:
		s := ""
		if v.t == m.eng.runtimeErrT {
			s = "runtime error: "
		}
		return s + m.modelStr(x)
	case *Term:
		return fmt.Sprint(m.tf.Eval(x, m.model))
	case *Cell:
		if x != nil && len(x.kids) > 0 {
			if s, ok := x.kids[0].v.(Str); ok {
				return v.t.String() + ": " + m.modelStr(s)
			}
		}
	}
	return fmt.Sprint(v.t)
}

func (m *Machine) modelStr(s Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(m.tf.Eval(t, m.model))
	}
	return string(b)
}

func pkgIntrinsic(path string, fn *ssa.Function) intrFn {
	switch path {
	case "sync/atomic", "internal/runtime/atomic":
		if fn.Signature.Params().Len() > 0 && fn.Signature.Recv() == nil {
			if h := atomicFn(fn); h != nil {
				return h
			}
		}
	}
	return nil
}

func ptrCell(m *Machine, v Value) *Cell {
	switch c := v.(type) {
	case *Cell:
		if c == nil {
			m.targetPanicStr("invalid memory address or nil pointer dereference")
		}
		return c
	case *SymPtr:
		return m.concretePtr(c)
	case UnsafeP:
		return ptrCell(m, c.v)
	}
	m.unsupported("pointer %T", v)
	return nil
}

func atomicFn(fn *ssa.Function) intrFn {
	n := fn.Name()
	var et types.Type
	if p, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok {
		et = p.Elem()
	} else {
		return nil
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.raceAtomic(g, c, false)
			g.m.acquire(g, c)
			return g.m.load(c, et)
		}
	case strings.HasPrefix(n, "Store"):
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.raceAtomic(g, c, true)
			g.m.release(g, c)
			g.m.store(c, a[1])
			return nil
		}
	case strings.HasPrefix(n, "Add"):
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.acquire(g, c)
			g.m.raceAtomic(g, c, true)
			g.m.release(g, c)
			v := g.m.tf.Bin(OpAdd, g.m.load(c, et).(*Term), a[1].(*Term))
			g.m.store(c, v)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.acquire(g, c)
			g.m.raceAtomic(g, c, true)
			g.m.release(g, c)
			v := g.m.load(c, et)
			g.m.store(c, a[1])
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.acquire(g, c)
			g.m.raceAtomic(g, c, true)
			g.m.release(g, c)
			v := g.m.load(c, et)
			if g.m.decide(g.m.equal(et, v, a[1])) {
				g.m.store(c, a[2])
				return g.m.tf.tru
			}
			return g.m.tf.fls
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		op := OpBvAnd
		if strings.HasPrefix(n, "Or") {
			op = OpBvOr
		}
		return func(g *G, cf *cfunc, a []Value) Value {
			c := ptrCell(g.m, a[0])
			g.m.acquire(g, c)
			g.m.raceAtomic(g, c, true)
			g.m.release(g, c)
			v := g.m.load(c, et).(*Term)
			g.m.store(c, g.m.tf.Bin(op, v, a[1].(*Term)))
			return v
		}
	}
	return nil
}

func (m *Machine) timeValue(cfRes types.Type) Value {
	st := cfRes.Underlying().(*types.Struct)
	v := m.zero(st).(StructV)
	ns := baseTime + m.s.now
	sec := ns / 1e9
	// wall: nanoseconds; ext: seconds since year 1
	v[0] = m.tf.Const(uint64(ns%1e9), 64)
	v[1] = m.tf.Const(uint64(sec+62135596800), 64)
	return v
}

func (m *Machine) i64(n int64) *Term { return m.tf.Const(uint64(n), 64) }

func (m *Machine) newTimerCell(g *G, cf *cfunc) *Cell {
	t := cf.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	return m.newCell(t)
}

func (m *Machine) strOf(v Value) Str { return v.(Str) }

func ndConst(v Value) string { return v.(Str).s }

func init() {
	intrinsics = map[string]intrFn{}
	I := intrinsics
	ret := func(v Value) intrFn { return func(*G, *cfunc, []Value) Value { return v } }

	// harness API ------------------------------------------------------------
	nd := func(name string, f func(g *G, a []Value) Value) {
		I[ndPath+"."+name] = func(g *G, cf *cfunc, a []Value) Value { return f(g, a) }
	}
	nd("Byte", func(g *G, a []Value) Value { return g.m.fresh(ndConst(a[0]), "int", 8) })
	nd("Bool", func(g *G, a []Value) Value {
		t := g.m.fresh(ndConst(a[0]), "int", 8)
		g.m.assume(g.m.tf.Ult(t, g.m.tf.Const(2, 8)))
		return g.m.tf.Eq(t, g.m.tf.Const(1, 8))
	})
	nd("Int", func(g *G, a []Value) Value {
		m := g.m
		t := m.fresh(ndConst(a[0]), "int", 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		m.assume(m.tf.Sle(lo, t))
		m.assume(m.tf.Sle(t, hi))
		return t
	})
	nd("Choose", func(g *G, a []Value) Value {
		n := g.m.concInt(a[1].(*Term))
		return g.m.i64(int64(g.m.choose(ndConst(a[0]), n)))
	})
	str := func(g *G, a []Value) []*Term {
		m := g.m
		label := ndConst(a[0])
		n := m.concInt(a[1].(*Term))
		k := m.labels[label]
		m.labels[label] = k + 1
		key := fmt.Sprintf("%s#%d", label, k)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = m.tf.Var(fmt.Sprintf("%s[%d]", key, i), 8)
		}
		m.ndvars = append(m.ndvars, ndVar{key: key, kind: "bytes", t: ts})
		return ts
	}
	nd("Str", func(g *G, a []Value) Value { return mkStr(str(g, a)) })
	nd("Bytes", func(g *G, a []Value) Value { return g.m.mkBytes(str(g, a)) })
	nd("Assume", func(g *G, a []Value) Value { g.m.assume(a[0].(*Term)); return nil })
	nd("Assert", func(g *G, a []Value) Value { g.m.assertTrue(a[0].(*Term), g.m.modelStr(a[1].(Str))); return nil })
	nd("Fail", func(g *G, a []Value) Value { g.m.assertTrue(g.m.tf.fls, g.m.modelStr(a[0].(Str))); return nil })
	nd("Reach", func(g *G, a []Value) Value { g.m.reached[ndConst(a[0])] = true; return nil })
	nd("And", func(g *G, a []Value) Value { return g.m.tf.And(a[0].(*Term), a[1].(*Term)) })
	nd("Or", func(g *G, a []Value) Value { return g.m.tf.Or(a[0].(*Term), a[1].(*Term)) })
	nd("Not", func(g *G, a []Value) Value { return g.m.tf.Not(a[0].(*Term)) })
	nd("Observe", func(g *G, a []Value) Value {
		m := g.m
		o := obsRec{label: ndConst(a[0])}
		s := a[1].(SliceV)
		for i := 0; i < s.n; i++ {
			o.v = append(o.v, m.obsPart(s.arr.cells[s.off+i].v.(Iface)))
		}
		m.obs = append(m.obs, o)
		return nil
	})
	nd("Quiesce", func(g *G, a []Value) Value {
		g.m.s.quiesce = append(g.m.s.quiesce, g)
		g.m.park(g, "quiesce")
		for _, x := range g.m.s.gs {
			if g.m.race && x != g {
				g.vc = joinInto(g.vc, x.vc)
			}
		}
		if g.name[0] == 'm' {
			g.m.order(g)
		}
		return nil
	})
	nd("Spawn", func(g *G, a []Value) Value {
		g.m.spawn(g, a[0].(*Closure), nil, true)
		return nil
	})
	nd("Delays", func(g *G, a []Value) Value { g.m.delays = g.m.concInt(a[0].(*Term)); return nil })
	nd("Point", func(g *G, a []Value) Value {
		m := g.m
		if m.inInit > 0 || g.name == "" || g.name[0] != 'm' {
			return nil
		}
		label := "pt/" + g.name
		if m.delays <= 0 || len(m.s.runq) == 0 && m.delayed == 0 {
			m.labels[label]++
			m.order(g)
			return nil
		}
		m.npoints++
		t := m.fresh(label, "int", 8)
		m.assume(m.tf.Ult(t, m.tf.Const(2, 8)))
		if m.decide(m.tf.Eq(t, m.tf.Const(1, 8))) {
			m.delays--
			m.steplog = append(m.steplog, stepRec{m.s.now, g.name, Str{s: "delayed at " + g.where()}})
			m.delayed++
			m.sleep(g, 1000)
			m.delayed--
		}
		m.order(g)
		return nil
	})
	nd("Log", func(g *G, a []Value) Value {
		m := g.m
		if len(m.steplog) < 400 {
			m.steplog = append(m.steplog, stepRec{m.s.now, g.name, a[0].(Str)})
		}
		return nil
	})
	nd("Order", func(g *G, a []Value) Value {
		if g.m.inInit == 0 && g.name != "" && g.name[0] == 'm' {
			g.m.order(g)
		}
		return nil
	})
	nd("MapOrder", func(g *G, a []Value) Value { g.m.mapOrder = g.m.concInt(a[0].(*Term)); return nil })
	nd("SelectForks", func(g *G, a []Value) Value { g.m.selForks = g.m.concInt(a[0].(*Term)); return nil })
	nd("Races", func(g *G, a []Value) Value { g.m.race = true; return nil })
	nd("Thorough", func(g *G, a []Value) Value { return g.m.tf.Bool(thorough) })
	nd("Now", func(g *G, a []Value) Value { return g.m.i64(g.m.s.now) })

	// sync ---------------------------------------------------------------------
	for _, p := range []string{"sync", ndPath} {
		I["(*"+p+".Mutex).Lock"] = func(g *G, cf *cfunc, a []Value) Value { g.m.lock(g, ptrCell(g.m, a[0])); return nil }
		I["(*"+p+".Mutex).Unlock"] = func(g *G, cf *cfunc, a []Value) Value { g.m.unlock(ptrCell(g.m, a[0])); return nil }
		I["(*"+p+".Mutex).TryLock"] = func(g *G, cf *cfunc, a []Value) Value {
			return g.m.tf.Bool(g.m.tryLock(ptrCell(g.m, a[0])))
		}
		I["(*"+p+".RWMutex).Lock"] = I["(*"+p+".Mutex).Lock"]
		I["(*"+p+".RWMutex).Unlock"] = I["(*"+p+".Mutex).Unlock"]
		I["(*"+p+".RWMutex).TryLock"] = I["(*"+p+".Mutex).TryLock"]
		I["(*"+p+".RWMutex).RLock"] = func(g *G, cf *cfunc, a []Value) Value { g.m.rlock(g, ptrCell(g.m, a[0])); return nil }
		I["(*"+p+".RWMutex).RUnlock"] = func(g *G, cf *cfunc, a []Value) Value { g.m.runlock(ptrCell(g.m, a[0])); return nil }
	}
	I["(*internal/sync.Mutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*internal/sync.Mutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	wg := func(m *Machine, c *Cell) *wgState {
		s := m.s.wgs[c]
		if s == nil {
			s = &wgState{}
			m.s.wgs[c] = s
		}
		return s
	}
	wgAdd := func(g *G, c *Cell, n int) {
		s := wg(g.m, c)
		s.n += n
		if n < 0 {
			g.m.release(g, c)
		}
		if s.n < 0 {
			panic(targetPanic{Iface{types.Typ[types.String], Str{s: "sync: negative WaitGroup counter"}}})
		}
		if s.n == 0 {
			q := s.q
			s.q = nil
			for _, x := range q {
				g.m.ready(x)
			}
		}
	}
	I["(*sync.WaitGroup).Add"] = func(g *G, cf *cfunc, a []Value) Value {
		wgAdd(g, ptrCell(g.m, a[0]), g.m.concInt(a[1].(*Term)))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(g *G, cf *cfunc, a []Value) Value { wgAdd(g, ptrCell(g.m, a[0]), -1); return nil }
	I["(*sync.WaitGroup).Wait"] = func(g *G, cf *cfunc, a []Value) Value {
		s := wg(g.m, ptrCell(g.m, a[0]))
		if s.n > 0 {
			s.q = append(s.q, g)
			g.m.park(g, "waitgroup")
		}
		g.m.acquire(g, ptrCell(g.m, a[0]))
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		f := a[1].(*Closure)
		wgAdd(g, c, 1)
		g.m.spawn(g, &Closure{nat: func(g2 *G, _ []Value) Value {
			g.m.callClosure(g2, f, nil)
			wgAdd(g2, c, -1)
			return nil
		}}, nil, false)
		return nil
	}
	I["(*sync.Cond).Wait"] = func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		c := ptrCell(m, a[0])
		var l Iface
		for _, k := range c.kids {
			if x, ok := k.v.(Iface); ok {
				l = x
			}
		}
		m.callFn(g, m.findMethod(l.t, "Unlock"), []Value{l.v}, nil)
		m.s.conds[c] = append(m.s.conds[c], g)
		m.park(g, "cond")
		m.acquire(g, c)
		m.callFn(g, m.findMethod(l.t, "Lock"), []Value{l.v}, nil)
		return nil
	}
	I["(*sync.Cond).Signal"] = func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		g.m.release(g, c)
		if q := g.m.s.conds[c]; len(q) > 0 {
			g.m.s.conds[c] = q[1:]
			g.m.ready(q[0])
		}
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		g.m.release(g, c)
		q := g.m.s.conds[c]
		g.m.s.conds[c] = nil
		for _, x := range q {
			g.m.ready(x)
		}
		return nil
	}
	I["(*sync.Pool).Get"] = func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		g.m.acquire(g, c)
		if p := g.m.s.pools[c]; len(p) > 0 {
			v := p[len(p)-1]
			g.m.s.pools[c] = p[:len(p)-1]
			return v
		}
		for _, k := range c.kids {
			if f, ok := k.v.(*Closure); ok {
				if f == nil {
					return Iface{}
				}
				return g.m.callClosure(g, f, nil)
			}
		}
		return Iface{}
	}
	I["(*sync.Pool).Put"] = func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		g.m.release(g, c)
		if g.m.inInit == 0 {
			g.m.s.pools[c] = append(g.m.s.pools[c], a[1])
		}
		return nil
	}
	// sync.Map
	sm := func(m *Machine, v Value) *MapObj {
		c := ptrCell(m, v)
		m.acqRel(m.cur, c)
		o := m.s.smaps[c]
		if o == nil {
			o = m.newMap()
			m.s.smaps[c] = o
		}
		return o
	}
	anyT := types.NewInterfaceType(nil, nil)
	I["(*sync.Map).Load"] = func(g *G, cf *cfunc, a []Value) Value {
		e := g.m.mapFind(sm(g.m, a[0]), anyT, a[1])
		if e == nil {
			return Tuple{Iface{}, g.m.tf.fls}
		}
		return Tuple{e.v, g.m.tf.tru}
	}
	I["(*sync.Map).Store"] = func(g *G, cf *cfunc, a []Value) Value { g.m.mapSet(sm(g.m, a[0]), anyT, a[1], a[2]); return nil }
	I["(*sync.Map).LoadOrStore"] = func(g *G, cf *cfunc, a []Value) Value {
		o := sm(g.m, a[0])
		if e := g.m.mapFind(o, anyT, a[1]); e != nil {
			return Tuple{e.v, g.m.tf.tru}
		}
		g.m.mapSet(o, anyT, a[1], a[2])
		return Tuple{a[2], g.m.tf.fls}
	}
	I["(*sync.Map).LoadAndDelete"] = func(g *G, cf *cfunc, a []Value) Value {
		o := sm(g.m, a[0])
		if e := g.m.mapFind(o, anyT, a[1]); e != nil {
			v := e.v
			g.m.mapDelete(o, anyT, a[1])
			return Tuple{v, g.m.tf.tru}
		}
		return Tuple{Iface{}, g.m.tf.fls}
	}
	I["(*sync.Map).Delete"] = func(g *G, cf *cfunc, a []Value) Value { g.m.mapDelete(sm(g.m, a[0]), anyT, a[1]); return nil }
	I["(*sync.Map).Range"] = func(g *G, cf *cfunc, a []Value) Value {
		for _, e := range sm(g.m, a[0]).live() {
			if e.dead {
				continue
			}
			if !g.m.decide(g.m.callClosure(g, a[1].(*Closure), []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	}
	// atomic.Value
	I["(*sync/atomic.Value).Load"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.acquire(g, ptrCell(g.m, a[0]))
		return ptrCell(g.m, a[0]).kids[0].v
	}
	I["(*sync/atomic.Value).Store"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.release(g, ptrCell(g.m, a[0]))
		g.m.store(ptrCell(g.m, a[0]).kids[0], a[1])
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.acqRel(g, ptrCell(g.m, a[0]))
		c := ptrCell(g.m, a[0]).kids[0]
		v := c.v
		g.m.store(c, a[1])
		return v
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.acqRel(g, ptrCell(g.m, a[0]))
		c := ptrCell(g.m, a[0]).kids[0]
		if g.m.decide(g.m.equal(anyT, c.v, a[1])) {
			g.m.store(c, a[2])
			return g.m.tf.tru
		}
		return g.m.tf.fls
	}

	// time ------------------------------------------------------------------------
	I["time.Now"] = func(g *G, cf *cfunc, a []Value) Value {
		return g.m.timeValue(cf.fn.Signature.Results().At(0).Type())
	}
	I["time.Sleep"] = func(g *G, cf *cfunc, a []Value) Value { g.m.sleep(g, int64(g.m.concInt(a[0].(*Term)))); return nil }
	timeT := func(m *Machine) types.Type {
		return m.eng.prog.ImportedPackage("time").Pkg.Scope().Lookup("Time").Type()
	}
	mkTimer := func(g *G, d int64, period int64) *ChanObj {
		m := g.m
		ch := m.newChan(1)
		ch.timerVC = g.vc.copy()
		ch.timer = m.addTimer(d, period, func() {
			if len(ch.buf) == 0 || len(ch.recvq) > 0 {
				m.trySend(ch, m.timeValue(timeT(m)))
			}
		})
		return ch
	}
	newTimer := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		c := m.newTimerCell(g, cf)
		d := int64(m.concInt(a[0].(*Term)))
		p := int64(0)
		if cf.fn.Name() == "NewTicker" {
			p = d
		}
		ch := mkTimer(g, d, p)
		c.kids[0].v = ch
		m.s.timerOf[c] = ch.timer
		m.s.chanOf[c] = ch
		return c
	}
	I["time.NewTimer"] = newTimer
	I["time.NewTicker"] = newTimer
	I["time.After"] = func(g *G, cf *cfunc, a []Value) Value { return mkTimer(g, int64(g.m.concInt(a[0].(*Term))), 0) }
	I["time.Tick"] = func(g *G, cf *cfunc, a []Value) Value {
		d := int64(g.m.concInt(a[0].(*Term)))
		return mkTimer(g, d, d)
	}
	I["time.AfterFunc"] = func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		c := m.newTimerCell(g, cf)
		f := a[1].(*Closure)
		root := &G{m: m, name: "x", nkids: 0, id: -1, vc: g.vc.copy()}
		g.tick()
		m.s.timerOf[c] = m.addTimer(int64(m.concInt(a[0].(*Term))), 0, func() { m.spawn(root, f, nil, false) })
		return c
	}
	stop := func(g *G, cf *cfunc, a []Value) Value {
		c := ptrCell(g.m, a[0])
		t := g.m.s.timerOf[c]
		if t == nil {
			return g.m.tf.fls
		}
		was := t.active
		t.active = false
		if ch := g.m.s.chanOf[c]; ch != nil && len(ch.buf) > 0 {
			ch.buf = nil
			was = true
		}
		return g.m.tf.Bool(was)
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	I["(*time.Timer).Reset"] = func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		c := ptrCell(m, a[0])
		t := m.s.timerOf[c]
		if t == nil {
			m.unsupported("reset of unknown timer")
		}
		was := t.active
		t.active = false
		if ch := m.s.chanOf[c]; ch != nil {
			ch.buf = nil
		}
		m.s.timerOf[c] = m.addTimer(int64(m.concInt(a[1].(*Term))), t.period, t.fire)
		return m.tf.Bool(was)
	}
	I["runtime.Gosched"] = func(g *G, cf *cfunc, a []Value) Value { g.m.yield(g); return nil }
	I["runtime.KeepAlive"] = ret(nil)
	I["runtime.SetFinalizer"] = ret(nil)
	I["runtime.GC"] = ret(nil)

	// bytes and strings --------------------------------------------------------------
	I["internal/abi.NoEscape"] = func(g *G, cf *cfunc, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(g *G, cf *cfunc, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = func(g *G, cf *cfunc, a []Value) Value { return a[0] }
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	terms := func(m *Machine, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return m.strTerms(x)
		case SliceV:
			return m.bytesOf(x)
		}
		m.unsupported("bytes of %T", v)
		return nil
	}
	indexByte := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		c := a[1].(*Term)
		if s, ok := a[0].(Str); ok && s.sym == nil && c.isConst() {
			return m.i64(int64(strings.IndexByte(s.s, byte(c.val))))
		}
		for i, t := range terms(m, a[0]) {
			if m.decide(m.tf.Eq(t, c)) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	I["internal/bytealg.IndexByte"] = indexByte
	I["internal/bytealg.IndexByteString"] = indexByte
	I["bytes.IndexByte"] = indexByte
	I["strings.IndexByte"] = indexByte
	lastIndexByte := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		ts := terms(m, a[0])
		for i := len(ts) - 1; i >= 0; i-- {
			if m.decide(m.tf.Eq(ts[i], a[1].(*Term))) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	I["internal/bytealg.LastIndexByte"] = lastIndexByte
	I["internal/bytealg.LastIndexByteString"] = lastIndexByte
	count := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		n := 0
		for _, t := range terms(m, a[0]) {
			if m.decide(m.tf.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return m.i64(int64(n))
	}
	I["internal/bytealg.Count"] = count
	I["internal/bytealg.CountString"] = count
	index := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		x, y := a[0], a[1]
		if s, ok := x.(Str); ok && s.sym == nil {
			if t, ok := y.(Str); ok && t.sym == nil {
				return m.i64(int64(strings.Index(s.s, t.s)))
			}
		}
		s, t := terms(m, x), terms(m, y)
		for i := 0; i+len(t) <= len(s); i++ {
			eq := m.tf.tru
			for j := range t {
				eq = m.tf.And(eq, m.tf.Eq(s[i+j], t[j]))
			}
			if m.decide(eq) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		I[n] = index
	}
	equal := func(g *G, cf *cfunc, a []Value) Value {
		return g.m.strEq(mkStr(terms(g.m, a[0])), mkStr(terms(g.m, a[1])))
	}
	I["internal/bytealg.Equal"] = equal
	I["bytes.Equal"] = equal
	compare := func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		x, y := mkStr(terms(m, a[0])), mkStr(terms(m, a[1]))
		return m.tf.Ite(m.strEq(x, y), m.i64(0), m.tf.Ite(m.strLess(x, y), m.i64(-1), m.i64(1)))
	}
	I["internal/bytealg.Compare"] = compare
	I["internal/bytealg.CompareString"] = compare
	I["bytes.Compare"] = compare
	I["strings.Compare"] = compare
	I["internal/bytealg.MakeNoZero"] = func(g *G, cf *cfunc, a []Value) Value {
		n := g.m.concInt(a[0].(*Term))
		return SliceV{arr: g.m.newArr(types.Typ[types.Uint8], n), n: n, c: n}
	}

	// errors and fmt -----------------------------------------------------------------------
	I["errors.Is"] = func(g *G, cf *cfunc, a []Value) Value {
		return g.m.tf.Bool(g.m.errorsIs(g, a[0].(Iface), a[1].(Iface)))
	}
	I["errors.As"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.errorsAs(g, a[0].(Iface), a[1].(Iface)) }
	args := func(m *Machine, v Value) []Iface {
		s := v.(SliceV)
		out := make([]Iface, s.n)
		for i := range out {
			out[i] = s.arr.cells[s.off+i].v.(Iface)
		}
		return out
	}
	I["fmt.Sprintf"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.sprintf(g, a[0].(Str), args(g.m, a[1])) }
	I["fmt.Sprint"] = func(g *G, cf *cfunc, a []Value) Value {
		s := Str{}
		for _, x := range args(g.m, a[0]) {
			s = g.m.strCat(s, g.m.format(g, 'v', x))
		}
		return s
	}
	sprintln := func(g *G, v Value) Str {
		s := Str{}
		for i, x := range args(g.m, v) {
			if i > 0 {
				s = g.m.strCat(s, Str{s: " "})
			}
			s = g.m.strCat(s, g.m.format(g, 'v', x))
		}
		return g.m.strCat(s, Str{s: "\n"})
	}
	I["fmt.Sprintln"] = func(g *G, cf *cfunc, a []Value) Value { return sprintln(g, a[0]) }
	wr := func(g *G, w Iface, s Str) Value {
		m := g.m
		if w.t == nil {
			m.targetPanicStr("invalid memory address or nil pointer dereference")
		}
		return m.callFn(g, m.findMethod(w.t, "Write"), []Value{w.v, m.mkBytes(m.strTerms(s))}, nil)
	}
	I["fmt.Fprintf"] = func(g *G, cf *cfunc, a []Value) Value {
		return wr(g, a[0].(Iface), g.m.sprintf(g, a[1].(Str), args(g.m, a[2])))
	}
	I["fmt.Fprintln"] = func(g *G, cf *cfunc, a []Value) Value { return wr(g, a[0].(Iface), sprintln(g, a[1])) }
	I["fmt.Fprint"] = func(g *G, cf *cfunc, a []Value) Value {
		s := Str{}
		for _, x := range args(g.m, a[1]) {
			s = g.m.strCat(s, g.m.format(g, 'v', x))
		}
		return wr(g, a[0].(Iface), s)
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		I["fmt."+n] = func(g *G, cf *cfunc, a []Value) Value { return Tuple{g.m.i64(0), Iface{}} }
		I["log."+n] = ret(nil)
	}
	I["fmt.Errorf"] = func(g *G, cf *cfunc, a []Value) Value {
		m := g.m
		f := m.concStr(a[0].(Str))
		as := args(m, a[1])
		s := m.sprintf(g, Str{s: strings.ReplaceAll(f, "%w", "%v")}, as)
		fp := m.eng.prog.ImportedPackage("fmt").Pkg.Scope()
		if k := strings.Index(f, "%w"); k >= 0 {
			n := 0
			for i := 0; i < k; i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					n++
				}
			}
			t := fp.Lookup("wrapError").Type()
			c := m.newCell(t)
			c.kids[0].v = s
			if n < len(as) {
				c.kids[1].v = as[n]
			}
			return Iface{types.NewPointer(t), c}
		}
		t := m.eng.prog.ImportedPackage("errors").Pkg.Scope().Lookup("errorString").Type()
		c := m.newCell(t)
		c.kids[0].v = s
		return Iface{m.eng.ptrTo(t), c}
	}

	// misc ------------------------------------------------------------------------------------
	I["github.com/google/uuid.NewString"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.uuidN++
		return Str{s: fmt.Sprintf("00000000-0000-4000-8000-%012d", g.m.uuidN)}
	}
	I["github.com/google/uuid.NewRandom"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.uuidN++
		arr := make(ArrayV, 16)
		for i := range arr {
			arr[i] = g.m.tf.bytesC[0]
		}
		arr[6] = g.m.tf.bytesC[0x40]
		arr[8] = g.m.tf.bytesC[0x80]
		arr[15] = g.m.tf.Const(uint64(g.m.uuidN), 8)
		arr[14] = g.m.tf.Const(uint64(g.m.uuidN>>8), 8)
		return Tuple{arr, Iface{}}
	}
	I["github.com/google/uuid.New"] = func(g *G, cf *cfunc, a []Value) Value {
		return intrinsics["github.com/google/uuid.NewRandom"](g, cf, a).(Tuple)[0]
	}
	I["(*os.File).Write"] = func(g *G, cf *cfunc, a []Value) Value {
		return Tuple{g.m.i64(int64(a[1].(SliceV).n)), Iface{}}
	}
	I["os.Getenv"] = ret(Str{})
	I["internal/godebug.New"] = func(g *G, cf *cfunc, a []Value) Value {
		return g.m.newCell(cf.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
	}
	I["(*internal/godebug.Setting).Value"] = ret(Str{})
	I["(*internal/godebug.Setting).IncNonDefault"] = ret(nil)
	I["internal/race.Acquire"] = ret(nil)
	// randomness: 32-bit values are unconstrained, longer byte strings (handshake nonces) are a counter
	r32 := func(g *G, cf *cfunc, a []Value) Value { return g.m.fresh("env/rand", "int", 32) }
	I["math/rand.Uint32"], I["math/rand/v2.Uint32"] = r32, r32
	I["math/rand.runtime_rand"] = func(g *G, cf *cfunc, a []Value) Value {
		g.m.uuidN++
		return g.m.tf.Const(uint64(g.m.uuidN)*0x9e3779b97f4a7c15, 64)
	}
	fill := func(k int) intrFn {
		return func(g *G, cf *cfunc, a []Value) Value {
			s := a[k].(SliceV)
			g.m.uuidN++
			for i := 0; i < s.n; i++ {
				g.m.store(s.arr.cells[s.off+i], g.m.tf.Const(uint64(g.m.uuidN*7+i), 8))
			}
			return Tuple{g.m.i64(int64(s.n)), Iface{}}
		}
	}
	I["math/rand.Read"], I["crypto/rand.Read"], I["(*crypto/rand.reader).Read"] = fill(0), fill(0), fill(1)
	I["(crypto/internal/rand.reader).Read"], I["(*crypto/internal/rand.reader).Read"] = fill(1), fill(1)
	I["crypto/internal/boring/sig.StandardCrypto"], I["crypto/internal/boring/sig.BoringCrypto"] = ret(nil), ret(nil)
	I["math.Float64bits"] = func(g *G, cf *cfunc, a []Value) Value { g.m.unsupported("Float64bits"); return nil }
	reflectIntrinsics(I)
}

func (m *Machine) obsPart(v Iface) obsPart {
	switch x := v.v.(type) {
	case Str:
		if x.sym != nil {
			return obsPart{t: x.sym}
		}
		return obsPart{s: x.s}
	case *Term:
		return obsPart{i: x}
	case SliceV:
		if v.t != nil && isByteSlice(v.t) {
			ts := m.bytesOf(x)
			if len(ts) == 0 {
				return obsPart{}
			}
			return obsPart{t: ts}
		}
	}
	if v.t == nil {
		return obsPart{s: "<nil>"}
	}
	m.unsupported("Observe of %s", v.t)
	return obsPart{}
}

// errors -------------------------------------------------------------------------

func (m *Machine) unwrap(g *G, e Iface) (Iface, bool) {
	fn := m.findMethod(e.t, "Unwrap")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return Iface{}, false
	}
	r, ok := m.callFn(g, fn, []Value{e.v}, nil).(Iface)
	return r, ok
}

func (m *Machine) errorsIs(g *G, e, t Iface) bool {
	if e.t == nil || t.t == nil {
		return e.t == nil && t.t == nil
	}
	cmp := types.Comparable(t.t)
	for e.t != nil {
		if cmp && types.Identical(e.t, t.t) && m.decide(m.equal(e.t, e.v, t.v)) {
			return true
		}
		if fn := m.findMethod(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
			if m.decide(m.callFn(g, fn, []Value{e.v, t}, nil).(*Term)) {
				return true
			}
		}
		n, ok := m.unwrap(g, e)
		if !ok {
			return false
		}
		e = n
	}
	return false
}

func (m *Machine) errorsAs(g *G, e, target Iface) Value {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.unsupported("errors.As target")
	}
	et := pt.Elem()
	_, isI := et.Underlying().(*types.Interface)
	for e.t != nil {
		if isI && m.implements(e.t, et) {
			m.store(target.v.(*Cell), e)
			return m.tf.tru
		}
		if !isI && types.Identical(e.t, et) {
			m.store(target.v.(*Cell), e.v)
			return m.tf.tru
		}
		if fn := m.findMethod(e.t, "As"); fn != nil {
			if m.decide(m.callFn(g, fn, []Value{e.v, target}, nil).(*Term)) {
				return m.tf.tru
			}
		}
		n, ok := m.unwrap(g, e)
		if !ok {
			break
		}
		e = n
	}
	return m.tf.fls
}

// formatting -----------------------------------------------------------------------

func (m *Machine) sprintf(g *G, f Str, as []Iface) Str {
	fs := m.concStr(f)
	out := Str{}
	k := 0
	lit := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		out = m.strCat(out, Str{s: fs[lit:i]})
		i++
		for i < len(fs) && strings.IndexByte("+#- 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			lit = i
			break
		}
		lit = i + 1
		if fs[i] == '%' {
			out = m.strCat(out, Str{s: "%"})
			continue
		}
		if k >= len(as) {
			out = m.strCat(out, Str{s: "%!" + string(fs[i]) + "(MISSING)"})
			continue
		}
		out = m.strCat(out, m.format(g, fs[i], as[k]))
		k++
	}
	if lit < len(fs) {
		out = m.strCat(out, Str{s: fs[lit:]})
	}
	return out
}

func (m *Machine) format(g *G, verb byte, v Iface) Str {
	if verb == 'T' {
		return Str{s: types.TypeString(v.t, func(p *types.Package) string { return p.Name() })}
	}
	if v.t == nil {
		return Str{s: "<nil>"}
	}
	if verb == 'p' {
		if c, ok := v.v.(*Cell); ok && c != nil {
			return Str{s: "0x" + strconv.FormatUint(m.addrOf(c), 16)}
		}
		return Str{s: "0x0"}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, n := range []string{"Error", "String"} {
			if fn := m.findMethod(v.t, n); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if c, ok := v.v.(*Cell); ok && c == nil {
					return Str{s: "<nil>"}
				}
				r := m.callFn(g, fn, []Value{v.v}, nil).(Str)
				if verb == 'q' {
					return Str{s: strconv.Quote(m.concStr(r))}
				}
				return r
			}
		}
	}
	switch x := v.v.(type) {
	case Str:
		switch verb {
		case 'q':
			return Str{s: strconv.Quote(m.concStr(x))}
		case 'x':
			return Str{s: fmt.Sprintf("%x", m.concStr(x))}
		}
		return x
	case *Term:
		if x.w == 0 {
			return Str{s: strconv.FormatBool(m.decide(x))}
		}
		_, signed, _ := intInfo(v.t)
		n := m.concInt(x)
		switch verb {
		case 'x':
			return Str{s: strconv.FormatInt(int64(n), 16)}
		case 'c':
			return Str{s: string(rune(n))}
		}
		if signed {
			return Str{s: strconv.Itoa(n)}
		}
		return Str{s: strconv.FormatUint(uint64(n)&mask(x.w), 10)}
	case SliceV:
		if isByteSlice(v.t) && verb == 's' {
			return mkStr(m.bytesOf(x))
		}
		out := Str{s: "["}
		et := v.t.Underlying().(*types.Slice).Elem()
		for i := 0; i < x.n; i++ {
			if i > 0 {
				out = m.strCat(out, Str{s: " "})
			}
			el := m.load(x.arr.cells[x.off+i], et)
			if ie, ok := el.(Iface); ok {
				out = m.strCat(out, m.format(g, verb, ie))
			} else {
				out = m.strCat(out, m.format(g, verb, Iface{et, el}))
			}
		}
		return m.strCat(out, Str{s: "]"})
	case float64:
		return Str{s: strconv.FormatFloat(x, 'g', -1, 64)}
	}
	return Str{s: "%!" + string(verb) + "(" + v.t.String() + ")"}
}
