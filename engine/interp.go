package main

// Symbolic interpreter of go/ssa. Every function is compiled, per worker, to
// closures over register frames; branches on symbolic terms go through
// Machine.decide, which consults the SMT solver.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// signals -----------------------------------------------------------------

type targetPanic struct{ v Iface } // a Go panic of the program under test
type abortSig struct {
	kind   string // "unsupported", "infeasible", "steps", "done", "unknown"
	reason string
}
type killSig struct{}

func (m *Machine) unsupported(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if os.Getenv("VERIF_DEBUG") != "" && m.cur != nil {
		msg += " @ " + m.cur.trace()
	} else if m.cur != nil {
		msg += " @ " + m.cur.where()
	}
	panic(abortSig{"unsupported", msg})
}

func (m *Machine) targetPanicStr(msg string) {
	msg = strings.TrimPrefix(msg, "runtime error: ")
	if os.Getenv("VERIF_DEBUG") != "" && m.cur != nil {
		fmt.Println("   panic:", msg, "@", m.cur.trace())
	}
	t := m.eng.runtimeErrT
	if t == nil {
		panic(targetPanic{Iface{types.Typ[types.String], Str{s: "runtime error: " + msg}}})
	}
	panic(targetPanic{Iface{t, Str{s: msg}}})
}

type opnd struct {
	slot int
	c    Value
}

func (o opnd) get(fr *Frame) Value {
	if o.slot >= 0 {
		return fr.r[o.slot]
	}
	return o.c
}

type cins func(fr *Frame)

type phiC struct {
	dst  int
	from []opnd // by predecessor index
}

type cblock struct {
	phis  []phiC
	ins   []cins
	kind  uint8 // 0 jump, 1 if, 2 return, 3 panic
	cond  opnd
	succ  [2]int
	sucP  [2]int // index of this block in the successor's Preds
	rets  []opnd
	instr ssa.Instruction
}

type cfunc struct {
	fn       *ssa.Function
	slots    map[ssa.Value]int
	nslots   int
	blocks   []cblock
	compiled bool
	hasDefer bool
	recover  int
	intr     func(g *G, cf *cfunc, args []Value) Value
	inRepo   bool
	user     bool // a user's code whose accesses count for races
	lib      bool // a library's code, on behalf of its caller
}

type deferRec struct {
	fn   *Closure
	args []Value
	next *deferRec
}

type Frame struct {
	cf        *cfunc
	r         []Value
	g         *G
	caller    *Frame
	defers    *deferRec
	panicking bool
	pv        targetPanic
	res       Value
	deferOf   *Frame // frame whose defers we are run from
	rec       bool   // its accesses count for races
	pos       token.Pos
}

func (g *G) where() string {
	if g.fr == nil {
		return "?"
	}
	return fmt.Sprintf("%s (%s)", g.fr.cf.fn, g.m.eng.fset.Position(g.fr.pos))
}

func (g *G) trace() string {
	var sb strings.Builder
	for f := g.fr; f != nil; f = f.caller {
		fmt.Fprintf(&sb, "%s (%s) <- ", f.cf.fn, g.m.eng.fset.Position(f.pos))
	}
	return sb.String()
}

// functions -----------------------------------------------------------------

func (m *Machine) fnOf(fn *ssa.Function) *cfunc {
	cf := m.funcs[fn]
	if cf == nil {
		cf = &cfunc{fn: fn, recover: -1}
		m.funcs[fn] = cf
		name := fn.String()
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		if h, ok := intrinsics[name]; ok {
			cf.intr = h
		} else if fn.Pkg != nil || fn.Origin() != nil {
			p := fn.Pkg
			if p == nil {
				p = fn.Origin().Pkg
			}
			if p != nil {
				if h := pkgIntrinsic(p.Pkg.Path(), fn); h != nil {
					cf.intr = h
				}
			}
		}
		if fn.Pkg != nil {
			cf.inRepo = strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/verifh")
		} else if fn.Parent() == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
			cf.inRepo = strings.HasPrefix(fn.Object().Pkg().Path(), modPath) && !strings.HasPrefix(fn.Object().Pkg().Path(), modPath+"/verifh")
		}
		cf.user = strings.Contains(fn.String(), "/verifh/c34.sock)")
		if !cf.inRepo && fn.Pkg != nil {
			pp := fn.Pkg.Pkg.Path()
			cf.lib = !strings.HasPrefix(pp, modPath) && pp != "sync" && pp != "sync/atomic" && !strings.HasPrefix(pp, "internal/") && !strings.HasPrefix(pp, "runtime")
		}
	}
	return cf
}

func (m *Machine) callFn(g *G, fn *ssa.Function, args []Value, env []Value) Value {
	return m.exec(g, m.fnOf(fn), args, env, nil)
}

func (m *Machine) callClosure(g *G, c *Closure, args []Value) Value {
	return m.callClosureD(g, c, args, nil)
}

func (m *Machine) callClosureD(g *G, c *Closure, args []Value, deferOf *Frame) Value {
	if c == nil {
		m.targetPanicStr("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(g, args)
	}
	if c.bi != nil {
		var ts []types.Type
		for _, v := range c.env {
			ts = append(ts, v.(types.Type))
		}
		return m.builtin(g.fr, c.bi.Name(), args, ts, nil, deferOf)
	}
	return m.exec(g, m.fnOf(c.fn), args, c.env, deferOf)
}

func (m *Machine) exec(g *G, cf *cfunc, args []Value, env []Value, deferOf *Frame) Value {
	if cf.intr != nil {
		return cf.intr(g, cf, args)
	}
	if !cf.compiled {
		m.compile(cf)
	}
	if cf.inRepo {
		m.touched[cf.fn] = true
	}
	fr := &Frame{cf: cf, r: make([]Value, cf.nslots), g: g, caller: g.fr, deferOf: deferOf}
	if m.race {
		fr.rec = cf.inRepo || cf.user || cf.lib && g.fr != nil && g.fr.rec
	}
	n := copy(fr.r, args)
	copy(fr.r[n:], env)
	g.depth++
	if g.depth > 3000 {
		panic(abortSig{"unsupported", "call depth"})
	}
	g.fr = fr
	if !cf.hasDefer {
		m.run(fr, 0, 0)
	} else {
		m.runD(fr)
	}
	g.fr = fr.caller
	g.depth--
	return fr.res
}

// runD runs a function with deferred calls.
func (m *Machine) runD(fr *Frame) {
	depth := fr.g.depth
	ok := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.pv = tp
			fr.g.fr = fr
			fr.g.depth = depth
		}()
		m.run(fr, 0, 0)
		return true
	}()
	if ok {
		return
	}
	m.runDefers(fr) // re-panics if not recovered
	if fr.cf.recover >= 0 {
		m.run(fr, fr.cf.recover, 0)
	} else {
		fr.res = m.zeroResult(fr.cf.fn)
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(rs.At(0).Type())
	}
	return m.zero(rs)
}

func (m *Machine) runDefers(fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		depth := fr.g.depth
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				fr.panicking = true
				fr.pv = tp
				fr.g.fr = fr
				fr.g.depth = depth
			}()
			m.callClosureD(fr.g, d.fn, d.args, fr)
			ok = true
		}()
	}
	if fr.panicking {
		fr.g.fr = fr.caller
		fr.g.depth--
		panic(fr.pv)
	}
}

func (m *Machine) run(fr *Frame, b int, pred int) {
	cf := fr.cf
	g := fr.g
	for {
		blk := &cf.blocks[b]
		if len(blk.phis) > 0 {
			if len(blk.phis) == 1 {
				fr.r[blk.phis[0].dst] = blk.phis[0].from[pred].get(fr)
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range blk.phis {
					vals = append(vals, blk.phis[i].from[pred].get(fr))
				}
				for i := range blk.phis {
					fr.r[blk.phis[i].dst] = vals[i]
				}
			}
		}
		g.m.steps += len(blk.ins) + 1
		if g.m.steps > g.m.maxSteps {
			panic(abortSig{"steps", "step limit at " + g.where()})
		}
		for _, in := range blk.ins {
			in(fr)
		}
		switch blk.kind {
		case 0:
			pred = blk.sucP[0]
			b = blk.succ[0]
		case 1:
			c := blk.cond.get(fr).(*Term)
			fr.pos = blk.instr.Pos()
			if m.decide(c) {
				pred, b = blk.sucP[0], blk.succ[0]
			} else {
				pred, b = blk.sucP[1], blk.succ[1]
			}
		case 2:
			switch len(blk.rets) {
			case 0:
			case 1:
				fr.res = blk.rets[0].get(fr)
			default:
				t := make(Tuple, len(blk.rets))
				for i := range t {
					t[i] = blk.rets[i].get(fr)
				}
				fr.res = t
			}
			return
		case 3:
			fr.pos = blk.instr.Pos()
			v := blk.cond.get(fr).(Iface)
			if v.t == nil {
				m.targetPanicStr("panic called with nil argument")
			}
			panic(targetPanic{v})
		}
	}
}

// globals and package initialisation ------------------------------------------

func (m *Machine) global(gl *ssa.Global) *Cell {
	c := m.globals[gl]
	if c == nil {
		sv := m.epoch
		m.epoch = 0
		c = m.newCell(gl.Type().(*types.Pointer).Elem())
		m.epoch = sv
		m.globals[gl] = c
	}
	return c
}

func (m *Machine) initPkg(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	if skipInit(p.Pkg.Path()) {
		return
	}
	p.Build()
	fn := p.Func("init")
	if fn == nil {
		return
	}
	sv, svs, svg := m.epoch, m.steps, m.cur
	svmax := m.maxSteps
	m.epoch = 0
	m.maxSteps = 1 << 60
	m.inInit++
	g := &G{m: m, name: "init", id: -1}
	m.cur = g
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killSig); ok {
					panic(r)
				}
				msg := fmt.Sprint(r)
				if a, ok := r.(abortSig); ok {
					msg = a.reason
				}
				if tp, ok := r.(targetPanic); ok {
					msg = "panic " + m.describe(tp.v)
				}
				m.eng.notePartial(p.Pkg.Path(), msg)
			}
		}()
		m.exec(g, m.fnOf(fn), nil, nil, nil)
	}()
	m.inInit--
	m.maxSteps = svmax
	m.epoch, m.steps, m.cur = sv, svs, svg
}

// compile -----------------------------------------------------------------------

func (m *Machine) compile(cf *cfunc) {
	fn := cf.fn
	// always: another worker may be building it right now
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		m.unsupported("external function %s", fn)
	}
	cf.slots = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		cf.slots[v] = cf.nslots
		cf.nslots++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "ssa:deferstack" {
					cf.hasDefer = true
				}
			}
		}
	}
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	cf.compiled = true
	isInit := fn.Pkg != nil && fn == fn.Pkg.Func("init")
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, in := range b.Instrs {
			m.compileInstr(cf, b, cb, in, isInit)
		}
	}
}

func predIndex(b, s *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range s.Preds {
		if p == b {
			if k == nth {
				return i
			}
			k++
		}
	}
	return 0
}

func (m *Machine) op(cf *cfunc, v ssa.Value) opnd {
	if s, ok := cf.slots[v]; ok {
		return opnd{slot: s}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, c: m.constVal(x)}
	case *ssa.Global:
		if x.Pkg != nil && m.inited[x.Pkg] == 0 {
			m.initPkg(x.Pkg)
		}
		return opnd{slot: -1, c: m.global(x)}
	case *ssa.Function:
		return opnd{slot: -1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{slot: -1, c: &Closure{bi: x}}
	}
	m.unsupported("operand %T", v)
	return opnd{}
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return m.tf.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				return m.tf.Const(uint64(c.Int64()), w)
			}
			return m.tf.Const(c.Uint64(), w)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			return Str{s: string(rune(c.Int64()))}
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Kind() == types.UnsafePointer:
			return UnsafeP{}
		}
	}
	m.unsupported("constant %s", c)
	return nil
}

func (m *Machine) compileInstr(cf *cfunc, b *ssa.BasicBlock, cb *cblock, in ssa.Instruction, isInit bool) {
	o := func(v ssa.Value) opnd { return m.op(cf, v) }
	emit := func(f cins) { cb.ins = append(cb.ins, f) }
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cf.slots[v]
	}
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		p := phiC{dst: dst}
		for _, e := range x.Edges {
			p.from = append(p.from, o(e))
		}
		cb.phis = append(cb.phis, p)
	case *ssa.Jump:
		cb.kind = 0
		cb.succ[0] = b.Succs[0].Index
		cb.sucP[0] = predIndex(b, b.Succs[0], 0)
	case *ssa.If:
		cb.kind = 1
		cb.cond = o(x.Cond)
		cb.instr = in
		cb.succ[0], cb.succ[1] = b.Succs[0].Index, b.Succs[1].Index
		cb.sucP[0] = predIndex(b, b.Succs[0], 0)
		nth := 0
		if b.Succs[0] == b.Succs[1] {
			nth = 1
		}
		cb.sucP[1] = predIndex(b, b.Succs[1], nth)
	case *ssa.Return:
		cb.kind = 2
		cb.instr = in
		for _, r := range x.Results {
			cb.rets = append(cb.rets, o(r))
		}
	case *ssa.Panic:
		cb.kind = 3
		cb.cond = o(x.X)
		cb.instr = in
	case *ssa.RunDefers:
		emit(func(fr *Frame) { m.runDefers(fr) })
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		emit(func(fr *Frame) { fr.r[dst] = m.newCell(t) })
	case *ssa.BinOp:
		a, c := o(x.X), o(x.Y)
		op, xt, yt := x.Op, x.X.Type(), x.Y.Type()
		if w, signed, ok := intInfo(xt); ok {
			f := m.intBinop(op, w, signed, yt)
			if f != nil {
				emit(func(fr *Frame) {
					fr.pos = pos
					fr.r[dst] = f(a.get(fr).(*Term), c.get(fr).(*Term))
				})
				break
			}
		}
		emit(func(fr *Frame) {
			fr.pos = pos
			fr.r[dst] = m.binop(op, xt, a.get(fr), c.get(fr))
		})
	case *ssa.UnOp:
		a := o(x.X)
		switch x.Op {
		case token.MUL:
			t := x.Type()
			emit(func(fr *Frame) {
				fr.pos = pos
				switch c := a.get(fr).(type) {
				case *Cell:
					if c == nil {
						m.targetPanicStr("invalid memory address or nil pointer dereference")
					}
					if m.race && fr.rec {
						m.raceCell(fr, c, false)
					}
					fr.r[dst] = m.load(c, t)
				case *SymPtr:
					fr.r[dst] = m.loadSym(c, t)
				default:
					m.unsupported("load through %T", c)
				}
			})
		case token.NOT:
			emit(func(fr *Frame) { fr.r[dst] = m.tf.Not(a.get(fr).(*Term)) })
		case token.SUB:
			emit(func(fr *Frame) {
				switch v := a.get(fr).(type) {
				case *Term:
					fr.r[dst] = m.tf.Neg(v)
				case float64:
					fr.r[dst] = -v
				default:
					m.unsupported("neg %T", v)
				}
			})
		case token.XOR:
			emit(func(fr *Frame) { fr.r[dst] = m.tf.BvNot(a.get(fr).(*Term)) })
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			emit(func(fr *Frame) {
				fr.pos = pos
				v, ok := m.chanRecv(fr.g, a.get(fr).(*ChanObj))
				if !ok {
					v = m.zero(et)
				}
				if commaOk {
					fr.r[dst] = Tuple{v, m.tf.Bool(ok)}
				} else {
					fr.r[dst] = v
				}
			})
		default:
			m.unsupported("unop %s", x.Op)
		}
	case *ssa.Store:
		a, v := o(x.Addr), o(x.Val)
		emit(func(fr *Frame) {
			fr.pos = pos
			switch c := a.get(fr).(type) {
			case *Cell:
				if c == nil {
					m.targetPanicStr("invalid memory address or nil pointer dereference")
				}
				if m.race && fr.rec {
					m.raceCell(fr, c, true)
				}
				m.store(c, v.get(fr))
			case *SymPtr:
				m.store(m.concretePtr(c), v.get(fr))
			default:
				m.unsupported("store through %T", c)
			}
		})
	case *ssa.FieldAddr:
		a := o(x.X)
		f := x.Field
		emit(func(fr *Frame) {
			fr.pos = pos
			c, ok := a.get(fr).(*Cell)
			if !ok {
				if sp, ok := a.get(fr).(*SymPtr); ok {
					c = m.concretePtr(sp)
				} else {
					m.unsupported("field address of %T", a.get(fr))
				}
			}
			if c == nil {
				m.targetPanicStr("invalid memory address or nil pointer dereference")
			}
			if f >= len(c.kids) {
				m.unsupported("field address in reinterpreted memory")
			}
			fr.r[dst] = c.kids[f]
		})
	case *ssa.Field:
		a := o(x.X)
		f := x.Field
		emit(func(fr *Frame) { fr.r[dst] = a.get(fr).(StructV)[f] })
	case *ssa.IndexAddr:
		a, ix := o(x.X), o(x.Index)
		_, signed, _ := intInfo(x.Index.Type())
		emit(func(fr *Frame) {
			fr.pos = pos
			var arr *Arr
			var off, n int
			switch s := a.get(fr).(type) {
			case SliceV:
				arr, off, n = s.arr, s.off, s.n
			case *Cell:
				if s == nil {
					m.targetPanicStr("invalid memory address or nil pointer dereference")
				}
				arr, off, n = s.self, 0, len(s.kids)
				if s.self == nil {
					m.unsupported("array address in reinterpreted memory")
				}
			default:
				m.unsupported("index address of %T", s)
			}
			it := ix.get(fr).(*Term)
			if it.isConst() {
				i := int64(it.val)
				if signed {
					i = sext(it.val, it.w)
				}
				if i < 0 || i >= int64(n) {
					m.targetPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
				}
				fr.r[dst] = arr.cells[off+int(i)]
				return
			}
			it = m.tf.Resize(it, 64, signed)
			if !m.decide(m.tf.Ult(it, m.tf.Const(uint64(n), 64))) {
				m.targetPanicStr(fmt.Sprintf("index out of range [symbolic] with length %d", n))
			}
			fr.r[dst] = &SymPtr{arr: arr, off: off, n: n, idx: it}
		})
	case *ssa.Index:
		a, ix := o(x.X), o(x.Index)
		_, signed, _ := intInfo(x.Index.Type())
		emit(func(fr *Frame) {
			fr.pos = pos
			fr.r[dst] = m.indexVal(a.get(fr), ix.get(fr).(*Term), signed)
		})
	case *ssa.Lookup:
		a, ix := o(x.X), o(x.Index)
		commaOk := x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			kt, vt := mt.Key(), mt.Elem()
			emit(func(fr *Frame) {
				fr.pos = pos
				mo := a.get(fr).(*MapObj)
				if m.race && mo != nil && fr.rec {
					m.raceObj(fr, mo, false)
				}
				e := m.mapFind(mo, kt, ix.get(fr))
				var v Value
				if e != nil {
					v = e.v
				} else {
					v = m.zero(vt)
				}
				if commaOk {
					fr.r[dst] = Tuple{v, m.tf.Bool(e != nil)}
				} else {
					fr.r[dst] = v
				}
			})
		} else {
			_, signed, _ := intInfo(x.Index.Type())
			emit(func(fr *Frame) {
				fr.pos = pos
				fr.r[dst] = m.indexVal(a.get(fr), ix.get(fr).(*Term), signed)
			})
		}
	case *ssa.MapUpdate:
		a, k, v := o(x.Map), o(x.Key), o(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		emit(func(fr *Frame) {
			fr.pos = pos
			mo := a.get(fr).(*MapObj)
			if mo == nil {
				m.targetPanicStr("assignment to entry in nil map")
			}
			if m.race && fr.rec {
				m.raceObj(fr, mo, true)
			}
			m.mapSet(mo, kt, k.get(fr), v.get(fr))
		})
	case *ssa.MakeMap:
		emit(func(fr *Frame) { fr.r[dst] = m.newMap() })
	case *ssa.MakeChan:
		a := o(x.Size)
		emit(func(fr *Frame) { fr.r[dst] = m.newChan(m.concInt(a.get(fr).(*Term))) })
	case *ssa.MakeSlice:
		l, c := o(x.Len), o(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		emit(func(fr *Frame) {
			fr.pos = pos
			n := m.concInt(l.get(fr).(*Term))
			cp := m.concInt(c.get(fr).(*Term))
			if n < 0 || cp < n {
				m.targetPanicStr("makeslice: len out of range")
			}
			if cp > 1<<22 {
				m.unsupported("makeslice of %d", cp)
			}
			fr.r[dst] = SliceV{arr: m.newArr(et, cp), n: n, c: cp}
		})
	case *ssa.MakeClosure:
		var bs []opnd
		for _, v := range x.Bindings {
			bs = append(bs, o(v))
		}
		f := x.Fn.(*ssa.Function)
		emit(func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.r[dst] = &Closure{fn: f, env: env}
		})
	case *ssa.MakeInterface:
		a := o(x.X)
		t := x.X.Type()
		emit(func(fr *Frame) { fr.r[dst] = Iface{t, a.get(fr)} })
	case *ssa.ChangeInterface:
		a := o(x.X)
		emit(func(fr *Frame) { fr.r[dst] = a.get(fr) })
	case *ssa.ChangeType:
		a := o(x.X)
		emit(func(fr *Frame) { fr.r[dst] = a.get(fr) })
	case *ssa.Convert:
		a := o(x.X)
		from, to := x.X.Type(), x.Type()
		emit(func(fr *Frame) {
			fr.pos = pos
			v := a.get(fr)
			if m.race && fr.rec {
				if y, ok := v.(SliceV); ok {
					m.raceSlice(fr, y, 0, y.n, false)
				}
			}
			fr.r[dst] = m.convert(v, from, to)
		})
	case *ssa.MultiConvert:
		a := o(x.X)
		from, to := x.X.Type(), x.Type()
		emit(func(fr *Frame) { fr.r[dst] = m.convert(a.get(fr), from, to) })
	case *ssa.SliceToArrayPointer:
		a := o(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		emit(func(fr *Frame) {
			s := a.get(fr).(SliceV)
			if s.n < n {
				m.targetPanicStr("cannot convert slice to array: length mismatch")
			}
			if s.arr == nil {
				fr.r[dst] = (*Cell)(nil)
				return
			}
			c := &Cell{kids: s.arr.cells[s.off : s.off+n], self: &Arr{cells: s.arr.cells[s.off : s.off+n]}, epoch: m.epoch}
			fr.r[dst] = c
		})
	case *ssa.TypeAssert:
		a := o(x.X)
		t := x.AssertedType
		commaOk := x.CommaOk
		_, toIface := t.Underlying().(*types.Interface)
		emit(func(fr *Frame) {
			fr.pos = pos
			v := a.get(fr).(Iface)
			ok := v.t != nil
			if ok {
				if toIface {
					ok = m.implements(v.t, t)
				} else {
					ok = v.t == t || types.Identical(v.t, t)
				}
			}
			var r Value
			if ok {
				if toIface {
					r = v
				} else {
					r = v.v
				}
			} else {
				if !commaOk {
					m.targetPanicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, t))
				}
				r = m.zero(t)
			}
			if commaOk {
				fr.r[dst] = Tuple{r, m.tf.Bool(ok)}
			} else {
				fr.r[dst] = r
			}
		})
	case *ssa.Extract:
		a := o(x.Tuple)
		i := x.Index
		emit(func(fr *Frame) { fr.r[dst] = a.get(fr).(Tuple)[i] })
	case *ssa.Slice:
		a := o(x.X)
		var lo, hi, mx opnd
		hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
		if hasLo {
			lo = o(x.Low)
		}
		if hasHi {
			hi = o(x.High)
		}
		if hasMx {
			mx = o(x.Max)
		}
		emit(func(fr *Frame) {
			fr.pos = pos
			l, h, k := 0, -1, -1
			if hasLo {
				l = m.concInt(lo.get(fr).(*Term))
			}
			if hasHi {
				h = m.concInt(hi.get(fr).(*Term))
				if h < 0 {
					m.targetPanicStr(fmt.Sprintf("slice bounds out of range [:%d]", h))
				}
			}
			if hasMx {
				k = m.concInt(mx.get(fr).(*Term))
			}
			fr.r[dst] = m.slice(a.get(fr), l, h, k)
		})
	case *ssa.Range:
		a := o(x.X)
		emit(func(fr *Frame) {
			fr.pos = pos
			v := a.get(fr)
			if mo, ok := v.(*MapObj); ok && mo != nil && m.race && fr.rec {
				m.raceObj(fr, mo, false)
			}
			fr.r[dst] = m.newIter(v)
		})
	case *ssa.Next:
		a := o(x.Iter)
		tt := x.Type().(*types.Tuple)
		emit(func(fr *Frame) {
			fr.pos = pos
			it := a.get(fr).(*iterator)
			if it.mo != nil && m.race && fr.rec {
				m.raceObj(fr, it.mo, false)
			}
			fr.r[dst] = m.iterNext(fr.g, it, tt)
		})
	case *ssa.Send:
		c, v := o(x.Chan), o(x.X)
		emit(func(fr *Frame) {
			fr.pos = pos
			m.chanSend(fr.g, c.get(fr).(*ChanObj), v.get(fr))
		})
	case *ssa.Select:
		type st struct {
			dir types.ChanDir
			ch  opnd
			v   opnd
			et  types.Type
		}
		var sts []st
		for _, s := range x.States {
			e := st{dir: s.Dir, ch: o(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.Send != nil {
				e.v = o(s.Send)
			}
			sts = append(sts, e)
		}
		blocking := x.Blocking
		emit(func(fr *Frame) {
			fr.pos = pos
			cs := make([]selCase, len(sts))
			for i, s := range sts {
				cs[i].ch = s.ch.get(fr).(*ChanObj)
				if s.dir == types.SendOnly {
					cs[i].send = true
					cs[i].v = s.v.get(fr)
				}
			}
			idx, v, ok := m.doSelect(fr.g, cs, blocking)
			r := Tuple{m.tf.Const(uint64(idx), 64), m.tf.Bool(ok)}
			for i, s := range sts {
				if s.dir == types.RecvOnly {
					if i == idx && ok {
						r = append(r, v)
					} else {
						r = append(r, m.zero(s.et))
					}
				}
			}
			fr.r[dst] = r
		})
	case *ssa.Call:
		f := m.compileCall(cf, x.Common(), isInit)
		emit(func(fr *Frame) {
			fr.pos = pos
			fr.r[dst] = f(fr)
		})
	case *ssa.Go:
		fa := m.compileCallee(cf, x.Common())
		emit(func(fr *Frame) {
			fr.pos = pos
			c, args := fa(fr)
			m.spawn(fr.g, c, args, false)
		})
	case *ssa.Defer:
		fa := m.compileCallee(cf, x.Common())
		var ds opnd
		has := x.DeferStack != nil
		if has {
			ds = o(x.DeferStack)
		}
		emit(func(fr *Frame) {
			c, args := fa(fr)
			tgt := fr
			if has {
				tgt = ds.get(fr).(*Frame)
			}
			tgt.defers = &deferRec{fn: c, args: args, next: tgt.defers}
		})
	default:
		m.unsupported("instruction %T", in)
	}
}

// compileCallee evaluates callee and arguments without calling (go, defer).
func (m *Machine) compileCallee(cf *cfunc, c *ssa.CallCommon) func(fr *Frame) (*Closure, []Value) {
	var as []opnd
	for _, a := range c.Args {
		as = append(as, m.op(cf, a))
	}
	v := m.op(cf, c.Value)
	if c.IsInvoke() {
		meth := c.Method
		return func(fr *Frame) (*Closure, []Value) {
			rv := v.get(fr).(Iface)
			if rv.t == nil {
				m.targetPanicStr("invalid memory address or nil pointer dereference")
			}
			fn := m.lookupMethod(rv.t, meth)
			args := make([]Value, 0, len(as)+1)
			args = append(args, rv.v)
			for _, a := range as {
				args = append(args, a.get(fr))
			}
			return &Closure{fn: fn}, args
		}
	}
	var argT []types.Type
	for _, a := range c.Args {
		argT = append(argT, a.Type())
	}
	return func(fr *Frame) (*Closure, []Value) {
		args := make([]Value, len(as))
		for i, a := range as {
			args[i] = a.get(fr)
		}
		cl := v.get(fr).(*Closure)
		if cl != nil && cl.bi != nil {
			env := make([]Value, len(argT))
			for i, t := range argT {
				env[i] = t
			}
			cl = &Closure{bi: cl.bi, env: env}
		}
		return cl, args
	}
}

func (m *Machine) compileCall(cf *cfunc, c *ssa.CallCommon, isInit bool) func(fr *Frame) Value {
	var as []opnd
	for _, a := range c.Args {
		as = append(as, m.op(cf, a))
	}
	getArgs := func(fr *Frame) []Value {
		args := make([]Value, len(as))
		for i := range as {
			args[i] = as[i].get(fr)
		}
		return args
	}
	if c.IsInvoke() {
		v := m.op(cf, c.Value)
		meth := c.Method
		return func(fr *Frame) Value {
			rv := v.get(fr).(Iface)
			if rv.t == nil {
				m.targetPanicStr("invalid memory address or nil pointer dereference")
			}
			fn := m.lookupMethod(rv.t, meth)
			args := make([]Value, 0, len(as)+1)
			args = append(args, rv.v)
			for i := range as {
				args = append(args, as[i].get(fr))
			}
			return m.exec(fr.g, m.fnOf(fn), args, nil, nil)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		name := f.Name()
		var argT []types.Type
		for _, a := range c.Args {
			argT = append(argT, a.Type())
		}
		rt := c.Signature().Results()
		return func(fr *Frame) Value { return m.builtin(fr, name, getArgs(fr), argT, rt, nil) }
	case *ssa.Function:
		if isInit && f.Name() == "init" && f.Pkg != nil && cf.fn.Pkg != f.Pkg {
			return func(fr *Frame) Value { return nil } // dependencies are initialised lazily
		}
		callee := m.fnOf(f)
		return func(fr *Frame) Value {
			if callee.intr != nil {
				return callee.intr(fr.g, callee, getArgs(fr))
			}
			if !callee.compiled {
				m.compile(callee)
			}
			return m.exec(fr.g, callee, getArgs(fr), nil, nil)
		}
	}
	v := m.op(cf, c.Value)
	return func(fr *Frame) Value {
		cl := v.get(fr).(*Closure)
		return m.callClosure(fr.g, cl, getArgs(fr))
	}
}

type methKey struct {
	t types.Type
	f *types.Func
}

func (m *Machine) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	k := methKey{t, f}
	if fn, ok := m.methods[k]; ok {
		return fn
	}
	fn := m.eng.prog.LookupMethod(t, f.Pkg(), f.Name())
	if fn == nil {
		m.unsupported("method %s of %s", f.Name(), t)
	}
	m.methods[k] = fn
	return fn
}

type implKey struct{ t, i types.Type }

func (m *Machine) implements(t, i types.Type) bool {
	k := implKey{t, i}
	if r, ok := m.impls[k]; ok {
		return r
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	m.impls[k] = r
	return r
}

// findMethod returns the method of the dynamic type by name, or nil.
func (m *Machine) findMethod(t types.Type, name string) *ssa.Function {
	ms := m.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			return m.eng.prog.MethodValue(s)
		}
	}
	return nil
}

// symbolic pointers ------------------------------------------------------------

type SymPtr struct {
	arr    *Arr
	off, n int
	idx    *Term
}

func (m *Machine) loadSym(p *SymPtr, t types.Type) Value {
	if p.n <= 256 && p.n > 0 {
		if _, ok := p.arr.cells[p.off].v.(*Term); ok && p.arr.cells[p.off].kids == nil {
			r := m.load(p.arr.cells[p.off+p.n-1], t).(*Term)
			for i := p.n - 2; i >= 0; i-- {
				r = m.tf.Ite(m.tf.Eq(p.idx, m.tf.Const(uint64(i), 64)), m.load(p.arr.cells[p.off+i], t).(*Term), r)
			}
			return r
		}
	}
	return m.load(m.concretePtr(p), t)
}

func (m *Machine) concretePtr(p *SymPtr) *Cell {
	i := m.concInt(p.idx)
	return p.arr.cells[p.off+i]
}

// concInt turns a term into a concrete int by case-splitting with the solver.
func (m *Machine) concInt(t *Term) int {
	if t.isConst() {
		return int(sext(t.val, t.w))
	}
	for k := 0; k < 4096; k++ {
		v := m.tf.Eval(t, m.model)
		if j := len(m.vals); j < len(m.prefixVals) {
			v = m.prefixVals[j]
		}
		m.vals = append(m.vals, v)
		if m.decide(m.tf.Eq(t, m.tf.Const(v, t.w))) {
			return int(sext(v, t.w))
		}
	}
	m.unsupported("too many values to concretise")
	return 0
}

func (m *Machine) indexVal(a Value, it *Term, signed bool) Value {
	var n int
	switch s := a.(type) {
	case Str:
		n = s.Len()
	case ArrayV:
		n = len(s)
	default:
		m.unsupported("index of %T", a)
	}
	if it.isConst() {
		i := int64(it.val)
		if signed {
			i = sext(it.val, it.w)
		}
		if i < 0 || i >= int64(n) {
			m.targetPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		if s, ok := a.(Str); ok {
			return m.strByte(s, int(i))
		}
		return a.(ArrayV)[i]
	}
	it = m.tf.Resize(it, 64, signed)
	if !m.decide(m.tf.Ult(it, m.tf.Const(uint64(n), 64))) {
		m.targetPanicStr(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	get := func(i int) Value {
		if s, ok := a.(Str); ok {
			return m.strByte(s, i)
		}
		return a.(ArrayV)[i]
	}
	if _, ok := get(0).(*Term); ok && n <= 512 {
		r := get(n - 1).(*Term)
		for i := n - 2; i >= 0; i-- {
			r = m.tf.Ite(m.tf.Eq(it, m.tf.Const(uint64(i), 64)), get(i).(*Term), r)
		}
		return r
	}
	return get(m.concInt(it))
}

func (m *Machine) slice(a Value, l, h, k int) Value {
	oob := func(format string, args ...interface{}) {
		m.targetPanicStr("slice bounds out of range " + fmt.Sprintf(format, args...))
	}
	switch s := a.(type) {
	case Str:
		n := s.Len()
		if h < 0 {
			h = n
		}
		if h > n {
			oob("[:%d] with length %d", h, n)
		}
		if l < 0 || l > h {
			oob("[%d:%d]", l, h)
		}
		return s.slice(l, h)
	case SliceV:
		if h < 0 {
			h = s.n
		}
		if k < 0 {
			k = s.c
		} else if k > s.c {
			oob("[::%d] with capacity %d", k, s.c)
		}
		if h > k {
			oob("[:%d] with capacity %d", h, k)
		}
		if l < 0 || l > h {
			oob("[%d:%d]", l, h)
		}
		return SliceV{arr: s.arr, off: s.off + l, n: h - l, c: k - l}
	case *Cell:
		if s == nil {
			m.targetPanicStr("invalid memory address or nil pointer dereference")
		}
		n := len(s.kids)
		if h < 0 {
			h = n
		}
		if k < 0 {
			k = n
		}
		if h > k || k > n {
			oob("[:%d] with length %d", h, n)
		}
		if l < 0 || l > h {
			oob("[%d:%d]", l, h)
		}
		if s.self == nil && n == 0 {
			return SliceV{arr: &Arr{}, off: 0}
		}
		return SliceV{arr: s.self, off: l, n: h - l, c: k - l}
	}
	m.unsupported("slice of %T", a)
	return nil
}

// operators -------------------------------------------------------------------------

func (m *Machine) intBinop(op token.Token, w uint8, signed bool, yt types.Type) func(a, b *Term) Value {
	f := m.tf
	switch op {
	case token.ADD:
		return func(a, b *Term) Value { return f.Bin(OpAdd, a, b) }
	case token.SUB:
		return func(a, b *Term) Value { return f.Bin(OpSub, a, b) }
	case token.MUL:
		return func(a, b *Term) Value { return f.Bin(OpMul, a, b) }
	case token.QUO, token.REM:
		o := OpUdiv
		if op == token.REM {
			o = OpUrem
		}
		if signed {
			o = OpSdiv
			if op == token.REM {
				o = OpSrem
			}
		}
		return func(a, b *Term) Value {
			if m.decide(f.Eq(b, f.Const(0, w))) {
				m.targetPanicStr("integer divide by zero")
			}
			oo := o
			if signed && nonNeg(a) && nonNeg(b) {
				if oo == OpSdiv {
					oo = OpUdiv
				} else {
					oo = OpUrem
				}
			}
			return f.Bin(oo, a, b)
		}
	case token.AND:
		return func(a, b *Term) Value { return f.Bin(OpBvAnd, a, b) }
	case token.OR:
		return func(a, b *Term) Value { return f.Bin(OpBvOr, a, b) }
	case token.XOR:
		return func(a, b *Term) Value { return f.Bin(OpBvXor, a, b) }
	case token.AND_NOT:
		return func(a, b *Term) Value { return f.Bin(OpBvAnd, a, f.BvNot(b)) }
	case token.SHL, token.SHR:
		o := OpShl
		if op == token.SHR {
			o = OpLshr
			if signed {
				o = OpAshr
			}
		}
		_, ys, _ := intInfo(yt)
		return func(a, b *Term) Value {
			if ys && m.decide(f.Slt(b, f.Const(0, b.w))) {
				m.targetPanicStr("negative shift amount")
			}
			var sh *Term
			if b.w > w {
				big := f.Not(f.Ult(b, f.Const(uint64(w), b.w)))
				sh = f.Ite(big, f.Const(uint64(w), w), f.Resize(b, w, false))
			} else {
				sh = f.Resize(b, w, false)
			}
			return f.Bin(o, a, sh)
		}
	case token.EQL:
		return func(a, b *Term) Value { return f.Eq(a, b) }
	case token.NEQ:
		return func(a, b *Term) Value { return f.Not(f.Eq(a, b)) }
	case token.LSS:
		if signed {
			return func(a, b *Term) Value { return f.Slt(a, b) }
		}
		return func(a, b *Term) Value { return f.Ult(a, b) }
	case token.LEQ:
		if signed {
			return func(a, b *Term) Value { return f.Sle(a, b) }
		}
		return func(a, b *Term) Value { return f.Ule(a, b) }
	case token.GTR:
		if signed {
			return func(a, b *Term) Value { return f.Slt(b, a) }
		}
		return func(a, b *Term) Value { return f.Ult(b, a) }
	case token.GEQ:
		if signed {
			return func(a, b *Term) Value { return f.Sle(b, a) }
		}
		return func(a, b *Term) Value { return f.Ule(b, a) }
	}
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.equal(t, a, b)
	case token.NEQ:
		return m.tf.Not(m.equal(t, a, b))
	}
	switch x := a.(type) {
	case *Term: // booleans
		y := b.(*Term)
		switch op {
		case token.AND, token.LAND:
			return m.tf.And(x, y)
		case token.OR, token.LOR:
			return m.tf.Or(x, y)
		case token.XOR:
			return m.tf.Not(m.tf.Eq(x, y))
		}
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return m.strCat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.tf.Not(m.strLess(y, x))
		case token.GEQ:
			return m.tf.Not(m.strLess(x, y))
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return m.tf.Bool(x < y)
		case token.LEQ:
			return m.tf.Bool(x <= y)
		case token.GTR:
			return m.tf.Bool(x > y)
		case token.GEQ:
			return m.tf.Bool(x >= y)
		}
	}
	m.unsupported("binop %s on %s", op, t)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (m *Machine) bytesOf(s SliceV) []*Term {
	out := make([]*Term, s.n)
	for i := range out {
		out[i] = m.load(s.arr.cells[s.off+i], types.Typ[types.Uint8]).(*Term)
	}
	return out
}

func (m *Machine) mkBytes(ts []*Term) SliceV {
	arr := &Arr{cells: make([]*Cell, len(ts))}
	for i, t := range ts {
		arr.cells[i] = &Cell{v: t, arr: arr, idx: int32(i), epoch: m.epoch}
	}
	return SliceV{arr: arr, n: len(ts), c: len(ts)}
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case Str:
			return x
		case SliceV:
			if isByteSlice(fu) {
				return mkStr(m.bytesOf(x))
			}
			if isRuneSlice(fu) {
				var rs []rune
				for i := 0; i < x.n; i++ {
					rs = append(rs, rune(m.concInt(x.arr.cells[x.off+i].v.(*Term))))
				}
				return Str{s: string(rs)}
			}
		case *Term:
			if x.w >= 8 && !x.isConst() && m.decide(m.tf.Ult(x, m.tf.Const(0x80, x.w))) {
				return mkStr([]*Term{m.tf.Resize(x, 8, false)})
			}
			if w := x.w; w > 11 && !x.isConst() && m.decide(m.tf.Ult(x, m.tf.Const(0x800, w))) {
				hi := m.tf.Bin(OpBvOr, m.tf.Const(0xC0, w), m.tf.Bin(OpLshr, x, m.tf.Const(6, w)))
				lo := m.tf.Bin(OpBvOr, m.tf.Const(0x80, w), m.tf.Bin(OpBvAnd, x, m.tf.Const(0x3F, w)))
				return mkStr([]*Term{m.tf.Resize(hi, 8, false), m.tf.Resize(lo, 8, false)})
			}
			if x.w == 8 && !x.isConst() {
				x = m.tf.Resize(x, 32, false)
				hi := m.tf.Bin(OpBvOr, m.tf.Const(0xC0, 32), m.tf.Bin(OpLshr, x, m.tf.Const(6, 32)))
				lo := m.tf.Bin(OpBvOr, m.tf.Const(0x80, 32), m.tf.Bin(OpBvAnd, x, m.tf.Const(0x3F, 32)))
				return mkStr([]*Term{m.tf.Resize(hi, 8, false), m.tf.Resize(lo, 8, false)})
			}
			return Str{s: string(rune(m.concInt(x)))}
		}
		m.unsupported("convert %s to string", from)
	}
	if s, ok := v.(Str); ok {
		if isByteSlice(tu) {
			return m.mkBytes(m.strTerms(s))
		}
		if isRuneSlice(tu) {
			rs := []rune(m.concStr(s))
			arr := m.newArr(types.Typ[types.Int32], len(rs))
			for i, r := range rs {
				arr.cells[i].v = m.tf.Const(uint64(r), 32)
			}
			return SliceV{arr: arr, n: len(rs), c: len(rs)}
		}
	}
	if w, _, ok := intInfo(tu); ok {
		switch x := v.(type) {
		case *Term:
			_, fs, _ := intInfo(fu)
			return m.tf.Resize(x, w, fs)
		case float64:
			if _, s, _ := intInfo(tu); s {
				return m.tf.Const(uint64(int64(x)), w)
			}
			return m.tf.Const(uint64(x), w)
		case UnsafeP:
			if x.v == nil {
				return m.tf.Const(0, w)
			}
			if c, ok := x.v.(*Cell); ok {
				return m.tf.Const(m.addrOf(c), w)
			}
		}
	}
	if b, ok := tu.(*types.Basic); ok {
		if b.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case float64:
				if b.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				_, fs, _ := intInfo(fu)
				i := m.concInt(x)
				if fs {
					return float64(i)
				}
				return float64(uint64(i))
			}
		}
		if b.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case *Cell:
				if x == nil {
					return UnsafeP{}
				}
				return UnsafeP{x}
			case UnsafeP:
				return x
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if x, ok := v.(UnsafeP); ok {
			if x.v == nil {
				return (*Cell)(nil)
			}
			return x.v
		}
		if _, ok := v.(*Cell); ok {
			return v
		}
	}
	m.unsupported("convert %s to %s", from, to)
	return nil
}

func (m *Machine) addrOf(c *Cell) uint64 {
	if c.addr == 0 {
		m.nextAddr += 64
		c.addr = 0xc000000000 + m.nextAddr
	}
	return c.addr
}

func (m *Machine) concStr(s Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(m.concInt(t))
	}
	return string(b)
}

// iteration -----------------------------------------------------------------------

type iterator struct {
	str  Str
	pos  int
	isS  bool
	ents []*mapEntry
	mo   *MapObj
}

func (m *Machine) newIter(v Value) *iterator {
	switch x := v.(type) {
	case Str:
		return &iterator{str: x, isS: true}
	case *MapObj:
		it := &iterator{mo: x}
		it.ents = x.live()
		if m.mapOrder > 0 && len(it.ents) > 1 && m.inInit == 0 {
			it.ents = m.permute(it.ents)
		}
		return it
	}
	m.unsupported("range over %T", v)
	return nil
}

func (m *Machine) permute(es []*mapEntry) []*mapEntry {
	if m.mapOrder <= 0 {
		return es
	}
	m.mapOrder--
	rest := append([]*mapEntry{}, es...)
	var out []*mapEntry
	for len(rest) > 1 {
		k := m.choose("maporder", len(rest))
		out = append(out, rest[k])
		rest = append(append([]*mapEntry{}, rest[:k]...), rest[k+1:]...)
	}
	return append(out, rest...)
}

func (m *Machine) iterNext(g *G, it *iterator, tt *types.Tuple) Value {
	zeroOr := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(t)
	}
	if it.isS {
		n := it.str.Len()
		if it.pos >= n {
			return Tuple{m.tf.fls, zeroOr(1), zeroOr(2)}
		}
		p := it.pos
		b0 := m.strByte(it.str, p)
		if m.decide(m.tf.Ult(b0, m.tf.Const(0x80, 8))) {
			it.pos++
			return Tuple{m.tf.tru, m.tf.Const(uint64(p), 64), m.tf.Resize(b0, 32, false)}
		}
		fn := m.eng.pkgFunc("unicode/utf8", "DecodeRuneInString")
		r := m.callFn(g, fn, []Value{it.str.slice(p, n)}, nil).(Tuple)
		it.pos += m.concInt(r[1].(*Term))
		return Tuple{m.tf.tru, m.tf.Const(uint64(p), 64), r[0]}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{m.tf.tru, e.k, e.v}
	}
	return Tuple{m.tf.fls, zeroOr(1), zeroOr(2)}
}

// builtins -------------------------------------------------------------------------

func (m *Machine) builtin(fr *Frame, name string, args []Value, argT []types.Type, rt *types.Tuple, deferOf *Frame) Value {
	f := m.tf
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return f.Const(uint64(x.Len()), 64)
		case SliceV:
			return f.Const(uint64(x.n), 64)
		case *MapObj:
			if x == nil {
				return f.Const(0, 64)
			}
			if m.race && fr.rec {
				m.raceObj(fr, x, false)
			}
			return f.Const(uint64(x.n), 64)
		case *ChanObj:
			if x == nil {
				return f.Const(0, 64)
			}
			return f.Const(uint64(len(x.buf)), 64)
		case ArrayV:
			return f.Const(uint64(len(x)), 64)
		case *Cell:
			return f.Const(uint64(len(x.kids)), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return f.Const(uint64(x.c), 64)
		case *ChanObj:
			if x == nil {
				return f.Const(0, 64)
			}
			return f.Const(uint64(x.cap), 64)
		case *Cell:
			return f.Const(uint64(len(x.kids)), 64)
		}
	case "append":
		if m.race && fr.rec {
			s := args[0].(SliceV)
			n := 0
			switch y := args[1].(type) {
			case Str:
				n = y.Len()
			case SliceV:
				n = y.n
				m.raceSlice(fr, y, 0, y.n, false)
			}
			if s.n+n <= s.c {
				m.raceSlice(fr, s, s.n, s.n+n, true)
			} else {
				m.raceSlice(fr, s, 0, s.n, false)
			}
		}
		return m.appendV(args, argT)
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch s := args[1].(type) {
		case Str:
			for _, t := range m.strTerms(s) {
				src = append(src, t)
			}
		case SliceV:
			et := argT[1].Underlying().(*types.Slice).Elem()
			n := s.n
			if d.n < n {
				n = d.n
			}
			for i := 0; i < n; i++ {
				src = append(src, m.load(s.arr.cells[s.off+i], et))
			}
		}
		n := len(src)
		if d.n < n {
			n = d.n
		}
		if m.race && fr.rec {
			if y, ok := args[1].(SliceV); ok {
				m.raceSlice(fr, y, 0, n, false)
			}
			m.raceSlice(fr, d, 0, n, true)
		}
		for i := 0; i < n; i++ {
			m.store(d.arr.cells[d.off+i], src[i])
		}
		return f.Const(uint64(n), 64)
	case "delete":
		mo := args[0].(*MapObj)
		if m.race && mo != nil && fr.rec {
			m.raceObj(fr, mo, true)
		}
		m.mapDelete(mo, argT[0].Underlying().(*types.Map).Key(), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.mapJournal(x)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.nsym, x.idx = nil, 0, 0, map[string]*mapEntry{}
			}
		case SliceV:
			et := argT[0].Underlying().(*types.Slice).Elem()
			for i := 0; i < x.n; i++ {
				m.store(x.arr.cells[x.off+i], m.zero(et))
			}
		}
		return nil
	case "close":
		m.chanClose(fr.g, args[0].(*ChanObj))
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		// called by a deferred function: fr is that function's frame; as a
		// directly deferred builtin deferOf is set.
		t := fr.deferOf
		if deferOf != nil {
			t = nil // "defer recover()" does not recover
		}
		if t != nil && t.panicking {
			t.panicking = false
			return t.pv.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		_, signed, isInt := intInfo(argT[0])
		for _, a := range args[1:] {
			var lt *Term
			if isInt {
				if signed {
					lt = f.Slt(a.(*Term), r.(*Term))
				} else {
					lt = f.Ult(a.(*Term), r.(*Term))
				}
				if name == "max" {
					lt = f.Not(lt)
				}
				r = f.Ite(lt, a.(*Term), r.(*Term))
				continue
			}
			switch x := a.(type) {
			case float64:
				if name == "min" {
					r = math.Min(r.(float64), x)
				} else {
					r = math.Max(r.(float64), x)
				}
			default:
				m.unsupported("%s of %T", name, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			m.targetPanicStr("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String(ptr, len)
		n := m.concInt(args[1].(*Term))
		if n == 0 {
			return Str{}
		}
		c := args[0].(*Cell)
		if c == nil || c.arr == nil {
			m.unsupported("unsafe.String of non-array memory")
		}
		return mkStr(m.bytesOf(SliceV{arr: c.arr, off: int(c.idx), n: n, c: n}))
	case "Slice": // unsafe.Slice
		n := m.concInt(args[1].(*Term))
		c := args[0].(*Cell)
		if c == nil {
			return SliceV{}
		}
		if c.arr == nil {
			m.unsupported("unsafe.Slice of non-array memory")
		}
		return SliceV{arr: c.arr, off: int(c.idx), n: n, c: n}
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return (*Cell)(nil)
		}
		return m.mkBytes(m.strTerms(s)).arr.cells[0]
	case "SliceData":
		s := args[0].(SliceV)
		if s.arr == nil {
			return (*Cell)(nil)
		}
		if s.c == 0 {
			return &Cell{arr: s.arr, idx: int32(s.off), epoch: m.epoch}
		}
		return s.arr.cells[s.off]
	case "real", "imag", "complex":
	}
	m.unsupported("builtin %s", name)
	return nil
}

func (m *Machine) appendV(args []Value, argT []types.Type) Value {
	s := args[0].(SliceV)
	et := argT[0].Underlying().(*types.Slice).Elem()
	var src []Value
	switch y := args[1].(type) {
	case Str:
		for _, t := range m.strTerms(y) {
			src = append(src, t)
		}
	case SliceV:
		src = make([]Value, y.n)
		for i := 0; i < y.n; i++ {
			src[i] = m.load(y.arr.cells[y.off+i], et)
		}
	default:
		m.unsupported("append of %T", y)
	}
	if len(src) == 0 {
		return s
	}
	n := s.n + len(src)
	if n <= s.c {
		for i, v := range src {
			m.store(s.arr.cells[s.off+s.n+i], v)
		}
		return SliceV{arr: s.arr, off: s.off, n: n, c: s.c}
	}
	nc := growCap(s.c, n, m.eng.sizes.Sizeof(et))
	arr := &Arr{cells: make([]*Cell, nc)}
	for i := 0; i < nc; i++ {
		k := m.newCell(et)
		k.arr, k.idx = arr, int32(i)
		arr.cells[i] = k
		if i < s.n {
			m.store(k, m.load(s.arr.cells[s.off+i], et))
		} else if i < n {
			m.store(k, src[i-s.n])
		}
	}
	return SliceV{arr: arr, n: n, c: nc}
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048}

// growCap mirrors runtime.growslice for small slices.
func growCap(oldCap, n int, es int64) int {
	nc := n
	if n <= 2*oldCap {
		if oldCap < 256 {
			nc = 2 * oldCap
		} else {
			nc = oldCap
			for nc < n {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	if es == 0 {
		return nc
	}
	bytes := int64(nc) * es
	for _, c := range sizeClasses {
		if bytes <= c {
			return int(c / es)
		}
	}
	return nc
}
