package main

// Run-time values of the symbolic Go interpreter.
//
//	bool, integers : *Term
//	floats         : float64
//	string         : Str
//	struct         : StructV      array : ArrayV
//	pointer        : *Cell        unsafe.Pointer : UnsafeP
//	slice          : SliceV       map : *MapObj    chan : *ChanObj
//	interface      : Iface        func : *Closure  tuple : Tuple

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Str struct {
	s   string
	sym []*Term // non-nil: symbolic bytes
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type StructV []Value
type ArrayV []Value
type Tuple []Value
type UnsafeP struct{ v Value }

type Cell struct {
	v     Value
	kids  []*Cell // struct fields or array elements
	self  *Arr    // for an array cell: the backing array
	arr   *Arr    // for an element cell: its array
	idx   int32
	epoch uint32
	addr  uint64
	// concurrency encoding
	shared bool
	name   string
}

type Arr struct{ cells []*Cell }

type SliceV struct {
	arr       *Arr
	off, n, c int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(g *G, args []Value) Value // engine-implemented
}

type mapEntry struct {
	k, v Value
	dead bool
}

type MapObj struct {
	ents   []*mapEntry
	n      int
	idx    map[string]*mapEntry // concrete keys
	nsym   int                  // live entries whose key is symbolic
	epoch  uint32
	saved  uint32 // path in which a base map was journaled
	name   string
	shared bool
}

// term helpers -------------------------------------------------------------

func (m *Machine) strTerms(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = m.tf.bytesC[s.s[i]]
	}
	return out
}

func (m *Machine) strByte(s Str, i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return m.tf.bytesC[s.s[i]]
}

func mkStr(ts []*Term) Str {
	for _, t := range ts {
		if !t.isConst() {
			return Str{sym: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return Str{s: string(b)}
}

func (s Str) slice(i, j int) Str {
	if s.sym != nil {
		return mkStr(s.sym[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func (m *Machine) strCat(a, b Str) Str {
	if a.sym == nil && b.sym == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	ts := append([]*Term{}, m.strTerms(a)...)
	return Str{sym: append(ts, m.strTerms(b)...)}
}

func (m *Machine) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return m.tf.fls
	}
	if a.sym == nil && b.sym == nil {
		return m.tf.Bool(a.s == b.s)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := m.tf.tru
	for i := range x {
		r = m.tf.And(r, m.tf.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return m.tf.Bool(a.s < b.s)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := m.tf.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.tf.Ite(m.tf.Ult(x[i], y[i]), m.tf.tru, m.tf.Ite(m.tf.Eq(x[i], y[i]), r, m.tf.fls))
	}
	return r
}

// types ---------------------------------------------------------------------

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return m.tf.fls
		}
		if u.Info()&types.IsInteger != 0 {
			w, _, _ := intInfo(u)
			return m.tf.Const(0, w)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return UnsafeP{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(ArrayV, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	m.unsupported("zero of %s", t)
	return nil
}

func (m *Machine) newCell(t types.Type) *Cell {
	c := &Cell{epoch: m.epoch}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.kids = make([]*Cell, u.NumFields())
		for i := range c.kids {
			c.kids[i] = m.newCell(u.Field(i).Type())
		}
	case *types.Array:
		n := int(u.Len())
		c.kids = make([]*Cell, n)
		c.self = &Arr{cells: c.kids}
		for i := range c.kids {
			k := m.newCell(u.Elem())
			k.arr, k.idx = c.self, int32(i)
			c.kids[i] = k
		}
	default:
		c.v = m.zero(t)
	}
	return c
}

func (m *Machine) newArr(elem types.Type, n int) *Arr {
	a := &Arr{cells: make([]*Cell, n)}
	for i := range a.cells {
		k := m.newCell(elem)
		k.arr, k.idx = a, int32(i)
		a.cells[i] = k
	}
	return a
}

// load reads the value of type t at c.
func (m *Machine) load(c *Cell, t types.Type) Value {
	if c.kids != nil {
		vals := make([]Value, len(c.kids))
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i, k := range c.kids {
				vals[i] = m.load(k, u.Field(i).Type())
			}
			return StructV(vals)
		case *types.Array:
			for i, k := range c.kids {
				vals[i] = m.load(k, u.Elem())
			}
			return ArrayV(vals)
		}
		m.unsupported("load of %s from aggregate", t)
	}
	if c.shared && m.ex != nil {
		return m.ex.read(c, t)
	}
	return c.v
}

func (m *Machine) store(c *Cell, v Value) {
	if c.kids != nil {
		switch s := v.(type) {
		case StructV:
			for i, k := range c.kids {
				m.store(k, s[i])
			}
			return
		case ArrayV:
			for i, k := range c.kids {
				m.store(k, s[i])
			}
			return
		}
		m.unsupported("store of %T into aggregate", v)
	}
	if c.shared && m.ex != nil {
		m.ex.write(c, v)
		return
	}
	m.rawStore(c, v)
}

func (m *Machine) rawStore(c *Cell, v Value) {
	if c.epoch == 0 && m.epoch != 0 {
		m.undo = append(m.undo, undoRec{c: c, v: c.v})
	}
	c.v = v
}

// equality --------------------------------------------------------------------

func (m *Machine) equal(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return m.tf.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.tf.fls
		}
		if !types.Comparable(x.t) {
			m.targetPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		r := m.tf.tru
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.tf.And(r, m.equal(u.Field(i).Type(), x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(ArrayV), b.(ArrayV)
		r := m.tf.tru
		for i := range x {
			r = m.tf.And(r, m.equal(u.Elem(), x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	switch x := a.(type) {
	case *Term:
		return m.tf.Eq(x, b.(*Term))
	case Str:
		return m.strEq(x, b.(Str))
	case float64:
		return m.tf.Bool(x == b.(float64))
	case *Cell:
		y, _ := b.(*Cell)
		return m.tf.Bool(x == y)
	case *MapObj:
		y, _ := b.(*MapObj)
		return m.tf.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return m.tf.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return m.tf.Bool(x == y)
	case SliceV:
		y, _ := b.(SliceV)
		return m.tf.Bool(x.arr == nil && y.arr == nil) // only comparison with nil is legal
	case UnsafeP:
		y := b.(UnsafeP)
		return m.tf.Bool(x.v == y.v)
	}
	m.unsupported("equality of %s (%T)", t, a)
	return nil
}

// keyRepr gives a canonical string for a fully concrete map key.
func keyRepr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d/%d", x.val, x.w), true
		}
		return "", false
	case Str:
		if x.sym != nil {
			return "", false
		}
		return "s" + x.s, true
	case *Cell:
		return fmt.Sprintf("p%p", x), true
	case *ChanObj:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		r, ok := keyRepr(x.v)
		return "I" + x.t.String() + ":" + r, ok
	case StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x {
			r, ok := keyRepr(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(r), r)
		}
		return sb.String(), true
	case ArrayV:
		return keyRepr(StructV(x))
	case float64:
		return fmt.Sprintf("f%v", x), true
	}
	return "", false
}

func (m *Machine) newMap() *MapObj {
	return &MapObj{idx: map[string]*mapEntry{}, epoch: m.epoch}
}

func (m *Machine) mapJournal(mo *MapObj) {
	if mo.epoch == 0 && m.epoch != 0 && mo.saved != m.epoch {
		mo.saved = m.epoch
		cp := &MapObj{n: mo.n, nsym: mo.nsym, idx: map[string]*mapEntry{}}
		for k, e := range mo.idx {
			ne := &mapEntry{k: e.k, v: e.v}
			cp.idx[k] = ne
			cp.ents = append(cp.ents, ne)
		}
		m.undo = append(m.undo, undoRec{mo: mo, mcopy: cp})
	}
}

func (m *Machine) mapFind(mo *MapObj, kt types.Type, k Value) *mapEntry {
	if mo == nil {
		return nil
	}
	if r, ok := keyRepr(k); ok {
		if e := mo.idx[r]; e != nil {
			return e
		}
		if mo.nsym == 0 {
			return nil
		}
	}
	_, conc := keyRepr(k)
	for _, e := range mo.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := keyRepr(e.k); c2 {
				continue
			}
		}
		if m.decide(m.equal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mo *MapObj, kt types.Type, k, v Value) {
	m.mapJournal(mo)
	if e := m.mapFind(mo, kt, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	mo.ents = append(mo.ents, e)
	mo.n++
	if r, ok := keyRepr(k); ok {
		mo.idx[r] = e
	} else {
		mo.nsym++
	}
}

func (m *Machine) mapDelete(mo *MapObj, kt types.Type, k Value) {
	if mo == nil {
		return
	}
	m.mapJournal(mo)
	e := m.mapFind(mo, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	mo.n--
	if r, ok := keyRepr(e.k); ok {
		delete(mo.idx, r)
	} else {
		mo.nsym--
	}
	for i, x := range mo.ents {
		if x == e {
			mo.ents = append(append([]*mapEntry{}, mo.ents[:i]...), mo.ents[i+1:]...)
			break
		}
	}
}

func (mo *MapObj) live() []*mapEntry {
	var out []*mapEntry
	if mo == nil {
		return nil
	}
	for _, e := range mo.ents {
		if !e.dead {
			out = append(out, e)
		}
	}
	return out
}
