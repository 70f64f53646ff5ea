package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Package reflect, executed on the checker's own values: a reflect.Type is a
// canonical *rtype cell, a reflect.Value a struct whose ptr word holds an rval.

type rval struct {
	t  types.Type
	v  Value // when not addressable
	c  *Cell // when addressable
	ro bool  // obtained through an unexported field
}

func (m *Machine) rget(g *G, x *rval) Value {
	if x.c != nil {
		if m.race {
			m.raceCell(g.fr, x.c, false)
		}
		return m.load(x.c, x.t)
	}
	return x.v
}

func (m *Machine) rtype(t types.Type) Value {
	n := m.eng.prog.ImportedPackage("reflect").Pkg.Scope().Lookup("rtype").Type()
	return Iface{m.eng.ptrTo(n), m.eng.rtypeCell(m, t)}
}

func (m *Machine) rvalue(x *rval) Value {
	return StructV{m.eng.rtypeCell(m, x.t), UnsafeP{x}, m.tf.Const(1, 64)}
}

func rvalOf(v Value) *rval {
	x, _ := v.(StructV)[1].(UnsafeP).v.(*rval)
	return x
}

// rmust is rvalOf of a valid value.
func (m *Machine) rmust(v Value, what string) *rval {
	x := rvalOf(v)
	if x == nil {
		m.reflPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return x
}

func (m *Machine) reflPanic(msg string) {
	panic(targetPanic{Iface{types.Typ[types.String], Str{s: msg}}})
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k := u.Kind(); {
		case k >= types.Bool && k <= types.Uintptr:
			return uint64(k)
		case k == types.Float32, k == types.Float64, k == types.Complex64, k == types.Complex128:
			return uint64(k)
		case k == types.String:
			return 24
		case k == types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = [...]string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func rtString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// methodsOf: the exported methods of a type in reflect's order.
func (m *Machine) methodsOf(t types.Type) []*types.Selection {
	var out []*types.Selection
	ms := m.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Exported() {
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func noRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// structOf makes a value of a struct type of package reflect by field name.
func (m *Machine) reflStruct(name string, fields map[string]Value) Value {
	t := m.eng.prog.ImportedPackage("reflect").Pkg.Scope().Lookup(name).Type()
	v := m.zero(t).(StructV)
	u := t.Underlying().(*types.Struct)
	for i := range v {
		if f, ok := fields[u.Field(i).Name()]; ok {
			v[i] = f
		}
	}
	return v
}

func (m *Machine) intSlice(ns []int) Value {
	a := m.newArr(types.Typ[types.Int], len(ns))
	for i, n := range ns {
		a.cells[i].v = m.i64(int64(n))
	}
	return SliceV{arr: a, n: len(ns), c: len(ns)}
}

func (m *Machine) valueSlice(elem types.Type, vs []Value) Value {
	a := m.newArr(elem, len(vs))
	for i, v := range vs {
		m.store(a.cells[i], v)
	}
	return SliceV{arr: a, n: len(vs), c: len(vs)}
}

func (m *Machine) structField(u *types.Struct, i int, index []int) Value {
	f := u.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return m.reflStruct("StructField", map[string]Value{
		"Name": Str{s: f.Name()}, "PkgPath": Str{s: pkg}, "Type": m.rtype(f.Type()), "Tag": Str{s: u.Tag(i)},
		"Index": m.intSlice(index), "Anonymous": m.tf.Bool(f.Embedded()),
	})
}

func (m *Machine) reflMethod(t types.Type, sels []*types.Selection, i int) Value {
	s := sels[i]
	sig := s.Obj().Type().(*types.Signature)
	fields := map[string]Value{"Name": Str{s: s.Obj().Name()}, "Index": m.i64(int64(i))}
	if types.IsInterface(t) {
		fields["Type"] = m.rtype(noRecv(sig))
	} else {
		ps := []*types.Var{types.NewParam(0, nil, "", t)}
		for j := 0; j < sig.Params().Len(); j++ {
			ps = append(ps, sig.Params().At(j))
		}
		ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
		fn := m.eng.prog.MethodValue(s)
		fields["Type"] = m.rtype(ft)
		fields["Func"] = m.rvalue(&rval{t: ft, v: &Closure{fn: fn}})
	}
	return m.reflStruct("Method", fields)
}

// fieldBy finds a field by name, through embedded structs, breadth first.
func (m *Machine) fieldBy(t types.Type, match func(name string) bool) (Value, bool) {
	type node struct {
		u   *types.Struct
		idx []int
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		m.reflPanic("reflect: FieldByName of non-struct type " + rtString(t))
	}
	seen := map[*types.Struct]bool{}
	level := []node{{u, nil}}
	for len(level) > 0 {
		var next []node
		var res Value
		n := 0
		for _, x := range level {
			if seen[x.u] {
				continue
			}
			seen[x.u] = true
			for i := 0; i < x.u.NumFields(); i++ {
				f := x.u.Field(i)
				idx := append(append([]int{}, x.idx...), i)
				if match(f.Name()) {
					res = m.structField(x.u, i, idx)
					n++
					continue
				}
				if f.Embedded() {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					if s, ok := ft.Underlying().(*types.Struct); ok {
						next = append(next, node{s, idx})
					}
				}
			}
		}
		if n == 1 {
			return res, true
		}
		if n > 1 {
			break
		}
		level = next
	}
	return m.reflStruct("StructField", nil), false
}

// rfield is Value.Field.
func (m *Machine) rfield(x *rval, i int) *rval {
	u, ok := x.t.Underlying().(*types.Struct)
	if !ok {
		m.reflPanic("reflect: call of reflect.Value.Field on " + kindNames[kindOf(x.t)] + " Value")
	}
	if i < 0 || i >= u.NumFields() {
		m.reflPanic("reflect: Field index out of range")
	}
	f := &rval{t: u.Field(i).Type(), ro: x.ro || !u.Field(i).Exported()}
	if x.c != nil {
		f.c = x.c.kids[i]
	} else {
		f.v = x.v.(StructV)[i]
	}
	return f
}

func (m *Machine) relem(g *G, x *rval) *rval {
	v := m.rget(g, x)
	switch u := x.t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Cell)
		if v != nil && c == nil {
			if _, isCell := v.(*Cell); !isCell {
				c = ptrCell(m, v)
			}
		}
		if c == nil {
			return nil
		}
		return &rval{t: u.Elem(), c: c, ro: x.ro}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return nil
		}
		return &rval{t: i.t, v: i.v, ro: x.ro}
	}
	m.reflPanic("reflect: call of reflect.Value.Elem on " + kindNames[kindOf(x.t)] + " Value")
	return nil
}

func (m *Machine) rvalueOrZero(x *rval) Value {
	if x == nil {
		return m.reflStruct("Value", nil)
	}
	return m.rvalue(x)
}

func (m *Machine) rinterface(g *G, x *rval) Iface {
	v := m.rget(g, x)
	if types.IsInterface(x.t) {
		return v.(Iface)
	}
	return Iface{x.t, v}
}

func (m *Machine) risnil(v Value) bool {
	switch x := v.(type) {
	case *Cell:
		return x == nil
	case *MapObj:
		return x == nil
	case *ChanObj:
		return x == nil
	case *Closure:
		return x == nil
	case SliceV:
		return x.arr == nil
	case Iface:
		return x.t == nil
	case UnsafeP:
		return x.v == nil
	case *SymPtr:
		return false
	}
	m.reflPanic("reflect: call of reflect.Value.IsNil on a value of another kind")
	return false
}

// riszero is Value.IsZero as a term.
func (m *Machine) riszero(t types.Type, v Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := m.tf.tru
		for i, f := range v.(StructV) {
			r = m.tf.And(r, m.riszero(u.Field(i).Type(), f))
		}
		return r
	case *types.Array:
		r := m.tf.tru
		for _, e := range v.(ArrayV) {
			r = m.tf.And(r, m.riszero(u.Elem(), e))
		}
		return r
	case *types.Basic:
		if u.Kind() != types.UnsafePointer {
			return m.equal(t, v, m.zero(t))
		}
	}
	return m.tf.Bool(m.risnil(v))
}

// rassign converts x for a variable of type t.
func (m *Machine) rassign(g *G, x *rval, t types.Type, what string) Value {
	if x.ro {
		m.reflPanic("reflect: " + what + " using value obtained using unexported field")
	}
	v := m.rget(g, x)
	if !types.AssignableTo(x.t, t) {
		m.reflPanic("reflect." + what + ": value of type " + rtString(x.t) + " is not assignable to type " + rtString(t))
	}
	if types.IsInterface(t) && !types.IsInterface(x.t) {
		return Iface{x.t, v}
	}
	return v
}

func (m *Machine) rcall(g *G, x *rval, args []Value) []Value {
	sig, ok := x.t.Underlying().(*types.Signature)
	if !ok {
		m.reflPanic("reflect: call of reflect.Value.Call on " + kindNames[kindOf(x.t)] + " Value")
	}
	if x.ro {
		m.reflPanic("reflect: reflect.Value.Call using value obtained using unexported field")
	}
	cl := m.rget(g, x).(*Closure)
	if cl == nil {
		m.reflPanic("reflect: call of nil function")
	}
	if sig.Variadic() {
		m.unsupported("reflect Call of a variadic function")
	}
	if len(args) != sig.Params().Len() {
		m.reflPanic("reflect: Call with too few or too many input arguments")
	}
	in := make([]Value, len(args))
	for i, a := range args {
		in[i] = m.rassign(g, m.rmust(a, "Call"), sig.Params().At(i).Type(), "Value.Call")
	}
	res := m.callClosure(g, cl, in)
	n := sig.Results().Len()
	out := make([]Value, n)
	for i := range out {
		v := res
		if n > 1 {
			v = res.(Tuple)[i]
		}
		out[i] = m.rvalue(&rval{t: sig.Results().At(i).Type(), v: v})
	}
	return out
}

func (m *Machine) sliceVals(v Value, elem types.Type) []Value {
	s := v.(SliceV)
	out := make([]Value, s.n)
	for i := range out {
		out[i] = m.load(s.arr.cells[s.off+i], elem)
	}
	return out
}

func reflectIntrinsics(I map[string]intrFn) {
	T := func(g *G, v Value) types.Type { // the type behind a *rtype
		c, _ := v.(*Cell)
		t := g.m.rtypes[c]
		if t == nil {
			g.m.unsupported("reflect.Type that is not of this run")
		}
		return t
	}
	TI := func(g *G, v Value) types.Type { // the type behind a reflect.Type
		i := v.(Iface)
		if i.t == nil {
			g.m.targetPanicStr("invalid memory address or nil pointer dereference")
		}
		return T(g, i.v)
	}
	typ := func(name string, f func(g *G, t types.Type, a []Value) Value) {
		I["(*reflect.rtype)."+name] = func(g *G, cf *cfunc, a []Value) Value { return f(g, T(g, a[0]), a[1:]) }
	}
	val := func(name string, f func(g *G, x *rval, a []Value) Value) {
		I["(reflect.Value)."+name] = func(g *G, cf *cfunc, a []Value) Value { return f(g, g.m.rmust(a[0], name), a[1:]) }
	}
	reflT := func(g *G, name string) types.Type {
		return g.m.eng.prog.ImportedPackage("reflect").Pkg.Scope().Lookup(name).Type()
	}
	elem := func(g *G, t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Chan:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		}
		g.m.reflPanic("reflect: Elem of invalid type " + rtString(t))
		return nil
	}

	// functions
	I["reflect.TypeOf"] = func(g *G, cf *cfunc, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return Iface{}
		}
		return g.m.rtype(v.t)
	}
	I["reflect.ValueOf"] = func(g *G, cf *cfunc, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return g.m.rvalueOrZero(nil)
		}
		return g.m.rvalue(&rval{t: v.t, v: v.v})
	}
	I["reflect.New"] = func(g *G, cf *cfunc, a []Value) Value {
		t := TI(g, a[0])
		return g.m.rvalue(&rval{t: g.m.eng.ptrTo(t), v: g.m.newCell(t)})
	}
	I["reflect.Zero"] = func(g *G, cf *cfunc, a []Value) Value {
		t := TI(g, a[0])
		return g.m.rvalue(&rval{t: t, v: g.m.zero(t)})
	}
	I["reflect.Indirect"] = func(g *G, cf *cfunc, a []Value) Value {
		if x := rvalOf(a[0]); x != nil && kindOf(x.t) == 22 {
			return g.m.rvalueOrZero(g.m.relem(g, x))
		}
		return a[0]
	}
	ptrTo := func(g *G, cf *cfunc, a []Value) Value { return g.m.rtype(g.m.eng.ptrTo(TI(g, a[0]))) }
	I["reflect.PtrTo"], I["reflect.PointerTo"] = ptrTo, ptrTo
	I["reflect.SliceOf"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.rtype(types.NewSlice(TI(g, a[0]))) }
	I["reflect.MapOf"] = func(g *G, cf *cfunc, a []Value) Value {
		return g.m.rtype(types.NewMap(TI(g, a[0]), TI(g, a[1])))
	}
	I["reflect.FuncOf"] = func(g *G, cf *cfunc, a []Value) Value {
		tuple := func(v Value) *types.Tuple {
			var vs []*types.Var
			for _, x := range g.m.sliceVals(v, reflT(g, "Type")) {
				vs = append(vs, types.NewParam(0, nil, "", TI(g, x)))
			}
			return types.NewTuple(vs...)
		}
		return g.m.rtype(types.NewSignatureType(nil, nil, nil, tuple(a[0]), tuple(a[1]), g.m.decide(a[2].(*Term))))
	}

	// types
	typ("Kind", func(g *G, t types.Type, a []Value) Value { return g.m.tf.Const(kindOf(t), 64) })
	typ("Elem", func(g *G, t types.Type, a []Value) Value { return g.m.rtype(elem(g, t)) })
	typ("Key", func(g *G, t types.Type, a []Value) Value { return g.m.rtype(t.Underlying().(*types.Map).Key()) })
	typ("Len", func(g *G, t types.Type, a []Value) Value { return g.m.i64(t.Underlying().(*types.Array).Len()) })
	typ("String", func(g *G, t types.Type, a []Value) Value { return Str{s: rtString(t)} })
	typ("Name", func(g *G, t types.Type, a []Value) Value {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return Str{s: n.Obj().Name()}
		case *types.Basic:
			return Str{s: n.Name()}
		}
		return Str{}
	})
	typ("PkgPath", func(g *G, t types.Type, a []Value) Value {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	})
	typ("Comparable", func(g *G, t types.Type, a []Value) Value { return g.m.tf.Bool(types.Comparable(t)) })
	typ("AssignableTo", func(g *G, t types.Type, a []Value) Value { return g.m.tf.Bool(types.AssignableTo(t, TI(g, a[0]))) })
	typ("ConvertibleTo", func(g *G, t types.Type, a []Value) Value { return g.m.tf.Bool(types.ConvertibleTo(t, TI(g, a[0]))) })
	typ("Implements", func(g *G, t types.Type, a []Value) Value {
		return g.m.tf.Bool(types.Implements(t, TI(g, a[0]).Underlying().(*types.Interface)))
	})
	str := func(g *G, t types.Type) *types.Struct {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			g.m.reflPanic("reflect: field of non-struct type " + rtString(t))
		}
		return u
	}
	sig := func(g *G, t types.Type) *types.Signature {
		u, ok := t.Underlying().(*types.Signature)
		if !ok {
			g.m.reflPanic("reflect: NumIn of non-func type " + rtString(t))
		}
		return u
	}
	at := func(g *G, v Value, n int, what string) int {
		i := g.m.concInt(v.(*Term))
		if i < 0 || i >= n {
			g.m.reflPanic("reflect: " + what + " index out of range")
		}
		return i
	}
	typ("NumField", func(g *G, t types.Type, a []Value) Value { return g.m.i64(int64(str(g, t).NumFields())) })
	typ("Field", func(g *G, t types.Type, a []Value) Value {
		i := at(g, a[0], str(g, t).NumFields(), "Field")
		return g.m.structField(str(g, t), i, []int{i})
	})
	typ("FieldByName", func(g *G, t types.Type, a []Value) Value {
		name := g.m.concStr(a[0].(Str))
		v, ok := g.m.fieldBy(t, func(s string) bool { return s == name })
		return Tuple{v, g.m.tf.Bool(ok)}
	})
	typ("FieldByNameFunc", func(g *G, t types.Type, a []Value) Value {
		v, ok := g.m.fieldBy(t, func(s string) bool {
			return g.m.decide(g.m.callClosure(g, a[0].(*Closure), []Value{Str{s: s}}).(*Term))
		})
		return Tuple{v, g.m.tf.Bool(ok)}
	})
	typ("NumMethod", func(g *G, t types.Type, a []Value) Value { return g.m.i64(int64(len(g.m.methodsOf(t)))) })
	typ("Method", func(g *G, t types.Type, a []Value) Value {
		ms := g.m.methodsOf(t)
		return g.m.reflMethod(t, ms, at(g, a[0], len(ms), "Method"))
	})
	typ("MethodByName", func(g *G, t types.Type, a []Value) Value {
		name := g.m.concStr(a[0].(Str))
		ms := g.m.methodsOf(t)
		for i, s := range ms {
			if s.Obj().Name() == name {
				return Tuple{g.m.reflMethod(t, ms, i), g.m.tf.tru}
			}
		}
		return Tuple{g.m.reflStruct("Method", nil), g.m.tf.fls}
	})
	typ("NumIn", func(g *G, t types.Type, a []Value) Value { return g.m.i64(int64(sig(g, t).Params().Len())) })
	typ("NumOut", func(g *G, t types.Type, a []Value) Value { return g.m.i64(int64(sig(g, t).Results().Len())) })
	typ("In", func(g *G, t types.Type, a []Value) Value {
		p := sig(g, t).Params()
		return g.m.rtype(p.At(at(g, a[0], p.Len(), "In")).Type())
	})
	typ("Out", func(g *G, t types.Type, a []Value) Value {
		p := sig(g, t).Results()
		return g.m.rtype(p.At(at(g, a[0], p.Len(), "Out")).Type())
	})
	typ("IsVariadic", func(g *G, t types.Type, a []Value) Value { return g.m.tf.Bool(sig(g, t).Variadic()) })
	I["(reflect.Kind).String"] = func(g *G, cf *cfunc, a []Value) Value {
		return Str{s: kindNames[g.m.concInt(a[0].(*Term))]}
	}
	I["(reflect.StructField).IsExported"] = func(g *G, cf *cfunc, a []Value) Value {
		return g.m.tf.Bool(g.m.concStr(a[0].(StructV)[1].(Str)) == "")
	}
	I["(reflect.Method).IsExported"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.tf.tru }

	// values
	I["(reflect.Value).IsValid"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.tf.Bool(rvalOf(a[0]) != nil) }
	I["(reflect.Value).Kind"] = func(g *G, cf *cfunc, a []Value) Value {
		if x := rvalOf(a[0]); x != nil {
			return g.m.tf.Const(kindOf(x.t), 64)
		}
		return g.m.tf.Const(0, 64)
	}
	I["(reflect.Value).String"] = func(g *G, cf *cfunc, a []Value) Value {
		x := rvalOf(a[0])
		if x == nil {
			return Str{s: "<invalid Value>"}
		}
		if s, ok := g.m.rget(g, x).(Str); ok {
			return s
		}
		return Str{s: "<" + rtString(x.t) + " Value>"}
	}
	val("Type", func(g *G, x *rval, a []Value) Value { return g.m.rtype(x.t) })
	val("CanInterface", func(g *G, x *rval, a []Value) Value { return g.m.tf.Bool(!x.ro) })
	val("CanAddr", func(g *G, x *rval, a []Value) Value { return g.m.tf.Bool(x.c != nil) })
	val("CanSet", func(g *G, x *rval, a []Value) Value { return g.m.tf.Bool(x.c != nil && !x.ro) })
	val("Interface", func(g *G, x *rval, a []Value) Value {
		if x.ro {
			g.m.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return g.m.rinterface(g, x)
	})
	val("Elem", func(g *G, x *rval, a []Value) Value { return g.m.rvalueOrZero(g.m.relem(g, x)) })
	val("Addr", func(g *G, x *rval, a []Value) Value {
		if x.c == nil {
			g.m.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return g.m.rvalue(&rval{t: g.m.eng.ptrTo(x.t), v: x.c, ro: x.ro})
	})
	val("NumField", func(g *G, x *rval, a []Value) Value { return g.m.i64(int64(str(g, x.t).NumFields())) })
	val("Field", func(g *G, x *rval, a []Value) Value {
		return g.m.rvalue(g.m.rfield(x, g.m.concInt(a[0].(*Term))))
	})
	byIndex := func(g *G, x *rval, idx []int) Value {
		for i, k := range idx {
			if i > 0 && kindOf(x.t) == 22 {
				x = g.m.relem(g, x)
				if x == nil {
					g.m.reflPanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			x = g.m.rfield(x, k)
		}
		return g.m.rvalue(x)
	}
	val("FieldByIndexErr", func(g *G, x *rval, a []Value) Value {
		m := g.m
		for i, v := range m.sliceVals(a[0], types.Typ[types.Int]) {
			if i > 0 && kindOf(x.t) == 22 {
				if x = m.relem(g, x); x == nil {
					e := m.eng.prog.ImportedPackage("errors").Func("New")
					return Tuple{m.rvalueOrZero(nil), m.callFn(g, e, []Value{Str{s: "reflect: indirection through nil pointer to embedded struct field"}}, nil)}
				}
			}
			x = m.rfield(x, m.concInt(v.(*Term)))
		}
		return Tuple{m.rvalue(x), Iface{}}
	})
	val("FieldByIndex", func(g *G, x *rval, a []Value) Value {
		var idx []int
		for _, v := range g.m.sliceVals(a[0], types.Typ[types.Int]) {
			idx = append(idx, g.m.concInt(v.(*Term)))
		}
		return byIndex(g, x, idx)
	})
	named := func(g *G, x *rval, match func(string) bool) Value {
		f, ok := g.m.fieldBy(x.t, match)
		if !ok {
			return g.m.rvalueOrZero(nil)
		}
		var idx []int
		for _, v := range g.m.sliceVals(f.(StructV)[5], types.Typ[types.Int]) {
			idx = append(idx, g.m.concInt(v.(*Term)))
		}
		return byIndex(g, x, idx)
	}
	val("FieldByName", func(g *G, x *rval, a []Value) Value {
		name := g.m.concStr(a[0].(Str))
		return named(g, x, func(s string) bool { return s == name })
	})
	val("FieldByNameFunc", func(g *G, x *rval, a []Value) Value {
		return named(g, x, func(s string) bool {
			return g.m.decide(g.m.callClosure(g, a[0].(*Closure), []Value{Str{s: s}}).(*Term))
		})
	})
	method := func(g *G, x *rval, s *types.Selection) Value {
		m := g.m
		recv := m.rget(g, x)
		sg := noRecv(s.Obj().Type().(*types.Signature))
		var fn *ssa.Function
		if i, ok := recv.(Iface); ok && types.IsInterface(x.t) {
			if i.t == nil {
				m.reflPanic("reflect: Method on nil interface value")
			}
			recv = i.v
			fn = m.lookupMethod(i.t, s.Obj().(*types.Func))
		} else {
			fn = m.eng.prog.MethodValue(s)
		}
		cl := &Closure{nat: func(g *G, args []Value) Value {
			return g.m.callFn(g, fn, append([]Value{recv}, args...), nil)
		}}
		return m.rvalue(&rval{t: sg, v: cl, ro: x.ro})
	}
	val("NumMethod", func(g *G, x *rval, a []Value) Value { return g.m.i64(int64(len(g.m.methodsOf(x.t)))) })
	val("Method", func(g *G, x *rval, a []Value) Value {
		ms := g.m.methodsOf(x.t)
		return method(g, x, ms[at(g, a[0], len(ms), "Method")])
	})
	val("MethodByName", func(g *G, x *rval, a []Value) Value {
		name := g.m.concStr(a[0].(Str))
		for _, s := range g.m.methodsOf(x.t) {
			if s.Obj().Name() == name {
				return method(g, x, s)
			}
		}
		return g.m.rvalueOrZero(nil)
	})
	val("Call", func(g *G, x *rval, a []Value) Value {
		t := reflT(g, "Value")
		return g.m.valueSlice(t, g.m.rcall(g, x, g.m.sliceVals(a[0], t)))
	})
	val("IsNil", func(g *G, x *rval, a []Value) Value { return g.m.tf.Bool(g.m.risnil(g.m.rget(g, x))) })
	val("IsZero", func(g *G, x *rval, a []Value) Value { return g.m.riszero(x.t, g.m.rget(g, x)) })
	val("Comparable", func(g *G, x *rval, a []Value) Value { return g.m.tf.Bool(types.Comparable(x.t)) })
	val("Equal", func(g *G, x *rval, a []Value) Value {
		y := g.m.rmust(a[0], "Equal")
		return g.m.equal(types.NewInterfaceType(nil, nil), g.m.rinterface(g, x), g.m.rinterface(g, y))
	})
	val("Set", func(g *G, x *rval, a []Value) Value {
		if x.ro {
			g.m.reflPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		if x.c == nil {
			g.m.reflPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		v := g.m.rassign(g, g.m.rmust(a[0], "Set"), x.t, "reflect.Value.Set")
		if g.m.race {
			g.m.raceCell(g.fr, x.c, true)
		}
		g.m.store(x.c, v)
		return nil
	})
	set := func(name string, conv func(m *Machine, v Value, t types.Type) Value) {
		val(name, func(g *G, x *rval, a []Value) Value {
			if x.ro || x.c == nil {
				g.m.reflPanic("reflect: reflect.Value." + name + " using unaddressable value or one of an unexported field")
			}
			if g.m.race {
				g.m.raceCell(g.fr, x.c, true)
			}
			g.m.store(x.c, conv(g.m, a[0], x.t))
			return nil
		})
	}
	set("SetString", func(m *Machine, v Value, t types.Type) Value { return v })
	set("SetBool", func(m *Machine, v Value, t types.Type) Value { return v })
	set("SetInt", func(m *Machine, v Value, t types.Type) Value { return m.convert(v, types.Typ[types.Int64], t) })
	set("SetUint", func(m *Machine, v Value, t types.Type) Value { return m.convert(v, types.Typ[types.Uint64], t) })
	val("SetZero", func(g *G, x *rval, a []Value) Value {
		if x.ro || x.c == nil {
			g.m.reflPanic("reflect: reflect.Value.SetZero using unaddressable value or one of an unexported field")
		}
		g.m.store(x.c, g.m.zero(x.t))
		return nil
	})
	val("Bool", func(g *G, x *rval, a []Value) Value { return g.m.rget(g, x) })
	val("Int", func(g *G, x *rval, a []Value) Value {
		return g.m.convert(g.m.rget(g, x), x.t, types.Typ[types.Int64])
	})
	val("Uint", func(g *G, x *rval, a []Value) Value {
		return g.m.convert(g.m.rget(g, x), x.t, types.Typ[types.Uint64])
	})
	val("Len", func(g *G, x *rval, a []Value) Value {
		switch v := g.m.rget(g, x).(type) {
		case SliceV:
			return g.m.i64(int64(v.n))
		case ArrayV:
			return g.m.i64(int64(len(v)))
		case Str:
			return g.m.i64(int64(v.Len()))
		case *MapObj:
			if v == nil {
				return g.m.i64(0)
			}
			return g.m.i64(int64(v.n))
		}
		g.m.unsupported("reflect Len of %s", x.t)
		return nil
	})
	val("Index", func(g *G, x *rval, a []Value) Value {
		i := g.m.concInt(a[0].(*Term))
		if x.c != nil && x.c.kids != nil {
			return g.m.rvalue(&rval{t: elem(g, x.t), c: x.c.kids[at(g, a[0], len(x.c.kids), "Index")], ro: x.ro})
		}
		switch v := g.m.rget(g, x).(type) {
		case SliceV:
			at(g, a[0], v.n, "Index")
			return g.m.rvalue(&rval{t: elem(g, x.t), c: v.arr.cells[v.off+i], ro: x.ro})
		case ArrayV:
			at(g, a[0], len(v), "Index")
			return g.m.rvalue(&rval{t: elem(g, x.t), v: v[i], ro: x.ro})
		}
		g.m.unsupported("reflect Index of %s", x.t)
		return nil
	})
	val("MapKeys", func(g *G, x *rval, a []Value) Value {
		mo, _ := g.m.rget(g, x).(*MapObj)
		var ks []Value
		if mo != nil {
			for _, e := range mo.live() {
				ks = append(ks, g.m.rvalue(&rval{t: x.t.Underlying().(*types.Map).Key(), v: e.k, ro: x.ro}))
			}
		}
		return g.m.valueSlice(reflT(g, "Value"), ks)
	})
	val("MapIndex", func(g *G, x *rval, a []Value) Value {
		mt := x.t.Underlying().(*types.Map)
		mo, _ := g.m.rget(g, x).(*MapObj)
		if mo == nil {
			return g.m.rvalueOrZero(nil)
		}
		e := g.m.mapFind(mo, mt.Key(), g.m.rassign(g, g.m.rmust(a[0], "MapIndex"), mt.Key(), "Value.MapIndex"))
		if e == nil {
			return g.m.rvalueOrZero(nil)
		}
		return g.m.rvalue(&rval{t: mt.Elem(), v: e.v, ro: x.ro})
	})
	val("Convert", func(g *G, x *rval, a []Value) Value {
		t := TI(g, a[0])
		if types.IsInterface(t) {
			return g.m.rvalue(&rval{t: t, v: g.m.rinterface(g, x), ro: x.ro})
		}
		return g.m.rvalue(&rval{t: t, v: g.m.convert(g.m.rget(g, x), x.t, t), ro: x.ro})
	})
	val("Pointer", func(g *G, x *rval, a []Value) Value {
		if c, ok := g.m.rget(g, x).(*Cell); ok {
			if c == nil {
				return g.m.tf.Const(0, 64)
			}
			return g.m.tf.Const(g.m.addrOf(c), 64)
		}
		g.m.unsupported("reflect Pointer of %s", x.t)
		return nil
	})

	// enough for the initialisers of package errors and for context.WithValue
	lite := func(g *G) Value {
		n := g.m.eng.prog.ImportedPackage("internal/reflectlite").Pkg.Scope().Lookup("rtype").Type()
		return Iface{n, g.m.zero(n)}
	}
	I["internal/reflectlite.TypeOf"] = func(g *G, cf *cfunc, a []Value) Value { return lite(g) }
	I["(internal/reflectlite.rtype).Elem"] = func(g *G, cf *cfunc, a []Value) Value { return lite(g) }
	I["(internal/reflectlite.rtype).Comparable"] = func(g *G, cf *cfunc, a []Value) Value { return g.m.tf.tru }
}

func (e *Engine) rtypeCell(m *Machine, t types.Type) *Cell {
	t = types.Unalias(t)
	if c := m.rtypeOf[t]; c != nil {
		return c
	}
	if m.rtypes == nil {
		m.rtypes = map[*Cell]types.Type{}
		m.rtypeOf = map[types.Type]*Cell{}
	}
	for c, x := range m.rtypes {
		if types.Identical(x, t) {
			m.rtypeOf[t] = c
			return c
		}
	}
	c := &Cell{}
	m.rtypes[c] = t
	m.rtypeOf[t] = c
	return c
}
