// Package c32: a struct's methods become its events.
package c32

import (
	"errors"
	"reflect"
	"strings"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type call struct {
	method string
	inst   interface{}
	conn   *neffos.NSConn
	msg    neffos.Message
}

type rec struct{ calls []call }

func (r *rec) add(method string, inst interface{}, c *neffos.NSConn, m neffos.Message) error {
	if r != nil {
		r.calls = append(r.calls, call{method, inst, c, m})
	}
	if string(m.Body) == "err" {
		return errors.New(method)
	}
	return nil
}

var errShared = errors.New("shared")

// static has no connection field: its methods are given the connection.
type static struct {
	R *rec
	n int
}

func (s *static) A(c *neffos.NSConn, m neffos.Message) error    { return s.R.add("A", s, c, m) }
func (s *static) OnA(c *neffos.NSConn, m neffos.Message) error  { return s.R.add("OnA", s, c, m) }
func (s *static) OnB(c *neffos.NSConn, m neffos.Message) error  { return s.R.add("OnB", s, c, m) }
func (s *static) OnnO(c *neffos.NSConn, m neffos.Message) error { return s.R.add("OnnO", s, c, m) }
func (s *static) On(c *neffos.NSConn, m neffos.Message) error   { return s.R.add("On", s, c, m) }
func (s *static) AOn(c *neffos.NSConn, m neffos.Message) error  { return s.R.add("AOn", s, c, m) }
func (s *static) B(m neffos.Message) error                      { return s.R.add("B", s, nil, m) } // another signature
func (s *static) C(c *neffos.NSConn) error                      { return s.R.add("C", s, c, neffos.Message{}) }
func (s *static) D(c *neffos.NSConn, m neffos.Message)          { s.R.add("D", s, c, m) }
func (s *static) E(c *neffos.NSConn, m *neffos.Message) error   { return s.R.add("E", s, c, *m) }
func (s *static) f(c *neffos.NSConn, m neffos.Message) error    { return s.R.add("f", s, c, m) }
func (s *static) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceConnect", s, c, m)
}
func (s *static) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceConnected", s, c, m)
}
func (s *static) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnNamespaceDisconnect", s, c, m)
}
func (s *static) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomJoin", s, c, m)
}
func (s *static) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomJoined", s, c, m)
}
func (s *static) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomLeave", s, c, m)
}
func (s *static) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	return s.R.add("OnRoomLeft", s, c, m)
}

// dynamic has a connection field: each connection gets its own instance.
type dynamic struct {
	R      *rec
	Text   string
	N      int
	On     bool
	Err    error
	Conn   *neffos.NSConn
	List   []byte
	Table  map[string]int
	Func   func() int
	Pair   [2]int
	Conf   conf
	When   time.Time
	Any    interface{}
	Odd    odd
	Odder  odder
	Oddest oddest
	State  int // of the instance when it is zero in the given value

	own   int // never copied
	begin time.Time
	last  conf
}

type conf struct {
	Name string
	size int
	mark mark
}

// their IsZero is not the one of a value that decides itself whether it is filled.
type (
	odd    struct{ v int }
	odder  struct{ v int }
	oddest struct{ v int }
)

func (o odd) IsZero(n int) bool       { return o.v != n }
func (o odder) IsZero() (bool, error) { return true, nil }
func (o oddest) IsZero() string       { return "no" }

// mark decides itself whether it is filled.
type mark struct{ v int }

func (k mark) IsZero() bool { return k.v == 0 }

func (s *dynamic) A(m neffos.Message) error { s.own++; return s.R.add("A", s, s.Conn, m) }
func (s *dynamic) OnA(m neffos.Message) error {
	s.own++
	s.State++
	return s.R.add("OnA", s, s.Conn, m)
}
func (s *dynamic) B(c *neffos.NSConn, m neffos.Message) error { return s.R.add("B", s, c, m) } // another signature
func (s *dynamic) C() error                                   { return s.R.add("C", s, nil, neffos.Message{}) }
func (s *dynamic) d(m neffos.Message) error                   { return s.R.add("d", s, s.Conn, m) }
func (s *dynamic) OnNamespaceConnect(m neffos.Message) error {
	return s.R.add("OnNamespaceConnect", s, s.Conn, m)
}
func (s *dynamic) OnNamespaceConnected(m neffos.Message) error {
	return s.R.add("OnNamespaceConnected", s, s.Conn, m)
}
func (s *dynamic) OnNamespaceDisconnect(m neffos.Message) error {
	return s.R.add("OnNamespaceDisconnect", s, s.Conn, m)
}
func (s *dynamic) OnRoomJoin(m neffos.Message) error   { return s.R.add("OnRoomJoin", s, s.Conn, m) }
func (s *dynamic) OnRoomJoined(m neffos.Message) error { return s.R.add("OnRoomJoined", s, s.Conn, m) }
func (s *dynamic) OnRoomLeave(m neffos.Message) error  { return s.R.add("OnRoomLeave", s, s.Conn, m) }
func (s *dynamic) OnRoomLeft(m neffos.Message) error   { return s.R.add("OnRoomLeft", s, s.Conn, m) }

// bare has a connection field and no callback of a system event.
type bare struct {
	*neffos.NSConn
	R *rec
}

func (s *bare) Namespace() string          { return "n" }
func (s *bare) A(m neffos.Message) error   { return s.R.add("A", s, s.NSConn, m) }
func (s *bare) OnA(m neffos.Message) error { return s.R.add("OnA", s, s.NSConn, m) }

type base struct{ Namespace string }

type withField struct {
	Namespace string
	R         *rec
}

func (s *withField) A(c *neffos.NSConn, m neffos.Message) error { return s.R.add("A", s, c, m) }

type withBase struct {
	R *rec
	base
}

func (s *withBase) A(c *neffos.NSConn, m neffos.Message) error { return s.R.add("A", s, c, m) }

type withPtr struct {
	R *rec
	*base
}

func (s *withPtr) A(c *neffos.NSConn, m neffos.Message) error { return s.R.add("A", s, c, m) }

type withMethod struct {
	Name string
	R    *rec
}

func (s *withMethod) Namespace() string                          { return s.Name }
func (s *withMethod) A(c *neffos.NSConn, m neffos.Message) error { return s.R.add("A", s, c, m) }

// matchers: none, by prefix, trimming a prefix, of the user's own.
func matcher(k int) func(string) (string, bool) {
	switch k {
	case 1:
		return neffos.EventPrefixMatcher("On")
	case 2:
		return neffos.EventTrimPrefixMatcher("On")
	case 3:
		return func(name string) (string, bool) {
			if name == "B" || name == "OnB" {
				return "", false
			}
			return strings.ToLower(name), true
		}
	}
	return nil
}

// expected gives the method that serves an event, given the ones with a callback's signature; "" if none does.
func expected(k int, event string, methods ...string) string {
	for _, m := range methods {
		switch k {
		case 0:
			if event == m {
				return m
			}
		case 1:
			if event == m && strings.HasPrefix(m, "On") {
				return m
			}
		case 2:
			if strings.HasPrefix(m, "On") && event == m[2:] {
				return m
			}
		case 3:
			if m != "OnB" && event == strings.ToLower(m) {
				return m
			}
		}
	}
	return ""
}

func name(label string, n int) string {
	s := nd.StrUpTo(label, n)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != ';' && s[i] != '_' && s[i] != '@') // the escaped ones are of C01
	}
	return s
}

// calls asserts what was called since the last time, on which instance and with which connection.
func (r *rec) is(msg string, want ...string) []call {
	nd.Assert(len(r.calls) == len(want), msg)
	for i, w := range want {
		nd.Assert(r.calls[i].method == w, msg)
	}
	c := r.calls
	r.calls = nil
	return c
}

// life drives one connection of namespace n through every system event and any message.
func life(r *hx.Rig, rc *rec, k int, methods ...string) {
	tok := "$7"
	if r.Client {
		tok = "7"
	}
	K := r.K
	say := func(ns, room, event, body string) {
		K.Say(hx.W(tok, ns, room, event, "0", "0", body))
	}
	event := name("event", nd.Pick(3, 4))
	body := [...]string{"", "err", "x"}[nd.Choose("body", 3)]
	say("n", "", neffos.OnNamespaceConnect, "")
	cs := rc.is("connect", "OnNamespaceConnect", "OnNamespaceConnected")
	c := cs[0].conn
	inst := cs[0].inst
	K.Wrote("connect", hx.Empty(tok))
	say("n", "", event, body)
	if want := expected(k, event, methods...); want != "" {
		cs = append(cs, rc.is("a method's event", want)...)
		if body == "err" {
			K.Wrote("a method's error", hx.W(tok, "n", "", event, "1", "0", want))
		} else {
			K.Wrote("a method's success")
		}
		nd.Reach("served")
	} else {
		rc.is("an event of no method")
		K.Wrote("an event of no method")
		nd.Reach("not served")
	}
	say("n", "r", neffos.OnRoomJoin, "")
	cs = append(cs, rc.is("join", "OnRoomJoin", "OnRoomJoined")...)
	say("n", "r", neffos.OnRoomLeave, "")
	cs = append(cs, rc.is("leave", "OnRoomLeave", "OnRoomLeft")...)
	say("n", "", neffos.OnNamespaceDisconnect, "")
	cs = append(cs, rc.is("disconnect", "OnNamespaceDisconnect")...)
	for _, x := range cs {
		nd.Assert(x.conn == c && x.inst == inst, "a method is called with another connection or on another instance")
		nd.Assert(x.msg.Namespace == "n", "the message")
	}
}

// CheckStatic: every event name, every kind of matcher, both roles, a struct without a connection field.
func CheckStatic() {
	k := nd.Choose("matcher", 4)
	v := &static{R: &rec{}, n: 1}
	s := neffos.NewStruct(v).SetNamespace("n").SetEventMatcher(matcher(k))
	r := hx.NewRig(nd.Bool("client"), s, nil)
	life(r, v.R, k, "A", "OnA", "OnB", "OnnO", "On", "AOn")
	nd.Reach("end")
}

// CheckDynamic: the same of one with a connection field.
func CheckDynamic() {
	k := nd.Choose("matcher", 4)
	v := &dynamic{R: &rec{}}
	s := neffos.NewStruct(v).SetNamespace("n").SetEventMatcher(matcher(k))
	r := hx.NewRig(nd.Bool("client"), s, nil)
	life(r, v.R, k, "A", "OnA")
	nd.Assert(v.Conn == nil && v.own == 0, "the given value serves a connection")
	nd.Reach("end")
}

func sample(label string) (v *dynamic, same func(x *dynamic) bool) {
	v = &dynamic{R: &rec{}, Text: nd.StrUpTo(label+"text", 1), N: nd.Int(label+"n", -5, 5), On: nd.Bool(label + "on")}
	v.Pair[1] = nd.Int(label+"pair", -5, 5)
	v.State = nd.Int(label+"state", 0, 3)
	v.Conf.size = nd.Int(label+"size", 0, 5)
	v.own = nd.Int(label+"own", 0, 5)
	odds := nd.Int(label+"odd", 0, 5)
	v.Odd.v, v.Odder.v, v.Oddest.v = odds, odds, odds
	f := 0
	if nd.Bool(label + "refs") {
		v.Err, v.List, v.Table, v.Any = errShared, []byte("list"), map[string]int{"k": 1}, []int{1}
		v.Func = func() int { f++; return f }
		v.Conf = conf{Name: "conf", size: 2, mark: mark{3}}
		v.When = time.Unix(1, 0)
		v.last.mark = mark{1}
		v.begin = time.Unix(2, 0)
	}
	given := *v
	same = func(x *dynamic) bool {
		ok := x.R == given.R && x.Text == given.Text && x.N == given.N && x.On == given.On && x.Err == given.Err && x.Pair == given.Pair &&
			x.Conf == given.Conf && x.Odd == given.Odd && x.Odder == given.Odder && x.Oddest == given.Oddest && x.When.Equal(given.When) && string(x.List) == string(given.List) && len(x.Table) == len(given.Table) && (x.Any == nil) == (given.Any == nil)
		if given.Func != nil {
			at := f
			ok = ok && x.Func != nil && x.Func() == at+1
		} else {
			ok = ok && x.Func == nil
		}
		return ok
	}
	return v, same
}

// CheckFields: a static field has the given value in every instance, whatever its type and value, an unexported one is the instance's own.
func CheckFields() {
	v, same := sample("")
	r := hx.NewRig(nd.Bool("client"), neffos.NewStruct(v).SetNamespace("n"), nil)
	own, state := v.own, v.State
	for i := 1; i <= 2; i++ {
		tok := "$7"
		if r.Client {
			tok = "7"
		}
		r.K.Say(hx.W(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
		cs := v.R.is("connect", "OnNamespaceConnect", "OnNamespaceConnected")
		x := cs[0].inst.(*dynamic)
		nd.Assert(x != v && same(x), "a static field has another value")
		nd.Assert(x.own == 0 && x.State == state && x.begin.IsZero(), "the instance's own state")
		r.K.Say(hx.W("", "n", "", "OnA", "0", "0", ""))
		cs = append(cs, v.R.is("event", "OnA")...)
		nd.Assert(x.own == 1 && x.State == state+1, "the instance's own state after an event")
		r.K.Say(hx.W(tok, "n", "", neffos.OnNamespaceDisconnect, "0", "0", ""))
		cs = append(cs, v.R.is("disconnect", "OnNamespaceDisconnect")...)
		for _, c := range cs {
			nd.Assert(c.inst == x && c.conn == x.Conn && x.Conn != nil, "another instance or connection")
		}
		r.K.Take()
	}
	nd.Assert(v.own == own && v.State == state && v.Conn == nil && same(v), "the given value changes")
	nd.Reach("end")
}

// CheckInstances: several connections and two namespaces with a struct each, any history: one instance for each time a namespace is connected.
func CheckInstances() {
	rc := &rec{}
	va, vb := &dynamic{R: rc, Text: "a"}, &bare{R: rc}
	var next *hx.Sock
	s := hx.NewServer(neffos.JoinConnHandlers(neffos.NewStruct(va).SetNamespace("m"), neffos.NewStruct(vb)), &next)
	var c [2]*neffos.Conn
	var k [2]*hx.Sock
	for i := range c {
		c[i], k[i] = hx.Attach(s, &next, string(rune('a'+i)))
	}
	spaces := [...]string{"m", "n"}
	var inst [2][2]interface{}
	var seen []interface{}
	var count [2][2]int
	steps := nd.Pick(4, 5)
	for i := 0; i < steps; i++ {
		j, n := 0, nd.Choose("ns", 2)
		if i > 0 { // they are alike
			j = nd.Choose("conn", 2)
		}
		switch nd.Choose("op", 3) {
		case 0:
			k[j].Say(hx.W("$1", spaces[n], "", neffos.OnNamespaceConnect, "0", "0", ""))
			k[j].Wrote("connect", hx.Empty("$1"))
			if inst[j][n] != nil {
				rc.is("connected already")
				break
			}
			if n == 0 {
				cs := rc.is("connect", "OnNamespaceConnect", "OnNamespaceConnected")
				inst[j][n] = cs[0].inst
				nd.Assert(cs[1].inst == cs[0].inst, "another instance")
			} else {
				k[j].Say(hx.W("", "n", "", "A", "0", "0", ""))
				inst[j][n] = rc.is("first", "A")[0].inst
			}
			for _, x := range seen {
				nd.Assert(x != inst[j][n], "an instance serves twice")
			}
			nd.Assert(inst[j][n] != interface{}(va) && inst[j][n] != interface{}(vb), "the given value serves a connection")
			seen = append(seen, inst[j][n])
			count[j][n] = 0
		case 1:
			k[j].Say(hx.W("", spaces[n], "", "OnA", "0", "0", ""))
			if inst[j][n] == nil {
				rc.is("not connected")
				break
			}
			x := rc.is("event", "OnA")[0]
			count[j][n]++
			nd.Assert(x.inst == inst[j][n] && x.conn == c[j].Namespace(spaces[n]), "another instance or connection serves the event")
			if d, ok := x.inst.(*dynamic); ok {
				nd.Assert(d.own == count[j][n] && d.Text == "a" && d.Conn == x.conn, "the instance's state")
			}
		case 2:
			k[j].Say(hx.W("$2", spaces[n], "", neffos.OnNamespaceDisconnect, "0", "0", ""))
			k[j].Take()
			if inst[j][n] != nil && n == 0 {
				nd.Assert(rc.is("disconnect", "OnNamespaceDisconnect")[0].inst == inst[j][n], "another instance")
			} else {
				rc.is("disconnect")
			}
			inst[j][n] = nil
		}
	}
	nd.Reach("end")
}

// CheckTogether: two connections at once, in any schedule.
func CheckTogether() {
	v := &dynamic{R: nil, Text: "a", N: 1, Pair: [2]int{1, 2}}
	var next *hx.Sock
	s := hx.NewServer(neffos.NewStruct(v).SetNamespace("n"), &next)
	var c [2]*neffos.Conn
	var k [2]*hx.Sock
	for i := range c {
		c[i], k[i] = hx.Attach(s, &next, string(rune('a'+i)))
	}
	_ = c
	nd.Delays(nd.Pick(1, 2))
	for i := range c {
		nd.Spawn(func() {
			k[i].Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
			k[i].Push(hx.Wire("$2", "n", "", "A", "0", "0", "err"))
		})
	}
	hx.Settle()
	for i := range c {
		k[i].Wrote("both", hx.Empty("$1"), hx.W("$2", "n", "", "A", "1", "0", "A"))
	}
	nd.Reach("end")
}

// CheckNamespace: the namespace is the one set, else the method's, else the field's, else the empty one.
func CheckNamespace() {
	rc := &rec{}
	ns := name("ns", 2)
	set := name("set", 1)
	var s *neffos.Struct
	kind := nd.Choose("kind", 6)
	switch kind {
	case 0:
		s = neffos.NewStruct(&withField{Namespace: ns, R: rc})
	case 1:
		s = neffos.NewStruct(&withMethod{Name: ns, R: rc})
	case 2:
		s = neffos.NewStruct(&withBase{R: rc, base: base{ns}})
	case 3:
		s = neffos.NewStruct(&static{R: rc})
		ns = ""
	case 4:
		s = neffos.NewStruct(&withPtr{R: rc, base: &base{ns}})
	case 5:
		s = neffos.NewStruct(&withPtr{R: rc})
		ns = ""
	}
	if set != "" {
		s.SetNamespace(set)
		ns = set
	}
	nd.Assert(neffos.NewStruct(s) == s, "a Struct of a Struct")
	if nd.Bool("value") {
		nd.Assert(len(neffos.NewStruct(reflect.ValueOf(&withField{Namespace: ns})).GetNamespaces()[ns]) == 1, "by its reflect.Value")
	}
	all := s.GetNamespaces()
	nd.Assert(len(all) == 1 && all[ns] != nil && len(s.GetNamespaces()) == 1, "the struct's namespaces")
	if kind == 3 {
		nd.Assert(len(all[ns]) == 13, "the struct's events")
	} else {
		nd.Assert(len(all[ns]) == 1 && all[ns]["A"] != nil, "the struct's events")
	}
	err := all[ns]["A"](nil, neffos.Message{Body: []byte("err")})
	nd.Assert(err != nil && err.Error() == "A" && len(s.Events()) == len(all[ns]), "the method's callback")
	nd.Reach("end")
}

// CheckInjector: with an injector every connection gets exactly what it returns, with the connection set.
func CheckInjector() {
	v := &dynamic{R: &rec{}, Text: "given"}
	var made []*dynamic
	var conns []*neffos.NSConn
	n := nd.Int("n", 0, 5)
	text := nd.StrUpTo("text", 1)
	s := neffos.NewStruct(v).SetNamespace("n").SetInjector(func(t reflect.Type, c *neffos.NSConn) reflect.Value {
		nd.Assert(t == reflect.TypeOf(dynamic{}), "the injected type")
		x := &dynamic{R: v.R, Text: text, N: n}
		made = append(made, x)
		conns = append(conns, c)
		return reflect.ValueOf(x)
	})
	r := hx.NewRig(nd.Bool("client"), s, nil)
	tok := "$7"
	if r.Client {
		tok = "7"
	}
	for i := 0; i < 2; i++ {
		r.K.Say(hx.W(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
		r.K.Say(hx.W("", "n", "", "A", "0", "0", ""))
		r.K.Say(hx.W(tok, "n", "", neffos.OnNamespaceDisconnect, "0", "0", ""))
		cs := v.R.is("injected", "OnNamespaceConnect", "OnNamespaceConnected", "A", "OnNamespaceDisconnect")
		nd.Assert(len(made) == i+1, "the injector runs once for each connect")
		x := made[i]
		for _, c := range cs {
			nd.Assert(c.inst == x && c.conn == conns[i] && x.Conn == conns[i], "another instance or connection")
		}
		nd.Assert(x.Text == text && x.N == n && x.own == 1, "the injected fields")
	}
	nd.Reach("end")
}

// CheckRefused: a connect callback's error refuses the namespace, on either side.
func CheckRefused() {
	v := &dynamic{R: &rec{}}
	r := hx.NewRig(nd.Bool("client"), neffos.NewStruct(v).SetNamespace("n"), nil)
	tok := "$7"
	if r.Client {
		tok = "7"
	}
	r.K.Say(hx.W(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", "err"))
	v.R.is("refused", "OnNamespaceConnect")
	r.K.Wrote("refused", hx.W(tok, "n", "", neffos.OnNamespaceConnect, "1", "0", "OnNamespaceConnect"))
	r.K.Say(hx.W("", "n", "", "A", "0", "0", ""))
	v.R.is("not connected")
	nd.Reach("end")
}

// wrong values are refused when the Struct is made.
type none struct{ R *rec }

type onlyNamespace struct{}

func (*onlyNamespace) Namespace() string { return "n" }

type intType int

func (*intType) A(c *neffos.NSConn, m neffos.Message) error { return nil }

// CheckWrong: what cannot be a handler is refused at once.
func CheckWrong() {
	var v interface{}
	switch nd.Choose("kind", 8) {
	case 0:
		v = nil
	case 1:
		v = static{}
	case 2:
		v = &none{}
	case 3:
		v = &onlyNamespace{}
	case 4:
		v = new(intType)
	case 5:
		v = &neffos.NSConn{}
	case 6:
		v = nd.Int("n", 0, 9)
	case 7:
		v = reflect.Value{}
	}
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		neffos.NewStruct(v)
	}()
	nd.Assert(refused, "a value that cannot be a handler is taken")
	nd.Reach("end")
}
