// Package c28: native messages are passed through unchanged.
package c28

import (
	"context"
	"net/http"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type native struct {
	bodies []string
	bins   []bool
	bad    bool
	ret    error
	c      *neffos.Conn
	ns     *neffos.NSConn
}

func (n *native) handler(ns *neffos.NSConn, m neffos.Message) error {
	n.c, n.ns = ns.Conn, ns
	n.bodies = append(n.bodies, string(m.Body))
	n.bins = append(n.bins, m.SetBinary)
	n.bad = n.bad || !m.IsNative || m.Event != neffos.OnNativeMessage || m.Namespace != "" || m.Room != "" || m.Err != nil
	return n.ret
}

func only(n *native, i int) neffos.ConnHandler {
	e := neffos.Events{neffos.OnNativeMessage: n.handler}
	switch i {
	case 0:
		return e
	case 1:
		return neffos.Namespaces{"": e}
	}
	return neffos.WithTimeout{Events: e}
}

func push(k *hx.Sock, body []byte, bin bool) {
	if bin {
		k.PushBin(body)
	} else {
		k.Push(body)
	}
}

// CheckOnly: with the native callback as the only one, frames of any bytes are given to it, in order, without any handshake.
func CheckOnly() {
	n := &native{}
	h := only(n, nd.Choose("handler", 3))
	k := hx.NewSock()
	client := nd.Bool("client")
	var s *neffos.Server
	if client {
		cl, err := neffos.Dial(nil, func(context.Context, string) (neffos.Socket, error) { return k, nil }, "x", h)
		nd.Assert(err == nil && cl != nil, "a native client does not need an acknowledgement")
	} else {
		s = neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return k, nil }, h)
		c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		nd.Assert(err == nil && c != nil, "upgrade")
	}
	nd.Quiesce()
	nd.Assert(len(k.Take()) == 0, "a native connection sends something by itself")
	a := nd.BytesUpTo("a", nd.Pick(6, 8))
	b := nd.BytesUpTo("b", 2)
	abin, bbin := nd.Bool("abin"), nd.Bool("bbin")
	push(k, a, abin)
	push(k, b, bbin)
	nd.Quiesce()
	var want []string
	var bins []bool
	if len(a) > 0 {
		want, bins = append(want, string(a)), append(bins, abin)
	}
	if len(b) > 0 {
		want, bins = append(want, string(b)), append(bins, bbin)
	}
	nd.Assert(len(n.bodies) == len(want), "number of native messages")
	for i := range want {
		nd.Assert(n.bodies[i] == want[i], "content of a native message")
		nd.Assert(n.bins[i] == bins[i], "type of a native message")
	}
	nd.Assert(!n.bad, "fields of a native message")
	nd.Assert(len(k.Take()) == 0, "a native message is answered")
	nd.Reach("end")
}

// CheckWrite: what is written natively is exactly the body.
func CheckWrite() {
	n := &native{}
	h := neffos.ConnHandler(neffos.Events{neffos.OnNativeMessage: n.handler})
	mixed := nd.Bool("mixed")
	if mixed {
		h = neffos.Events{neffos.OnNativeMessage: n.handler, "e": n.handler}
	}
	client := nd.Bool("client")
	k := hx.NewSock()
	if client {
		if mixed {
			k.Push([]byte("Aid"))
		}
		_, err := hx.DialSock(k, h)
		nd.Assert(err == nil, "dial")
	} else {
		s := neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return k, nil }, h)
		s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		if mixed {
			k.Push([]byte("M"))
		}
	}
	nd.Quiesce()
	if mixed {
		tok := "$5"
		if client {
			tok = "5"
		}
		k.Say(hx.W(tok, "", "", neffos.OnNamespaceConnect, "0", "0", ""))
	}
	k.Say("hi")
	nd.Assert(len(n.bodies) == 1 && n.bodies[0] == "hi", "native message")
	k.Take()
	body := nd.BytesUpTo("body", nd.Pick(4, 6))
	bin := nd.Bool("bin")
	ok := n.c.Write(neffos.Message{Body: body, IsNative: true, SetBinary: bin})
	nd.Assert(ok, "a native message is not written")
	out := k.Take()
	nd.Assert(len(out) == 1 && string(out[0].Body) == string(body), "a native message on the wire")
	nd.Assert((out[0].Typ == neffos.BinaryMessage) == bin, "type of a native message on the wire")
	nd.Reach("end")
}

// wellFormed reports whether a payload has the six separators of a message.
func wellFormed(b []byte) bool {
	n := 0
	for _, c := range b {
		if c == ';' {
			n++
		}
	}
	return n >= 6
}

// CheckMixed: with other events declared as well, after the handshake, exactly the frames that are no well-formed messages are native; without the native callback none is.
func CheckMixed() {
	n := &native{}
	l := &hx.Log{}
	e := l.System("e")
	kind := nd.Choose("kind", 3)
	h := neffos.Namespaces{"": e}
	switch kind {
	case 0:
		e[neffos.OnNativeMessage] = n.handler
	case 1: // declared, in another namespace only
		h["n"] = neffos.Events{neffos.OnNativeMessage: n.handler}
	}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("")
	l.Clear()
	var b []byte
	seven := nd.Bool("seven")
	if seven { // around the number of separators
		b = []byte(nd.StrUpTo("x", 1) + ";;;e;" + nd.StrUpTo("y", 1) + ";")
		b = append(b, nd.BytesUpTo("z", 2)...)
	} else {
		b = nd.BytesUpTo("b", nd.Pick(4, 7))
	}
	bin := nd.Bool("bin")
	push(r.K, b, bin)
	nd.Quiesce()
	isNative := kind == 0 && len(b) > 0 && !wellFormed(b)
	if isNative {
		nd.Assert(len(n.bodies) == 1 && n.bodies[0] == string(b) && n.bins[0] == bin && !n.bad, "a native message")
		nd.Assert(len(l.E) == 0, "a native message is handled by another event")
		nd.Reach("native")
	} else {
		nd.Assert(len(n.bodies) == 0, "a frame is treated as native")
	}
	nd.Assert(!r.C.IsClosed(), "a frame closes the connection")
	nd.Reach("end")
}

// CheckResult: a native callback's error or reply on a native connection does not end it, and the next frame is handled.
func CheckResult() {
	n := &native{}
	switch nd.Choose("ret", 3) {
	case 1:
		n.ret = hx.ErrFake
	case 2:
		n.ret = neffos.Reply([]byte("r"))
	}
	h := only(n, 0)
	k := hx.NewSock()
	if nd.Bool("client") {
		hx.DialSock(k, h)
	} else {
		s := neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return k, nil }, h)
		s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	}
	k.Say("a" + nd.Str("a", 1))
	k.Say("b")
	nd.Assert(len(n.bodies) == 2 && n.bodies[1] == "b", "messages after a native callback's result")
	nd.Assert(!k.IsClosed(), "closed by a native callback's result")
	nd.Reach("end")
}

// CheckNamed: without the native callback in the default namespace, a message that merely names the native event is a message as any other: it is handled, and answered, as one.
func CheckNamed() {
	l := &hx.Log{}
	isNative := 0
	calls := 0
	body := ""
	on := func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event != neffos.OnNativeMessage {
			return nil
		}
		calls++
		if m.IsNative {
			isNative++
		}
		body = string(m.Body)
		return neffos.Reply([]byte("r"))
	}
	e := l.System()
	h := neffos.Namespaces{"": e}
	ns := ""
	switch nd.Choose("where", 3) {
	case 0: // declared in another namespace
		h["n"] = neffos.Events{neffos.OnNativeMessage: on}
		ns = "n"
	case 1: // handled as any other event
		h["n"] = neffos.Events{neffos.OnAnyEvent: on}
		ns = "n"
	case 2:
		e[neffos.OnAnyEvent] = on
	}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("")
	if ns != "" {
		r.Open(ns)
	}
	x := nd.StrUpTo("x", 2)
	tok := ""
	if nd.Bool("question") {
		tok = r.Tok()
	}
	push(r.K, hx.Wire(tok, ns, "", neffos.OnNativeMessage, "0", "0", x), nd.Bool("bin"))
	nd.Quiesce()
	nd.Assert(calls == 1 && body == x, "a message that names the native event is not handled")
	nd.Assert(isNative == 0, "a message that names the native event is treated as native")
	out := r.K.Take()
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, ns, "", neffos.OnNativeMessage, "0", "0", "r"), "answer to a message that names the native event")
	nd.Reach("end")
}
