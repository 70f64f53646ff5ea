// Package c03: no input of the other side panics, closes or wedges a connection.
package c03

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

func rig(client bool, stack bool) *hx.Rig {
	l := &hx.Log{}
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "echo" {
			return neffos.Reply(m.Body)
		}
		return nil
	}
	h := neffos.Namespaces{"a": l.System("echo"), "": l.System("echo"), "b": l.Events("echo")}
	r := hx.NewRig(client, h, l)
	if !client && stack {
		r.S.UseStackExchange(hx.NewExchange())
	}
	return r
}

// probe: the connection still answers.
func probe(r *hx.Rig) {
	nd.Quiesce()
	r.K.Take()
	nd.Assert(!r.K.IsClosed(), "the connection is closed by a received message")
	// (re-)connect, any earlier message may have disconnected it.
	tok, out := r.Ask("a", "", neffos.OnNamespaceConnect, "")
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "a connect is not answered after a received message")
	tok, out = r.Ask("a", "", "echo", "hi")
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, "a", "", "echo", "0", "0", "hi"), "a question is not answered after a received message")
	nd.Reach("alive")
}

// CheckBytes: any bytes, at any time.
func CheckBytes() {
	r := rig(nd.Bool("client"), false)
	if nd.Bool("connected") {
		r.Open("a")
	}
	b := nd.BytesUpTo("b", nd.Pick(7, 9))
	if nd.Bool("bin") {
		r.K.PushBin(b)
	} else {
		r.K.Push(b)
	}
	probe(r)
}

var events = [...]string{"", "echo", "nope", neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect,
	neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, neffos.OnNativeMessage, neffos.OnAnyEvent}

func hostile(i string) []byte {
	wait := ""
	switch nd.Choose("wait"+i, 4) {
	case 1:
		wait = nd.Str("wait1"+i, 1)
	case 2:
		wait = nd.Str("wait2"+i, 2) + "1"
	case 3:
		wait = "neffos(0x" + nd.Str("wait3"+i, 1)
	}
	ns := [...]string{"a", "zz", "b", ""}[nd.Choose("ns"+i, nd.Pick(3, 4))]
	room := ""
	if nd.Bool("room" + i) {
		room = "r"
	}
	event := events[nd.Choose("event"+i, len(events))]
	isErr, noop := nd.Str("err"+i, 1), nd.Str("noop"+i, 1)
	body := nd.Str("body"+i, nd.Choose("len"+i, nd.Pick(1, 2)))
	return hx.Wire(wait, ns, room, event, isErr, noop, body)
}

// CheckMessage: any well-formed message, at any time.
func CheckMessage() {
	client := nd.Bool("client")
	r := rig(client, !client && nd.Bool("stack"))
	st := 2
	if nd.Bool("fresh") {
		st = nd.Choose("state", nd.Pick(1, 2))
	}
	if st > 0 {
		r.Open("a")
	}
	if st > 1 {
		r.Join("a", "r")
	}
	r.K.Push(hostile(""))
	probe(r)
}

// CheckTwo: two messages with tokens of the dangerous kinds, back to back.
func CheckTwo() {
	r := rig(nd.Bool("client"), false)
	if nd.Bool("open") {
		r.Open("a")
		r.Join("a", "r")
	}
	toks := [...]string{"", "$1", "1", "$", "#1"}
	all := nd.Thorough()
	sys := [...]string{"echo", neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomLeave, "nope"}
	n := 2
	for i := 0; i < n; i++ {
		room := ""
		if nd.Bool("room") {
			room = "r"
		}
		ns := "a"
		if all && i == 0 && nd.Bool("other") {
			ns = "b"
		}
		isErr := "0"
		if all && nd.Bool("err") {
			isErr = "1"
		}
		r.K.Push(hx.Wire(toks[nd.Choose("tok", nd.Pick(4, 5))], ns, room, sys[nd.Choose("ev", len(sys))], isErr, "0", "x"))
	}
	probe(r)
}

// CheckBeforeAck: any bytes before the acknowledgement; the connection is
// either refused or serves the client.
func CheckBeforeAck() {
	l := &hx.Log{}
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "echo" {
			return neffos.Reply(m.Body)
		}
		return nil
	}
	var sock *hx.Sock
	s := hx.NewServer(neffos.Namespaces{"a": l.System("echo")}, &sock)
	sk := hx.NewSock()
	sock = sk
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	nd.Assert(err == nil, "upgrade refused")
	b := nd.BytesUpTo("b", nd.Pick(3, 4))
	sk.Push(b)
	if len(b) == 0 || b[0] != 'M' {
		sk.Push([]byte("M"))
	}
	nd.Quiesce()
	nd.Assert(!c.IsClosed(), "bytes before the acknowledgement close the connection")
	r := &hx.Rig{S: s, C: c, K: sk, L: l}
	probe(r)
}

// CheckClientBeforeAck: whatever the server sends instead of the
// acknowledgement, the client's Dial does not panic and later succeeds or fails.
func CheckClientBeforeAck() {
	sk := hx.NewSock()
	b := nd.BytesUpTo("b", nd.Pick(3, 4))
	sk.Push(b)
	sk.Push([]byte("Aid"))
	l := &hx.Log{}
	cl, err := hx.DialSock(sk, neffos.Namespaces{"a": l.System("echo")})
	if len(b) > 0 && b[0] == 'H' {
		nd.Assert(err != nil && err.Error() == string(b[1:]), "a refused dial does not return the server's error")
		nd.Assert(sk.IsClosed(), "a refused dial leaves the transport open")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil, "dial fails because of an early message")
	if len(b) > 0 && b[0] == 'A' {
		nd.Assert(cl.ID == string(b[1:]), "client id")
	} else {
		nd.Assert(cl.ID == "id", "client id")
	}
	nd.Reach("accepted")
}
