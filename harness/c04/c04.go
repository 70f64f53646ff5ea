// Package c04: events reach a namespace only while it is connected.
package c04

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const bad = "bad namespace"

var names = [...]string{"a", "b", "", "zz"}

// CheckGate: in any state of the connection a message fires an event of its
// namespace exactly when that is connected; a question to one that is not is
// answered with the bad-namespace error, anything else silently dropped.
func CheckGate() {
	l := &hx.Log{}
	h := neffos.Namespaces{"a": l.System("e"), "b": l.System("e"), "": l.System("e")}
	r := hx.NewRig(nd.Bool("client"), h, l)
	var open [4]bool
	seed := false
	if r.Client {
		r.Open("b") // the connection is taken from its event
		seed = true
	}
	open[1] = seed
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		k := nd.Choose("ns", len(names))
		l.Clear()
		switch nd.Choose("op", 5) {
		case 0: // connect
			tok, out := r.Ask(names[k], "", neffos.OnNamespaceConnect, "")
			nd.Assert(len(out) == 1, "a connect must be answered once")
			if k == 3 {
				nd.Assert(string(out[0].Body) == hx.W(tok, "zz", "", neffos.OnNamespaceConnect, "1", "0", bad), "connect to an undeclared namespace is not refused as bad")
			} else {
				nd.Assert(string(out[0].Body) == hx.Empty(tok), "connect is not accepted")
				open[k] = true
			}
		case 1: // disconnect
			tok, out := r.Ask(names[k], "", neffos.OnNamespaceDisconnect, "")
			nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "disconnect is not answered")
			open[k] = false
		case 2: // plain message
			body := nd.Str("body", 1)
			r.K.Say(hx.W("", names[k], "", "e", "0", "0", body))
			nd.Assert(len(r.K.Take()) == 0, "a message is answered")
			if open[k] {
				l.Is("message to a connected namespace", hx.Ev(names[k], "", "e", "", body))
				nd.Reach("fired")
			} else {
				l.Is("message to a namespace that is not connected")
				nd.Reach("dropped")
			}
		case 3: // question
			body := nd.Str("body", 1)
			ev := [...]string{"e", neffos.OnRoomJoin, neffos.OnRoomLeave}[nd.Choose("event", 3)]
			room := ""
			if ev != "e" {
				room = "r"
			}
			tok, out := r.Ask(names[k], room, ev, body)
			if !open[k] {
				nd.Assert(len(out) == 1, "a question to a not connected namespace is not answered")
				nd.Assert(string(out[0].Body) == hx.W(tok, names[k], room, ev, "1", "0", bad), "a question to a not connected namespace is not answered with bad namespace")
				l.Is("question to a namespace that is not connected")
				nd.Reach("answered bad")
			} else if ev == "e" {
				l.Is("question to a connected namespace", hx.Ev(names[k], "", "e", "", body))
			}
		case 4: // an error to a namespace
			r.K.Say(hx.W("", names[k], "", "e", "1", "0", "x"))
			nd.Assert(len(r.K.Take()) == 0, "an error is answered")
			if open[k] {
				l.Is("error to a connected namespace", hx.Ev(names[k], "", "e", "E", "x"))
			} else {
				l.Is("error to a namespace that is not connected")
			}
		}
		for j, n := range names {
			nd.Assert((r.C.Namespace(n) != nil) == open[j], "the set of connected namespaces")
		}
	}
	nd.Reach("end")
}

// CheckLocal: the same when this side connects and disconnects too, with every answer of the peer.
func CheckLocal() {
	l := &hx.Log{}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"a": l.System("e"), "b": l.System("e")}, l)
	open := [2]bool{false, true}
	r.Open("b")
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		k := nd.Choose("ns", 2)
		l.Clear()
		switch nd.Choose("op", 5) {
		case 0:
			r.Ask(names[k], "", neffos.OnNamespaceConnect, "")
			open[k] = true
		case 1:
			r.Ask(names[k], "", neffos.OnNamespaceDisconnect, "")
			open[k] = false
		case 2: // a message, or a question
			tok := ""
			if nd.Bool("asks") {
				tok = r.Tok()
			}
			r.K.Say(hx.W(tok, names[k], "", "e", "0", "0", "x"))
			out := r.K.Take()
			if open[k] {
				l.Is("message to a connected namespace", hx.Ev(names[k], "", "e", "", "x"))
				nd.Reach("fired")
			} else {
				l.Is("message to a namespace that is not connected")
				if tok == "" {
					nd.Assert(len(out) == 0, "a message is answered")
				} else {
					nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, names[k], "", "e", "1", "0", bad), "a question to a not connected namespace is not answered with bad namespace")
				}
				nd.Reach("dropped")
			}
		case 3: // this side connects; the peer accepts or refuses.
			refuses := nd.Bool("refuses")
			r.K.OnWrite = func(f hx.Frame) {
				if refuses {
					r.K.Push([]byte(hx.W(hx.Token(f), names[k], "", neffos.OnNamespaceConnect, "1", "0", "no")))
				} else {
					r.K.Push([]byte(hx.Empty(hx.Token(f))))
				}
			}
			var n *neffos.NSConn
			var err error
			done := hx.Go(func() { n, err = r.C.Connect(nil, names[k]) })
			nd.Quiesce()
			nd.Assert(*done, "Connect does not return")
			switch {
			case open[k]:
				nd.Assert(err == nil && n == r.C.Namespace(names[k]), "a second Connect")
			case refuses:
				nd.Assert(n == nil && err != nil, "a refused Connect")
				nd.Reach("refused")
			default:
				nd.Assert(err == nil && n != nil, "an accepted Connect")
				open[k] = true
				nd.Reach("connects")
			}
			r.K.OnWrite = nil
			r.K.Take()
		case 4: // this side disconnects, from that or from all of the namespaces.
			r.K.OnWrite = func(f hx.Frame) { r.K.Push([]byte(hx.Empty(hx.Token(f)))) }
			var err error
			all := nd.Bool("all")
			done := hx.Go(func() {
				if all {
					err = r.C.DisconnectAll(nil)
				} else if n := r.C.Namespace(names[k]); n != nil {
					err = n.Disconnect(nil)
				}
			})
			nd.Quiesce()
			nd.Assert(*done && err == nil, "Disconnect")
			if all {
				open = [2]bool{}
			} else {
				open[k] = false
			}
			r.K.OnWrite = nil
			r.K.Take()
			nd.Reach("disconnects")
		}
		for j := range open {
			nd.Assert((r.C.Namespace(names[j]) != nil) == open[j], "the set of connected namespaces")
		}
	}
	nd.Reach("end")
}

// CheckName: names are compared exactly: any short name that is not a
// connected one does not pass for it.
func CheckName() {
	l := &hx.Log{}
	h := neffos.Namespaces{"ns": l.System("e"), "n": l.System("e")}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("ns")
	l.Clear()
	name := nd.StrUpTo("name", 3)
	for i := 0; i < len(name); i++ {
		nd.Assume(name[i] != ';')
	}
	tok, out := r.Ask(name, "", "e", "x")
	if name == "ns" {
		l.Is("exact name", hx.Ev("ns", "", "e", "", "x"))
		nd.Reach("exact")
	} else {
		l.Is("another name")
		nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, name, "", "e", "1", "0", bad), "another name is not answered with bad namespace")
		nd.Reach("other")
	}
}
