// Package c07: connecting to a namespace.
package c07

import (
	"context"
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const connect, connected = "_OnNamespaceConnect", "_OnNamespaceConnected"

// vetoer refuses the connect event while on.
type vetoer struct {
	l    hx.Log
	on   bool
	text string
}

func (v *vetoer) handler() {
	v.l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == connect && v.on {
			return errors.New(v.text)
		}
		if m.Event == connected {
			return errors.New("ignored")
		}
		return nil
	}
}

// CheckPassive: the other side asks to connect, any number of times, with the
// local callback accepting or refusing.
func CheckPassive() {
	v := &vetoer{}
	v.handler()
	h := neffos.Namespaces{"n": v.l.System(), "o": v.l.System()}
	r := hx.NewRig(nd.Bool("client"), h, &v.l)
	if r.Client {
		r.Open("o")
	}
	steps := nd.Pick(3, 4)
	open := false
	for i := 0; i < steps; i++ {
		v.l.Clear()
		switch nd.Choose("op", 4) {
		case 0: // ask to connect
			v.on = nd.Bool("veto")
			v.text = nd.Str("text", 1)
			tok, out := r.Ask("n", "", connect, "")
			nd.Assert(len(out) == 1, "a connect is not answered exactly once")
			switch {
			case open:
				nd.Assert(string(out[0].Body) == hx.Empty(tok), "a repeated connect is not accepted")
				v.l.Is("repeated connect")
				nd.Reach("repeated")
			case v.on:
				nd.Assert(string(out[0].Body) == hx.W(tok, "n", "", connect, "1", "0", v.text), "a refused connect is not answered with the callback's error")
				v.l.Is("refused connect", hx.Ev("n", "", connect, "", ""))
				nd.Reach("refused")
			default:
				nd.Assert(string(out[0].Body) == hx.Empty(tok), "an allowed connect is not accepted")
				v.l.Is("connect", hx.Ev("n", "", connect, "", ""), hx.Ev("n", "", connected, "", ""))
				open = true
				nd.Reach("accepted")
			}
		case 1: // not a question: ignored
			v.on = false
			r.K.Say(hx.W("", "n", "", connect, "0", "0", ""))
			nd.Assert(len(r.K.Take()) == 0 && len(v.l.E) == 0, "a connect that is not a question has an effect")
		case 2: // undeclared
			v.on = false
			tok, out := r.Ask("zz", "", connect, "")
			nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, "zz", "", connect, "1", "0", "bad namespace"), "undeclared namespace")
			v.l.Is("undeclared namespace")
			nd.Assert(r.C.Namespace("zz") == nil, "undeclared namespace connected")
		case 3: // disconnect
			tok, out := r.Ask("n", "", neffos.OnNamespaceDisconnect, "")
			nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "disconnect")
			open = false
		}
		nd.Assert((r.C.Namespace("n") != nil) == open, "connected namespaces")
	}
	nd.Reach("end")
}

// CheckActive: this side asks to connect.
func CheckActive() {
	v := &vetoer{}
	v.handler()
	h := neffos.Namespaces{"n": v.l.System(), "o": v.l.System()}
	r := hx.NewRig(nd.Bool("client"), h, &v.l)
	r.Open("o")
	v.l.Clear()
	v.text = nd.StrUpTo("text", 1)
	v.on = nd.Bool("veto")
	name := "n"
	if nd.Bool("undeclared") {
		name = "zz"
	}
	var ns *neffos.NSConn
	var err error
	ctx, cancel := context.WithCancel(context.Background())
	done := hx.Go(func() { ns, err = r.C.Connect(ctx, name) })
	if name == "zz" {
		nd.Assert(*done && ns == nil && err == neffos.ErrBadNamespace, "connect to an undeclared namespace")
		nd.Assert(len(r.K.Take()) == 0, "connect to an undeclared namespace is sent")
		v.l.Is("undeclared")
		nd.Reach("undeclared")
		return
	}
	if v.on {
		nd.Assert(*done && ns == nil && err != nil && err.Error() == v.text, "a connect refused locally")
		nd.Assert(len(r.K.Take()) == 0, "a connect refused locally is sent")
		v.l.Is("refused locally", hx.Ev("n", "", connect, "L", ""))
		nd.Assert(r.C.Namespace("n") == nil, "connected although refused")
		nd.Reach("refused locally")
		return
	}
	nd.Assert(!*done, "Connect returns without the other side's answer")
	nd.Assert(r.C.Namespace("n") == nil, "connected before the other side accepts")
	tok := r.K.Question("connect", "n", "", connect, "")
	v.l.Is("asked", hx.Ev("n", "", connect, "L", ""))
	v.l.Clear()
	switch nd.Choose("answer", 5) {
	case 0:
		r.K.Say(hx.Empty(tok))
		nd.Assert(*done && err == nil && ns != nil, "accepted connect")
		nd.Assert(r.C.Namespace("n") == ns && ns.Conn == r.C, "the returned namespace is not the connected one")
		v.l.Is("accepted", hx.Ev("n", "", connected, "L", ""))
		v.l.Clear()
		ns2, err := r.C.Connect(nil, "n")
		nd.Assert(ns2 == ns && err == nil, "a second Connect returns another namespace")
		nd.Assert(len(r.K.Take()) == 0 && len(v.l.E) == 0, "a second Connect has an effect")
		// usable at once
		nd.Assert(ns.Emit("e", []byte("x")), "emit after Connect")
		r.K.Wrote("emit after Connect", hx.W("", "n", "", "e", "0", "0", "x"))
		nd.Reach("accepted")
		return
	case 1:
		text := nd.StrUpTo("answer", 2)
		r.K.Say(hx.W(tok, "n", "", connect, "1", "0", text))
		nd.Assert(*done && err != nil && err.Error() == text, "a refused connect does not return the other side's error")
		nd.Reach("refused")
	case 2:
		r.K.Say(hx.W(tok, "n", "", connect, "1", "0", "bad namespace"))
		nd.Assert(*done && err == neffos.ErrBadNamespace, "bad namespace of the other side")
	case 3:
		cancel()
		nd.Quiesce()
		nd.Assert(*done && err == context.Canceled, "cancelled connect")
		r.K.Say(hx.Empty(tok)) // late
		nd.Reach("cancelled")
	case 4:
		r.K.Drop()
		nd.Quiesce()
		nd.Assert(*done && err != nil, "connect on a lost connection")
		nd.Reach("lost")
	}
	nd.Assert(ns == nil, "a failed Connect returns a namespace")
	nd.Assert(r.C.Namespace("n") == nil, "connected although refused")
	for _, e := range v.l.E {
		nd.Assert(e != hx.Ev("n", "", connected, "L", ""), "connected event of a failed Connect")
	}
	cancel()
}

// CheckTogether: simultaneous Connect calls, of this side and of the other,
// connect the namespace once.
func CheckTogether() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("o")
	l.Clear()
	n := nd.Pick(2, 2)
	var ns [3]*neffos.NSConn
	var errs [3]error
	var done [3]bool
	// the other side answers every question
	r.K.OnWrite = func(f hx.Frame) {
		if hx.IsQuestion(f, connect) {
			r.K.Push([]byte(hx.Empty(hx.Token(f))))
		}
	}
	theirs := nd.Bool("theirs")
	nd.Delays(nd.Pick(2, 3))
	for i := 0; i < n; i++ {
		nd.Spawn(func() {
			ns[i], errs[i] = r.C.Connect(nil, "n")
			done[i] = true
		})
	}
	tok := r.Tok()
	if theirs {
		r.K.Push(hx.Wire(tok, "n", "", connect, "0", "0", ""))
	}
	hx.Settle()
	for i := 0; i < n; i++ {
		nd.Assert(done[i] && errs[i] == nil && ns[i] != nil, "a simultaneous Connect fails")
		nd.Assert(ns[i] == r.C.Namespace("n"), "a simultaneous Connect returns another namespace")
	}
	fired := l.Count(hx.Ev("n", "", connected, "L", "")) + l.Count(hx.Ev("n", "", connected, "", ""))
	nd.Assert(fired == 1, "connected event is not fired exactly once")
	if theirs {
		answers := 0
		for _, f := range r.K.Take() {
			if string(f.Body) == hx.Empty(tok) {
				answers++
			}
		}
		nd.Assert(answers == 1, "the other side's connect is not answered exactly once")
	}
	nd.Reach("end")
}

// CheckConfirmed: the namespace is connected when the other side is told so, at every moment after.
func CheckConfirmed() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("o")
	seen := false
	nd.Delays(nd.Pick(1, 2))
	r.K.Watch(func() {
		seen = true
		n := r.C.Namespace("n")
		nd.Assert(n != nil, "a connect is confirmed before the namespace is connected")
		nd.Assert(n.Emit("e", nil), "a message is not written to a namespace that is confirmed")
	})
	r.K.Say(hx.W(r.Tok(), "n", "", connect, "0", "0", ""))
	hx.Settle()
	nd.Assert(seen, "a connect is not confirmed")
	nd.Reach("confirmed")
}
