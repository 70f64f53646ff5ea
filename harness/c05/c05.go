// Package c05: which callback handles a message and what is sent back.
package c05

import (
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// CheckDispatch: the callback of exactly that event runs, else the any-event
// one, else none; its result decides what is sent back.
func CheckDispatch() {
	var fired []string
	var got neffos.Message
	result := nd.Choose("result", 4)
	text := nd.StrUpTo("text", nd.Pick(2, 3))
	ret := func() error {
		switch result {
		case 1:
			return errors.New(text)
		case 2:
			return neffos.Reply([]byte(text))
		case 3:
			return neffos.ErrBadRoom
		}
		return nil
	}
	mk := func(name string) neffos.MessageHandlerFunc {
		return func(ns *neffos.NSConn, m neffos.Message) error {
			fired = append(fired, name)
			got = m
			return ret()
		}
	}
	var conn *neffos.Conn
	ev := neffos.Events{"ab": mk("ab"), "b": mk("b"), neffos.OnNamespaceConnected: func(ns *neffos.NSConn, m neffos.Message) error {
		conn = ns.Conn
		return nil
	}}
	anyEvent := nd.Bool("any")
	l := &hx.Log{}
	client := nd.Bool("client")
	if anyEvent {
		ev[neffos.OnAnyEvent] = mk("any")
		ev[neffos.OnNamespaceConnect] = l.Handler
	}
	other := neffos.Events{"ab": mk("other ab"), "z": mk("other z"), neffos.OnAnyEvent: mk("other any")}
	r := hx.NewRig(client, neffos.Namespaces{"n": ev, "o": other}, l)
	tok, out := r.Ask("n", "", neffos.OnNamespaceConnect, "")
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "connect not accepted")
	nd.Assert(conn != nil, "connected event not fired")
	fired = nil
	// a joined room: the reply goes to it too
	room := ""
	if nd.Bool("room") {
		ev[neffos.OnRoomJoin], ev[neffos.OnRoomJoined] = l.Handler, l.Handler
		room = "r"
		r.Join("n", room)
	}
	event := nd.StrUpTo("event", 2)
	for i := 0; i < len(event); i++ {
		nd.Assume(event[i] != ';')
	}
	wait := ""
	if nd.Bool("wait") {
		wait = r.Tok()
	}
	bin := nd.Bool("bin")
	isErr := nd.Bool("err")
	flag := "0"
	if isErr {
		flag = "1"
	}
	body := nd.StrUpTo("body", 1)
	b := hx.Wire(wait, "n", room, event, flag, "0", body)
	if bin {
		r.K.PushBin(b)
	} else {
		r.K.Push(b)
	}
	nd.Quiesce()
	out = r.K.Take()
	want := ""
	if event == "ab" || event == "b" {
		want = event
	} else if anyEvent {
		want = "any"
	}
	if want == "" {
		nd.Assert(len(fired) == 0, "a callback of another event is fired")
		nd.Assert(len(out) == 0, "something is sent without a callback")
		nd.Reach("none")
		return
	}
	nd.Assert(len(fired) == 1, "the event's callback is not fired exactly once")
	nd.Assert(fired[0] == want, "another callback is fired")
	nd.Assert(nd.All(got.Namespace == "n", got.Room == room, got.Event == event, got.SetBinary == bin, !got.IsLocal, !got.IsForced, !got.IsNative), "the callback's message")
	if isErr {
		nd.Assert(got.Err != nil && got.Err.Error() == body, "the callback's error")
	} else {
		nd.Assert(got.Err == nil && string(got.Body) == body, "the callback's body")
	}
	reply := ""
	switch result {
	case 0:
		nd.Assert(len(out) == 0, "a nil result sends something")
		nd.Reach("nil")
		return
	case 1:
		reply = hx.W(wait, "n", room, event, "1", "0", text)
	case 2:
		reply = hx.W(wait, "n", room, event, "0", "0", text)
	case 3:
		reply = hx.W(wait, "n", room, event, "1", "0", "bad room")
	}
	nd.Assert(len(out) == 1, "a non-nil result is not sent exactly once")
	nd.Assert(string(out[0].Body) == reply, "what is sent back")
	nd.Assert((out[0].Typ == neffos.BinaryMessage) == bin, "binary mode of what is sent back")
	nd.Observe("reply", out[0].Body)
	nd.Reach("reply")
}

// CheckOrder: messages are handled one at a time, in the order they arrive.
func CheckOrder() {
	l := &hx.Log{}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System("a", "b"), "o": l.System("a", "b")}, l)
	r.Open("n")
	r.Open("o")
	l.Clear()
	n := nd.Pick(3, 4)
	var want []string
	for i := 0; i < n; i++ {
		ns := [...]string{"n", "o"}[nd.Choose("ns", 2)]
		ev := [...]string{"a", "b"}[nd.Choose("ev", 2)]
		body := string(rune('0' + i))
		want = append(want, hx.Ev(ns, "", ev, "", body))
		if nd.Bool("bin") {
			r.K.PushBin(hx.Wire("", ns, "", ev, "0", "0", body))
		} else {
			r.K.Push(hx.Wire("", ns, "", ev, "0", "0", body))
		}
	}
	nd.Quiesce()
	l.Is("messages in order", want...)
	nd.Reach("end")
}
