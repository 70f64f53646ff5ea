// Package c26: callbacks may use the connection.
package c26

import (
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// auto makes the played side reply to every question of the connection.
func auto(r *hx.Rig) {
	r.K.OnWrite = func(f hx.Frame) {
		tok := hx.Token(f)
		if tok == "" || tok[0] == '7' || len(tok) > 1 && tok[0] == '$' && tok[1] == '7' {
			return // a reply to the played side's
		}
		r.K.Push([]byte(hx.Empty(tok)))
	}
}

const nActions = 15

// act uses the connection in one of the ways.
func act(r *hx.Rig, ns *neffos.NSConn, how int) {
	c := ns.Conn
	switch how {
	case 0:
		ns.Emit("x", nil)
	case 1:
		ns.Ask(nil, "q", nil)
	case 2:
		ns.JoinRoom(nil, "y")
	case 3:
		if room := ns.Room("r"); room != nil {
			room.Emit("x", nil)
			room.Leave(nil)
		}
	case 4:
		ns.LeaveAll(nil)
	case 5:
		c.Connect(nil, "p")
	case 6:
		c.Connect(nil, "o")
	case 7:
		ns.Disconnect(nil)
	case 8:
		c.DisconnectAll(nil)
	case 9:
		ns.Rooms()
		ns.Room("z")
		c.Namespace("n")
		c.Namespace("o")
	case 10:
		c.Close()
	case 11:
		if s := c.Server(); s != nil {
			s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
			s.Broadcast(ns, neffos.Message{Namespace: "n", Room: "r", Event: "x"})
		}
	case 12:
		c.Write(neffos.Message{Namespace: "n", Room: "r", Event: "x"})
		c.Ask(nil, neffos.Message{Namespace: "n", Event: "q"})
	case 13:
		c.Set("k", c.Increment("i"))
		c.Get("k")
	case 14:
		if n := c.Namespace("n"); n != nil {
			n.JoinRoom(nil, "z")
			n.JoinRoom(nil, "r")
		}
	}
}

var events = []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect,
	neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, "e"}

const nTriggers = 14

func run(actions func(r *hx.Rig, ns *neffos.NSConn)) {
	l := &hx.Log{}
	ev := l.System("e", "x", "q")
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": ev, "o": l.System("e"), "p": l.System()}, l)
	n := r.Open("n")
	r.Join("n", "r")
	r.Join("n", "s")
	auto(r)
	at := events[nd.Choose("event", len(events))]
	trigger := nd.Choose("trigger", nTriggers)
	acted, finished := false, false
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == at && !acted {
			acted = true
			actions(r, ns)
			finished = true
		}
		return nil
	}
	question, local := "", false
	returned := false
	call := func(f func()) {
		local = true
		nd.Spawn(func() { f(); returned = true })
	}
	ask := func(ns, room, event string) {
		question = r.Tok()
		r.K.Push(hx.Wire(question, ns, room, event, "0", "0", ""))
	}
	switch trigger {
	case 0:
		ask("o", "", neffos.OnNamespaceConnect)
	case 1:
		call(func() { r.C.Connect(nil, "o") })
	case 2:
		ask("n", "", neffos.OnNamespaceDisconnect)
	case 3:
		call(func() { n.Disconnect(nil) })
	case 4:
		call(func() { r.C.Close() })
	case 5:
		r.K.Drop()
	case 6:
		ask("n", "z", neffos.OnRoomJoin)
	case 7:
		call(func() { n.JoinRoom(nil, "z") })
	case 8:
		ask("n", "r", neffos.OnRoomLeave)
	case 9:
		room := n.Room("r")
		call(func() { room.Leave(nil) })
	case 10:
		r.K.Push(hx.Wire("", "n", "", "e", "0", "0", ""))
	case 11:
		call(func() { n.LeaveAll(nil) })
	case 12:
		call(func() { r.C.DisconnectAll(nil) })
	case 13:
		if r.S == nil {
			return
		}
		call(func() { r.S.Close() })
	}
	nd.Quiesce()
	if !acted {
		return // the event is not one of this trigger
	}
	time.Sleep(12 * time.Second) // a connect on a closed connection polls
	nd.Quiesce()
	nd.Assert(finished, "an action inside a callback does not return")
	if local {
		nd.Assert(returned, "the operation that fired the callback does not return")
	}
	if question != "" && !r.C.IsClosed() {
		replied := 0
		for _, f := range r.K.Out {
			if hx.Token(f) == question {
				replied++
			}
		}
		nd.Assert(replied == 1, "the question that fired the callback is not answered once")
	}
	if !r.C.IsClosed() {
		// the connection still serves the other side.
		l.Ret = nil
		l.Clear()
		r.K.Take()
		tok, out := r.Ask("p", "", neffos.OnNamespaceConnect, "")
		nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "the connection is stuck after an action inside a callback")
		nd.Reach("alive")
	} else {
		nd.Assert(r.C.Namespace("n") == nil, "a namespace stays connected")
	}
	nd.Reach("end")
}

// CheckOne: every event's callback, for every way to fire it, takes one action.
func CheckOne() {
	how := nd.Choose("action", nActions)
	run(func(r *hx.Rig, ns *neffos.NSConn) { act(r, ns, how) })
}

// CheckTwo: two actions in a row.
func CheckTwo() {
	first := nd.Choose("first", nActions)
	second := nd.Choose("second", nActions)
	if !nd.Thorough() {
		// quick: a question, a leave, a connect or a close and then anything.
		ok := false
		for _, f := range []int{1, 3, 6, 7} {
			ok = ok || first == f
		}
		if !ok {
			return
		}
	}
	run(func(r *hx.Rig, ns *neffos.NSConn) { act(r, ns, first); act(r, ns, second) })
}

// CheckSync: broadcasts from every callback with the synchronous broadcaster, but for a closing server, whose own loop runs the callbacks.
func CheckSync() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e", "x"), "o": l.System()}, next)
	s.SyncBroadcaster = true
	c, k := hx.Attach(s, next, "id")
	hx.ConnectNS(k, "n")
	hx.JoinRoom(k, "n", "r")
	at := events[nd.Choose("event", len(events))]
	acted, finished := false, false
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == at && !acted {
			acted = true
			s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
			s.Broadcast(ns, neffos.Message{Namespace: "n", Event: "x"})
			finished = true
		}
		return nil
	}
	switch nd.Choose("trigger", 7) {
	case 0:
		k.Say(hx.W("$5", "o", "", neffos.OnNamespaceConnect, "0", "0", ""))
	case 1:
		k.Say(hx.W("$5", "n", "", neffos.OnNamespaceDisconnect, "0", "0", ""))
	case 2:
		k.Say(hx.W("$5", "n", "z", neffos.OnRoomJoin, "0", "0", ""))
	case 3:
		k.Say(hx.W("$5", "n", "r", neffos.OnRoomLeave, "0", "0", ""))
	case 4:
		k.Say(hx.W("$5", "n", "", "e", "0", "0", ""))
	case 5:
		k.Drop()
	case 6:
		c.Close()
	}
	hx.Settle()
	nd.Assert(finished == acted, "a broadcast inside a callback does not return")
	l.Ret = nil
	d, k2 := hx.Attach(s, next, "id2")
	_ = d
	hx.ConnectNS(k2, "n")
	nd.Reach("end")
}
