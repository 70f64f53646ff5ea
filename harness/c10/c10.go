// Package c10: closing a connection.
package c10

import (
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const disconnect, leave, left = "_OnNamespaceDisconnect", "_OnRoomLeave", "_OnRoomLeft"

var names = [...]string{"n", "o"}
var rooms = [...]string{"r", "q"}

type world struct {
	l    hx.Log
	r    *hx.Rig
	ns   [2]*neffos.NSConn
	in   [2]int
	conn int // OnDisconnect calls
	bad  bool
}

func newWorld() *world {
	w := &world{}
	w.l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.IsForced || m.Event == disconnect {
			return errors.New("ignored")
		}
		return nil
	}
	h := neffos.Namespaces{"n": w.l.System("e"), "o": w.l.System("e")}
	w.r = hx.NewRig(nd.Bool("client"), h, &w.l)
	if !w.r.Client {
		w.r.S.OnDisconnect = func(c *neffos.Conn) {
			w.conn++
			w.bad = w.bad || c != w.r.C
		}
	}
	for i, n := range names {
		if i == 0 || nd.Bool("open") {
			w.ns[i] = w.r.Open(n)
			w.in[i] = nd.Choose("rooms", 3)
			for k := 0; k < w.in[i]; k++ {
				w.r.Join(n, rooms[k])
			}
		}
	}
	w.l.Clear()
	return w
}

// closed: everything is cleaned up, once.
func (w *world) closed() {
	r := w.r
	nd.Assert(r.C.IsClosed(), "the connection is not closed")
	nd.Assert(r.K.IsClosed(), "the transport is not closed")
	total := 0
	for i, n := range names {
		nd.Assert(r.C.Namespace(n) == nil, "a namespace is connected after close")
		if w.ns[i] == nil {
			continue
		}
		nd.Assert(len(w.ns[i].Rooms()) == 0, "a room is joined after close")
		ev := hx.Ev(n, "", disconnect, "LF", "")
		nd.Assert(w.l.Count(ev) == 1, "the disconnect event of a connected namespace is not fired exactly once")
		total++
		for k := 0; k < w.in[i]; k++ {
			a, b := hx.Ev(n, rooms[k], leave, "LF", ""), hx.Ev(n, rooms[k], left, "LF", "")
			nd.Assert(w.l.Count(a) == 1 && w.l.Count(b) == 1, "the leave events of a joined room are not fired exactly once")
			nd.Assert(w.l.Index(a) < w.l.Index(b) && w.l.Index(b) < w.l.Index(ev), "order of the leave and disconnect events")
			total += 2
		}
	}
	nd.Assert(len(w.l.E) == total, "other events are fired by close")
	if r.Client {
		select {
		case <-r.Cl.NotifyClose:
		default:
			nd.Fail("NotifyClose is not notified")
		}
	} else {
		nd.Assert(r.S.GetTotalConnections() == 0, "a closed connection is still counted")
		nd.Assert(len(r.S.GetConnections()) == 0, "a closed connection is still registered")
		nd.Assert(w.conn == 1 && !w.bad, "OnDisconnect is not fired exactly once")
	}
	nd.Reach("closed")
}

// unusable: nothing works on a closed connection.
func (w *world) unusable() {
	r := w.r
	nd.Assert(!w.ns[0].Emit("e", nil), "emit after close")
	_, err := w.ns[0].Ask(nil, "e", nil)
	nd.Assert(err != nil, "ask after close")
	_, err = w.ns[0].JoinRoom(nil, "r")
	nd.Assert(err != nil, "join after close")
	if r.Client {
		_, err = r.C.Connect(nil, "n")
		nd.Assert(err != nil, "connect after close")
	}
	nd.Assert(r.C.Namespace("n") == nil, "connected after close")
}

// CheckClose: by this side, by a lost transport, by a failed write; any state.
func CheckClose() {
	w := newWorld()
	switch nd.Choose("how", 4) {
	case 0:
		w.r.C.Close()
	case 1:
		w.r.K.Drop()
	case 2:
		w.r.K.WriteErr = hx.EOF
		w.ns[0].Emit("e", nil)
	case 3:
		if w.r.Client {
			w.r.Cl.Close()
		} else {
			w.r.S.Close()
		}
	}
	nd.Quiesce()
	w.closed()
	// closing again changes nothing
	w.r.C.Close()
	w.r.K.Drop()
	nd.Quiesce()
	w.closed()
	w.unusable()
}

// CheckRace: several reasons to close at once, while a message arrives.
func CheckRace() {
	w := newWorld()
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() { w.r.C.Close() })
	switch nd.Choose("how", 3) {
	case 0:
		nd.Spawn(func() { w.r.C.Close() })
	case 1:
		nd.Spawn(func() { w.r.K.Drop() })
	case 2:
		nd.Spawn(func() { w.ns[0].Emit("e", nil) })
		w.r.K.WriteErr = hx.EOF
	}
	hx.Settle()
	w.closed()
}

// CheckConnectRace: a namespace that connects while the connection closes is
// either disconnected by the close or never connected.
func CheckConnectRace() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("o")
	l.Clear()
	active := nd.Bool("active")
	var ns *neffos.NSConn
	var err error
	returned := false
	if active {
		r.K.OnWrite = func(f hx.Frame) {
			if hx.IsQuestion(f, neffos.OnNamespaceConnect) {
				r.K.Push([]byte(hx.Empty(hx.Token(f))))
			}
		}
	}
	nd.Delays(nd.Pick(2, 3))
	if active {
		nd.Spawn(func() { ns, err = r.C.Connect(nil, "n"); returned = true })
	} else {
		r.K.Push(hx.Wire(r.Tok(), "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	}
	nd.Spawn(func() { r.C.Close() })
	time.Sleep(11 * time.Second) // longer than a server-side Connect waits for the acknowledgement
	nd.Quiesce()
	nd.Assert(r.C.IsClosed(), "not closed")
	nd.Assert(r.C.Namespace("n") == nil, "a namespace is connected after close")
	if active {
		nd.Assert(returned, "Connect does not return after close")
		nd.Assert((ns != nil) != (err != nil), "Connect returns neither a namespace nor an error")
	}
	n := l.Count(hx.Ev("n", "", disconnect, "LF", ""))
	nd.Assert(n <= 1, "disconnect event fired twice")
	if active && ns != nil {
		nd.Assert(n == 1, "a connected namespace is closed without its disconnect event")
		nd.Reach("was connected")
	}
	nd.Reach("end")
}

// CheckJoinRace: a room that is joined, by either side, while the connection closes is either left by the close or never joined.
func CheckJoinRace() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	n := r.Open("n")
	l.Clear()
	active := nd.Bool("active")
	lost := nd.Bool("lost")
	var err error
	returned := !active
	if active {
		r.K.OnWrite = func(f hx.Frame) {
			if hx.IsQuestion(f, neffos.OnRoomJoin) {
				r.K.Push([]byte(hx.Empty(hx.Token(f))))
			}
		}
	}
	tok := r.Tok()
	nd.Delays(nd.Pick(2, 3))
	if active {
		nd.Spawn(func() { _, err = n.JoinRoom(nil, "r"); returned = true })
	} else {
		r.K.Push(hx.Wire(tok, "n", "r", neffos.OnRoomJoin, "0", "0", ""))
	}
	nd.Spawn(func() {
		if lost {
			r.K.Drop()
		} else {
			r.C.Close()
		}
	})
	hx.Settle()
	nd.Assert(r.C.IsClosed() && returned, "not closed, or JoinRoom does not return")
	nd.Assert(n.Room("r") == nil && len(n.Rooms()) == 0, "a room is joined after close")
	joined := l.Count(hx.Ev("n", "r", neffos.OnRoomJoined, "", "")) + l.Count(hx.Ev("n", "r", neffos.OnRoomJoined, "L", ""))
	nd.Assert(joined <= 1 && l.Count(hx.Ev("n", "r", neffos.OnRoomLeft, "LF", "")) == joined && l.Count(hx.Ev("n", "r", neffos.OnRoomLeave, "LF", "")) == joined, "a room joined meanwhile is not left once")
	nd.Assert(!active || err != nil || joined == 1, "JoinRoom succeeds without joining")
	nd.Assert(l.Count(hx.Ev("n", "", disconnect, "LF", "")) == 1, "the disconnect event of the namespace")
	if joined == 1 {
		nd.Reach("joined")
	} else {
		nd.Reach("not joined")
	}
}
