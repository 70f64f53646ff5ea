// Package c09: joining and leaving rooms.
package c09

import (
	"context"
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const join, joined, leave, left = "_OnRoomJoin", "_OnRoomJoined", "_OnRoomLeave", "_OnRoomLeft"

var rooms = [...]string{"r", "q"}

type world struct {
	l     hx.Log
	r     *hx.Rig
	n     *neffos.NSConn
	veto  string // event refused
	text  string
	in    [2]bool
	after bool // after-events return errors
}

func newWorld() *world {
	w := &world{}
	w.l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == w.veto {
			return errors.New(w.text)
		}
		if m.Event == joined || m.Event == left {
			return errors.New("ignored")
		}
		return nil
	}
	h := neffos.Namespaces{"n": w.l.System(), "o": w.l.System()}
	w.r = hx.NewRig(nd.Bool("client"), h, &w.l)
	w.n = w.r.Open("n")
	w.r.Open("o")
	w.r.Join("o", "r")
	return w
}

// state: the joined rooms are exactly the model's.
func (w *world) state() {
	c := 0
	for i, name := range rooms {
		room := w.n.Room(name)
		nd.Assert((room != nil) == w.in[i], "the set of joined rooms")
		if w.in[i] {
			c++
			nd.Assert(room.Name == name && room.NSConn == w.n, "a room's name or namespace")
		}
		nd.Assert(w.r.C.Write(neffos.Message{Namespace: "n", Room: name, Event: "e"}) == w.in[i], "writing to a room")
	}
	nd.Assert(len(w.n.Rooms()) == c, "the list of joined rooms")
	w.r.K.Take()
	nd.Assert(w.r.C.Namespace("o").Room("r") != nil && len(w.r.C.Namespace("o").Rooms()) == 1, "rooms of another namespace")
}

func (w *world) passiveJoin(k int) {
	w.veto = ""
	if nd.Bool("veto") {
		w.veto = join
	}
	tok, out := w.r.Ask("n", rooms[k], join, "")
	nd.Assert(len(out) == 1, "a join is not answered exactly once")
	ok := hx.Empty(tok)
	if w.in[k] {
		nd.Assert(string(out[0].Body) == ok, "a repeated join is not confirmed")
		w.l.Is("repeated join")
	} else if w.veto == join {
		nd.Assert(string(out[0].Body) == hx.W(tok, "n", rooms[k], join, "1", "0", w.text), "a refused join is not answered with the error")
		w.l.Is("refused join", hx.Ev("n", rooms[k], join, "", ""))
		nd.Reach("join refused")
	} else {
		nd.Assert(string(out[0].Body) == ok, "an allowed join is not confirmed")
		w.l.Is("join", hx.Ev("n", rooms[k], join, "", ""), hx.Ev("n", rooms[k], joined, "", ""))
		w.in[k] = true
		nd.Reach("joined")
	}
}

func (w *world) passiveLeave(k int) {
	w.veto = ""
	if nd.Bool("veto") {
		w.veto = leave
	}
	tok, out := w.r.Ask("n", rooms[k], leave, "")
	nd.Assert(len(out) == 1, "a leave is not answered exactly once")
	ok := hx.Empty(tok)
	if !w.in[k] {
		nd.Assert(string(out[0].Body) == ok, "leaving a room never joined is not confirmed")
		w.l.Is("leave of a room never joined")
	} else if w.veto == leave && !w.r.Client {
		nd.Assert(string(out[0].Body) == hx.W(tok, "n", rooms[k], leave, "1", "0", w.text), "a refused leave is not answered with the error")
		w.l.Is("refused leave", hx.Ev("n", rooms[k], leave, "", ""))
		nd.Reach("leave refused")
	} else {
		nd.Assert(string(out[0].Body) == ok, "an allowed leave is not confirmed")
		w.l.Is("leave", hx.Ev("n", rooms[k], leave, "", ""), hx.Ev("n", rooms[k], left, "", ""))
		w.in[k] = false
		nd.Reach("left")
	}
}

func (w *world) activeJoin(k int) {
	w.veto = ""
	if nd.Bool("veto") {
		w.veto = join
	}
	var room *neffos.Room
	var err error
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := hx.Go(func() { room, err = w.n.JoinRoom(ctx, rooms[k]) })
	if w.in[k] {
		nd.Assert(*done && err == nil && room == w.n.Room(rooms[k]), "joining a joined room")
		nd.Assert(len(w.r.K.Take()) == 0, "joining a joined room asks")
		w.l.Is("joining a joined room")
		return
	}
	nd.Assert(!*done && w.n.Room(rooms[k]) == nil, "joined before the other side accepts")
	tok := w.r.K.Question("join", "n", rooms[k], join, "")
	switch nd.Choose("answer", 3) {
	case 0:
		w.r.K.Say(hx.Empty(tok))
		nd.Assert(*done, "join does not return")
		if w.veto == join {
			nd.Assert(room == nil && err != nil && err.Error() == w.text, "a join refused locally")
			w.l.Is("join refused locally", hx.Ev("n", rooms[k], join, "L", ""))
		} else {
			nd.Assert(err == nil && room != nil && room == w.n.Room(rooms[k]), "accepted join")
			w.l.Is("join", hx.Ev("n", rooms[k], join, "L", ""), hx.Ev("n", rooms[k], joined, "L", ""))
			w.in[k] = true
			nd.Reach("active joined")
		}
	case 1:
		w.r.K.Say(hx.W(tok, "n", rooms[k], join, "1", "0", "no"))
		nd.Assert(*done && room == nil && err != nil && err.Error() == "no", "refused join")
		w.l.Is("refused join")
		nd.Reach("active join refused")
	case 2:
		cancel()
		nd.Quiesce()
		nd.Assert(*done && room == nil && err == context.Canceled, "cancelled join")
		w.l.Is("cancelled join")
	}
}

func (w *world) activeLeave(k int) {
	w.veto = ""
	if nd.Bool("veto") {
		w.veto = leave
	}
	if !w.in[k] {
		w.veto = ""
		room := &neffos.Room{NSConn: w.n, Name: rooms[k]}
		nd.Assert(room.Leave(nil) == neffos.ErrBadRoom, "leaving a room never joined")
		nd.Assert(len(w.r.K.Take()) == 0 && len(w.l.E) == 0, "leaving a room never joined has an effect")
		return
	}
	var err error
	room := w.n.Room(rooms[k])
	done := hx.Go(func() { err = room.Leave(nil) })
	nd.Assert(!*done && w.n.Room(rooms[k]) == room, "left before the other side confirms")
	tok := w.r.K.Question("leave", "n", rooms[k], leave, "")
	if nd.Bool("refuse") {
		w.r.K.Say(hx.W(tok, "n", rooms[k], leave, "1", "0", "no"))
		nd.Assert(*done && err != nil && err.Error() == "no", "refused leave")
		w.l.Is("refused leave")
		return
	}
	w.r.K.Say(hx.Empty(tok))
	nd.Assert(*done, "leave does not return")
	if w.veto == leave {
		nd.Assert(err != nil && err.Error() == w.text, "leave refused locally")
		w.l.Is("leave refused locally", hx.Ev("n", rooms[k], leave, "", ""))
		return
	}
	nd.Assert(err == nil, "confirmed leave")
	w.l.Is("leave", hx.Ev("n", rooms[k], leave, "", ""), hx.Ev("n", rooms[k], left, "", ""))
	w.in[k] = false
	nd.Reach("active left")
}

// CheckRooms: any sequence of joins and leaves of either side.
func CheckRooms() {
	w := newWorld()
	w.text = nd.Str("text", 1)
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		k := nd.Choose("room", len(rooms))
		w.l.Clear()
		switch nd.Choose("op", 4) {
		case 0:
			w.passiveJoin(k)
		case 1:
			w.passiveLeave(k)
		case 2:
			w.activeJoin(k)
		case 3:
			w.activeLeave(k)
		}
		w.state()
	}
	nd.Reach("end")
}

// CheckLeaveAll: LeaveAll leaves every room, stopping at a refusal.
func CheckLeaveAll() {
	w := newWorld()
	names := [...]string{"x", "y", "z"}
	k := nd.Choose("count", 4)
	for i := 0; i < k; i++ {
		w.r.Join("n", names[i])
	}
	w.l.Clear()
	refuseAt := nd.Choose("refuse", 4)
	var err error
	done := hx.Go(func() { err = w.n.LeaveAll(nil) })
	asked := map[string]bool{}
	for i := 0; i < k; i++ {
		nd.Assert(!*done, "LeaveAll returns early")
		out := w.r.K.Take()
		nd.Assert(len(out) == 1 && hx.IsQuestion(out[0], leave) && hx.FieldOf(out[0], 1) == "n", "LeaveAll does not ask")
		room := hx.FieldOf(out[0], 2)
		nd.Assert(!asked[room] && w.n.Room(room) != nil, "LeaveAll asks twice")
		asked[room] = true
		if i == refuseAt {
			w.r.K.Say(hx.W(hx.Token(out[0]), "n", room, leave, "1", "0", "no"))
			nd.Assert(*done && err != nil && err.Error() == "no", "refused LeaveAll")
			nd.Assert(w.n.Room(room) != nil && len(w.n.Rooms()) == k-i, "a refused leave leaves")
			nd.Reach("refused")
			return
		}
		w.r.K.Say(hx.Empty(hx.Token(out[0])))
		nd.Assert(w.n.Room(room) == nil && len(w.n.Rooms()) == k-i-1, "a confirmed leave stays")
		a, b := hx.Ev("n", room, leave, "L", ""), hx.Ev("n", room, left, "L", "")
		nd.Assert(w.l.Count(a) == 1 && w.l.Count(b) == 1 && w.l.Index(a) < w.l.Index(b), "events of LeaveAll")
	}
	nd.Assert(*done && err == nil, "LeaveAll")
	nd.Reach("all")
}

// CheckName: room names are compared exactly and survive the wire.
func CheckName() {
	w := newWorld()
	w.l.Clear()
	name := nd.StrUpTo("name", 2)
	for i := 0; i < len(name); i++ {
		nd.Assume(name[i] != ';')
	}
	w.r.Join("n", name)
	w.l.Is("join", hx.Ev("n", name, join, "", ""), hx.Ev("n", name, joined, "", ""))
	other := nd.StrUpTo("other", 2)
	if other == name {
		nd.Assert(w.n.Room(other) != nil, "joined room missing")
	} else {
		nd.Assert(w.n.Room(other) == nil, "another room is joined")
		if other != "" {
			nd.Assert(!w.r.C.Write(neffos.Message{Namespace: "n", Room: other, Event: "e"}), "writing to another room")
		}
	}
	nd.Reach("end")
}

// CheckSimultaneous: two goroutines of this side, and the other side, join the same room at once, whatever the schedule; it is joined once, and everybody gets the same room.
func CheckSimultaneous() {
	w := newWorld()
	l := &w.l
	l.Clear()
	w.r.K.OnWrite = func(f hx.Frame) {
		if hx.IsQuestion(f, join) {
			w.r.K.Push([]byte(hx.Empty(hx.Token(f))))
		}
	}
	remote := nd.Bool("remote")
	tok := w.r.Tok()
	nd.Delays(nd.Pick(2, 3))
	var got [2]*neffos.Room
	returned := 0
	for i := range got {
		if i == 1 && remote {
			w.r.K.Push(hx.Wire(tok, "n", "r", join, "0", "0", ""))
			break
		}
		nd.Spawn(func() {
			room, err := w.n.JoinRoom(nil, "r")
			nd.Assert(err == nil && room != nil, "a simultaneous join fails")
			got[i] = room
			returned++
		})
	}
	hx.Settle()
	room := w.n.Room("r")
	nd.Assert(room != nil && got[0] == room, "the room that a simultaneous join returns")
	nd.Assert(l.Count(hx.Ev("n", "r", joined, "", ""))+l.Count(hx.Ev("n", "r", joined, "L", "")) == 1, "a room is joined twice")
	if remote {
		n := 0
		for _, f := range w.r.K.Take() {
			if string(f.Body) == hx.Empty(tok) {
				n++
			}
		}
		nd.Assert(n == 1, "the other side's join is not confirmed once")
		nd.Reach("remote")
	} else {
		nd.Assert(returned == 2 && got[1] == room, "the room that a simultaneous join returns")
		nd.Reach("local")
	}
}

// CheckConfirmed: what the other side asked for has taken effect when it is told so, at every moment after.
func CheckConfirmed() {
	w := newWorld()
	seen, in := false, nd.Bool("in")
	event := join
	if in {
		w.r.Join("n", "r")
		event = leave
	}
	nd.Delays(nd.Pick(1, 2))
	w.r.K.Watch(func() {
		seen = true
		nd.Assert((w.n.Room("r") == nil) == in, "a join or leave is confirmed before it took effect")
		nd.Assert(w.n.Room("r") != nil == (len(w.n.Rooms()) == 1), "the list of rooms")
		nd.Assert(w.r.C.Write(neffos.Message{Namespace: "n", Room: "r", Event: "e"}) != in, "writing to a room after the join or leave was confirmed")
	})
	w.r.K.Say(hx.W(w.r.Tok(), "n", "r", event, "0", "0", ""))
	hx.Settle()
	nd.Assert(seen, "a join or leave is not confirmed")
	nd.Reach("confirmed")
}

// CheckUnasked: a join or leave that nobody waits for, or that carries no operation, changes nothing.
func CheckUnasked() {
	l := &hx.Log{}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System()}, l)
	n := r.Open("n")
	r.Join("n", "in")
	l.Clear()
	r.K.Take()
	tok, noop := "", "0"
	if nd.Bool("no operation") {
		tok, noop = r.Tok(), "1"
	}
	room := "in"
	if nd.Bool("out") {
		room = "out"
	}
	event := neffos.OnRoomJoin
	if nd.Bool("leave") {
		event = neffos.OnRoomLeave
	}
	r.K.Say(hx.W(tok, "n", room, event, "0", noop, ""))
	l.Is("an unasked change of a room")
	nd.Assert(len(r.K.Take()) == 0, "an unasked change of a room is answered")
	nd.Assert(n.Room("in") != nil && n.Room("out") == nil && len(n.Rooms()) == 1, "an unasked change of a room happens")
	nd.Reach("end")
}
