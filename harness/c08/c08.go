// Package c08: disconnecting from a namespace.
package c08

import (
	"context"
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const disconnect, leave, left = "_OnNamespaceDisconnect", "_OnRoomLeave", "_OnRoomLeft"

func setup(l *hx.Log, veto *bool, text *string) (*hx.Rig, *neffos.NSConn, int) {
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == disconnect && *veto {
			return errors.New(*text)
		}
		if m.Event == leave || m.Event == left {
			return errors.New("ignored")
		}
		return nil
	}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	r.Open("o")
	r.Join("o", "r0")
	n := r.Open("n")
	rooms := nd.Choose("rooms", 3)
	for i := 0; i < rooms; i++ {
		r.Join("n", room(i))
	}
	l.Clear()
	return r, n, rooms
}

func room(i int) string { return "r" + string(rune('0'+i)) }

// leaves: every room is left once, forced, leave before left; ns events aside.
func leaves(l *hx.Log, rooms int, flags string, before string) {
	for i := 0; i < rooms; i++ {
		a, b := hx.Ev("n", room(i), leave, flags, ""), hx.Ev("n", room(i), left, flags, "")
		nd.Assert(l.Count(a) == 1, "a room is not left exactly once by a disconnect")
		nd.Assert(l.Count(b) == 1, "the room-left event is not fired exactly once by a disconnect")
		nd.Assert(l.Index(a) < l.Index(b), "left event before leave event")
		if before != "" {
			nd.Assert(l.Index(b) < l.Index(before), "rooms are left after the disconnect event")
		}
	}
}

func gone(r *hx.Rig, n *neffos.NSConn, rooms int) {
	nd.Assert(r.C.Namespace("n") == nil, "still connected after a disconnect")
	nd.Assert(len(n.Rooms()) == 0, "still in a room after a disconnect")
	nd.Assert(!n.Emit("e", nil), "emit after a disconnect")
	nd.Assert(len(r.K.Take()) == 0, "written after a disconnect")
	others(r)
}

func others(r *hx.Rig) {
	o := r.C.Namespace("o")
	nd.Assert(o != nil && o.Room("r0") != nil, "another namespace is affected")
}

// CheckPassive: the other side disconnects; a server-side callback may refuse.
func CheckPassive() {
	l, veto, text := &hx.Log{}, nd.Bool("veto"), nd.StrUpTo("text", 2)
	r, n, rooms := setup(l, &veto, &text)
	if nd.Bool("noquestion") {
		r.K.Say(hx.W("", "n", "", disconnect, "0", "0", ""))
		nd.Assert(len(r.K.Take()) == 0 && len(l.E) == 0 && r.C.Namespace("n") == n, "a disconnect that is not a question has an effect")
		return
	}
	tok, out := r.Ask("n", "", disconnect, "")
	nd.Assert(len(out) == 1, "a disconnect is not answered exactly once")
	ev := hx.Ev("n", "", disconnect, "", "")
	nd.Assert(l.Count(ev) == 1, "disconnect event is not fired exactly once")
	if veto && !r.Client {
		nd.Assert(string(out[0].Body) == hx.W(tok, "n", "", disconnect, "1", "0", text), "a refused disconnect is not answered with the error")
		nd.Assert(len(l.E) == 1, "a refused disconnect fires other events")
		nd.Assert(r.C.Namespace("n") == n, "a refused disconnect disconnects")
		nd.Assert(len(n.Rooms()) == rooms, "a refused disconnect leaves rooms")
		veto = false
		l.Clear()
		tok, out = r.Ask("n", "", disconnect, "")
		nd.Assert(len(out) == 1, "a disconnect is not answered exactly once")
		nd.Reach("refused")
	}
	nd.Assert(string(out[0].Body) == hx.Empty(tok), "an allowed disconnect is not confirmed")
	nd.Assert(len(l.E) == 1+2*rooms, "events of a disconnect")
	before := ""
	if r.Client {
		before = ev
	}
	leaves(l, rooms, "F", before)
	gone(r, n, rooms)
	// once more: confirmed, without events
	l.Clear()
	tok, out = r.Ask("n", "", disconnect, "")
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok) && len(l.E) == 0, "a repeated disconnect")
	// and connect again starts afresh
	n2 := r.Open("n")
	nd.Assert(len(n2.Rooms()) == 0, "rooms survive a disconnect")
	nd.Reach("gone")
}

// CheckActive: this side disconnects; the other may refuse.
func CheckActive() {
	l, veto, text := &hx.Log{}, nd.Bool("veto"), "ignored"
	r, n, rooms := setup(l, &veto, &text)
	var err error
	all := nd.Bool("all")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if all {
		// the other namespace first, then only one remains
		err2 := error(nil)
		d := hx.Go(func() { err2 = r.C.Namespace("o").Disconnect(nil) })
		tok := r.K.Question("disconnect", "o", "", disconnect, "")
		r.K.Say(hx.Empty(tok))
		nd.Assert(*d && err2 == nil, "disconnect of the other")
		l.Clear()
	}
	done := hx.Go(func() {
		if all {
			err = r.C.DisconnectAll(ctx)
		} else {
			err = n.Disconnect(ctx)
		}
	})
	nd.Assert(!*done, "Disconnect returns without an answer")
	nd.Assert(r.C.Namespace("n") == n && len(n.Rooms()) == rooms && len(l.E) == 0, "disconnected before the other side confirms")
	tok := r.K.Question("disconnect", "n", "", disconnect, "")
	switch nd.Choose("answer", 3) {
	case 0:
		r.K.Say(hx.Empty(tok))
		nd.Assert(*done && err == nil, "a confirmed disconnect fails")
		ev := hx.Ev("n", "", disconnect, "L", "")
		nd.Assert(l.Count(ev) == 1, "disconnect event is not fired exactly once")
		nd.Assert(len(l.E) == 1+2*rooms, "events of a disconnect")
		leaves(l, rooms, "LF", ev)
		if all {
			nd.Assert(r.C.Namespace("n") == nil && len(n.Rooms()) == 0, "still connected")
		} else {
			gone(r, n, rooms)
			l.Clear()
			nd.Assert(n.Disconnect(nil) == neffos.ErrBadNamespace, "a second Disconnect")
			nd.Assert(len(r.K.Take()) == 0 && len(l.E) == 0, "a second Disconnect has an effect")
		}
		nd.Reach("confirmed")
		return
	case 1:
		t := nd.StrUpTo("answer", 2)
		r.K.Say(hx.W(tok, "n", "", disconnect, "1", "0", t))
		nd.Assert(*done && err != nil && err.Error() == t, "a refused disconnect does not return the error")
		nd.Reach("refused")
	case 2:
		cancel()
		nd.Quiesce()
		nd.Assert(*done && err == context.Canceled, "cancelled disconnect")
		nd.Reach("cancelled")
	}
	nd.Assert(len(l.E) == 0, "events of a failed disconnect")
	nd.Assert(r.C.Namespace("n") == n && len(n.Rooms()) == rooms, "a failed disconnect disconnects")
}

// CheckAll: DisconnectAll goes through every namespace, stopping at a refusal.
func CheckAll() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System(), "p": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	k := nd.Choose("count", 4)
	names := [...]string{"n", "o", "p"}
	if k == 0 && r.Client {
		return
	}
	for i := 0; i < k; i++ {
		r.Open(names[i])
		if nd.Bool("room") {
			r.Join(names[i], "r0")
		}
	}
	l.Clear()
	refuseAt := nd.Choose("refuse", 4)
	var err error
	done := hx.Go(func() { err = r.C.DisconnectAll(nil) })
	asked := map[string]bool{}
	for i := 0; i < k; i++ {
		nd.Assert(!*done, "DisconnectAll returns early")
		out := r.K.Take()
		nd.Assert(len(out) == 1 && hx.IsQuestion(out[0], disconnect), "DisconnectAll does not ask")
		ns := hx.FieldOf(out[0], 1)
		nd.Assert(!asked[ns], "DisconnectAll asks twice")
		asked[ns] = true
		tok := hx.Token(out[0])
		if i == refuseAt {
			r.K.Say(hx.W(tok, ns, "", disconnect, "1", "0", "no"))
			nd.Assert(*done && err != nil && err.Error() == "no", "refused DisconnectAll")
			nd.Assert(r.C.Namespace(ns) != nil, "a refused namespace is disconnected")
			nd.Reach("refused")
			return
		}
		r.K.Say(hx.Empty(tok))
		nd.Assert(r.C.Namespace(ns) == nil, "a confirmed namespace is still connected")
		nd.Assert(l.Count(hx.Ev(ns, "", disconnect, "L", "")) == 1, "disconnect event")
	}
	nd.Assert(*done && err == nil, "DisconnectAll")
	for i := 0; i < k; i++ {
		nd.Assert(r.C.Namespace(names[i]) == nil, "still connected after DisconnectAll")
	}
	nd.Reach("all")
}

// CheckConfirmed: what the other side asked for has taken effect when it is told so, at every moment after.
func CheckConfirmed() {
	l, veto, text := &hx.Log{}, false, ""
	r, n, rooms := setup(l, &veto, &text)
	seen := false
	nd.Delays(nd.Pick(1, 2))
	r.K.Watch(func() {
		seen = true
		nd.Assert(r.C.Namespace("n") == nil, "a disconnect is confirmed but the namespace is still connected")
		nd.Assert(rooms == 0 || len(n.Rooms()) == 0, "a disconnect is confirmed but a room is still joined")
		nd.Assert(!n.Emit("e", nil), "a message of the namespace is written after its disconnect was confirmed")
	})
	r.K.Say(hx.W(r.Tok(), "n", "", disconnect, "0", "0", ""))
	hx.Settle()
	nd.Assert(seen, "a disconnect is not confirmed")
	others(r)
	nd.Reach("confirmed")
}
