// Package c12: a question always ends.
package c12

import (
	"context"
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// the ways to ask.
const (
	askNS = iota
	askConn
	connect
	join
	leave
	disconnect
	leaveAll
	disconnectAll
	nAsk
)

// start asks in a way; the rooms r and x are joined.
func start(r *hx.Rig, n *neffos.NSConn, how int, ctx context.Context) error {
	var err error
	switch how {
	case askNS:
		_, err = n.Ask(ctx, "q", nil)
	case askConn:
		_, err = r.C.Ask(ctx, neffos.Message{Namespace: "n", Room: "r", Event: "q"})
	case connect:
		_, err = r.C.Connect(ctx, "o")
	case join:
		_, err = n.JoinRoom(ctx, "z")
	case leave:
		err = n.Room("r").Leave(ctx)
	case disconnect:
		err = n.Disconnect(ctx)
	case leaveAll:
		err = n.LeaveAll(ctx)
	case disconnectAll:
		err = r.C.DisconnectAll(ctx)
	}
	return err
}

func setup(l *hx.Log) (*hx.Rig, *neffos.NSConn) {
	h := neffos.Namespaces{"n": l.System("e", "ask"), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	n := r.Open("n")
	r.Join("n", "r")
	l.Clear()
	return r, n
}

// CheckEnds: no reply ever comes; the question ends by its context, by the
// close of the connection or by the loss of the transport.
func CheckEnds() {
	l := &hx.Log{}
	r, n := setup(l)
	how := nd.Choose("how", nAsk)
	end := nd.Choose("end", 5)
	ctx := context.Context(nil)
	cancel := func() {}
	switch end {
	case 0:
		ctx, cancel = context.WithCancel(context.Background())
	case 1:
		ctx, cancel = context.WithTimeout(context.Background(), 2*time.Second)
	}
	inside := nd.Bool("inside")
	var err error
	done := false
	began := nd.Now()
	var at int64
	run := func() {
		err = start(r, n, how, ctx)
		done = true
		at = nd.Now()
	}
	if inside {
		l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
			if m.Event == "ask" {
				run()
			}
			return nil
		}
		r.K.Say(hx.W("", "n", "", "ask", "0", "0", ""))
	} else {
		nd.Spawn(run)
		nd.Quiesce()
	}
	nd.Assert(!done, "a question ends without reply")
	nd.Assert(len(r.K.Take()) == 1, "a question is not sent")
	switch end {
	case 0:
		cancel()
		nd.Quiesce()
		nd.Assert(done && errors.Is(err, context.Canceled), "a cancelled question")
		nd.Reach("cancelled")
	case 1:
		time.Sleep(1900 * time.Millisecond)
		nd.Assert(!done, "a question ends before its deadline")
		time.Sleep(200 * time.Millisecond)
		nd.Assert(done && errors.Is(err, context.DeadlineExceeded), "a question outlives its deadline")
		nd.Assert(at-began >= int64(2*time.Second), "a question ends before its deadline")
		nd.Reach("deadline")
	case 2:
		if inside {
			nd.Spawn(func() { r.C.Close() })
			nd.Quiesce()
		} else {
			r.C.Close()
			nd.Quiesce()
		}
		nd.Assert(done && err != nil, "a question outlives its connection")
		nd.Reach("closed")
	case 3:
		r.K.Drop()
		nd.Quiesce()
		nd.Assert(done && err != nil, "a question outlives its transport")
		nd.Reach("lost")
	case 4: // the other side closes after some messages
		r.K.Push(hx.Wire("", "n", "", "e", "0", "0", "x"))
		nd.Quiesce()
		r.K.Drop()
		nd.Quiesce()
		nd.Assert(done && err != nil, "a question outlives its transport")
	}
	if end < 2 {
		// the connection is usable
		nd.Assert(!r.C.IsClosed(), "a failed question closes the connection")
		l.Ret = nil
		l.Clear()
		r.K.Say(hx.W("", "n", "", "e", "0", "0", "x"))
		l.Is("messages after a failed question", hx.Ev("n", "", "e", "", "x"))
		d := false
		var msg neffos.Message
		nd.Spawn(func() { msg, err = n.Ask(nil, "q", nil); d = true })
		nd.Quiesce()
		tok := r.K.Question("ask after a failed question", "n", "", "q", "")
		r.K.Say(hx.W(tok, "n", "", "q", "0", "0", "ok"))
		nd.Assert(d && err == nil && string(msg.Body) == "ok", "ask after a failed question")
	}
	cancel()
	nd.Reach("end")
}

// CheckUnsent: a question that cannot be sent fails at once.
func CheckUnsent() {
	l := &hx.Log{}
	r, n := setup(l)
	how := nd.Choose("how", nAsk)
	why := nd.Choose("why", 4)
	ctx := context.Context(nil)
	room := n.Room("r")
	switch why {
	case 0:
		r.K.WriteErr = errors.New("too big")
	case 1:
		r.K.WriteErr = hx.EOF
	case 2:
		r.C.Close()
		nd.Quiesce()
	case 3:
		c, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		time.Sleep(3 * time.Second)
		ctx = c
	}
	if why == 2 && (how == leaveAll || how == disconnectAll) {
		return // nothing to leave anymore
	}
	if how == connect && why == 2 && !r.Client {
		return // waits for the acknowledgement, see C18
	}
	var err error
	done := hx.Go(func() {
		if how == leave {
			err = room.Leave(ctx)
		} else {
			err = start(r, n, how, ctx)
		}
	})
	nd.Assert(*done, "a question that cannot be sent does not return")
	nd.Assert(err != nil, "a question that cannot be sent succeeds")
	nd.Assert(len(r.K.Take()) == 0, "written")
	nd.Reach("end")
}

// CheckRace: close, cancellation and reply race; the question ends.
func CheckRace() {
	l := &hx.Log{}
	r, n := setup(l)
	how := nd.Choose("how", 2)
	kill := nd.Choose("kill", 3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	reply := nd.Bool("reply")
	if reply {
		r.K.OnWrite = func(f hx.Frame) {
			if hx.IsQuestion(f, "q") {
				r.K.Push([]byte(hx.Empty(hx.Token(f))))
			}
		}
	}
	inside := nd.Bool("inside")
	var err error
	done := false
	run := func() {
		err = start(r, n, how, ctx)
		done = true
	}
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "ask" {
			run()
		}
		return nil
	}
	nd.Delays(nd.Pick(2, 3))
	if inside {
		r.K.Push(hx.Wire("", "n", "", "ask", "0", "0", ""))
	} else {
		nd.Spawn(run)
	}
	nd.Spawn(func() {
		switch kill {
		case 0:
			r.C.Close()
		case 1:
			r.K.Drop()
		case 2:
			cancel()
		}
	})
	hx.Settle()
	if inside && !done && kill == 1 {
		// the transport may be lost before the message is read.
		nd.Assert(l.Count(hx.Ev("n", "", "ask", "", "")) == 0, "a question does not end")
		return
	}
	if inside && kill == 0 && l.Count(hx.Ev("n", "", "ask", "", "")) == 0 {
		return
	}
	nd.Assert(done, "a question does not end")
	nd.Assert(reply || err != nil, "a question without reply succeeds")
	nd.Assert(r.C.IsClosed() == (kill != 2), "closed")
	nd.Reach("end")
}

// CheckSeveral: LeaveAll and DisconnectAll ask one question after the other;
// some are answered and the next one never is, it ends as any other.
func CheckSeveral() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System("e"), "o": l.System(), "p": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	n := r.Open("n")
	rooms := nd.Bool("rooms")
	event := neffos.OnNamespaceDisconnect
	if rooms {
		event = neffos.OnRoomLeave
		r.Join("n", "r")
		r.Join("n", "s")
		r.Join("n", "t")
	} else {
		r.Open("o")
		r.Open("p")
	}
	end := nd.Choose("end", 4)
	ctx := context.Context(nil)
	cancel := func() {}
	switch end {
	case 0:
		ctx, cancel = context.WithCancel(context.Background())
	case 1:
		ctx, cancel = context.WithTimeout(context.Background(), 2*time.Second)
	}
	defer cancel()
	var err error
	done := hx.Go(func() {
		if rooms {
			err = n.LeaveAll(ctx)
		} else {
			err = r.C.DisconnectAll(ctx)
		}
	})
	answered := nd.Choose("answered", 3)
	for i := 0; i < answered; i++ {
		out := r.K.Take()
		nd.Assert(!*done && len(out) == 1 && hx.IsQuestion(out[0], event), "one question after the other")
		r.K.Say(hx.Empty(hx.Token(out[0])))
	}
	out := r.K.Take()
	nd.Assert(!*done && len(out) == 1 && hx.IsQuestion(out[0], event), "one question after the other")
	switch end {
	case 0:
		cancel()
		nd.Quiesce()
		nd.Assert(*done && errors.Is(err, context.Canceled), "cancelled while leaving several")
	case 1:
		time.Sleep(2100 * time.Millisecond)
		nd.Assert(*done && errors.Is(err, context.DeadlineExceeded), "leaving several outlives its deadline")
	case 2:
		r.C.Close()
		nd.Quiesce()
		nd.Assert(*done && err != nil, "leaving several outlives its connection")
	case 3:
		r.K.Drop()
		nd.Quiesce()
		nd.Assert(*done && err != nil, "leaving several outlives its transport")
	}
	if end < 2 {
		nd.Assert(!r.C.IsClosed(), "a question given up closes the connection")
		if rooms {
			nd.Assert(len(n.Rooms()) == 3-answered, "rooms after a leave given up")
		}
	}
	nd.Reach("end")
}
