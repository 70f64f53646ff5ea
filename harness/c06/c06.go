// Package c06: what is written, and when writing is refused.
package c06

import (
	"errors"
	"io"
	"net"
	"os"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// CheckWrite: every way to send writes exactly one frame, with everything it
// was given, exactly when the namespace is connected and the room joined.
func CheckWrite() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	o := r.Open("o")
	_ = o
	n := r.Open("n")
	// state of the namespace and of the room when sending.
	st := nd.Choose("state", 4) // 0: disconnected 1: connected 2: joined 3: left again
	var room *neffos.Room
	if st != 1 {
		r.Join("n", "r")
		room = n.Room("r")
		nd.Assert(room != nil, "joined room missing")
	}
	if st == 0 {
		tok, out := r.Ask("n", "", neffos.OnNamespaceDisconnect, "")
		nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "disconnect")
	}
	if st == 3 {
		tok, out := r.Ask("n", "r", neffos.OnRoomLeave, "")
		nd.Assert(len(out) == 1 && string(out[0].Body) == hx.Empty(tok), "leave")
	}
	closed := nd.Bool("closed")
	if closed {
		r.C.Close()
		nd.Quiesce()
	}
	event := nd.StrUpTo("event", 1)
	for i := 0; i < len(event); i++ {
		nd.Assume(event[i] != ';')
	}
	body := nd.StrUpTo("body", nd.Pick(2, 3))
	var ok, bin, inRoom bool
	want := st != 0 && !closed
	wantRoom := ""
	switch nd.Choose("how", 6) {
	case 0:
		ok = n.Emit(event, []byte(body))
	case 1:
		ok, bin = n.EmitBinary(event, []byte(body)), true
	case 2:
		if room == nil {
			return
		}
		ok, inRoom, wantRoom = room.Emit(event, []byte(body)), true, "r"
	case 3:
		bin = nd.Bool("bin")
		ok = r.C.Write(neffos.Message{Namespace: "n", Event: event, Body: []byte(body), SetBinary: bin})
	case 4:
		bin = nd.Bool("bin")
		inRoom, wantRoom = true, "r"
		ok = r.C.Write(neffos.Message{Namespace: "n", Room: "r", Event: event, Body: []byte(body), SetBinary: bin})
	case 5:
		ok = r.C.Write(neffos.Message{Namespace: "undeclared", Event: event, Body: []byte(body)})
		want = false
	}
	if inRoom {
		want = want && st == 2
	}
	nd.Assert(ok == want, "result of sending")
	out := r.K.Take()
	if !want {
		nd.Assert(len(out) == 0, "a refused message is written")
		nd.Reach("refused")
		return
	}
	nd.Assert(len(out) == 1, "a message is not written exactly once")
	nd.Assert(string(out[0].Body) == hx.W("", "n", wantRoom, event, "0", "0", body), "what is written")
	nd.Assert((out[0].Typ == neffos.BinaryMessage) == bin, "frame type")
	nd.Observe("frame", out[0].Body)
	nd.Reach("written")
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// failures of a write; the last ones mean that the transport is gone.
var failures = []error{
	errors.New("too big"),
	&net.OpError{Op: "write", Net: "tcp", Err: timeout{}},
	&net.OpError{Op: "write", Net: "tcp", Err: errors.New("no route")},
	io.EOF,
	io.ErrUnexpectedEOF,
	&net.OpError{Op: "write", Net: "tcp", Err: errors.New("use of closed network connection")},
	&net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: errors.New("broken pipe")}},
}

// CheckFailure: a failed write is reported, whatever way it is sent; a
// transport that is gone closes the connection, another failure does not.
func CheckFailure() {
	l := &hx.Log{}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System()}, l)
	n := r.Open("n")
	r.Join("n", "r")
	room := n.Room("r")
	nd.Assert(room != nil, "joined room missing")
	why := nd.Choose("why", len(failures))
	gone := why >= 3
	r.K.WriteErr = failures[why]
	ok := true
	switch nd.Choose("how", 6) {
	case 0:
		ok = n.Emit("e", []byte("x"))
	case 1:
		ok = n.EmitBinary("e", []byte("x"))
	case 2:
		ok = room.Emit("e", []byte("x"))
	case 3:
		ok = r.C.Write(neffos.Message{Namespace: "n", Event: "e", SetBinary: nd.Bool("bin")})
	case 4:
		var err error
		done := hx.Go(func() { _, err = n.Ask(nil, "q", nil) })
		nd.Assert(*done, "a question that is not written does not return")
		ok = err == nil
	case 5:
		var err error
		done := hx.Go(func() { err = room.Leave(nil) })
		nd.Assert(*done, "a leave that is not written does not return")
		ok = err == nil
	}
	nd.Quiesce()
	nd.Assert(!ok, "a failed write is reported as sent")
	nd.Assert(r.C.IsClosed() == gone, "closed after a failed write")
	nd.Assert(r.K.IsClosed() == gone, "transport closed after a failed write")
	if !gone {
		r.K.WriteErr = nil
		nd.Assert(n.Emit("e", []byte("y")), "write after a failed one")
		r.K.Wrote("write after a failed one", hx.W("", "n", "", "e", "0", "0", "y"))
		nd.Assert(room.Emit("e", []byte("y")), "write to the room after a failed one")
		r.K.Wrote("write to the room after a failed one", hx.W("", "n", "r", "e", "0", "0", "y"))
	} else {
		nd.Assert(!n.Emit("e", []byte("y")), "write after the transport is gone")
	}
	nd.Reach("end")
}

// CheckNil: sending on nothing is refused, not a crash.
func CheckNil() {
	l := &hx.Log{}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System(), "o": l.System()}, l)
	r.Open("o")
	n := r.C.Namespace("n")
	nd.Assert(n == nil, "namespace that was never connected")
	nd.Assert(!n.Emit("e", nil), "Emit on a missing namespace")
	nd.Assert(!n.EmitBinary("e", nil), "EmitBinary on a missing namespace")
	_, err := n.Ask(nil, "e", nil)
	nd.Assert(err == neffos.ErrWrite, "Ask on a missing namespace")
	_, err = n.JoinRoom(nil, "r")
	nd.Assert(err == neffos.ErrWrite, "JoinRoom on a missing namespace")
	nd.Assert(n.Room("r") == nil, "Room on a missing namespace")
	nd.Assert(n.LeaveAll(nil) == nil && n.Disconnect(nil) == nil, "leaving a missing namespace")
	nd.Assert(len(r.K.Take()) == 0, "written on a missing namespace")
	nd.Reach("end")
}
