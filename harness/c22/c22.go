// Package c22: errors keep their identity across the wire.
package c22

import (
	"errors"
	"io"
	"net"
	"os"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// resolver matches every text with its prefix.
type resolver struct{ prefix string }

func (r *resolver) Error() string { return "resolver" }
func (r *resolver) ResolveError(text string) bool {
	return len(text) >= len(r.prefix) && text[:len(r.prefix)] == r.prefix
}

func decode(text string) error {
	return neffos.DeserializeMessage(neffos.TextMessage, hx.Wire("", "n", "", "e", "1", "0", text), false, false).Err
}

// CheckKnown: a text arrives as the first known error it is the text of, else as an error with exactly that text.
func CheckKnown() {
	a := errors.New(nd.StrUpTo("a", 2))
	neffos.RegisterKnownError(a)
	r := &resolver{nd.Str("prefix", 2)}
	with := nd.Bool("resolver")
	if with {
		neffos.RegisterKnownError(r)
	}
	b := errors.New(nd.StrUpTo("b", 1) + "b")
	neffos.RegisterKnownError(b)
	if nd.Bool("again") {
		neffos.RegisterKnownError(a)
	}
	text := nd.StrUpTo("text", nd.Pick(3, 4))
	err := decode(text)
	nd.Assert(err != nil, "an error arrives as none")
	switch {
	case text == a.Error():
		nd.Assert(err == a, "a registered error")
		nd.Reach("a")
	case with && r.ResolveError(text):
		nd.Assert(err == error(r), "an error with its own matching")
		nd.Reach("resolver")
	case text == b.Error():
		nd.Assert(err == b, "a registered error")
		nd.Reach("b")
	default:
		nd.Assert(err != a && err != b && err != error(r), "an unknown text arrives as a registered error")
		nd.Assert(err.Error() == text, "text of an unknown error")
		for _, k := range []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload} {
			nd.Assert(err != k, "an unknown text arrives as a built-in error")
		}
	}
	nd.Reach("end")
}

// CheckBuiltin: the built-in errors arrive as themselves, and a text that differs from one in any one byte, or is cut short or longer, does not.
func CheckBuiltin() {
	known := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload}
	k := known[nd.Choose("known", 4)]
	text := []byte(k.Error())
	same := true
	switch nd.Choose("how", 3) {
	case 0:
		i := nd.Choose("at", len(text))
		x := nd.Byte("byte")
		same = x == text[i]
		text[i] = x
	case 1:
		text = text[:nd.Choose("len", len(text))]
		same = false
	case 2:
		text = append(text, nd.Byte("byte"))
		same = false
	}
	err := decode(string(text))
	nd.Assert(err.Error() == string(text), "text of an error")
	nd.Assert((err == k) == same, "a built-in error is recognised exactly by its text")
	nd.Reach("end")
}

// CheckSent: an error returned by a callback, known or not, reaches the asker on the other side as that value, body and all else untouched.
func CheckSent() {
	custom := errors.New("cu" + nd.Str("custom", 1))
	neffos.RegisterKnownError(custom)
	unknown := errors.New("un" + nd.StrUpTo("unknown", nd.Pick(2, 3)))
	all := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, custom, unknown}
	i := nd.Choose("which", len(all))
	l := &hx.Log{Ret: func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "q" {
			return all[i]
		}
		return nil
	}}
	// the frame a server or client sends...
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System("q")}, l)
	r.Open("n")
	tok, out := r.Ask("n", "", "q", "x")
	nd.Assert(len(out) == 1, "number of frames sent for an error")
	nd.Assert(string(out[0].Body) == hx.W(tok, "n", "", "q", "1", "0", all[i].Error()), "frame sent for an error")
	// ...and how the asker on the other side gets it.
	l2 := &hx.Log{}
	r2 := hx.NewRig(!r.Client, neffos.Namespaces{"n": l2.System()}, l2)
	n := r2.Open("n")
	var err error
	done := hx.Go(func() { _, err = n.Ask(nil, "q", []byte("x")) })
	t2 := r2.K.Question("ask", "n", "", "q", "x")
	r2.K.Say(hx.W(t2, "n", "", "q", "1", "0", all[i].Error()))
	nd.Assert(*done && err != nil, "a failed question")
	if i < 5 {
		nd.Assert(err == all[i], "a known error arrives as itself")
	} else {
		nd.Assert(err.Error() == all[i].Error(), "an unknown error arrives with its text")
	}
	nd.Reach("end")
}

type timeout struct{ is bool }

func (t timeout) Error() string   { return "i/o timeout" }
func (t timeout) Timeout() bool   { return t.is }
func (t timeout) Temporary() bool { return t.is }

// CheckClasses: errors of a closed transport and timeouts are classified as such and nothing else is.
func CheckClasses() {
	inner := nd.Choose("inner", 6)
	var e error
	isClose, isTimeout := false, false
	switch inner {
	case 0:
		e = nil
	case 1:
		e = &os.SyscallError{Syscall: "read", Err: errors.New(nd.StrUpTo("text", 2))}
		isClose = true
	case 2:
		e = timeout{true}
		isTimeout = true
	case 3:
		e = timeout{false}
	case 4:
		e = errors.New("use of closed network connection")
		isClose = true
	case 5:
		e = errors.New(nd.StrUpTo("text", 3))
	}
	var err error
	switch nd.Choose("outer", 7) {
	case 0:
		err = &net.OpError{Op: "read", Net: "tcp", Err: e}
		if e == nil {
			// Error() and Timeout() of a net.OpError without an inner one are not defined.
			nd.Assert(!neffos.IsCloseError(err), "an empty network error is a close")
			return
		}
	case 1:
		if e == nil {
			isClose, isTimeout = false, false
		} else {
			isClose, isTimeout = false, false
		}
		err = e
	case 2:
		err, isClose, isTimeout = io.EOF, true, false
	case 3:
		err, isClose, isTimeout = io.ErrUnexpectedEOF, true, false
	case 4:
		err, isClose, isTimeout = neffos.CloseError{Code: 1}, true, false
	case 5:
		err, isClose, isTimeout = neffos.ErrWrite, false, false
	case 6:
		err, isClose, isTimeout = nil, false, false
	}
	nd.Assert(neffos.IsCloseError(err) == isClose, "IsCloseError")
	nd.Assert(neffos.IsTimeoutError(err) == isTimeout, "IsTimeoutError")
	nd.Assert(neffos.IsDisconnectError(err) == (isClose || isTimeout), "IsDisconnectError")
	nd.Assert(!neffos.IsTryingToReconnect(err), "IsTryingToReconnect")
	nd.Reach("end")
}
