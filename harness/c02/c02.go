// Package c02: the decoder is total and exact.
package c02

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type ref struct {
	invalid, native             bool
	wait, ns, room, event, body string
	isErr                       bool
}

// decode is the documented format: six separators, the rest is the body.
func decode(b []byte, allowNative, onlyNative bool) (r ref) {
	if len(b) == 0 {
		r.invalid = true
		return
	}
	if onlyNative {
		r.native, r.body = true, string(b)
		return
	}
	var cut [6]int
	n := 0
	for i := 0; i < len(b) && n < 6; i++ {
		if b[i] == ';' {
			cut[n] = i
			n++
		}
	}
	if n < 6 {
		if allowNative {
			r.native, r.body = true, string(b)
		} else {
			r.invalid = true
		}
		return
	}
	s := string(b)
	r.wait, r.ns, r.room, r.event = s[:cut[0]], s[cut[0]+1:cut[1]], s[cut[1]+1:cut[2]], s[cut[2]+1:cut[3]]
	r.isErr = s[cut[3]+1:cut[4]] == "1"
	r.body = s[cut[5]+1:]
	return
}

func check(b []byte, bin, allow, only bool) ref {
	typ := neffos.MessageType(neffos.TextMessage)
	if bin {
		typ = neffos.BinaryMessage
	}
	r := decode(b, allow, only)
	m := neffos.DeserializeMessage(typ, b, allow, only)
	nd.Assert(m.SetBinary == bin, "binary flag")
	nd.Assert(nd.All(m.To == "", !m.IsForced, !m.IsLocal), "local-only fields set from the wire")
	if r.invalid {
		nd.Assert(nd.All(m.Namespace == "", m.Room == "", m.Event == "", len(m.Body) == 0, m.Err == nil, !m.IsNative), "invalid payload decoded to something")
		nd.Assert(nd.All(!m.IsWait(false), !m.IsWait(true)), "invalid payload is a question")
		nd.Reach("invalid")
		return r
	}
	nd.Assert(m.IsNative == r.native, "native flag")
	if r.native {
		nd.Assert(nd.All(m.Event == neffos.OnNativeMessage, m.Namespace == "", m.Room == "", string(m.Body) == r.body, m.Err == nil), "native message decoded wrong")
		nd.Assert(!m.IsWait(false) && !m.IsWait(true), "native message is a question")
		nd.Reach("native")
		return r
	}
	nd.Assert(m.Namespace == r.ns, "namespace")
	nd.Assert(m.Room == r.room, "room")
	nd.Assert(m.Event == r.event, "event")
	if r.isErr {
		nd.Assert(m.Err != nil, "error flag set but no error")
		nd.Assert(m.Err.Error() == r.body, "error text")
		nd.Assert(len(m.Body) == 0, "error with a body")
	} else {
		nd.Assert(m.Err == nil, "error without the error flag")
		nd.Assert(string(m.Body) == r.body, "body")
	}
	w := r.wait
	switch {
	case w == "":
		nd.Assert(!m.IsWait(false) && !m.IsWait(true), "a message without token is a question")
	case w[0] == '$':
		nd.Assert(!m.IsWait(false), "a client's question is a reply for the server")
		nd.Assert(m.IsWait(true), "a reply to a client's question is not one for the client")
	default:
		nd.Assert(m.IsWait(false) && m.IsWait(true), "a token is ignored")
	}
	nd.Assert(m.FromStackExchange == (len(w) > 2 && w[1] == '!'), "stackexchange mark")
	nd.Assert(m.FromExplicit == "", "excluded connection from a short token")
	nd.Reach("valid")
	return r
}

// CheckBytes: any payload of up to n bytes.
func CheckBytes() {
	b := nd.BytesUpTo("b", nd.Pick(8, 10))
	allow := nd.Bool("allow")
	check(b, nd.Bool("bin"), allow, allow && nd.Bool("only"))
}

// CheckFields: any short fields, in place.
func CheckFields() {
	k := nd.Pick(1, 2)
	b := []byte(nd.StrUpTo("wait", 3))
	for _, f := range [...]string{"ns", "room", "event", "err", "noop"} {
		b = append(b, ';')
		b = append(b, nd.StrUpTo(f, k)...)
	}
	b = append(b, ';')
	b = append(b, nd.StrUpTo("body", 2)...)
	check(b, false, nd.Bool("allow"), false)
}

// CheckHandle: what a connection does with any payload: refused with the
// invalid-payload error exactly when it is malformed, and no frame is sent.
func CheckHandle() {
	l := &hx.Log{}
	native := nd.Bool("native")
	h := neffos.Namespaces{"": l.System("e")}
	if native {
		h[""][neffos.OnNativeMessage] = l.Handler
	}
	r := hx.NewRig(nd.Bool("client"), h, l)
	if r.Client {
		r.Open("")
		l.Clear()
	}
	b := nd.BytesUpTo("b", nd.Pick(6, 8))
	want := decode(b, native, false)
	err := r.C.HandlePayload(neffos.TextMessage, b)
	if want.invalid {
		nd.Assert(err == neffos.ErrInvalidPayload, "malformed payload not refused")
		nd.Assert(len(l.E) == 0, "malformed payload fired an event")
		nd.Assert(len(r.K.Out) == 0, "malformed payload answered")
		nd.Reach("refused")
	} else {
		nd.Assert(err != neffos.ErrInvalidPayload, "valid payload refused")
		nd.Reach("accepted")
	}
	nd.Assert(!r.C.IsClosed(), "payload closed the connection")
}
