// Package c01: the wire format loses nothing.
package c01

import (
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/nd"
)

const repl = "@%!semicolon@%!"

// field is any string; the replacement text of the separator itself is out of scope.
func field(label string, n int) string { return nd.StrUpTo(label, n) }

// CheckRoundTrip: what is serialized is what is received.
func CheckRoundTrip() {
	n := nd.Pick(2, 3)
	m := neffos.Message{
		Namespace: field("ns", n),
		Room:      field("room", nd.Pick(1, 2)),
		Event:     field("event", n),
	}
	kind := nd.Choose("kind", 3)
	text := nd.StrUpTo("body", n)
	switch kind {
	case 0:
		m.Body = []byte(text)
	case 1:
		m.Err = errors.New(text)
	case 2:
		m.Err = neffos.Reply([]byte(text))
	}
	typ := neffos.MessageType(neffos.TextMessage)
	bin := nd.Bool("bin")
	if bin {
		typ = neffos.BinaryMessage
	}
	wire := m.Serialize()
	got := neffos.DeserializeMessage(typ, wire, nd.Bool("allowNative"), false)
	nd.Assert(got.Namespace == m.Namespace, "namespace changed on the wire")
	nd.Assert(got.Room == m.Room, "room changed on the wire")
	nd.Assert(got.Event == m.Event, "event changed on the wire")
	if kind == 1 {
		nd.Assert(got.Err != nil, "an error arrived as a success")
		nd.Assert(got.Err.Error() == text, "error text changed on the wire")
		nd.Assert(len(got.Body) == 0, "an error arrived with a body")
	} else {
		nd.Assert(got.Err == nil, "a body arrived as an error")
		nd.Assert(string(got.Body) == text, "body changed on the wire")
	}
	nd.Assert(got.SetBinary == bin, "binary flag")
	nd.Assert(nd.All(got.To == "", got.FromExplicit == "", !got.IsForced, !got.IsLocal, !got.FromStackExchange), "local-only fields must not come from the wire")
	nd.Observe("wire", wire, got.Namespace, got.Room, got.Event)
	nd.Reach("end")
}

// CheckSeparators: fields with many separators and pieces of the replacement
// text survive and never shift into one another.
func CheckSeparators() {
	words := [...]string{"", ";", ";;", "@%!", "semicolon", "@", "%", "0", "1"}
	n := nd.Pick(2, 3)
	w := ""
	for i := 0; i < n; i++ {
		w += words[nd.Choose("word", len(words))]
	}
	if w == repl {
		return // reserved, see DESIGN.md
	}
	f := [4]string{nd.Str("ns", 1), nd.Str("room", 1), nd.Str("event", 1), nd.Str("body", 1)}
	k := nd.Choose("field", 4)
	f[k] = w
	if nd.Bool("two") {
		f[(k+1)%4] = w
	}
	m := neffos.Message{Namespace: f[0], Room: f[1], Event: f[2]}
	body := f[3]
	m.Body = []byte(body)
	got := neffos.DeserializeMessage(neffos.TextMessage, m.Serialize(), false, false)
	nd.Assert(got.Namespace == m.Namespace, "namespace changed on the wire")
	nd.Assert(got.Room == m.Room, "room changed on the wire")
	nd.Assert(got.Event == m.Event, "event changed on the wire")
	nd.Assert(got.Err == nil && string(got.Body) == body, "body changed on the wire")
	nd.Reach("end")
}

// CheckExcluded: the excluded connection of a broadcast survives the wire
// used between servers.
func CheckExcluded() {
	id := "neffos(0x" + nd.StrUpTo("id", nd.Pick(2, 3)) + "))"
	for i := 0; i < len(id); i++ {
		nd.Assume(id[i] != ';')
	}
	body := nd.StrUpTo("body", 2)
	m := neffos.Message{Namespace: nd.StrUpTo("ns", 1), Room: nd.StrUpTo("room", 1), Event: nd.StrUpTo("event", 1), Body: []byte(body), FromExplicit: id}
	got := neffos.DeserializeMessage(neffos.TextMessage, m.Serialize(), false, false)
	nd.Assert(got.FromExplicit == id, "excluded connection changed on the wire")
	nd.Assert(nd.All(got.Namespace == m.Namespace, got.Room == m.Room, got.Event == m.Event, string(got.Body) == body), "message changed on the wire")
	nd.Assert(!got.IsWait(false) && !got.IsWait(true), "an excluded connection is not a question")
	nd.Reach("end")
}

// CheckNative: a native message is its body, both ways.
func CheckNative() {
	body := nd.BytesUpTo("body", nd.Pick(3, 4))
	m := neffos.Message{Body: body, IsNative: true, Namespace: "x", Event: "y"}
	nd.Assert(string(m.Serialize()) == string(body), "native message is not its body")
	if len(body) > 0 {
		got := neffos.DeserializeMessage(neffos.TextMessage, body, true, true)
		nd.Assert(nd.All(got.IsNative, got.Event == neffos.OnNativeMessage, got.Namespace == "", got.Room == "", string(got.Body) == string(body), got.Err == nil), "native message changed")
	}
	nd.Reach("end")
}
