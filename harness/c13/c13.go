// Package c13: a broadcast reaches exactly the addressed connections.
package c13

import (
	"fmt"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// member is a connection and what it is in.
type member struct {
	id     string
	c      *neffos.Conn
	k      *hx.Sock
	ns     map[string]bool
	room   map[string]bool // "namespace/room"
	closed bool
}

func (m *member) connect(ns string) { hx.ConnectNS(m.k, ns); m.ns[ns] = true }
func (m *member) join(ns, room string) {
	hx.JoinRoom(m.k, ns, room)
	m.room[ns+"/"+room] = true
}

// attach makes a connection in one of the memberships.
func attach(s *neffos.Server, next **hx.Sock, id string, state int) *member {
	c, k := hx.Attach(s, next, id)
	m := &member{id: id, c: c, k: k, ns: map[string]bool{}, room: map[string]bool{}}
	switch state {
	case 1:
		m.connect("n")
	case 2:
		m.connect("n")
		m.join("n", "r")
	case 3:
		m.connect("n")
		m.connect("o")
		m.join("o", "r")
	}
	return m
}

func (m *member) gets(msg neffos.Message) bool {
	if m.closed || !m.ns[msg.Namespace] {
		return false
	}
	if msg.Room != "" && !m.room[msg.Namespace+"/"+msg.Room] {
		return false
	}
	return msg.To == "" || msg.To == m.id
}

func (m *member) check(want []neffos.Message) {
	out := m.k.Take()
	nd.Assert(len(out) == len(want), "number of frames written to a connection")
	for i, w := range want {
		typ := neffos.MessageType(neffos.TextMessage)
		if w.SetBinary {
			typ = neffos.BinaryMessage
		}
		nd.Assert(out[i].Typ == typ, "type of a broadcast frame")
		nd.Assert(string(out[i].Body) == hx.W("", w.Namespace, w.Room, w.Event, "0", "0", string(w.Body)), "content of a broadcast frame")
	}
}

func server(events neffos.Events) (*neffos.Server, **hx.Sock) {
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": events, "o": neffos.Events{}}, next)
	s.SyncBroadcaster = nd.Bool("sync")
	return s, next
}

// message is one of the ways to address a message.
func message(label string, body string, n int) neffos.Message {
	m := neffos.Message{Namespace: "n", Event: "e", Body: []byte(body)}
	switch nd.Choose(label, n) {
	case 1:
		m.Room = "r"
	case 2:
		m.To = "a"
	case 3:
		m.To = "b"
		m.Room = "r"
		m.SetBinary = true
	case 4:
		m.Namespace = "o"
		m.Room = "r"
	case 5:
		m.To = "x"
	case 6:
		m.Namespace = "z"
	case 7:
		m.Room = "z"
		m.SetBinary = true
	}
	return m
}

// CheckReceivers: two messages in one call, to connections of any membership, excluding any sender.
func CheckReceivers() {
	s, next := server(neffos.Events{})
	ids := []string{"a", "b", "c"}
	if nd.Bool("sameID") {
		ids[1] = "a"
	}
	var ms []*member
	for i, id := range ids {
		n := 4
		if i == 2 && !nd.Thorough() {
			n = 2
		}
		ms = append(ms, attach(s, next, id, nd.Choose("state"+string(rune('0'+i)), n)))
	}
	body := nd.Str("body", 1)
	msgs := []neffos.Message{message("m0", body, 8), message("m1", "2", nd.Pick(3, 8))}
	var except fmt.Stringer
	excluded := map[*member]bool{}
	a := ms[0]
	switch nd.Choose("except", 5) {
	case 1:
		except = a.c
		excluded[a] = true
	case 2:
		n := a.c.Namespace("n")
		if n == nil {
			return
		}
		except = n
		excluded[a] = true
	case 3: // by ID: every connection with that ID
		except = neffos.Exclude("a")
		excluded[a] = true
		excluded[ms[1]] = ms[1].id == "a"
	case 4:
		except = neffos.Exclude("q")
	}
	s.Broadcast(except, msgs...)
	hx.Settle()
	for _, m := range ms {
		var want []neffos.Message
		for _, msg := range msgs {
			if m.gets(msg) && !excluded[m] {
				want = append(want, msg)
			}
		}
		m.check(want)
		nd.Assert(!m.c.IsClosed(), "a broadcast closes a connection")
	}
	nd.Reach("end")
}

// CheckRoomSender: a room, or a namespace, of a connection is the sender: Room, Broadcast and BroadcastOthers.
func CheckRoomSender() {
	s, next := server(neffos.Events{})
	a := attach(s, next, "a", 2)
	b := attach(s, next, "b", nd.Choose("state", 4))
	msg := message("m", nd.Str("body", 1), 8)
	self := false
	n := a.c.Namespace("n")
	switch nd.Choose("how", 3) {
	case 0:
		s.Broadcast(n.Room("r"), msg)
	case 1:
		n.BroadcastOthers(msg)
	case 2:
		n.Broadcast(msg)
		self = true
	}
	hx.Settle()
	for _, m := range []*member{a, b} {
		if m.gets(msg) && (m == b || self) {
			m.check([]neffos.Message{msg})
		} else {
			m.check(nil)
		}
	}
	nd.Reach("end")
}

// CheckForward: a received message, or question, broadcast as it is to the others arrives as a plain message, and the sender's own question is still answered.
func CheckForward() {
	reply := nd.Str("reply", 1)
	s, next := server(neffos.Events{"e": func(ns *neffos.NSConn, m neffos.Message) error {
		ns.Conn.Server().Broadcast(ns, m)
		return neffos.Reply([]byte(reply))
	}})
	a := attach(s, next, "a", 2)
	b := attach(s, next, "b", 2)
	c := attach(s, next, "c", 1)
	tok := ""
	if nd.Bool("question") {
		tok = "$5"
	}
	room := ""
	if nd.Bool("room") {
		room = "r"
	}
	body := nd.Str("body", 1)
	bin := nd.Bool("bin")
	f := hx.Wire(tok, "n", room, "e", "0", "0", body)
	typ := neffos.MessageType(neffos.TextMessage)
	if bin {
		a.k.PushBin(f)
		typ = neffos.BinaryMessage
	} else {
		a.k.Push(f)
	}
	hx.Settle()
	out := a.k.Take()
	nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, "n", room, "e", "0", "0", reply), "the reply to a forwarded message")
	want := neffos.Message{Namespace: "n", Room: room, Event: "e", Body: []byte(body), SetBinary: typ == neffos.BinaryMessage}
	b.check([]neffos.Message{want})
	if room == "" {
		c.check([]neffos.Message{want})
	} else {
		c.check(nil)
	}
	nd.Reach("end")
}

// CheckGone: connections that were closed, lost or left the room or namespace get nothing more, the others still do; a connection that cannot be written to does not keep the others from it.
func CheckGone() {
	s, next := server(neffos.Events{})
	a := attach(s, next, "a", 2)
	b := attach(s, next, "b", 2)
	c := attach(s, next, "c", 2)
	room := nd.Bool("room")
	switch nd.Choose("how", 6) {
	case 0:
		b.c.Close()
		b.closed = true
	case 1:
		b.k.Drop()
		b.closed = true
	case 2:
		b.k.WriteErr = hx.EOF
		b.closed = true
	case 3:
		b.k.WriteErr = hx.ErrFake
		b.closed = true // nothing is written
	case 4:
		b.k.Say(hx.W("$7", "n", "r", neffos.OnRoomLeave, "0", "0", ""))
		delete(b.room, "n/r")
	case 5:
		b.k.Say(hx.W("$7", "n", "", neffos.OnNamespaceDisconnect, "0", "0", ""))
		b.ns = map[string]bool{}
	}
	hx.Settle()
	b.k.Take()
	msg := neffos.Message{Namespace: "n", Event: "e", Body: []byte(nd.Str("body", 1))}
	if room {
		msg.Room = "r"
	}
	other := neffos.Message{Namespace: "n", Event: "f"}
	s.Broadcast(nil, msg, other)
	hx.Settle()
	for _, m := range []*member{a, b, c} {
		var want []neffos.Message
		if m.gets(msg) {
			want = append(want, msg)
		}
		if m.gets(other) {
			want = append(want, other)
		}
		m.check(want)
	}
	nd.Reach("end")
}

// CheckUnmodified: the caller's messages are not modified, and changing them afterwards changes nothing of what is sent.
func CheckUnmodified() {
	s, next := server(neffos.Events{})
	a := attach(s, next, "a", 1)
	b := attach(s, next, "b", 1)
	msgs := []neffos.Message{{Namespace: "n", Event: "e", Body: []byte("1")}, {Namespace: "n", Event: "f", Body: []byte("2")}}
	var except fmt.Stringer
	x := false
	switch nd.Choose("except", 3) {
	case 1:
		except = a.c
		x = true
	case 2:
		except = neffos.Exclude("a")
		x = true
	}
	s.Broadcast(except, msgs...)
	for i, e := range []string{"e", "f"} {
		m := msgs[i]
		nd.Assert(m.Namespace == "n" && m.Event == e && m.Room == "" && m.To == "" && m.FromExplicit == "" && !m.FromStackExchange && !m.SetBinary && !m.IsForced && !m.IsLocal && !m.IsNative && m.Err == nil,
			"a message given to Broadcast is modified")
	}
	// the same slice for the next sender.
	s.Broadcast(b.c, msgs...)
	msgs[0], msgs[1] = neffos.Message{}, neffos.Message{}
	hx.Settle()
	na, nb := 4, 2
	if x {
		na = 2
	}
	for m, n := range map[*member]int{a: na, b: nb} {
		out := m.k.Take()
		nd.Assert(len(out) == n, "number of frames when the messages are used again")
		for i := range out {
			nd.Assert(string(out[i].Body) == hx.W("", "n", "", []string{"e", "f"}[i%2], "0", "0", []string{"1", "2"}[i%2]), "frame when the messages are used again")
		}
	}
	nd.Reach("end")
}
