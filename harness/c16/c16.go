// Package c16: the handshake comes first.
package c16

import (
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

func connect(tok string) []byte {
	return hx.Wire(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", "")
}

// CheckEarly: any frames before the client's acknowledgement request, any after it, and a second request.
func CheckEarly() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	k := hx.NewSock()
	*next = k
	id := nd.StrUpTo("id", 2)
	total := nd.Pick(3, 4)
	mAt := total - nd.Choose("after", 2)
	var log, out []string
	connected := false
	send := func(i int) {
		x := string(rune('0' + i))
		kind := nd.Choose("kind"+x, 7)
		switch kind {
		case 0:
			k.Push(connect("$" + x))
			if !connected {
				log = append(log, hx.Ev("n", "", neffos.OnNamespaceConnect, "", ""), hx.Ev("n", "", neffos.OnNamespaceConnected, "", ""))
			}
			connected = true
			out = append(out, hx.Empty("$"+x))
		case 1, 2:
			b := nd.Str("body"+x, 1)
			w := hx.Wire("", "n", "", "e", "0", "0", b)
			if kind == 2 {
				k.PushBin(w)
			} else {
				k.Push(w)
			}
			if connected {
				log = append(log, hx.Ev("n", "", "e", "", b))
			}
		case 3: // of the other direction
			w := nd.Bytes("w"+x, 2)
			nd.Assume(w[0] == 'A' || w[0] == 'H')
			k.Push(w[:1+i%2])
		case 4:
			k.Push(nil)
			nd.Reach("empty")
		case 5: // not a message
			g := nd.Bytes("g"+x, 2)
			nd.Assume(g[0] != 'M')
			k.PushBin(g)
		case 6: // a question before the namespace is connected
			w := "$q" + x
			k.Push(hx.Wire(w, "n", "", "e", "0", "0", ""))
			if connected {
				log = append(log, hx.Ev("n", "", "e", "", ""))
			} else {
				out = append(out, hx.W(w, "n", "", "e", "1", "0", neffos.ErrBadNamespace.Error()))
			}
		}
	}
	for i := 0; i < mAt; i++ {
		send(i)
	}
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID(id))
	nd.Assert(err == nil && c.ID() == id, "a connection is not accepted or has another ID")
	nd.Quiesce()
	nd.Assert(len(k.Out) == 0 && len(l.E) == 0, "something is written or handled before the acknowledgement")
	m := []byte("M")
	if len(id) == 1 {
		m = append(m, nd.Byte("mx"))
	}
	k.Push(m)
	nd.Quiesce()
	for i := mAt; i < total; i++ {
		send(i)
		nd.Quiesce()
	}
	k.Push([]byte("M"))
	nd.Quiesce()
	nd.Assert(!c.IsClosed() && c.ID() == id, "a second acknowledgement request has an effect")
	k.Wrote("handshake", append([]string{"A" + id}, out...)...)
	l.Is("handshake", log...)
	nd.Reach("end")
}

// CheckPush: whatever the server does on its own (slow accept, connecting or broadcasting in its connect callback or at any other moment), the acknowledgement is written first and once, and the early messages are handled after it and after the callback, in order.
func CheckPush() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	var s *neffos.Server
	k := hx.NewSock()
	*next = k
	s = hx.NewServer(neffos.Namespaces{"n": l.System("e"), "o": neffos.Events{}}, next)
	s.SyncBroadcaster = nd.Bool("sync")
	acts := nd.Choose("acts", 5)
	returned := false
	push := false
	s.OnConnect = func(c *neffos.Conn) error {
		switch acts {
		case 1:
			time.Sleep(20 * time.Millisecond)
		case 2:
			push = true
			c.Connect(nil, "o")
		case 3:
			s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
		case 4:
			nd.Spawn(func() { c.Connect(nil, "o") })
			push = true
		}
		returned = true
		return nil
	}
	k.OnWrite = func(f hx.Frame) {
		nd.Assert(returned || push, "acknowledged before the server's connect callback returned")
		if hx.IsQuestion(f, neffos.OnNamespaceConnect) {
			k.Push([]byte(hx.Empty(hx.Token(f))))
		}
	}
	if acts == 2 || acts == 4 || s.SyncBroadcaster {
		nd.Delays(nd.Pick(1, 2))
	} else {
		nd.Delays(nd.Pick(2, 3))
	}
	nd.Spawn(func() {
		k.Push([]byte("M"))
		k.Push(connect("$1"))
		k.Push(hx.Wire("", "n", "", "e", "0", "0", "1"))
		k.Push(hx.Wire("", "n", "", "e", "0", "0", "2"))
	})
	nd.Spawn(func() { s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "y"}) })
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	nd.Assert(err == nil && returned, "upgrade")
	time.Sleep(time.Second)
	nd.Assert(!c.IsClosed(), "closed")
	nd.Assert(len(k.Out) >= 2 && string(k.Out[0].Body) == "Aid", "the first frame is the acknowledgement")
	replies := 0
	for _, f := range k.Out[1:] {
		nd.Assert(len(f.Body) > 0 && f.Body[0] != 'A', "a second acknowledgement")
		if string(f.Body) == hx.Empty("$1") {
			replies++
		}
	}
	nd.Assert(replies == 1, "the early connect is answered once")
	nd.Assert(acts != 2 && acts != 4 || c.Namespace("o") != nil, "the server connects the client to a namespace")
	l.Is("early messages", hx.Ev("n", "", neffos.OnNamespaceConnect, "", ""), hx.Ev("n", "", neffos.OnNamespaceConnected, "", ""), hx.Ev("n", "", "e", "", "1"), hx.Ev("n", "", "e", "", "2"))
	nd.Reach("end")
}

// CheckSlow: messages on both sides of the acknowledgement request, with callbacks that take their time: one after the other and in order.
func CheckSlow() {
	var log []string
	slow := nd.Choose("slow", 4)
	on := func(i int) neffos.MessageHandlerFunc {
		return func(ns *neffos.NSConn, m neffos.Message) error {
			x := m.Event + string(m.Body)
			log = append(log, "<"+x)
			if i == slow || string(m.Body) == string(rune('0'+slow)) {
				time.Sleep(10 * time.Millisecond)
			}
			log = append(log, x+">")
			return nil
		}
	}
	next := new(*hx.Sock)
	k := hx.NewSock()
	*next = k
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{neffos.OnNamespaceConnect: on(0), neffos.OnNamespaceConnected: on(9), "e": on(9)}}, next)
	at := nd.Choose("early", 4)
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() {
		for i := 0; i < 4; i++ {
			if i == at {
				k.Push([]byte("M"))
			}
			if i == 0 {
				k.Push(connect("$1"))
			} else {
				k.Push(hx.Wire("", "n", "", "e", "0", "0", string(rune('0'+i))))
			}
		}
	})
	_, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	nd.Assert(err == nil, "upgrade")
	time.Sleep(time.Second)
	k.Wrote("handshake", "Aid", hx.Empty("$1"))
	want := []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, "e1", "e2", "e3"}
	nd.Assert(len(log) == 2*len(want), "each message is handled once")
	for i, w := range want {
		nd.Assert(log[2*i] == "<"+w && log[2*i+1] == w+">", "the messages are handled one after the other, in order")
	}
	nd.Reach("end")
}

// CheckClient: the frames a client gets before and with its acknowledgement; any ID; a refusal with any text.
func CheckClient() {
	l := &hx.Log{}
	k := hx.NewSock()
	k.Peer = nil
	id := nd.StrUpTo("id", 3)
	n := nd.Choose("n", nd.Pick(3, 4))
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		switch nd.Choose("kind"+x, 3) {
		case 0: // of the other direction
			k.Push([]byte("M" + nd.StrUpTo("m"+x, 2)))
		case 1:
			k.Push(nil)
		case 2:
			g := nd.Bytes("g"+x, 1)
			nd.Assume(g[0] != 'A' && g[0] != 'H')
			k.PushBin(g)
		}
	}
	var cl *neffos.Client
	var err error
	done := false
	nd.Spawn(func() {
		cl, err = hx.DialSock(k, neffos.Namespaces{"n": l.System("e")})
		done = true
	})
	nd.Quiesce()
	nd.Assert(!done && !k.IsClosed(), "Dial returns before the acknowledgement")
	k.Wrote("the client's first frame", "M")
	if nd.Bool("refused") {
		k.Push([]byte("H" + id))
		nd.Quiesce()
		nd.Assert(done && cl == nil && err != nil && err.Error() == id, "the refusal's text")
		nd.Assert(k.IsClosed() && len(l.E) == 0, "a refused client stays open")
		nd.Reach("refused")
		return
	}
	k.Push([]byte("A" + id))
	k.Push(connect("1"))
	nd.Quiesce()
	nd.Assert(done && err == nil && cl != nil && cl.ID == id, "the client's ID")
	k.Wrote("the server's connect", hx.Empty("1"))
	nd.Assert(l.Last != nil && l.Last.Conn.ID() == id, "the connection's ID")
	// later ones change nothing.
	second := []byte("A" + nd.Str("second", 1))
	if nd.Bool("second h") {
		second[0] = 'H'
	}
	k.Push(second)
	k.Say(hx.W("", "n", "", "e", "0", "0", "x"))
	nd.Assert(l.Last.Conn.ID() == id && !k.IsClosed() && l.Count(hx.Ev("n", "", "e", "", "x")) == 1, "a second acknowledgement has an effect")
	nd.Reach("end")
}

// CheckClientRace: the ID is there when Dial returns and in the first callback, whatever the schedule.
func CheckClientRace() {
	k := hx.NewSock()
	var cl *neffos.Client
	var err error
	var first string
	done, fired := false, 0
	h := neffos.Namespaces{"n": neffos.Events{neffos.OnNamespaceConnect: func(ns *neffos.NSConn, m neffos.Message) error {
		first = ns.Conn.ID()
		fired++
		return nil
	}}}
	answers := nd.Bool("answers")
	if answers {
		k.OnWrite = func(f hx.Frame) {
			if string(f.Body) == "M" {
				k.Push([]byte("Aid"))
				k.Push(connect("1"))
			}
		}
	}
	nd.Delays(nd.Pick(3, 4))
	nd.Spawn(func() {
		cl, err = hx.DialSock(k, h)
		nd.Assert(err == nil && cl.ID == "id", "the client's ID when Dial returns")
		done = true
	})
	if !answers {
		nd.Spawn(func() {
			k.Push([]byte("Aid"))
			k.Push(connect("1"))
		})
	}
	hx.Settle()
	nd.Assert(done && fired == 1 && first == "id", "the connection's ID in its first callback")
	nd.Reach("end")
}
