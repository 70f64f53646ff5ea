// Package c17: a connection refused by the server never becomes usable.
package c17

import (
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// CheckRaw: a client that sends anything before and after its acknowledgement request; the refusal has any text and comes from the connect callback, after any action of it, or from a StackExchange.
func CheckRaw() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	k := hx.NewSock()
	*next = k
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	s.FireDisconnectAlways = nd.Bool("always")
	ended := 0
	s.OnDisconnect = func(*neffos.Conn) { ended++ }
	text := nd.StrUpTo("text", nd.Pick(2, 3))
	exchange := nd.Bool("exchange")
	acts := 0
	asked := 0
	if exchange {
		x := hx.NewExchange()
		x.ConnectErr = errors.New(text)
		s.UseStackExchange(x)
		s.OnConnect = func(*neffos.Conn) error { asked++; return nil }
	} else {
		acts = nd.Choose("acts", 5)
		s.OnConnect = func(c *neffos.Conn) error {
			switch acts {
			case 1:
				time.Sleep(20 * time.Millisecond)
			case 2:
				s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
			case 3:
				nd.Assert(!c.Write(neffos.Message{Namespace: "n", Event: "x"}), "a write to a namespace that is not connected")
			case 4:
				c.Set("k", 1)
				nd.Assert(c.Namespace("n") == nil, "a namespace is connected before the connection is accepted")
			}
			return errors.New(text)
		}
	}
	when := nd.Choose("when", 3) // M before, during or after the refusal
	early := func() {
		k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
		k.Push(hx.Wire("", "n", "", "e", "0", "0", "1"))
	}
	mfirst := nd.Bool("mfirst")
	talk := func() {
		if mfirst {
			k.Push([]byte("M"))
			early()
		} else {
			early()
			k.Push([]byte("M"))
		}
	}
	var c *neffos.Conn
	var err error
	up := false
	switch when {
	case 0:
		talk()
	case 1:
		nd.Spawn(talk)
	}
	nd.Spawn(func() {
		c, err = s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		up = true
	})
	time.Sleep(50 * time.Millisecond)
	nd.Assert(up && c == nil && err != nil && err.Error() == text, "the refusal is the result of the upgrade")
	if when == 2 {
		talk()
	}
	time.Sleep(50 * time.Millisecond)
	k.Wrote("refusal", "H"+text)
	nd.Assert(len(l.E) == 0, "a callback of a refused connection runs")
	nd.Assert(k.IsClosed() && s.GetTotalConnections() == 0 && len(s.GetConnections()) == 0, "a refused connection stays")
	nd.Assert(asked == 0, "the connect callback runs for a connection refused by a StackExchange")
	want := 0
	if s.FireDisconnectAlways {
		want = 1
	}
	nd.Assert(ended == want, "the disconnect callback of a refused connection")
	nd.Reach("end")
}

// CheckDial: a real client whose connection is refused (after any action) or accepted, whatever the schedule; it dials and then connects and sends.
func CheckDial() {
	l := &hx.Log{}
	refuse := nd.Bool("refuse")
	acts := nd.Choose("acts", 3)
	p := hx.NewPair(neffos.Namespaces{"n": l.System("e")}, neffos.Namespaces{"n": neffos.Events{}})
	ended := 0
	p.S.OnDisconnect = func(*neffos.Conn) { ended++ }
	returned := false
	p.S.OnConnect = func(c *neffos.Conn) error {
		switch acts {
		case 1:
			time.Sleep(20 * time.Millisecond)
		case 2:
			p.S.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
		}
		returned = true
		if refuse {
			return hx.ErrFake
		}
		return nil
	}
	p.ServerK.OnWrite = func(f hx.Frame) {
		nd.Assert(returned, "something is written before the connect callback returned")
		nd.Assert(refuse == (len(f.Body) > 0 && f.Body[0] == 'H'), "what a refused or accepted connection is sent")
	}
	if refuse && acts == 0 {
		nd.Delays(nd.Pick(2, 3))
	} else {
		nd.Delays(nd.Pick(1, 2))
	}
	p.Start()
	var ns *neffos.NSConn
	var err error
	nd.Spawn(func() {
		for !p.Dialed {
			time.Sleep(10 * time.Millisecond)
		}
		if p.DialErr == nil {
			ns, err = p.Cl.Connect(nil, "n")
			ns.Emit("e", []byte("1"))
		}
	})
	time.Sleep(time.Second)
	nd.Assert(p.Dialed && p.Upgraded, "Dial or Upgrade does not return")
	if refuse {
		nd.Assert(p.DialErr != nil && p.DialErr.Error() == hx.ErrFake.Error(), "the refusal is the result of Dial")
		nd.Assert(p.Conn == nil && p.UpErr == hx.ErrFake, "the refusal is the result of Upgrade")
		nd.Assert(p.ServerK.IsClosed() && p.ClientK.IsClosed() && p.S.GetTotalConnections() == 0, "a refused connection stays")
		nd.Assert(len(l.E) == 0 && ended == 0, "a callback of a refused connection runs")
		nd.Reach("refused")
		return
	}
	nd.Assert(p.DialErr == nil && p.UpErr == nil && p.Conn != nil && err == nil && ns != nil, "an accepted connection")
	nd.Assert(l.Count(hx.Ev("n", "", "e", "", "1")) == 1 && ended == 0, "an accepted connection is usable")
	nd.Reach("accepted")
}

// CheckUsed: the connect callback connects the client, or closes the connection itself, and then refuses or does not.
func CheckUsed() {
	l := &hx.Log{}
	refuse := nd.Bool("refuse")
	closes := nd.Bool("closes")
	p := hx.NewPair(neffos.Namespaces{"n": l.System("e")}, neffos.Namespaces{"n": neffos.Events{}})
	ended := 0
	p.S.FireDisconnectAlways = true
	p.S.OnDisconnect = func(*neffos.Conn) { ended++ }
	var ns *neffos.NSConn
	p.S.OnConnect = func(c *neffos.Conn) error {
		if closes {
			c.Close()
		} else {
			ns, _ = c.Connect(nil, "n")
			nd.Assert(ns != nil, "the connect callback connects the client to a namespace")
		}
		if refuse {
			return hx.ErrFake
		}
		return nil
	}
	if closes {
		nd.Delays(nd.Pick(2, 3))
	} else {
		nd.Delays(nd.Pick(1, 2))
	}
	p.Start()
	time.Sleep(time.Second)
	nd.Assert(p.Dialed && p.Upgraded, "Dial or Upgrade does not return")
	nd.Assert((p.UpErr != nil) == refuse, "the result of Upgrade")
	if closes {
		nd.Assert(p.DialErr != nil, "Dial succeeds on a closed connection")
	}
	if closes || refuse {
		nd.Assert(p.ServerK.IsClosed() && p.ClientK.IsClosed() && p.S.GetTotalConnections() == 0 && ended == 1, "a refused or closed connection stays")
		nd.Assert(closes || l.Count(hx.Ev("n", "", neffos.OnNamespaceDisconnect, "LF", "")) == 1, "the namespace of a refused connection is disconnected")
		nd.Reach("ended")
		return
	}
	nd.Assert(p.DialErr == nil && p.Conn != nil && p.Conn.Namespace("n") == ns && ended == 0, "an accepted connection")
	nd.Reach("accepted")
}

// CheckNative: with native messages only there is no handshake; a refused connection is closed and removed.
func CheckNative() {
	next := new(*hx.Sock)
	k := hx.NewSock()
	*next = k
	s := hx.NewServer(neffos.Events{neffos.OnNativeMessage: func(*neffos.NSConn, neffos.Message) error { return nil }}, next)
	s.FireDisconnectAlways = true
	ended := 0
	s.OnDisconnect = func(*neffos.Conn) { ended++ }
	refuse := nd.Bool("refuse")
	exchange := nd.Bool("exchange")
	if exchange {
		x := hx.NewExchange()
		if refuse {
			x.ConnectErr = hx.ErrFake
		}
		s.UseStackExchange(x)
	} else {
		s.OnConnect = func(c *neffos.Conn) error {
			if refuse {
				return hx.ErrFake
			}
			return nil
		}
	}
	if nd.Bool("early") {
		k.Push([]byte("hello"))
	}
	nd.Delays(nd.Pick(2, 3))
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	hx.Settle()
	k.Wrote("no handshake")
	if refuse {
		nd.Assert(c == nil && err == hx.ErrFake, "the refusal is the result of Upgrade")
		nd.Assert(k.IsClosed() && s.GetTotalConnections() == 0 && ended == 1, "a refused connection stays")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil && c != nil && !c.IsClosed() && s.GetTotalConnections() == 1 && ended == 0, "an accepted connection")
	nd.Reach("accepted")
}
