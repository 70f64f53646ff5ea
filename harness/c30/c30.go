// Package c30: closing the server ends everything.
package c30

import (
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

func refused(s *neffos.Server, next **hx.Sock, calls *int) {
	*next = hx.NewSock()
	n := *calls
	rw := hx.NewRW()
	c, err := s.Upgrade(rw, hx.NewRequest("GET", ""), nil, hx.FixedID("new"))
	nd.Assert(c == nil && err != nil && rw.Status == 500, "a closed server accepts a connection")
	hx.Settle()
	nd.Assert(*calls == n && s.GetTotalConnections() == 0, "a closed server accepts a connection")
}

// CheckClose: any number of connections in any state; all are closed with their clean-up events, and closing again does nothing.
func CheckClose() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System()}, next)
	s.SyncBroadcaster = nd.Bool("sync")
	ended := map[string]int{}
	s.OnDisconnect = func(c *neffos.Conn) { ended[c.ID()]++ }
	opened := 0
	s.OnConnect = func(*neffos.Conn) error { opened++; return nil }
	if nd.Bool("settle") {
		nd.Quiesce()
	}
	var conns []*neffos.Conn
	var ks []*hx.Sock
	rooms, nss := 0, 0
	n := nd.Choose("n", nd.Pick(3, 4))
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		c, k := hx.Attach(s, next, x)
		conns, ks = append(conns, c), append(ks, k)
		switch nd.Choose("state"+x, 4) {
		case 1:
			hx.ConnectNS(k, "n")
			nss++
		case 2:
			hx.ConnectNS(k, "n")
			hx.JoinRoom(k, "n", "r")
			nss++
			rooms++
		case 3: // not acknowledged
			k2 := hx.NewSock()
			*next = k2
			c2, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID(x+"b"))
			nd.Assert(err == nil, "upgrade")
			conns, ks = append(conns, c2), append(ks, k2)
		}
	}
	l.Clear()
	if nd.Bool("slow") {
		l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
			time.Sleep(10 * time.Millisecond)
			return nil
		}
	}
	s.Close()
	for i, c := range conns {
		nd.Assert(c.IsClosed() && ks[i].IsClosed(), "a connection is open after Close returned")
	}
	nd.Assert(len(l.E) == nss+2*rooms, "number of clean-up events when Close returned")
	if nd.Bool("again") {
		s.Close()
	}
	hx.Settle()
	for i, c := range conns {
		nd.Assert(c.IsClosed() && ks[i].IsClosed(), "a connection stays open")
		nd.Assert(c.Namespace("n") == nil, "a namespace stays connected")
		nd.Assert(ended[c.ID()] == 1, "the disconnect callback runs once")
	}
	nd.Assert(l.Count(hx.Ev("n", "", neffos.OnNamespaceDisconnect, "LF", "")) == nss, "the disconnect event of each namespace")
	nd.Assert(l.Count(hx.Ev("n", "r", neffos.OnRoomLeave, "LF", "")) == rooms && l.Count(hx.Ev("n", "r", neffos.OnRoomLeft, "LF", "")) == rooms, "the leave and left events of each room")
	nd.Assert(len(l.E) == nss+2*rooms, "number of clean-up events")
	nd.Assert(s.GetTotalConnections() == 0 && len(s.GetConnections()) == 0, "a closed server has connections")
	refused(s, next, &opened)
	s.Close()
	nd.Assert(len(l.E) == nss+2*rooms, "closing again has an effect")
	nd.Reach("end")
}

// CheckUpgrading: the server is closed, once or twice, at any moment of one (or two) upgrades, with or without a slow connect callback; nothing stays open.
func CheckUpgrading() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System()}, next)
	opened := 0
	acts := nd.Choose("acts", 3)
	if acts > 0 {
		s.OnConnect = func(c *neffos.Conn) error {
			if acts == 1 {
				opened++
			} else {
				time.Sleep(10 * time.Millisecond)
			}
			return nil
		}
	}
	// the sync broadcaster does not need a goroutine per connection
	s.SyncBroadcaster = nd.Bool("sync")
	closers := 1 + nd.Choose("closers", 2)
	k := hx.NewSock()
	*next = k
	k.Push([]byte("M"))
	k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	if nd.Bool("settle") {
		nd.Quiesce()
	}
	if closers == 1 {
		nd.Delays(nd.Pick(2, 3))
	} else {
		nd.Delays(nd.Pick(1, 2))
	}
	var c *neffos.Conn
	var err error
	up := false
	closed := 0
	nd.Spawn(func() {
		c, err = s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		up = true
	})
	for i := 0; i < closers; i++ {
		nd.Spawn(func() { s.Close(); closed++ })
	}
	time.Sleep(time.Second)
	nd.Assert(up, "Upgrade does not return")
	nd.Assert(closed == closers, "Close does not return")
	nd.Assert(err != nil || c != nil && c.IsClosed(), "a connection upgraded meanwhile stays open")
	nd.Assert(k.IsClosed() || len(k.Out) == 0 && k.Reads == 0, "the transport of a connection upgraded meanwhile stays open")
	nd.Assert(s.GetTotalConnections() == 0 && len(s.GetConnections()) == 0, "a closed server has connections")
	nd.Assert(l.Count(hx.Ev("n", "", neffos.OnNamespaceConnected, "", "")) == l.Count(hx.Ev("n", "", neffos.OnNamespaceDisconnect, "LF", "")), "a namespace that connected is not disconnected")
	opened = 0
	refused(s, next, &opened)
	nd.Reach("end")
}

// CheckTraffic: the server is closed while its connections receive messages, join a room, broadcast, are lost or close; every call returns and every clean-up event fires once.
func CheckTraffic() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	s.SyncBroadcaster = nd.Bool("sync")
	ended := map[string]int{}
	s.OnDisconnect = func(c *neffos.Conn) { ended[c.ID()]++ }
	a, ka := hx.Attach(s, next, "a")
	b, kb := hx.Attach(s, next, "b")
	hx.ConnectNS(ka, "n")
	hx.ConnectNS(kb, "n")
	hx.JoinRoom(ka, "n", "r")
	l.Clear()
	what := nd.Choose("what", 6)
	nd.Delays(nd.Pick(2, 3))
	done, closed := false, false
	nd.Spawn(func() {
		switch what {
		case 0:
			ka.Push(hx.Wire("", "n", "", "e", "0", "0", "1"))
		case 1:
			s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "x"})
		case 2:
			a.Close()
		case 3:
			ka.Drop()
		case 4:
			kb.Push(hx.Wire("$1", "n", "s", neffos.OnRoomJoin, "0", "0", ""))
		case 5:
			a.Ask(nil, neffos.Message{Namespace: "n", Event: "q"})
		}
		done = true
	})
	nd.Spawn(func() { s.Close(); closed = true })
	time.Sleep(time.Second)
	nd.Assert(closed, "Close does not return")
	nd.Assert(done, "a call that overlaps with Close does not return")
	nd.Assert(a.IsClosed() && b.IsClosed() && ka.IsClosed() && kb.IsClosed(), "a connection stays open")
	nd.Assert(s.GetTotalConnections() == 0 && ended["a"] == 1 && ended["b"] == 1, "the end of each connection")
	nd.Assert(l.Count(hx.Ev("n", "", neffos.OnNamespaceDisconnect, "LF", "")) == 2, "the disconnect event of each namespace")
	nd.Assert(l.Count(hx.Ev("n", "r", neffos.OnRoomLeave, "LF", "")) == 1 && l.Count(hx.Ev("n", "r", neffos.OnRoomLeft, "LF", "")) == 1, "the leave and left events of the room")
	nd.Assert(l.Count(hx.Ev("n", "s", neffos.OnRoomJoined, "", "")) == l.Count(hx.Ev("n", "s", neffos.OnRoomLeft, "LF", "")), "a room joined meanwhile is not left")
	nd.Reach("end")
}
