// Package c15: the server knows exactly its open connections.
package c15

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type world struct {
	s       *neffos.Server
	next    **hx.Sock
	open    map[string]*neffos.Conn
	socks   map[string]*hx.Sock
	inNS    map[string]bool
	ended   map[string]int // OnDisconnect calls
	refuse  bool
	refused map[string]bool
}

func newWorld() *world {
	w := &world{next: new(*hx.Sock), open: map[string]*neffos.Conn{}, socks: map[string]*hx.Sock{}, inNS: map[string]bool{}, ended: map[string]int{}, refused: map[string]bool{}}
	w.s = hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, w.next)
	w.s.FireDisconnectAlways = nd.Bool("always")
	w.s.OnDisconnect = func(c *neffos.Conn) { w.ended[c.ID()]++ }
	w.s.OnConnect = func(*neffos.Conn) error {
		if w.refuse {
			return hx.ErrFake
		}
		return nil
	}
	return w
}

// upgrade makes a connection, accepted or refused; the client sends its acknowledgement request or does not.
func (w *world) upgrade(id string, ack bool) {
	k := hx.NewSock()
	*w.next = k
	c, err := w.s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID(id))
	if ack || w.refuse {
		k.Push([]byte("M"))
	}
	hx.Settle()
	if err == nil {
		w.open[id] = c
		w.socks[id] = k
	} else {
		w.refused[id] = true
	}
}

// check compares everything the server tells with the model.
func (w *world) check() {
	s := w.s
	nd.Assert(s.GetTotalConnections() == uint64(len(w.open)), "number of connections")
	all := s.GetConnections()
	nd.Assert(len(all) == len(w.open), "number of connections listed")
	for id, c := range w.open {
		nd.Assert(all[id] == c, "a connection is not listed")
	}
	by := s.GetConnectionsByNamespace("n")
	n := 0
	for id := range w.open {
		if w.inNS[id] {
			n++
			nd.Assert(by[id] != nil && by[id].Conn == w.open[id], "a connection is not listed by its namespace")
		}
	}
	nd.Assert(len(by) == n, "number of connections listed by namespace")
	nd.Assert(len(s.GetConnectionsByNamespace("z")) == 0, "connections of an unknown namespace")
	seen := map[*neffos.Conn]int{}
	s.Do(func(c *neffos.Conn) { seen[c]++ }, false)
	nd.Assert(len(seen) == len(w.open), "number of connections visited")
	for _, c := range w.open {
		nd.Assert(seen[c] == 1, "a connection is not visited once")
	}
	count := 0
	s.Do(func(c *neffos.Conn) { count++ }, true)
	hx.Settle()
	nd.Assert(count == len(w.open), "number of connections visited asynchronously")
}

func (w *world) checkEnded(all []string) {
	for _, id := range all {
		_, open := w.open[id]
		want := 1
		if open {
			want = 0
		}
		if w.refused[id] && !w.s.FireDisconnectAlways {
			want = 0
		}
		nd.Assert(w.ended[id] == want, "the disconnect callback runs once for each connection that ended")
	}
}

var names = []string{"a", "b", "c", "d", "e"}

// CheckHistory: connections open, are refused, connect to a namespace and end in any way and order.
func CheckHistory() {
	w := newWorld()
	steps := nd.Pick(4, 5)
	used := []string{}
	for i := 0; i < steps; i++ {
		x := string(rune('0' + i))
		switch nd.Choose("op"+x, 3) {
		case 0:
			id := names[len(used)]
			used = append(used, id)
			w.refuse = nd.Bool("refuse" + x)
			w.upgrade(id, nd.Bool("ack"+x))
			if w.refuse {
				nd.Reach("refused")
			}
		case 1: // connects to the namespace
			if len(used) == 0 {
				return
			}
			id := used[nd.Choose("who"+x, len(used))]
			c := w.open[id]
			if c == nil || w.inNS[id] {
				return
			}
			k := w.socks[id]
			k.Push([]byte("M")) // if it is not acknowledged
			k.Say(hx.W("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
			w.inNS[id] = true
		case 2: // ends
			if len(used) == 0 {
				return
			}
			id := used[nd.Choose("who"+x, len(used))]
			c := w.open[id]
			if c == nil {
				return
			}
			k := w.socks[id]
			switch nd.Choose("how"+x, 4) {
			case 0:
				c.Close()
			case 1:
				k.Drop()
			case 2:
				if !w.inNS[id] {
					return
				}
				k.WriteErr = hx.EOF
				c.Write(neffos.Message{Namespace: "n", Event: "e"})
			case 3:
				c.Close()
				k.Drop()
				c.Close()
			}
			hx.Settle()
			delete(w.open, id)
			nd.Reach("ended")
		}
		w.check()
		w.checkEnded(used)
	}
	nd.Reach("end")
}

// CheckSameID: connections that share an ID are counted, visited and ended each on its own.
func CheckSameID() {
	w := newWorld()
	var conns []*neffos.Conn
	var ks []*hx.Sock
	for i := 0; i < 2; i++ {
		c, k := hx.Attach(w.s, w.next, "x")
		conns, ks = append(conns, c), append(ks, k)
	}
	nd.Assert(w.s.GetTotalConnections() == 2, "number of connections")
	i := nd.Choose("which", 2)
	if nd.Bool("drop") {
		ks[i].Drop()
	} else {
		conns[i].Close()
	}
	hx.Settle()
	nd.Assert(w.s.GetTotalConnections() == 1 && w.s.GetConnections()["x"] == conns[1-i], "the other connection of the same ID")
	nd.Assert(w.ended["x"] == 1, "the disconnect callback of one connection")
	nd.Reach("end")
}

// CheckRace: a connection ends, in any way, while it is being upgraded and another one is opened or closed.
func CheckRace() {
	w := newWorld()
	w.s.OnConnect = nil
	other, ko := hx.Attach(w.s, w.next, "o")
	k := hx.NewSock()
	*w.next = k
	early := nd.Choose("early", 3)
	how := nd.Choose("how", 3)
	nd.Delays(nd.Pick(2, 3))
	switch early {
	case 1:
		k.Push([]byte("M"))
	case 2:
		k.Drop()
	}
	var c *neffos.Conn
	var err error
	up := false
	nd.Spawn(func() {
		c, err = w.s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("a"))
		up = true
	})
	nd.Spawn(func() {
		switch how {
		case 0:
			k.Drop()
		case 1:
			other.Close()
		case 2:
			ko.Drop()
		}
	})
	hx.Settle()
	nd.Assert(up, "upgrade returns")
	n := 2
	if early == 2 || how == 0 {
		n--
	}
	if how != 0 {
		n--
	}
	nd.Assert(w.s.GetTotalConnections() == uint64(n), "number of connections after a race")
	nd.Assert(len(w.s.GetConnections()) == n, "connections listed after a race")
	if how != 0 {
		nd.Assert(w.ended["o"] == 1, "the disconnect callback of the other connection")
	}
	if early != 2 && how != 0 {
		nd.Assert(err == nil && c != nil && !c.IsClosed(), "an open connection")
		nd.Assert(w.ended["a"] == 0, "the disconnect callback of an open connection")
	} else {
		nd.Assert(w.ended["a"] <= 1, "the disconnect callback runs twice")
	}
	nd.Reach("end")
}

// CheckConcurrentEnds: two connections end at the same time, each for several reasons at once.
func CheckConcurrentEnds() {
	w := newWorld()
	a, ka := hx.Attach(w.s, w.next, "a")
	b, kb := hx.Attach(w.s, w.next, "b")
	c, _ := hx.Attach(w.s, w.next, "c")
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() { a.Close(); kb.Drop() })
	nd.Spawn(func() { ka.Drop(); b.Close() })
	hx.Settle()
	w.open["c"] = c
	w.check()
	w.checkEnded([]string{"a", "b", "c"})
	nd.Reach("end")
}
