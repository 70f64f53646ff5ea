// Package c27: messages sent right after connecting are not lost.
package c27

import (
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type side struct {
	got  []string // bodies of the messages handled
	conn *neffos.NSConn
}

// table records messages and does what connected says in the connected callback.
func (s *side) table(connected func(ns *neffos.NSConn)) neffos.Events {
	return neffos.Events{
		neffos.OnNamespaceConnected: func(ns *neffos.NSConn, m neffos.Message) error {
			s.conn = ns
			if connected != nil {
				connected(ns)
			}
			return nil
		},
		"e": func(ns *neffos.NSConn, m neffos.Message) error {
			s.got = append(s.got, string(m.Body))
			return nil
		},
		"q": func(ns *neffos.NSConn, m neffos.Message) error {
			return neffos.Reply(m.Body)
		},
	}
}

func (s *side) is(msg string, want ...string) {
	nd.Assert(len(s.got) == len(want), msg+": number of messages handled")
	for _, w := range want {
		n := 0
		for _, g := range s.got {
			if g == w {
				n++
			}
		}
		nd.Assert(n == 1, msg+": a message is not handled once")
	}
}

func (s *side) order(msg string, a, b string) {
	ia, ib := -1, -1
	for i, g := range s.got {
		if g == a {
			ia = i
		}
		if g == b {
			ib = i
		}
	}
	nd.Assert(ia < ib, msg+": messages of one sender are handled in another order")
}

// CheckConnecting: either side connects; both send in their connected callback, from another goroutine started there, and the connecting one after Connect returned, possibly asking instead.
func CheckConnecting() {
	var sv, cl side
	fromServer := nd.Bool("server connects")
	asks := nd.Choose("asks", 3)
	broadcast := nd.Bool("broadcast")
	var p *hx.Pair
	asked := 0
	ask := func(ns *neffos.NSConn) {
		m, err := ns.Ask(nil, "q", []byte("r"))
		nd.Assert(err == nil && string(m.Body) == "r", "a question asked in the connected callback")
		asked++
	}
	sh := neffos.Namespaces{"n": sv.table(func(ns *neffos.NSConn) {
		nd.Assert(ns.Emit("e", []byte("1")), "emit in the server's connected callback")
		if asks == 0 {
			nd.Spawn(func() { nd.Assert(ns.Emit("e", []byte("2")), "emit after the server connected") })
		}
		if asks == 1 {
			ask(ns)
		}
		if broadcast {
			p.S.Broadcast(nil, neffos.Message{Namespace: "n", Event: "e", Body: []byte("b")})
		}
	})}
	ch := neffos.Namespaces{"n": cl.table(func(ns *neffos.NSConn) {
		nd.Assert(ns.Emit("e", []byte("3")), "emit in the client's connected callback")
		if asks == 0 {
			nd.Spawn(func() { nd.Assert(ns.Emit("e", []byte("4")), "emit after the client connected") })
		}
		if asks == 2 {
			ask(ns)
		}
	})}
	p = hx.NewPair(sh, ch)
	p.Start()
	hx.Settle()
	nd.Assert(p.Dialed && p.DialErr == nil && p.Upgraded, "dial")
	d := 1
	if !broadcast && (asks == 1 && fromServer && nd.Thorough() || asks == 2 && !fromServer) {
		d = 2
	}
	nd.Delays(d)
	done := false
	nd.Spawn(func() {
		var ns *neffos.NSConn
		var err error
		if fromServer {
			ns, err = p.Conn.Connect(nil, "n")
		} else {
			ns, err = p.Cl.Connect(nil, "n")
		}
		nd.Assert(err == nil && ns != nil, "connect")
		nd.Assert(ns.Emit("e", []byte("5")), "emit after Connect returned")
		done = true
	})
	time.Sleep(time.Second)
	nd.Assert(done, "Connect does not return")
	nd.Assert(asks == 0 || asked == 1, "a question asked in the connected callback does not return")
	toClient := []string{"1"}
	toServer := []string{"3"}
	if asks == 0 {
		toClient = append(toClient, "2")
		toServer = append(toServer, "4")
	}
	if broadcast {
		toClient = append(toClient, "b")
	}
	if fromServer {
		toClient = append(toClient, "5")
	} else {
		toServer = append(toServer, "5")
	}
	cl.is("client", toClient...)
	sv.is("server", toServer...)
	if asks == 0 {
		cl.order("client", "1", "2")
		sv.order("server", "3", "4")
	}
	if fromServer {
		cl.order("client", "1", "5")
	} else {
		sv.order("server", "3", "5")
	}
	nd.Reach("end")
}

// CheckAgain: the same after a disconnect, and with a second namespace that connects at the same time.
func CheckAgain() {
	var sv, cl, sv2, cl2 side
	two := nd.Bool("two")
	emit := func(ns *neffos.NSConn) { nd.Assert(ns.Emit("e", []byte("1")), "emit in the connected callback") }
	p := hx.NewPair(neffos.Namespaces{"n": sv.table(emit), "o": sv2.table(emit)}, neffos.Namespaces{"n": cl.table(emit), "o": cl2.table(emit)})
	p.Start()
	hx.Settle()
	nd.Assert(p.Dialed && p.DialErr == nil, "dial")
	nd.Delays(nd.Pick(1, 2))
	done, done2 := false, !two
	connect := func(name string) {
		ns, err := p.Cl.Connect(nil, name)
		nd.Assert(err == nil && ns != nil, "connect")
		nd.Assert(ns.Emit("e", []byte("2")), "emit after Connect returned")
		if name == "n" {
			nd.Assert(ns.Disconnect(nil) == nil, "disconnect")
			ns, err = p.Cl.Connect(nil, name)
			nd.Assert(err == nil && ns != nil, "connect again")
			nd.Assert(ns.Emit("e", []byte("3")), "emit after Connect returned")
		}
	}
	nd.Spawn(func() { connect("n"); done = true })
	if two {
		nd.Spawn(func() { connect("o"); done2 = true })
	}
	time.Sleep(time.Second)
	nd.Assert(done && done2, "Connect does not return")
	nd.Assert(len(sv.got) == 4 && sv.got[0] == "1" && sv.got[1] == "2" && sv.got[2] == "1" && sv.got[3] == "3", "messages handled by the server, in order")
	// the client's first one may arrive after it disconnected.
	nd.Assert(len(cl.got) >= 1 && len(cl.got) <= 2, "messages handled by the client")
	if two {
		sv2.is("second namespace, server", "1", "2")
		cl2.is("second namespace, client", "1")
	}
	nd.Reach("end")
}

// CheckBothConnect: both sides connect at once, and send at once.
func CheckBothConnect() {
	var sv, cl side
	p := hx.NewPair(neffos.Namespaces{"n": sv.table(nil)}, neffos.Namespaces{"n": cl.table(nil)})
	p.Start()
	hx.Settle()
	nd.Assert(p.Dialed && p.DialErr == nil, "dial")
	nd.Delays(nd.Pick(2, 3))
	done := 0
	nd.Spawn(func() {
		ns, err := p.Cl.Connect(nil, "n")
		nd.Assert(err == nil && ns != nil, "connect")
		nd.Assert(ns.Emit("e", []byte("1")), "emit after Connect returned")
		done++
	})
	nd.Spawn(func() {
		ns, err := p.Conn.Connect(nil, "n")
		nd.Assert(err == nil && ns != nil, "connect")
		nd.Assert(ns.Emit("e", []byte("2")), "emit after Connect returned")
		done++
	})
	time.Sleep(time.Second)
	nd.Assert(done == 2, "Connect does not return")
	sv.is("server", "1")
	cl.is("client", "2")
	nd.Reach("end")
}
