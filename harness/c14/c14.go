// Package c14: broadcasts arrive exactly once and in order.
package c14

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

func server() (*neffos.Server, **hx.Sock) {
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
	s.SyncBroadcaster = nd.Bool("sync")
	return s, next
}

func attach(s *neffos.Server, next **hx.Sock, id string) (*neffos.Conn, *hx.Sock) {
	c, k := hx.Attach(s, next, id)
	hx.ConnectNS(k, "n")
	return c, k
}

// bodies of the broadcast frames a connection got.
func bodies(k *hx.Sock) []string {
	var out []string
	for _, f := range k.Take() {
		if hx.FieldOf(f, 3) == "e" {
			out = append(out, hx.FieldOf(f, 6))
		}
	}
	return out
}

func index(l []string, s string) int {
	at := -1
	for i, x := range l {
		if x == s {
			nd.Assert(at < 0, "a broadcast arrives twice")
			at = i
		}
	}
	return at
}

func msg(body string) neffos.Message {
	return neffos.Message{Namespace: "n", Event: "e", Body: []byte(body)}
}

// all asserts that l has each of these once, in this order relative to each other.
func all(l []string, what ...string) {
	last := -1
	for _, w := range what {
		i := index(l, w)
		nd.Assert(i >= 0, "a broadcast is lost")
		nd.Assert(i > last, "broadcasts of one caller arrive in another order")
		last = i
	}
}

// CheckOrder: one caller; several broadcasts with one or two messages each.
func CheckOrder() {
	s, next := server()
	_, a := attach(s, next, "a")
	_, b := attach(s, next, "b")
	settle := nd.Bool("settle")
	nd.Delays(nd.Pick(2, 3))
	s.Broadcast(nil, msg("1"), msg("2"))
	if settle {
		nd.Quiesce()
	}
	s.Broadcast(nil, msg("3"))
	s.Broadcast(nil, msg("4"))
	hx.Settle()
	for _, k := range []*hx.Sock{a, b} {
		l := bodies(k)
		nd.Assert(len(l) == 4, "number of broadcast frames")
		all(l, "1", "2", "3", "4")
	}
	nd.Reach("end")
}

// CheckConcurrent: two (three) callers at once.
func CheckConcurrent() {
	s, next := server()
	_, a := attach(s, next, "a")
	_, b := attach(s, next, "b")
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() { s.Broadcast(nil, msg("1")); s.Broadcast(nil, msg("2")) })
	nd.Spawn(func() { s.Broadcast(nil, msg("3"), msg("4")) })
	n := 4
	if nd.Thorough() {
		nd.Spawn(func() { s.Broadcast(nil, msg("5")) })
		n = 5
	}
	hx.Settle()
	for _, k := range []*hx.Sock{a, b} {
		l := bodies(k)
		nd.Assert(len(l) == n, "number of broadcast frames")
		all(l, "1", "2")
		all(l, "3", "4")
	}
	nd.Reach("end")
}

// CheckJoining: a connection registers and connects meanwhile; what was registered and connected before gets everything, the new one no broadcast twice, and everything broadcast after it is connected.
func CheckJoining() {
	s, next := server()
	_, a := attach(s, next, "a")
	k := hx.NewSock()
	*next = k
	nd.Delays(nd.Pick(2, 3))
	connected := false
	var after []string
	nd.Spawn(func() {
		for _, b := range []string{"1", "2"} {
			if connected {
				after = append(after, b)
			}
			s.Broadcast(nil, msg(b))
		}
	})
	nd.Spawn(func() {
		k.OnWrite = func(f hx.Frame) {
			if hx.Token(f) == "$1" {
				connected = true
			}
		}
		k.Push([]byte("M"))
		k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
		s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("k"))
	})
	hx.Settle()
	l := bodies(a)
	nd.Assert(len(l) == 2, "number of broadcast frames")
	all(l, "1", "2")
	nd.Assert(connected, "the new connection is connected")
	s.Broadcast(nil, msg("4"))
	hx.Settle()
	l = bodies(k)
	last := ""
	for _, x := range l {
		nd.Assert(x > last, "broadcasts arrive twice or in another order")
		last = x
	}
	after = append(after, "4")
	all(l, after...)
	nd.Reach("end")
}

// CheckLeaving: a connection closes or is lost meanwhile, or cannot be written to; the others get everything.
func CheckLeaving() {
	s, next := server()
	_, a := attach(s, next, "a")
	c, k := attach(s, next, "c")
	how := nd.Choose("how", 4)
	if how == 1 {
		nd.Delays(nd.Pick(2, 3))
	} else {
		nd.Delays(nd.Pick(1, 2))
	}
	nd.Spawn(func() {
		switch how {
		case 0:
			c.Close()
		case 1:
			k.Drop()
		case 2:
			k.WriteErr = hx.EOF
		case 3:
			k.WriteErr = hx.ErrFake
		}
	})
	nd.Spawn(func() { s.Broadcast(nil, msg("1")); s.Broadcast(nil, msg("2"), msg("3")) })
	hx.Settle()
	l := bodies(a)
	nd.Assert(len(l) == 3, "number of broadcast frames")
	all(l, "1", "2", "3")
	last := ""
	for _, x := range bodies(k) {
		nd.Assert(x > last, "broadcasts arrive twice or in another order")
		last = x
	}
	nd.Reach("end")
}

// CheckSlow: a connection whose write blocks; with the default broadcaster the others get everything, and it gets it all, in order, once it is unblocked.
func CheckSlow() {
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
	_, a := attach(s, next, "a")
	_, k := attach(s, next, "c")
	_, b := attach(s, next, "b")
	gate := make(chan struct{})
	k.OnWrite = func(f hx.Frame) { <-gate }
	done := false
	nd.Delays(nd.Pick(1, 2))
	nd.Spawn(func() {
		s.Broadcast(nil, msg("1"))
		s.Broadcast(nil, msg("2"), msg("3"))
		done = true
	})
	hx.Settle()
	nd.Assert(done, "Broadcast waits for a slow connection")
	for _, k := range []*hx.Sock{a, b} {
		l := bodies(k)
		nd.Assert(len(l) == 3, "a slow connection keeps the others from a broadcast")
		all(l, "1", "2", "3")
	}
	close(gate)
	hx.Settle()
	all(bodies(k), "1", "2", "3")
	nd.Reach("end")
}
