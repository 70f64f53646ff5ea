// Package c18: client and server always complete the handshake.
package c18

import (
	"context"
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type run struct {
	p            *hx.Pair
	sl, cl       *hx.Log
	cNS, sNS, up *neffos.NSConn
	cErr, sErr   error
	cDone, sDone bool
	dialed       chan struct{}
}

// start lets both sides begin; who connects: 0 client, 1 server in its connect callback, 2 server after the upgrade, 3 client and server's callback, 4 client and server.
func start(who, delays int, prepare func(r *run)) *run {
	r := &run{sl: &hx.Log{}, cl: &hx.Log{}, cDone: true, sDone: true}
	r.p = hx.NewPair(neffos.Namespaces{"n": r.sl.System()}, neffos.Namespaces{"n": r.cl.System()})
	p := r.p
	if prepare != nil {
		prepare(r)
	}
	client := who == 0 || who >= 3
	inside := who == 1 || who == 3
	after := who == 2 || who == 4
	if inside {
		r.sDone = false
		p.S.OnConnect = func(c *neffos.Conn) error {
			r.sNS, r.sErr = c.Connect(nil, "n")
			r.sDone = true
			return nil
		}
	}
	if client {
		r.cDone = false
	}
	if after {
		r.sDone = false
	}
	nd.Delays(delays)
	nd.Spawn(func() {
		p.Conn, p.UpErr = p.S.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		p.Upgraded = true
		if after && p.UpErr == nil {
			r.sNS, r.sErr = p.Conn.Connect(nil, "n")
		}
		if after {
			r.sDone = true
		}
	})
	nd.Spawn(func() {
		p.Cl, p.DialErr = hx.DialSock(p.ClientK, p.Handler)
		p.Dialed = true
		if client && p.DialErr == nil {
			r.cNS, r.cErr = p.Cl.Connect(nil, "n")
		}
		if client {
			r.cDone = true
		}
	})
	return r
}

// CheckConnect: one or both sides connect, inside or outside the server's connect callback; everything returns and both are connected.
func CheckConnect() {
	who := nd.Choose("who", 5)
	d := nd.Pick(1, 2)
	if who < 2 {
		d = nd.Pick(2, 3)
	}
	r := start(who, d, nil)
	time.Sleep(time.Second)
	p := r.p
	nd.Assert(p.Upgraded && p.UpErr == nil, "Upgrade does not return")
	nd.Assert(p.Dialed && p.DialErr == nil, "Dial does not return")
	nd.Assert(r.cDone && r.cErr == nil, "Connect of the client does not return or fails")
	nd.Assert(r.sDone && r.sErr == nil, "Connect of the server does not return or fails")
	sn := p.Conn.Namespace("n")
	nd.Assert(sn != nil, "the server's namespace is not connected")
	cn, err := p.Cl.WaitServerConnect(nil, "n")
	nd.Assert(err == nil && cn != nil, "the client's namespace is not connected")
	nd.Assert(r.cNS == nil || r.cNS == cn, "Connect of the client returns another namespace")
	nd.Assert(r.sNS == nil || r.sNS == sn, "Connect of the server returns another namespace")
	connected := 0
	for _, l := range []*hx.Log{r.sl, r.cl} {
		n := l.Count(hx.Ev("n", "", neffos.OnNamespaceConnected, "", "")) + l.Count(hx.Ev("n", "", neffos.OnNamespaceConnected, "L", ""))
		nd.Assert(n == 1, "the connected event fires once on each side")
		connected++
	}
	nd.Reach("end")
}

// CheckLoss: the transport is lost when the k-th frame of either side would be written, or at any moment; everything returns.
func CheckLoss() {
	who := nd.Choose("who", 5)
	at := nd.Choose("at", nd.Pick(3, 5))
	side := nd.Bool("server side")
	delays := 0
	anytime := at == 0
	if anytime {
		delays = nd.Pick(1, 2)
	}
	r := start(who, delays, func(r *run) {
		if anytime {
			return
		}
		k := r.p.ClientK
		if side {
			k = r.p.ServerK
		}
		n := 0
		k.OnWrite = func(hx.Frame) {
			n++
			if n == at {
				k.Drop()
			}
		}
	})
	if anytime {
		if side {
			nd.Spawn(func() { r.p.ClientK.Drop() })
		} else {
			nd.Spawn(func() { time.Sleep(time.Microsecond); r.p.ClientK.Drop() })
		}
	}
	time.Sleep(20 * time.Second)
	p := r.p
	nd.Assert(p.Upgraded, "Upgrade does not return after a loss")
	nd.Assert(p.Dialed, "Dial does not return after a loss")
	nd.Assert(r.cDone, "Connect of the client does not return after a loss")
	nd.Assert(r.sDone, "Connect of the server does not return after a loss")
	if p.ClientK.IsClosed() {
		nd.Assert(p.S.GetTotalConnections() == 0, "a lost connection is still counted")
		nd.Assert(p.Conn == nil || p.Conn.IsClosed(), "a lost connection is not closed")
		nd.Reach("lost")
	}
	nd.Reach("end")
}

// CheckRefusal: the server refuses while it or the client is slow; Dial always returns the refusal.
func CheckRefusal() {
	slow := nd.Choose("slow", 3)
	p := hx.NewPair(neffos.Namespaces{"n": neffos.Events{}}, neffos.Namespaces{"n": neffos.Events{}})
	p.S.OnConnect = func(c *neffos.Conn) error {
		if slow > 0 {
			time.Sleep(time.Duration(slow) * 10 * time.Millisecond)
		}
		return hx.ErrFake
	}
	nd.Delays(nd.Pick(2, 3))
	p.Start()
	time.Sleep(time.Second)
	nd.Assert(p.Upgraded && p.Dialed && p.DialErr != nil, "Dial or Upgrade does not return a refusal")
	nd.Reach("end")
}

// CheckNoAck: a server connects a client that never acknowledges, or does so at some later moment, or goes away; Connect returns within about ten seconds.
func CheckNoAck() {
	next := new(*hx.Sock)
	k := hx.NewSock()
	*next = k
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
	what := nd.Choose("what", 4)
	inside := nd.Bool("inside")
	var ns *neffos.NSConn
	var err error
	done := false
	took := time.Duration(0)
	try := func(c *neffos.Conn) {
		t := time.Now()
		ns, err = c.Connect(nil, "n")
		took = time.Since(t)
		done = true
	}
	if inside {
		s.OnConnect = func(c *neffos.Conn) error { try(c); return nil }
	}
	k.OnWrite = func(f hx.Frame) {
		if hx.IsQuestion(f, neffos.OnNamespaceConnect) {
			k.Push([]byte(hx.Empty(hx.Token(f))))
		}
	}
	nd.Spawn(func() {
		c, _ := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		if !inside {
			try(c)
		}
	})
	time.Sleep(time.Duration(nd.Choose("at", 4)) * 3 * time.Second)
	gone := done
	switch what {
	case 1:
		k.Push([]byte("M"))
	case 2:
		k.Drop()
	case 3:
		k.Push([]byte("M"))
		k.Drop()
	}
	time.Sleep(20 * time.Second)
	nd.Assert(done && took <= 11*time.Second, "Connect to a client that does not acknowledge does not give up")
	nd.Assert((ns == nil) == (err != nil), "Connect returns a namespace or an error")
	switch {
	case what == 0:
		nd.Assert(errors.Is(err, context.DeadlineExceeded), "giving up on a client")
		nd.Reach("gave up")
	case what == 1 && !gone:
		nd.Assert(err == nil && ns != nil, "Connect of a client that acknowledges late")
		nd.Reach("late")
	case what == 2 && !gone:
		nd.Assert(err != nil, "Connect of a client that went away")
		nd.Reach("away")
	}
}

// CheckDialer: the dialer gets the address, with a scheme, and a context; its error is returned, a handler may be missing,
// and a Dial that fails leaves nothing open.
func CheckDialer() {
	u := nd.StrUpTo("url", nd.Pick(7, 9))
	want := u
	if len(u) < 5 || u[:5] != "ws://" {
		if len(u) < 6 || u[:6] != "wss://" {
			want = "ws://" + u
		}
	}
	type key struct{}
	var given context.Context
	if nd.Bool("context") {
		given = context.WithValue(context.Background(), key{}, 1)
	}
	var h neffos.ConnHandler
	if nd.Bool("handler") {
		h = neffos.Namespaces{"n": neffos.Events{}}
	}
	no := errors.New("no")
	what := nd.Choose("what", 3)
	k := hx.NewSock()
	if what == 1 {
		k.WriteErr = no
	}
	calls := 0
	done := false
	var cl *neffos.Client
	var err error
	nd.Spawn(func() {
		cl, err = neffos.Dial(given, func(ctx context.Context, url string) (neffos.Socket, error) {
			calls++
			nd.Assert(url == want, "the address to dial")
			nd.Assert(ctx != nil && (given == nil || ctx.Value(key{}) == 1), "the context to dial with")
			if what == 2 {
				return nil, no
			}
			return k, nil
		}, u, h)
		done = true
	})
	hx.Settle()
	nd.Assert(calls == 1, "dialed once")
	if what == 0 {
		nd.Assert(!done, "Dial returns before the server answers")
		k.Push([]byte("Aid"))
		hx.Settle()
		nd.Assert(done && err == nil && cl != nil && cl.ID == "id", "Dial")
		_, err = cl.Connect(nil, "m")
		nd.Assert(err == neffos.ErrBadNamespace, "a namespace that is not there")
		nd.Assert(!k.IsClosed(), "an open connection")
		cl.Close()
		nd.Reach("dialed")
	} else {
		nd.Assert(done && err != nil && cl == nil, "a failed Dial")
		nd.Assert(what == 1 || err == no, "the dialer's error")
		nd.Reach("failed")
	}
	hx.Settle()
	nd.Assert(what == 2 || k.IsClosed(), "a socket is left open")
}
