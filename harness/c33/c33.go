// Package c33: WaitConnect returns as soon as the namespace is connected.
package c33

import (
	"context"
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

const poll = 50 * time.Millisecond // generous: the poll interval is 15 ms

// CheckWait: the other side connects, and the context ends, at any of several moments.
func CheckWait() {
	l := &hx.Log{}
	client := nd.Bool("client")
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(client, h, l)
	r.Open("o")
	c := r.C
	connectAt := time.Duration(nd.Choose("connect", nd.Pick(10, 20))*5) * time.Millisecond
	never := nd.Bool("never")
	kind := nd.Choose("ctx", 4)
	deadline := time.Duration(nd.Choose("deadline", nd.Pick(10, 20))*5+1) * time.Millisecond
	var ctx context.Context
	cancel := func() {}
	switch kind {
	case 1:
		ctx, cancel = context.WithCancel(context.Background())
	case 2:
		ctx, cancel = context.WithTimeout(context.Background(), deadline)
	case 3:
		ctx = context.Background()
	}
	if never && (kind == 0 || kind == 3) {
		return
	}
	start := nd.Now()
	var n *neffos.NSConn
	var err error
	var at time.Duration
	done := false
	nd.Spawn(func() {
		if client && nd.Bool("api") {
			n, err = r.Cl.WaitServerConnect(ctx, "n")
		} else {
			n, err = c.WaitConnect(ctx, "n")
		}
		at = time.Duration(nd.Now() - start)
		done = true
	})
	if !never {
		nd.Spawn(func() {
			time.Sleep(connectAt)
			tok := r.Tok()
			r.K.Push([]byte(hx.W(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", "")))
		})
	}
	if kind == 1 {
		nd.Spawn(func() { time.Sleep(deadline); cancel() })
	}
	time.Sleep(time.Second)
	nd.Assert(done, "WaitConnect does not return")
	ends := kind == 1 || kind == 2
	switch {
	case never || ends && deadline < connectAt:
		nd.Assert(n == nil && err != nil, "WaitConnect returns a namespace that is not connected")
		if kind == 1 {
			nd.Assert(errors.Is(err, context.Canceled), "error of WaitConnect")
		} else {
			nd.Assert(errors.Is(err, context.DeadlineExceeded), "error of WaitConnect")
		}
		nd.Assert(at >= deadline && at <= deadline+poll, "WaitConnect outlives its context")
		nd.Reach("ended")
	case !ends || deadline > connectAt+poll:
		nd.Assert(err == nil && n != nil && n == c.Namespace("n"), "WaitConnect does not return the connected namespace")
		nd.Assert(at >= connectAt && at <= connectAt+poll, "WaitConnect returns late")
		nd.Reach("connected")
	default:
		nd.Assert((err == nil) == (n != nil), "result of WaitConnect")
	}
	nd.Reach("end")
}

// CheckConnected: an already connected namespace is returned at once, an ended context is not ignored, and another namespace is not returned.
func CheckConnected() {
	l := &hx.Log{}
	h := neffos.Namespaces{"n": l.System(), "o": l.System()}
	r := hx.NewRig(nd.Bool("client"), h, l)
	n := r.Open("n")
	var got *neffos.NSConn
	var err error
	done := false
	ns := "n"
	if nd.Bool("other") {
		ns = "o"
	}
	ended := nd.Bool("ended")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if ended {
		cancel()
	}
	nd.Spawn(func() { got, err = r.C.WaitConnect(ctx, ns); done = true })
	nd.Quiesce()
	switch {
	case ended:
		nd.Assert(done && got == nil && errors.Is(err, context.Canceled), "WaitConnect with an ended context")
	case ns == "n":
		nd.Assert(done && err == nil && got == n, "WaitConnect of a connected namespace")
	default:
		time.Sleep(time.Second)
		nd.Assert(!done, "WaitConnect returns another namespace")
	}
	nd.Reach("end")
}

// CheckNotAcknowledged: on the server, WaitConnect does not return before the client is acknowledged and connected, whatever the order of the two and the schedule.
func CheckNotAcknowledged() {
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System()}, next)
	k := hx.NewSock()
	*next = k
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	nd.Assert(err == nil, "upgrade")
	done := false
	var n *neffos.NSConn
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() {
		n, err = c.WaitConnect(nil, "n")
		nd.Assert(len(k.Out) >= 2 && string(k.Out[0].Body) == "Aid", "WaitConnect returns before the acknowledgement and the connect")
		done = true
	})
	early := nd.Bool("early")
	if early {
		k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	}
	k.Push([]byte("M"))
	if !early {
		k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	}
	time.Sleep(time.Second)
	nd.Assert(done && err == nil && n == c.Namespace("n") && n != nil, "WaitConnect on the server")
	nd.Reach("end")
}
