// Package c34: concurrent use of the public operations is free of data races.
package c34

import (
	"context"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/c29"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

// sock is a socket whose other side replies to every question; it orders
// goroutines only as far as it hands data over.
type sock struct {
	in     chan []byte
	closed chan struct{}
	once   sync.Once
	own    string // prefix of the tokens of the played side
}

func newSock(own string) *sock {
	return &sock{in: make(chan []byte, 64), closed: make(chan struct{}), own: own}
}

func (s *sock) NetConn() net.Conn      { return conn{s} }
func (s *sock) Request() *http.Request { return hx.NewRequest("GET", "") }
func (s *sock) ReadData(time.Duration) ([]byte, neffos.MessageType, error) {
	select {
	case b := <-s.in:
		return b, neffos.TextMessage, nil
	case <-s.closed:
		return nil, 0, io.EOF
	}
}
func (s *sock) WriteBinary(b []byte, d time.Duration) error { return s.WriteText(b, d) }
func (s *sock) WriteText(b []byte, _ time.Duration) error {
	select {
	case <-s.closed:
		return io.EOF
	default:
	}
	f := strings.SplitN(string(b), ";", 7)
	if len(f) == 7 && f[0] != "" && f[0] != "!" && !strings.HasPrefix(f[0], s.own) {
		s.in <- []byte(f[0] + ";;;;;;")
	}
	return nil
}

type conn struct{ *sock }

func (c conn) Read(b []byte) (int, error)       { return 0, io.EOF }
func (c conn) Write(b []byte) (int, error)      { return 0, io.EOF }
func (c conn) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c conn) LocalAddr() net.Addr              { return nil }
func (c conn) RemoteAddr() net.Addr             { return nil }
func (c conn) SetDeadline(time.Time) error      { return nil }
func (c conn) SetReadDeadline(time.Time) error  { return nil }
func (c conn) SetWriteDeadline(time.Time) error { return nil }

type rig struct {
	s    *neffos.Server
	cl   *neffos.Client
	c    *neffos.Conn
	n    *neffos.NSConn
	k    *sock
	room *neffos.Room
	up   chan *sock
	id   chan string
}

func (r *rig) say(tok, ns, room, event, body string) {
	if tok != "" {
		tok = r.k.own + tok
	}
	r.k.in <- hx.Wire(tok, ns, room, event, "0", "0", body)
}

func newRig(client bool) *rig {
	r := &rig{up: make(chan *sock, 8), id: make(chan string, 8)}
	nop := func(*neffos.NSConn, neffos.Message) error { return nil }
	ev := func() neffos.Events {
		return neffos.Events{"e": nop, neffos.OnAnyEvent: nop, "q": func(_ *neffos.NSConn, m neffos.Message) error { return neffos.Reply(nil) }}
	}
	with := func() neffos.Events {
		e := ev()
		e["k"] = func(n *neffos.NSConn, _ neffos.Message) error { n.Ask(nil, "q", nil); return nil }
		e["j"] = func(n *neffos.NSConn, _ neffos.Message) error { n.JoinRoom(nil, "w"); return nil }
		return e
	}
	h := neffos.Namespaces{"n": with(), "o": ev(), "p": ev()}
	if client {
		r.k = newSock("7")
		r.k.in <- []byte("Aid")
		cl, err := neffos.Dial(nil, func(context.Context, string) (neffos.Socket, error) { return r.k, nil }, "fake", h)
		nd.Assert(err == nil, "the dial failed")
		r.cl = cl
		n, err := cl.Connect(nil, "n")
		nd.Assert(err == nil, "the connect failed")
		r.n, r.c = n, n.Conn
	} else {
		r.s = neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return <-r.up, nil }, h)
		r.s.IDGenerator = func(http.ResponseWriter, *http.Request) string { return <-r.id }
		r.k = r.attach("a")
		r.c = r.s.GetConnections()["a"]
		n, err := r.c.Connect(nil, "n")
		nd.Assert(err == nil, "the connect failed")
		r.n = n
		other := r.attach("b")
		other.in <- hx.Wire("$71", "n", "", neffos.OnNamespaceConnect, "0", "0", "")
	}
	room, err := r.n.JoinRoom(nil, "r")
	r.room = room
	nd.Assert(err == nil, "the join failed")
	nd.Quiesce()
	return r
}

func (r *rig) attach(id string) *sock {
	k := newSock("$7")
	r.up <- k
	r.id <- id
	k.in <- []byte("M")
	_, err := r.s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, nil)
	nd.Assert(err == nil, "the upgrade failed")
	nd.Quiesce()
	return k
}

const nOps = 37

func (r *rig) op(i int, who string) {
	c, n := r.c, r.n
	switch i {
	case 0:
		n.Emit("e", nil)
	case 1:
		n.Ask(nil, "q", nil)
	case 2:
		n.JoinRoom(nil, "x")
	case 3:
		n.JoinRoom(nil, "y"+who)
	case 4:
		if r.room != nil {
			r.room.Leave(nil)
		}
	case 5:
		n.LeaveAll(nil)
	case 6:
		for _, room := range n.Rooms() {
			_ = room.String()
		}
	case 7:
		c.Connect(nil, "o")
	case 8:
		n.Disconnect(nil)
	case 9:
		c.DisconnectAll(nil)
	case 10:
		c.Namespace("n")
		c.Namespace("o")
	case 11:
		c.Close()
	case 12:
		c.IsClosed()
		c.ID()
		_ = c.String()
		c.IsClient()
		c.WasReconnected()
		c.Server()
		c.Socket()
	case 13:
		c.Set("k", who)
	case 14:
		c.Write(neffos.Message{Namespace: "n", Room: "r", Event: "e"})
		c.Ask(nil, neffos.Message{Namespace: "n", Event: "q"})
	case 15:
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		c.WaitConnect(ctx, "p")
		cancel()
	// what the other side sends
	case 16:
		r.say("", "n", "", "e", "")
	case 17:
		r.say("1"+who, "n", "", "q", "")
	case 18:
		r.say("2"+who, "p", "", neffos.OnNamespaceConnect, "")
	case 19:
		r.say("3"+who, "n", "", neffos.OnNamespaceDisconnect, "")
	case 20:
		r.say("4"+who, "n", "z", neffos.OnRoomJoin, "")
	case 21:
		r.say("5"+who, "n", "r", neffos.OnRoomLeave, "")
	case 22:
		conn{r.k}.Close()
	// the server, or the client
	case 23:
		if r.s == nil {
			r.cl.Close()
			return
		}
		r.s.Close()
	case 24:
		if r.s == nil {
			r.cl.Connect(nil, "p")
			return
		}
		r.s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"})
	case 25:
		if r.s == nil {
			r.cl.WaitServerConnect(nil, "n")
			return
		}
		r.s.Broadcast(n, neffos.Message{Namespace: "n", Room: "r", Event: "e", To: "a"})
	case 26:
		if r.s != nil {
			r.s.GetTotalConnections() // GetConnections is documented as not thread safe.
		}
	case 27:
		if r.s != nil {
			r.s.Do(func(x *neffos.Conn) { x.Namespace("n") }, who == "a")
		}
	case 28:
		if r.s != nil {
			k := newSock("$7")
			r.up <- k
			r.id <- "u" + who
			k.in <- []byte("M")
			r.s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, nil)
		}
	case 29:
		if r.s != nil {
			r.s.Ask(nil, neffos.Message{Namespace: "n", Event: "q", To: "a"})
		}
	case 30:
		r.k.in <- []byte("junk")
	case 31:
		c.Get("k")
	case 32:
		c.Increment("i")
		c.Decrement("i")
	case 33:
		n.Room("r")
	case 34:
		if r.room != nil {
			r.room.Emit("e", nil)
		}
	case 35: // its handler asks
		r.say("", "n", "", "k", "")
	case 36: // its handler joins a room
		r.say("", "n", "", "j", "")
	}
}

// CheckTwo: any two operations at once.
func CheckTwo() {
	nd.Races()
	r := newRig(nd.Bool("client"))
	i, j := nd.Choose("first", nOps), nd.Choose("second", nOps)
	nd.Delays(nd.Pick(0, 1))
	nd.Spawn(func() { r.op(i, "a") })
	nd.Spawn(func() { r.op(j, "b") })
	hx.Settle()
	time.Sleep(time.Second)
	nd.Quiesce()
}

// CheckStart: what OnConnect and the server's users do while a connection
// starts, together with what its other side sends.
func CheckStart() {
	nd.Races()
	i, j := nd.Choose("first", 12), nd.Choose("second", 12)
	nop := func(*neffos.NSConn, neffos.Message) error { return nil }
	ev := neffos.Events{"e": nop, neffos.OnAnyEvent: nop}
	k := newSock("$7")
	s := neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return k, nil }, neffos.Namespaces{"n": ev})
	s.IDGenerator = func(http.ResponseWriter, *http.Request) string { return "a" }
	fail := nd.Bool("refused")
	s.OnConnect = func(c *neffos.Conn) error {
		nd.Spawn(func() { startOp(s, c, k, i, "a") })
		startOp(s, c, k, j, "b")
		if fail {
			return io.EOF
		}
		return nil
	}
	s.OnDisconnect = func(c *neffos.Conn) { c.Namespace("n"); c.Get("k"); c.IsClosed() }
	k.in <- []byte("M")
	k.in <- hx.Wire("$79", "n", "", neffos.OnNamespaceConnect, "0", "0", "")
	nd.Delays(nd.Pick(1, 2))
	s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, nil)
	hx.Settle()
	time.Sleep(time.Second)
	nd.Quiesce()
}

func startOp(s *neffos.Server, c *neffos.Conn, k *sock, i int, who string) {
	switch i {
	case 0:
		c.Set("k", who)
	case 1:
		c.Write(neffos.Message{Namespace: "n", Event: "e"})
	case 2:
		c.Close()
	case 3:
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		c.WaitConnect(ctx, "n")
		cancel()
	case 4:
		s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"})
	case 5:
		s.Do(func(x *neffos.Conn) { x.Namespace("n"); x.ID() }, true)
	case 6:
		s.Close()
	case 7:
		conn{k}.Close()
	case 8:
		k.in <- hx.Wire("", "n", "", "e", "0", "0", "")
	case 9:
		_ = c.String()
		c.ID()
		c.IsClosed()
		c.WasReconnected()
	case 10:
		k.in <- []byte("junk")
	case 11:
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		c.Connect(ctx, "n")
		cancel()
	}
}

// CheckAdapters: two writes, or a write and what the other side sends, at once
// on a socket of either adapter that is being read.
func CheckAdapters() {
	nd.Races()
	s, ping, say, leave := c29.Open(nd.Bool("gorilla"), nd.Bool("client"))
	timeout := time.Duration(nd.Choose("timeout", 2)) * time.Hour
	nd.Spawn(func() {
		for {
			if _, _, err := s.ReadData(timeout); err != nil {
				return
			}
		}
	})
	nd.Quiesce()
	nd.Delays(nd.Pick(1, 2))
	op := func(i int) {
		switch i {
		case 0:
			s.WriteText([]byte("a"), timeout)
		case 1:
			s.WriteBinary([]byte("b"), timeout)
		case 2:
			ping()
		case 3:
			say()
		case 4:
			s.NetConn().Close()
		}
	}
	i, j := nd.Choose("first", 5), nd.Choose("second", 5)
	nd.Spawn(func() { op(i) })
	nd.Spawn(func() { op(j) })
	hx.Settle()
	leave()
	nd.Quiesce()
}
