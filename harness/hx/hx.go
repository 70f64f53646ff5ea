// Package hx has the environment models the harnesses share: in-memory
// sockets, HTTP plumbing and event recorders.
package hx

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/nd"
)

// Frame is one websocket message.
type Frame struct {
	Typ  neffos.MessageType
	Body []byte
}

// Sock is an in-memory neffos.Socket. Frames to be read are pushed with Push;
// written frames are recorded in Out and, if Peer is set, pushed to the peer.
type Sock struct {
	in       chan Frame
	closed   chan struct{}
	isClosed bool
	Out      []Frame
	Peer     *Sock
	Req      *http.Request
	WriteErr error // returned by every write when set
	Closes   int
	OnWrite  func(f Frame)
	Reads    int
}

func NewSock() *Sock {
	return &Sock{in: make(chan Frame, 256), closed: make(chan struct{}), Req: NewRequest("GET", "")}
}

// Pipe returns two connected sockets.
func Pipe() (*Sock, *Sock) {
	a, b := NewSock(), NewSock()
	a.Peer, b.Peer = b, a
	return a, b
}

func (s *Sock) NetConn() net.Conn      { return (*netConn)(s) }
func (s *Sock) Request() *http.Request { return s.Req }

func (s *Sock) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	s.Reads++
	select {
	case f := <-s.in:
		nd.Order()
		nd.Log("reads " + string(f.Body))
		return f.Body, f.Typ, nil
	default:
	}
	select {
	case f := <-s.in:
		nd.Order()
		nd.Log("reads " + string(f.Body))
		return f.Body, f.Typ, nil
	case <-s.closed:
		return nil, 0, io.EOF
	}
}

func (s *Sock) write(body []byte, typ neffos.MessageType) error {
	nd.Order()
	if s.isClosed {
		return io.EOF
	}
	if s.WriteErr != nil {
		return s.WriteErr
	}
	f := Frame{Typ: typ, Body: append([]byte{}, body...)}
	nd.Log("writes " + string(body))
	s.Out = append(s.Out, f)
	if s.OnWrite != nil {
		s.OnWrite(f)
	}
	if s.Peer != nil && !s.Peer.isClosed {
		s.Peer.in <- f
	}
	return nil
}

func (s *Sock) WriteBinary(body []byte, timeout time.Duration) error {
	return s.write(body, neffos.BinaryMessage)
}

func (s *Sock) WriteText(body []byte, timeout time.Duration) error {
	return s.write(body, neffos.TextMessage)
}

// Push delivers a text frame to the reader.
func (s *Sock) Push(body []byte) { s.in <- Frame{Typ: neffos.TextMessage, Body: body} }

// PushBin delivers a binary frame to the reader.
func (s *Sock) PushBin(body []byte) { s.in <- Frame{Typ: neffos.BinaryMessage, Body: body} }

// Drop closes the transport (both ends), as a network failure would.
func (s *Sock) Drop() {
	if !s.isClosed {
		s.isClosed = true
		close(s.closed)
	}
	if s.Peer != nil && !s.Peer.isClosed {
		s.Peer.isClosed = true
		close(s.Peer.closed)
	}
}

// IsClosed reports whether the transport was closed.
func (s *Sock) IsClosed() bool { return s.isClosed }

type netConn Sock

func (c *netConn) Read(b []byte) (int, error)  { return 0, io.EOF }
func (c *netConn) Write(b []byte) (int, error) { return 0, io.EOF }
func (c *netConn) Close() error {
	c.Closes++
	(*Sock)(c).Drop()
	return nil
}
func (c *netConn) LocalAddr() net.Addr                { return nil }
func (c *netConn) RemoteAddr() net.Addr               { return nil }
func (c *netConn) SetDeadline(t time.Time) error      { return nil }
func (c *netConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *netConn) SetWriteDeadline(t time.Time) error { return nil }

// NewRequest builds a minimal request.
func NewRequest(method, rawQuery string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: "/", RawQuery: rawQuery}, Header: http.Header{}}
}

// RW records what is written as HTTP response.
type RW struct {
	H      http.Header
	Status int
	Body   []byte
	Writes int
}

func NewRW() *RW                     { return &RW{H: http.Header{}} }
func (w *RW) Header() http.Header    { return w.H }
func (w *RW) WriteHeader(status int) { w.Status = status }
func (w *RW) Write(b []byte) (int, error) {
	if w.Status == 0 {
		w.Status = 200
	}
	w.Writes++
	w.Body = append(w.Body, b...)
	return len(b), nil
}

// ErrFake is a distinguishable error for callbacks.
var ErrFake = errors.New("fake")

// Env is a server with scripted sockets.
type Env struct {
	S *neffos.Server
}

// NewServer makes a server whose upgrader returns the socket put in *next.
func NewServer(h neffos.ConnHandler, next **Sock) *neffos.Server {
	return neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		s := *next
		s.Req = r
		return s, nil
	}, h)
}

// FixedID is an ID generator returning id.
func FixedID(id string) neffos.IDGenerator {
	return func(http.ResponseWriter, *http.Request) string { return id }
}

// ServerConn upgrades a connection with the given id on a fresh server whose
// client is played by the harness; the acknowledgement is already done and
// its frames are removed from Out.
func ServerConn(h neffos.ConnHandler, id string) (*neffos.Server, *neffos.Conn, *Sock) {
	var sock *Sock
	s := NewServer(h, &sock)
	s.IDGenerator = FixedID(id)
	c, sk := Attach(s, &sock, id)
	return s, c, sk
}

// Attach upgrades and acknowledges one more connection on s.
func Attach(s *neffos.Server, next **Sock, id string) (*neffos.Conn, *Sock) {
	sk := NewSock()
	*next = sk
	c, err := s.Upgrade(NewRW(), NewRequest("GET", ""), nil, FixedID(id))
	if err != nil {
		panic("hx: upgrade: " + err.Error())
	}
	sk.Push([]byte("M"))
	nd.Quiesce()
	sk.Out = nil
	return c, sk
}

// ClientConn dials a server played by the harness and returns the connection
// after a successful acknowledgement with the given id.
func ClientConn(h neffos.ConnHandler, id string) (*neffos.Client, *Sock) {
	sk := NewSock()
	sk.Push([]byte("A" + id))
	cl, err := neffos.Dial(nil, func(ctx context.Context, u string) (neffos.Socket, error) { return sk, nil }, "fake", h)
	if err != nil {
		panic("hx: dial: " + err.Error())
	}
	sk.Out = nil
	return cl, sk
}

// Wire builds a raw wire message.
func Wire(wait, ns, room, event, isErr, isNoOp, body string) []byte {
	return []byte(wait + ";" + ns + ";" + room + ";" + event + ";" + isErr + ";" + isNoOp + ";" + body)
}

// Settle lets every other goroutine run until it blocks, postponed ones too.
func Settle() {
	time.Sleep(time.Millisecond)
	nd.Quiesce()
}

// Log records fired events, one string each.
type Log struct {
	E    []string
	Last *neffos.NSConn
	// Ret gives the handler's result, by event; nil means success.
	Ret func(ns *neffos.NSConn, m neffos.Message) error
}

// Ev renders a fired event.
func Ev(ns, room, event, flags, body string) string {
	return event + "|" + ns + "|" + room + "|" + flags + "|" + body
}

// Flags renders the locality flags of a message.
func Flags(m neffos.Message) string {
	s := ""
	if m.IsLocal {
		s += "L"
	}
	if m.IsForced {
		s += "F"
	}
	if m.Err != nil {
		s += "E"
	}
	return s
}

// Handler records and returns what Ret says.
func (l *Log) Handler(ns *neffos.NSConn, m neffos.Message) error {
	l.Last = ns
	body := string(m.Body)
	if m.Err != nil {
		body = m.Err.Error()
	}
	l.E = append(l.E, Ev(m.Namespace, m.Room, m.Event, Flags(m), body))
	if l.Ret != nil {
		return l.Ret(ns, m)
	}
	return nil
}

// Events is a table with the recorder on the given events.
func (l *Log) Events(events ...string) neffos.Events {
	t := neffos.Events{}
	for _, e := range events {
		t[e] = l.Handler
	}
	return t
}

// System is the table of every system event plus the given ones.
func (l *Log) System(events ...string) neffos.Events {
	t := l.Events(neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect,
		neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft)
	for _, e := range events {
		t[e] = l.Handler
	}
	return t
}

// Is asserts that the log is exactly want.
func (l *Log) Is(msg string, want ...string) {
	nd.Assert(len(l.E) == len(want), msg+": number of fired events")
	for i := range want {
		nd.Assert(l.E[i] == want[i], msg+": fired event")
	}
}

// Same asserts that the log is exactly want, in any order.
func (l *Log) Count(e string) int {
	n := 0
	for _, x := range l.E {
		if x == e {
			n++
		}
	}
	return n
}

// Take returns and forgets the frames written so far.
func (s *Sock) Take() []Frame {
	o := s.Out
	s.Out = nil
	return o
}

// Wrote asserts that exactly these text frames were written since the last Take.
func (s *Sock) Wrote(msg string, want ...string) {
	out := s.Take()
	nd.Assert(len(out) == len(want), msg+": number of frames written")
	for i := range want {
		nd.Assert(out[i].Typ == neffos.TextMessage, msg+": frame type")
		nd.Assert(string(out[i].Body) == want[i], msg+": frame written")
	}
}

// W is Wire as a string.
func W(wait, ns, room, event, isErr, isNoOp, body string) string {
	return wait + ";" + ns + ";" + room + ";" + event + ";" + isErr + ";" + isNoOp + ";" + body
}

// Say pushes a text frame and lets it be handled.
func (s *Sock) Say(frame string) {
	s.Push([]byte(frame))
	nd.Quiesce()
}

// Empty is the empty reply to a wait token.
func Empty(wait string) string { return wait + ";;;;;;" }

// ConnectNS plays the remote side connecting to ns; the reply is checked.
func ConnectNS(s *Sock, ns string) {
	s.Say(W("$9", ns, "", neffos.OnNamespaceConnect, "0", "0", ""))
	s.Wrote("connect", Empty("$9"))
}

// JoinRoom plays the remote side joining a room.
func JoinRoom(s *Sock, ns, room string) {
	s.Say(W("$8", ns, room, neffos.OnRoomJoin, "0", "0", ""))
	s.Wrote("join", Empty("$8"))
}
