package hx

import (
	"context"
	"io"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/nd"
)

// Rig is one acknowledged connection, server-side or client-side, whose other
// side is played by the harness.
type Rig struct {
	Client bool
	S      *neffos.Server
	Cl     *neffos.Client
	C      *neffos.Conn // client-side: known after the first event
	K      *Sock
	L      *Log
	n      int
}

// NewRig makes a rig; l records and must serve at least one event of h.
func NewRig(client bool, h neffos.ConnHandler, l *Log) *Rig {
	r := &Rig{Client: client, L: l}
	if client {
		r.Cl, r.K = ClientConn(h, "id")
	} else {
		r.S, r.C, r.K = ServerConn(h, "id")
	}
	return r
}

// Tok makes a fresh wait token of the played side.
func (r *Rig) Tok() string {
	r.n++
	t := "7" + string(rune('0'+r.n/10)) + string(rune('0'+r.n%10))
	if r.Client {
		return t
	}
	return "$" + t
}

// Ask plays a question of the other side and returns the frames written.
func (r *Rig) Ask(ns, room, event, body string) (tok string, out []Frame) {
	tok = r.Tok()
	r.K.Say(W(tok, ns, room, event, "0", "0", body))
	return tok, r.K.Take()
}

// Open plays the other side connecting to ns and returns the NSConn.
func (r *Rig) Open(ns string) *neffos.NSConn {
	tok, out := r.Ask(ns, "", neffos.OnNamespaceConnect, "")
	nd.Assert(len(out) == 1 && string(out[0].Body) == Empty(tok), "a namespace is refused or its connect is not replied")
	if r.C == nil {
		nd.Assert(r.L.Last != nil, "the namespace's connect event is not fired")
		r.C = r.L.Last.Conn
	}
	n := r.C.Namespace(ns)
	nd.Assert(n != nil, "a connected namespace is missing")
	return n
}

// Join plays the other side joining a room.
func (r *Rig) Join(ns, room string) {
	tok, out := r.Ask(ns, room, neffos.OnRoomJoin, "")
	nd.Assert(len(out) == 1 && string(out[0].Body) == Empty(tok), "a room is refused or its join is not replied")
}

// Watch calls f on another goroutine once the next frame is written.
func (s *Sock) Watch(f func()) {
	ch := make(chan struct{}, 1)
	s.OnWrite = func(Frame) {
		s.OnWrite = nil
		ch <- struct{}{}
	}
	go func() {
		<-ch
		f()
	}()
	nd.Quiesce()
}

// Go runs f and lets it block or finish.
func Go(f func()) *bool {
	done := new(bool)
	nd.Spawn(func() { f(); *done = true })
	nd.Quiesce()
	return done
}

// Question takes the only frame written, which must be a question with this
// content, and returns its wait token.
func (s *Sock) Question(msg, ns, room, event, body string) string {
	out := s.Take()
	nd.Assert(len(out) == 1, msg+": number of frames written")
	b := string(out[0].Body)
	i := 0
	for i < len(b) && b[i] != ';' {
		i++
	}
	nd.Assert(i > 0, msg+": no wait token")
	nd.Assert(b[i:] == W("", ns, room, event, "0", "0", body), msg+": content of the question")
	return b[:i]
}

// Token is the wait token of a frame.
func Token(f Frame) string {
	b := string(f.Body)
	for i := 0; i < len(b); i++ {
		if b[i] == ';' {
			return b[:i]
		}
	}
	return ""
}

// Bg is a context without deadline.
var Bg = context.Background()

// Clear forgets the log.
func (l *Log) Clear() { l.E = nil }

// Index of the first e, or -1.
func (l *Log) Index(e string) int {
	for i, x := range l.E {
		if x == e {
			return i
		}
	}
	return -1
}

// DialSock dials with the given socket.
func DialSock(sk *Sock, h neffos.ConnHandler) (*neffos.Client, error) {
	return neffos.Dial(nil, func(ctx context.Context, u string) (neffos.Socket, error) { return sk, nil }, "fake", h)
}

// IsQuestion reports whether f is a question (not an error) of that event.
func IsQuestion(f Frame, event string) bool {
	b := string(f.Body)
	n := 0
	last := 0
	for i := 0; i < len(b) && n < 5; i++ {
		if b[i] == ';' {
			switch n {
			case 0:
				if i == 0 {
					return false
				}
			case 3:
				if b[last:i] != event {
					return false
				}
			case 4:
				return b[last:i] == "0"
			}
			n++
			last = i + 1
		}
	}
	return false
}

// FieldOf is the i-th field of a frame with a concrete head.
func FieldOf(f Frame, k int) string {
	b := string(f.Body)
	n, last := 0, 0
	for i := 0; i < len(b); i++ {
		if b[i] == ';' {
			if n == k {
				return b[last:i]
			}
			n++
			last = i + 1
		}
	}
	return b[last:]
}

// EOF is what a lost transport returns.
var EOF = io.EOF
