package neffos

import (
	"context"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"
)

// an in-memory Socket, the other side is played by the test or by another one.
type memSock struct {
	in   chan queuedFrame
	done chan struct{}
	once sync.Once
	mu   sync.Mutex
	out  []queuedFrame
	peer *memSock
	req  *http.Request
	rt   time.Duration
	wt   time.Duration
	hook func(body string) error
}

type queuedFrame struct {
	typ  MessageType
	body string
}

func newMemSock() *memSock {
	return &memSock{in: make(chan queuedFrame, 1000), done: make(chan struct{}), req: httptest.NewRequest("GET", "/", nil)}
}

func (s *memSock) NetConn() net.Conn      { return memConn{s} }
func (s *memSock) Request() *http.Request { return s.req }
func (s *memSock) ReadData(t time.Duration) ([]byte, MessageType, error) {
	s.mu.Lock()
	s.rt = t
	s.mu.Unlock()
	select {
	case f := <-s.in:
		return []byte(f.body), f.typ, nil
	default:
	}
	select {
	case f := <-s.in:
		return []byte(f.body), f.typ, nil
	case <-s.done:
		return nil, 0, io.EOF
	}
}

func (s *memSock) write(b []byte, typ MessageType, t time.Duration) error {
	if s.hook != nil {
		if err := s.hook(string(b)); err != nil {
			return err
		}
	}
	select {
	case <-s.done:
		return io.EOF
	default:
	}
	f := queuedFrame{typ, string(b)}
	s.mu.Lock()
	s.wt = t
	s.out = append(s.out, f)
	s.mu.Unlock()
	if s.peer != nil {
		s.peer.in <- f
	}
	return nil
}

func (s *memSock) WriteBinary(b []byte, t time.Duration) error { return s.write(b, BinaryMessage, t) }
func (s *memSock) WriteText(b []byte, t time.Duration) error   { return s.write(b, TextMessage, t) }
func (s *memSock) push(frame string)                           { s.in <- queuedFrame{TextMessage, frame} }
func (s *memSock) drop() {
	s.once.Do(func() { close(s.done) })
	if s.peer != nil {
		s.peer.once.Do(func() { close(s.peer.done) })
	}
}

// written are the frames written so far.
func (s *memSock) written() (out []string) {
	s.mu.Lock()
	for _, f := range s.out {
		out = append(out, f.body)
	}
	s.mu.Unlock()
	return
}

// waits until a written frame satisfies ok.
func (s *memSock) await(ok func(string) bool) (string, bool) {
	for i := 0; i < 300; i++ {
		for _, f := range s.written() {
			if ok(f) {
				return f, true
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	return "", false
}

// waits for the exact frame.
func (s *memSock) has(frame string) bool {
	_, ok := s.await(func(f string) bool { return f == frame })
	return ok
}

// waits for a question of that event and returns its token.
func (s *memSock) question(t *testing.T, event string) string {
	f, ok := s.await(func(f string) bool {
		p := strings.SplitN(f, ";", 7)
		return len(p) == 7 && p[0] != "" && p[3] == event
	})
	if !ok {
		t.Fatalf("no question of %s: %q", event, s.written())
	}
	return strings.SplitN(f, ";", 7)[0]
}

type memConn struct{ s *memSock }

func (c memConn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c memConn) Write(b []byte) (int, error)        { return 0, io.EOF }
func (c memConn) Close() error                       { c.s.drop(); return nil }
func (c memConn) LocalAddr() net.Addr                { return nil }
func (c memConn) RemoteAddr() net.Addr               { return nil }
func (c memConn) SetDeadline(t time.Time) error      { return nil }
func (c memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c memConn) SetWriteDeadline(t time.Time) error { return nil }

// a server whose next connection uses *next.
func memServer(h ConnHandler, next **memSock) *Server {
	return New(func(w http.ResponseWriter, r *http.Request) (Socket, error) { return *next, nil }, h)
}

// one more acknowledged connection of s.
func memAttach(t *testing.T, s *Server, next **memSock, id string) (*Conn, *memSock) {
	sk := newMemSock()
	*next = sk
	c, err := s.Upgrade(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil), nil, func(http.ResponseWriter, *http.Request) string { return id })
	if err != nil {
		t.Fatal(err)
	}
	sk.push("M")
	if !sk.has("A" + id) {
		t.Fatal("no ack")
	}
	for !c.isAcknowledged() {
		time.Sleep(time.Millisecond)
	}
	return c, sk
}

// an acknowledged client.
func memClient(t *testing.T, h ConnHandler, id string) (*Client, *memSock) {
	sk := newMemSock()
	sk.push("A" + id)
	cl, err := Dial(nil, func(ctx context.Context, u string) (Socket, error) { return sk, nil }, "x", h)
	if err != nil {
		t.Fatal(err)
	}
	return cl, sk
}

// the played side asks; the reply frame is returned.
func (s *memSock) ask(t *testing.T, tok, ns, room, event, body string) string {
	s.push(tok + ";" + ns + ";" + room + ";" + event + ";0;0;" + body)
	f, ok := s.await(func(f string) bool { return strings.HasPrefix(f, tok+";") })
	if !ok {
		t.Fatalf("%s of %s is not answered", event, ns)
	}
	return f
}

// runs f with a limit of time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	select {
	case <-ch:
	case <-time.After(d):
		t.Fatal(what + ": does not end")
	}
}

var _ = strings.Index
