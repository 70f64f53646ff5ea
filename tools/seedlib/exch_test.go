package neffos_test

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
	natsx "github.com/kataras/neffos/stackexchange/nats"
	redisx "github.com/kataras/neffos/stackexchange/redis"
)

// an in-memory Socket, the client is played by the test.
type xSock struct {
	in   chan string
	done chan struct{}
	once sync.Once
	mu   sync.Mutex
	out  []string
	req  *http.Request
	hook func(body string)
}

func (s *xSock) NetConn() net.Conn      { return xConn{s} }
func (s *xSock) Request() *http.Request { return s.req }
func (s *xSock) ReadData(time.Duration) ([]byte, neffos.MessageType, error) {
	select {
	case f := <-s.in:
		return []byte(f), neffos.TextMessage, nil
	case <-s.done:
		return nil, 0, io.EOF
	}
}

func (s *xSock) write(b []byte) error {
	select {
	case <-s.done:
		return io.EOF
	default:
	}
	s.mu.Lock()
	h := s.hook
	s.out = append(s.out, string(b))
	s.mu.Unlock()
	if h != nil {
		h(string(b))
	}
	return nil
}
func (s *xSock) WriteBinary(b []byte, t time.Duration) error { return s.write(b) }
func (s *xSock) WriteText(b []byte, t time.Duration) error   { return s.write(b) }
func (s *xSock) close()                                      { s.once.Do(func() { close(s.done) }) }

// take waits until nothing more comes.
func (s *xSock) take() string {
	for n := -1; ; {
		time.Sleep(150 * time.Millisecond)
		s.mu.Lock()
		if len(s.out) == n {
			r := strings.Join(s.out, " ")
			s.out = nil
			s.mu.Unlock()
			return r
		}
		n = len(s.out)
		s.mu.Unlock()
	}
}

func (s *xSock) do(event, ns, room string) {
	s.in <- "$5;" + ns + ";" + room + ";" + event + ";0;0;"
	s.take()
}

type xConn struct{ s *xSock }

func (c xConn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c xConn) Write(b []byte) (int, error)        { return 0, io.EOF }
func (c xConn) Close() error                       { c.s.close(); return nil }
func (c xConn) LocalAddr() net.Addr                { return nil }
func (c xConn) RemoteAddr() net.Addr               { return nil }
func (c xConn) SetDeadline(t time.Time) error      { return nil }
func (c xConn) SetReadDeadline(t time.Time) error  { return nil }
func (c xConn) SetWriteDeadline(t time.Time) error { return nil }

type xServer struct {
	*neffos.Server
	next *xSock
}

func (x *xServer) attach(t *testing.T, id string) (*neffos.Conn, *xSock) {
	x.next = &xSock{in: make(chan string, 100), done: make(chan struct{}), req: httptest.NewRequest("GET", "/", nil)}
	k := x.next
	c, err := x.Upgrade(httptest.NewRecorder(), k.req, nil, func(http.ResponseWriter, *http.Request) string { return id })
	if err != nil {
		t.Fatal(err)
	}
	k.in <- "M"
	k.take()
	return c, k
}

// xServe is a server with the exchange, of the broker b.
func xServe(t *testing.T, b *xBroker, h neffos.ConnHandler) *xServer {
	x := &xServer{}
	x.Server = neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) { return x.next, nil }, h)
	var e neffos.StackExchange
	var err error
	if b.redis {
		e, err = redisx.NewStackExchange(redisx.Config{Addr: b.l.Addr().String()}, "ch")
	} else {
		e, err = natsx.NewStackExchange("nats://" + b.l.Addr().String())
	}
	if err == nil {
		err = x.UseStackExchange(e)
	}
	if err != nil {
		t.Fatal(err)
	}
	return x
}

// xBroker speaks enough of Redis' or NATS' protocol.
type xBroker struct {
	redis bool
	l     net.Listener
	mu    sync.Mutex
	conns map[*xClient]bool
}

type xClient struct {
	c    net.Conn
	subs map[string]string // channel, or "*pattern"; subject by sid
	mu   sync.Mutex
}

func (c *xClient) send(s string) {
	c.mu.Lock()
	c.c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	io.WriteString(c.c, s)
	c.mu.Unlock()
}

func newBroker(t *testing.T, redis bool) *xBroker {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	b := &xBroker{redis: redis, l: l, conns: map[*xClient]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			x := &xClient{c: c, subs: map[string]string{}}
			b.mu.Lock()
			b.conns[x] = true
			b.mu.Unlock()
			go func() {
				if redis {
					b.serveRedis(x)
				} else {
					b.serveNats(x)
				}
				c.Close()
				b.mu.Lock()
				delete(b.conns, x)
				b.mu.Unlock()
			}()
		}
	}()
	return b
}

// clients is the number of connections, once it is n or does not change any more.
func (b *xBroker) clients(n int) int {
	for i := 0; ; i++ {
		time.Sleep(100 * time.Millisecond)
		b.mu.Lock()
		m := len(b.conns)
		b.mu.Unlock()
		if m == n || i > 30 {
			return m
		}
	}
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (b *xBroker) serveRedis(x *xClient) {
	r := bufio.NewReader(x.c)
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		h, err := line()
		if err != nil || !strings.HasPrefix(h, "*") {
			return
		}
		n, _ := strconv.Atoi(h[1:])
		var args []string
		for i := 0; i < n; i++ {
			h, err := line()
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(h[1:])
			p := make([]byte, k+2)
			if _, err := io.ReadFull(r, p); err != nil {
				return
			}
			args = append(args, string(p[:k]))
		}
		switch cmd := strings.ToUpper(args[0]); cmd {
		case "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE":
			for _, a := range args[1:] {
				k := a
				if strings.HasPrefix(cmd, "P") {
					k = "*" + a
				}
				b.mu.Lock()
				if strings.Contains(cmd, "UNSUB") {
					delete(x.subs, k)
				} else {
					x.subs[k] = a
				}
				b.mu.Unlock()
				x.send("*3\r\n" + bulk(strings.ToLower(cmd)) + bulk(a) + ":1\r\n")
			}
		case "PING":
			if len(args) > 1 || len(x.subs) > 0 {
				x.send("*2\r\n" + bulk("pong") + bulk(""))
			} else {
				x.send("+PONG\r\n")
			}
		case "PUBLISH":
			b.mu.Lock()
			for c := range b.conns {
				if _, ok := c.subs[args[1]]; ok {
					c.send("*3\r\n" + bulk("message") + bulk(args[1]) + bulk(args[2]))
				}
				if _, ok := c.subs["*"+args[1]]; ok {
					c.send("*4\r\n" + bulk("pmessage") + bulk(args[1]) + bulk(args[1]) + bulk(args[2]))
				}
			}
			b.mu.Unlock()
			x.send(":1\r\n")
		default:
			x.send("-ERR unknown\r\n")
		}
	}
}

func (b *xBroker) serveNats(x *xClient) {
	x.send(`INFO {"server_id":"x","version":"2.9.0","proto":1,"max_payload":1048576,"headers":false}` + "\r\n")
	r := bufio.NewReader(x.c)
	noecho := false
	for {
		s, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(s)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			noecho = strings.Contains(s, `"echo":false`)
		case "PING":
			x.send("PONG\r\n")
		case "SUB":
			b.mu.Lock()
			x.subs[f[len(f)-1]] = f[1]
			b.mu.Unlock()
		case "UNSUB":
			b.mu.Lock()
			delete(x.subs, f[1])
			b.mu.Unlock()
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			p := make([]byte, n+2)
			if _, err := io.ReadFull(r, p); err != nil {
				return
			}
			b.mu.Lock()
			for c := range b.conns {
				if c == x && noecho {
					continue
				}
				for sid, subj := range c.subs {
					if subj == f[1] {
						c.send(fmt.Sprintf("MSG %s %s %d\r\n%s\r\n", subj, sid, n, p[:n]))
					}
				}
			}
			b.mu.Unlock()
		}
	}
}

var _ = context.Background
