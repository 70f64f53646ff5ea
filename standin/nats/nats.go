// Package nats stands in for github.com/nats-io/nats.go: connections, subscriptions with
// their callbacks and publications, to a NATS server in memory instead of over the network.
// As with the library, what is subscribed and published is sent later unless flushed (in order,
// per connection), and every subscription calls its handler on its own goroutine, in order.
package nats

import (
	"errors"
	"strings"
	"time"

	"github.com/kataras/neffos/verifh/nd"
)

// DefaultURL of a server.
const DefaultURL = "nats://127.0.0.1:4222"

// Errors.
var (
	ErrBadSubject        = errors.New("nats: invalid subject")
	ErrConnectionClosed  = errors.New("nats: connection closed")
	ErrBadSubscription   = errors.New("nats: invalid subscription")
	ErrNoServers         = errors.New("nats: no servers available for connection")
	ErrInvalidConnection = errors.New("nats: invalid connection")
	ErrTimeout           = errors.New("nats: timeout")
)

type (
	// Options of a connection.
	Options struct {
		Url            string
		Servers        []string
		NoEcho         bool
		Name           string
		Verbose        bool
		Pedantic       bool
		User           string
		Password       string
		Token          string
		Timeout        time.Duration
		MaxReconnect   int
		AllowReconnect bool
	}
	// Option sets some.
	Option func(*Options) error
	// Msg is a message.
	Msg struct {
		Subject string
		Reply   string
		Data    []byte
		Sub     *Subscription
	}
	// MsgHandler is called with the messages of a subscription.
	MsgHandler func(msg *Msg)
)

// Nats is the server.
var Nats Server

// Server is a NATS server.
type Server struct {
	mu    nd.Mutex
	conns []*Conn
	// Down makes connecting fail.
	Down bool
	// Clients is the number of open connections.
	Clients int
	// Handlers is the number of handlers being called.
	Handlers int
}

// Reset forgets everything.
func (s *Server) Reset() {
	s.mu.Lock()
	s.conns, s.Down, s.Clients, s.Handlers = nil, false, 0, 0
	s.mu.Unlock()
}

func (s *Server) handling(n int) {
	s.mu.Lock()
	s.Handlers += n
	s.mu.Unlock()
}

// GetDefaultOptions returns the defaults.
func GetDefaultOptions() Options { return Options{AllowReconnect: true, MaxReconnect: 60} }

// Conn is a connection.
type Conn struct {
	opts   Options
	mu     nd.Mutex
	closed bool
	subs   []*Subscription
	// what the server has not got yet
	out  []func()
	kick chan struct{}
	done chan struct{}
}

// Subscription of a subject.
type Subscription struct {
	Subject string
	nc      *Conn
	cb      MsgHandler
	known   bool // by the server
	closed  bool
	pending chan *Msg
	done    chan struct{}
}

// Connect connects to url.
func Connect(url string, options ...Option) (*Conn, error) {
	o := GetDefaultOptions()
	o.Url = url
	for _, f := range options {
		if f != nil {
			if err := f(&o); err != nil {
				return nil, err
			}
		}
	}
	return o.Connect()
}

// Connect connects.
func (o Options) Connect() (*Conn, error) {
	Nats.mu.Lock()
	defer Nats.mu.Unlock()
	if Nats.Down {
		return nil, ErrNoServers
	}
	nc := &Conn{opts: o, kick: make(chan struct{}, 1), done: make(chan struct{})}
	Nats.conns = append(Nats.conns, nc)
	Nats.Clients++
	nd.Spawn(nc.flusher)
	return nc, nil
}

func (nc *Conn) flusher() {
	for {
		select {
		case <-nc.kick:
			nd.Point()
			nc.flush()
		case <-nc.done:
			return
		}
	}
}

func (nc *Conn) flush() {
	Nats.mu.Lock()
	defer Nats.mu.Unlock()
	nc.mu.Lock()
	out := nc.out
	nc.out = nil
	nc.mu.Unlock()
	for _, f := range out {
		f()
	}
}

func (nc *Conn) send(f func()) {
	nc.mu.Lock()
	nc.out = append(nc.out, f)
	nc.mu.Unlock()
	select {
	case nc.kick <- struct{}{}:
	default:
	}
}

func badSubject(subj string) bool {
	if strings.ContainsAny(subj, " \t\r\n") {
		return true
	}
	for _, t := range strings.Split(subj, ".") {
		if len(t) == 0 {
			return true
		}
	}
	return false
}

// IsClosed, IsConnected report the state.
func (nc *Conn) IsClosed() bool {
	nc.mu.Lock()
	defer nc.mu.Unlock()
	return nc.closed
}

func (nc *Conn) IsConnected() bool { return !nc.IsClosed() }

// LastError is the last error.
func (nc *Conn) LastError() error {
	if nc.IsClosed() {
		return ErrConnectionClosed
	}
	return nil
}

// Flush waits until the server has what was sent so far.
func (nc *Conn) Flush() error {
	if nc.IsClosed() {
		return ErrConnectionClosed
	}
	nc.flush()
	return nil
}

// FlushTimeout is Flush.
func (nc *Conn) FlushTimeout(time.Duration) error { return nc.Flush() }

// Subscribe subscribes.
func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	if badSubject(subj) {
		return nil, ErrBadSubject
	}
	if nc.IsClosed() {
		return nil, ErrConnectionClosed
	}
	s := &Subscription{Subject: subj, nc: nc, cb: cb, pending: make(chan *Msg, 256), done: make(chan struct{})}
	nc.mu.Lock()
	nc.subs = append(nc.subs, s)
	nc.mu.Unlock()
	nd.Spawn(s.wait)
	nc.send(func() { s.known = true })
	return s, nil
}

func (s *Subscription) wait() {
	for {
		select {
		case <-s.done:
			return
		case m := <-s.pending:
			select {
			case <-s.done:
				return
			default:
			}
			Nats.handling(1)
			s.cb(m)
			Nats.handling(-1)
		}
	}
}

// IsValid reports whether it is subscribed.
func (s *Subscription) IsValid() bool {
	s.nc.mu.Lock()
	defer s.nc.mu.Unlock()
	return !s.closed
}

// Unsubscribe ends it.
func (s *Subscription) Unsubscribe() error {
	if s == nil {
		return ErrBadSubscription
	}
	s.nc.mu.Lock()
	if s.nc.closed {
		s.nc.mu.Unlock()
		return ErrConnectionClosed
	}
	if s.closed {
		s.nc.mu.Unlock()
		return ErrBadSubscription
	}
	s.closed = true
	close(s.done)
	s.nc.mu.Unlock()
	s.nc.send(func() { s.known = false })
	return nil
}

// Publish publishes.
func (nc *Conn) Publish(subj string, data []byte) error {
	if subj == "" {
		return ErrBadSubject
	}
	if nc.IsClosed() {
		return ErrConnectionClosed
	}
	data = append([]byte(nil), data...)
	nc.send(func() {
		for _, c := range Nats.conns {
			if c == nc && nc.opts.NoEcho {
				continue
			}
			c.mu.Lock()
			subs := append([]*Subscription(nil), c.subs...)
			c.mu.Unlock()
			for _, s := range subs {
				if s.known && match(s.Subject, subj) {
					s.pending <- &Msg{Subject: subj, Data: append([]byte(nil), data...), Sub: s}
				}
			}
		}
	})
	return nil
}

func match(p, s string) bool {
	if !strings.ContainsAny(p, "*>") {
		return p == s
	}
	ps, ss := strings.Split(p, "."), strings.Split(s, ".")
	for i, t := range ps {
		if t == ">" && i == len(ps)-1 {
			return len(ss) > i
		}
		if i >= len(ss) || t != "*" && t != ss[i] {
			return false
		}
	}
	return len(ps) == len(ss)
}

// Close sends the rest and ends the connection and its subscriptions.
func (nc *Conn) Close() {
	if nc.IsClosed() {
		return
	}
	nc.flush()
	Nats.mu.Lock()
	defer Nats.mu.Unlock()
	nc.mu.Lock()
	defer nc.mu.Unlock()
	if nc.closed {
		return
	}
	nc.closed = true
	close(nc.done)
	for _, s := range nc.subs {
		if !s.closed {
			s.closed = true
			close(s.done)
		}
	}
	nc.subs = nil
	Nats.Clients--
	var rest []*Conn
	for _, x := range Nats.conns {
		if x != nc {
			rest = append(rest, x)
		}
	}
	Nats.conns = rest
}
