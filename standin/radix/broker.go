// Package radix stands in for github.com/mediocregopher/radix/v3: its publish/subscribe
// client (pubsub.go, pubsub_persistent.go) is the library's own code, the connection below
// it talks to a Redis server in memory, instead of over the network.
package radix

import (
	"errors"
	"io"
	"time"

	"github.com/kataras/neffos/verifh/nd"
)

var errNotPubSubMessage = errors.New("message is not a PubSubMessage")

// PubSubMessage describes a message being published to a redis pubsub channel.
type PubSubMessage struct {
	Type    string // "message" or "pmessage"
	Pattern string // will be set if Type is "pmessage"
	Channel string
	Message []byte
}

// Conn is a connection to the server.
type Conn interface {
	Encode(cmd CmdAction) error
	Decode(m *PubSubMessage) error
	Close() error
}

// ConnFunc makes connections.
type ConnFunc func(network, addr string) (Conn, error)

type (
	// DialOpt is an option of Dial.
	DialOpt func()
	// Action is something a Pool does.
	Action interface{ args() []string }
	// CmdAction is a command.
	CmdAction = Action
	cmd       []string
)

func (c cmd) args() []string { return c }

// DialAuthPass, DialTimeout are accepted.
func DialAuthPass(pass string) DialOpt         { return func() {} }
func DialTimeout(d time.Duration) DialOpt      { return func() {} }
func DialConnectTimeout(time.Duration) DialOpt { return func() {} }

// Cmd, FlatCmd make commands.
func Cmd(rcv interface{}, name string, args ...string) CmdAction {
	return cmd(append([]string{name}, args...))
}

func FlatCmd(rcv interface{}, name, key string, args ...interface{}) CmdAction {
	c := cmd{name, key}
	for _, a := range args {
		switch a := a.(type) {
		case string:
			c = append(c, a)
		case []byte:
			c = append(c, string(a))
		default:
			panic("radix stand-in: argument type")
		}
	}
	return c
}

// Redis is the server.
var Redis Server

// Server is a Redis server's publish/subscribe part.
type Server struct {
	mu    nd.Mutex
	conns []*conn
	// Down makes every dial and publish fail.
	Down bool
	// Clients is the number of open subscriber connections.
	Clients int
}

// Reset forgets everything.
func (s *Server) Reset() {
	s.mu.Lock()
	s.conns, s.Down, s.Clients = nil, false, 0
	s.mu.Unlock()
}

type item struct {
	m   PubSubMessage
	err error
}

type conn struct {
	subs, psubs []string
	out         chan item
	done        chan struct{}
	closed      bool
}

// DefaultConnFunc dials.
var DefaultConnFunc ConnFunc = func(network, addr string) (Conn, error) { return Dial(network, addr) }

// Dial connects.
func Dial(network, addr string, opts ...DialOpt) (Conn, error) {
	Redis.mu.Lock()
	defer Redis.mu.Unlock()
	if Redis.Down {
		return nil, io.ErrUnexpectedEOF
	}
	c := &conn{out: make(chan item, 256), done: make(chan struct{})}
	Redis.conns = append(Redis.conns, c)
	Redis.Clients++
	return c, nil
}

func has(set []string, s string) bool {
	for _, x := range set {
		if x == s {
			return true
		}
	}
	return false
}

func without(set []string, s string) (out []string) {
	for _, x := range set {
		if x != s {
			out = append(out, x)
		}
	}
	return
}

// Encode sends a command.
func (c *conn) Encode(a CmdAction) error {
	Redis.mu.Lock()
	defer Redis.mu.Unlock()
	if c.closed {
		return io.ErrClosedPipe
	}
	args := a.args()
	for _, x := range args[1:] {
		switch args[0] {
		case "SUBSCRIBE":
			c.subs = append(without(c.subs, x), x)
		case "PSUBSCRIBE":
			c.psubs = append(without(c.psubs, x), x)
		case "UNSUBSCRIBE":
			c.subs = without(c.subs, x)
		case "PUNSUBSCRIBE":
			c.psubs = without(c.psubs, x)
		}
		c.out <- item{err: errNotPubSubMessage}
	}
	if args[0] == "PING" {
		c.out <- item{err: errNotPubSubMessage}
	}
	return nil
}

// Decode receives a message or the answer of a command.
func (c *conn) Decode(m *PubSubMessage) error {
	select {
	case i := <-c.out:
		*m = i.m
		return i.err
	case <-c.done:
		return io.EOF
	}
}

// Close ends the connection.
func (c *conn) Close() error {
	Redis.mu.Lock()
	defer Redis.mu.Unlock()
	if c.closed {
		return io.ErrClosedPipe
	}
	c.closed = true
	close(c.done)
	Redis.Clients--
	var rest []*conn
	for _, x := range Redis.conns {
		if x != c {
			rest = append(rest, x)
		}
	}
	Redis.conns = rest
	return nil
}

func (s *Server) publish(channel, body string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Down {
		return io.ErrUnexpectedEOF
	}
	for _, c := range s.conns {
		if has(c.subs, channel) {
			c.out <- item{m: PubSubMessage{Type: "message", Channel: channel, Message: []byte(body)}}
		}
		for _, p := range c.psubs {
			if match(p, channel) {
				c.out <- item{m: PubSubMessage{Type: "pmessage", Pattern: p, Channel: channel, Message: []byte(body)}}
			}
		}
	}
	return nil
}

// match is Redis' glob.
func match(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for i := 0; i <= len(s); i++ {
				if match(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			p, s = p[1:], s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			q, not, ok := p[1:], false, false
			if len(q) > 0 && q[0] == '^' {
				q, not = q[1:], true
			}
			for len(q) > 0 && q[0] != ']' {
				if q[0] == '\\' && len(q) > 1 {
					q = q[1:]
					ok = ok || q[0] == s[0]
				} else if len(q) > 2 && q[1] == '-' {
					lo, hi := q[0], q[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					ok = ok || lo <= s[0] && s[0] <= hi
					q = q[2:]
				} else {
					ok = ok || q[0] == s[0]
				}
				q = q[1:]
			}
			if len(q) > 0 {
				q = q[1:]
			}
			if ok == not {
				return false
			}
			p, s = q, s[1:]
		default:
			if p[0] == '\\' && len(p) > 1 {
				p = p[1:]
			}
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			p, s = p[1:], s[1:]
		}
	}
	return len(s) == 0
}

type (
	// Pool runs commands.
	Pool struct{}
	// PoolOpt is an option of it.
	PoolOpt func(*poolOpts)

	poolOpts struct{ cf ConnFunc }
)

// PoolConnFunc sets how a pool connects.
func PoolConnFunc(cf ConnFunc) PoolOpt { return func(o *poolOpts) { o.cf = cf } }

// NewPool makes a pool.
func NewPool(network, addr string, size int, opts ...PoolOpt) (*Pool, error) {
	o := poolOpts{DefaultConnFunc}
	for _, f := range opts {
		f(&o)
	}
	c, err := o.cf(network, addr)
	if err != nil {
		return nil, err
	}
	c.Close()
	return &Pool{}, nil
}

// Do runs a command.
func (p *Pool) Do(a Action) error {
	args := a.args()
	if args[0] == "PUBLISH" && len(args) == 3 {
		return Redis.publish(args[1], args[2])
	}
	return errors.New("radix stand-in: " + args[0])
}

// Close closes the pool.
func (p *Pool) Close() error { return nil }

type (
	// Cluster of servers.
	Cluster struct{ addrs []string }
	// ClusterNode is one.
	ClusterNode struct{ Addr string }
	// ClusterTopo are its nodes.
	ClusterTopo []ClusterNode
	// ClusterOpt is an option.
	ClusterOpt func()
)

// NewCluster connects to a cluster.
func NewCluster(addrs []string, opts ...ClusterOpt) (*Cluster, error) {
	return &Cluster{addrs}, nil
}

// Topo are the nodes.
func (c *Cluster) Topo() (t ClusterTopo) {
	for _, a := range c.addrs {
		t = append(t, ClusterNode{Addr: a})
	}
	return
}
