// Package c31: the Redis and NATS exchanges. Their client libraries are the stand-ins of
// /verif/standin, which talk to a broker in memory.
package c31

import (
	"context"
	"errors"
	"strings"

	"github.com/kataras/neffos"
	natsx "github.com/kataras/neffos/stackexchange/nats"
	redisx "github.com/kataras/neffos/stackexchange/redis"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
	"github.com/mediocregopher/radix/v3"
	"github.com/nats-io/nats.go"
)

const (
	connect    = "_OnNamespaceConnect"
	disconnect = "_OnNamespaceDisconnect"
	join       = "_OnRoomJoin"
	leave      = "_OnRoomLeave"
)

// world is one or more servers of one broker.
type world struct {
	redis bool
	s     []*neffos.Server
	next  []**hx.Sock
	base  int
}

func exchange(redis bool) neffos.StackExchange {
	if redis {
		e, err := redisx.NewStackExchange(redisx.Config{}, "ch")
		nd.Assert(err == nil, "no exchange")
		return e
	}
	e, err := natsx.NewStackExchange("")
	nd.Assert(err == nil, "no exchange")
	return e
}

func newWorld(servers int, h neffos.ConnHandler) *world {
	radix.Redis.Reset()
	nats.Nats.Reset()
	w := &world{redis: nd.Bool("redis")}
	for i := 0; i < servers; i++ {
		next := new(*hx.Sock)
		s := hx.NewServer(h, next)
		nd.Assert(s.UseStackExchange(exchange(w.redis)) == nil, "UseStackExchange")
		w.s = append(w.s, s)
		w.next = append(w.next, next)
	}
	w.base = w.clients()
	return w
}

// clients is the number of connections to the broker.
func (w *world) clients() int {
	nd.Quiesce()
	if w.redis {
		return radix.Redis.Clients
	}
	return nats.Nats.Clients
}

func frame(ns, room, event, body string) string { return hx.W("", ns, room, event, "0", "0", body) }

type member struct {
	c      *neffos.Conn
	k      *hx.Sock
	server int
	in     map[string]bool // namespaces and rooms
	closed bool
}

// got takes what was written and asserts that it is want, in order.
func (m *member) got(msg string, want ...string) {
	out := m.k.Take()
	nd.Assert(len(out) == len(want), msg)
	for i, f := range out {
		nd.Assert(string(f.Body) == want[i], msg)
	}
}

func (w *world) member(server int, id string) *member {
	c, k := hx.Attach(w.s[server], w.next[server], id)
	return &member{c: c, k: k, server: server, in: map[string]bool{}}
}

func (m *member) do(event, ns, room string) {
	m.k.Say(hx.W("$5", ns, room, event, "0", "0", ""))
	m.got(event, hx.Empty("$5"))
}

// CheckRoute: connections of two servers connect to and disconnect from namespaces, join and leave rooms and end,
// and either server broadcasts; every connection gets what it should, once and in order, and nothing else.
func CheckRoute() {
	w := newWorld(2, neffos.Namespaces{"n": neffos.Events{}, "o": neffos.Events{}})
	ms := []*member{w.member(0, "a"), w.member(0, "b"), w.member(1, "c")}
	for i, m := range ms {
		if i == 2 || nd.Bool("n") {
			m.do(connect, "n", "")
			m.in["n"] = true
		}
	}
	ms[2].do(join, "n", "r")
	ms[2].in["n r"] = true
	changes := nd.Pick(2, 3)
	for i := 0; i <= changes; i++ {
		m, op := ms[2*nd.Choose("who", 2)], 0
		if i < changes {
			op = nd.Choose("change", 3)
		} else {
			op = 3 + nd.Choose("send", 3)
		}
		switch op {
		case 0: // a namespace
			ns := [...]string{"n", "o"}[nd.Choose("ns", 2)]
			if m.closed {
				continue
			}
			if m.in[ns] {
				m.do(disconnect, ns, "")
				m.in[ns] = false
				if ns == "n" {
					m.in["n r"] = false
				}
			} else {
				m.do(connect, ns, "")
				m.in[ns] = true
			}
		case 1: // a room
			if m.closed || !m.in["n"] {
				continue
			}
			if m.in["n r"] {
				m.do(leave, "n", "r")
			} else {
				m.do(join, "n", "r")
			}
			m.in["n r"] = !m.in["n r"]
		case 2: // the connection ends
			if m.closed {
				continue
			}
			if nd.Bool("drop") {
				m.k.Drop()
			} else {
				m.c.Close()
			}
			nd.Quiesce()
			m.closed = true
		case 3: // two messages to a namespace and a room
			ns := [...]string{"n", "o"}[nd.Choose("ns", 2)]
			w.s[nd.Choose("from", 2)].Broadcast(nil, neffos.Message{Namespace: ns, Event: "e", Body: []byte("1")}, neffos.Message{Namespace: "n", Room: "r", Event: "e"})
			nd.Quiesce()
			for _, x := range ms {
				var want []string
				if x.in[ns] && !x.closed {
					want = append(want, frame(ns, "", "e", "1"))
				}
				if x.in["n r"] && !x.closed {
					want = append(want, frame("n", "r", "e", ""))
				}
				if ns == "o" && !w.redis && len(want) == 2 {
					// the messages of two namespaces come in any order
					out := x.k.Take()
					nd.Assert(len(out) == 2 && (string(out[0].Body) == want[0] && string(out[1].Body) == want[1] || string(out[0].Body) == want[1] && string(out[1].Body) == want[0]), "a broadcast")
				} else {
					x.got("a broadcast", want...)
				}
			}
			nd.Reach("broadcast")
		case 4: // to one connection
			w.s[nd.Choose("from", 2)].Broadcast(nil, neffos.Message{Namespace: "n", Event: "e", Body: []byte("2"), To: m.c.ID()})
			nd.Quiesce()
			for _, x := range ms {
				if x == m && x.in["n"] && !x.closed {
					x.got("an addressed message", frame("n", "", "e", "2"))
				} else {
					x.got("an addressed message")
				}
			}
			nd.Reach("addressed")
		case 5: // to the others
			w.s[m.server].Broadcast(m.c, neffos.Message{Namespace: "n", Event: "e", Body: []byte("3")})
			nd.Quiesce()
			for _, x := range ms {
				if x != m && x.in["n"] && !x.closed {
					x.got("a message to the others", frame("n", "", "e", "3"))
				} else {
					x.got("a message to the others")
				}
			}
			nd.Reach("others")
		}
	}
	open := 0
	for _, m := range ms {
		if !m.closed {
			open++
		}
	}
	nd.Assert(w.clients() == w.base+open, "connections to the broker")
	nd.Reach("end")
}

// name is a namespace's name of up to n bytes.
func (w *world) name(label string, n int) string {
	s := nd.Str(label, nd.Choose(label+".len", n+1))
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != ';' && s[i] != '@')
		if !w.redis {
			// no part of a subject
			nd.Assume(s[i] != ' ' && s[i] != '\t' && s[i] != '\r' && s[i] != '\n' && s[i] != '.' && s[i] != '*' && s[i] != '>')
		}
	}
	nd.Assume(s != "id")
	return s
}

// CheckNames: whatever two namespaces are called, the messages of each go to those connected to it.
func CheckNames() {
	radix.Redis.Reset()
	nats.Nats.Reset()
	w := &world{redis: nd.Bool("redis")}
	n := nd.Pick(2, 3)
	a, b := w.name("a", 3), w.name("b", n)
	nd.Assume(a != b)
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{a: neffos.Events{}, b: neffos.Events{}}, next)
	nd.Assert(s.UseStackExchange(exchange(w.redis)) == nil, "UseStackExchange")
	w.s, w.next = []*neffos.Server{s}, []**hx.Sock{next}
	m := w.member(0, "id")
	m.do(connect, a, "")
	both := nd.Bool("both")
	if both {
		m.do(connect, b, "")
	}
	s.Broadcast(nil, neffos.Message{Namespace: a, Event: "e"})
	nd.Quiesce()
	m.got("a message of its namespace", frame(a, "", "e", ""))
	s.Broadcast(nil, neffos.Message{Namespace: b, Event: "f"})
	nd.Quiesce()
	if both {
		m.got("a message of the other namespace", frame(b, "", "f", ""))
	} else {
		m.got("a message of another namespace")
	}
	m.do(disconnect, a, "")
	s.Broadcast(nil, neffos.Message{Namespace: a, Event: "e"}, neffos.Message{Namespace: b, Event: "g"})
	nd.Quiesce()
	if both {
		m.got("after a disconnect from the one", frame(b, "", "g", ""))
	} else {
		m.got("after a disconnect")
	}
	nd.Reach("end")
}

// plain is a string of at most n bytes without separators.
func plain(label string, n int) string {
	s := nd.StrUpTo(label, n)
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != ';' && s[i] != '@')
	}
	return s
}

// CheckContent: what is broadcast through the broker arrives as it is, for any event, room and body, from any sender's namespace.
func CheckContent() {
	w := newWorld(2, neffos.Namespaces{"n": neffos.Events{}})
	ms := []*member{w.member(0, "a"), w.member(1, "b")}
	room := plain("room", nd.Pick(1, 2))
	for _, m := range ms {
		m.do(connect, "n", "")
		if room != "" {
			m.do(join, "n", room)
		}
	}
	event, body := plain("event", nd.Pick(1, 2)), nd.StrUpTo("body", nd.Pick(3, 6))
	failed := nd.Bool("failed")
	msg := neffos.Message{Namespace: "n", Room: room, Event: event, Body: []byte(body)}
	isErr := "0"
	if failed {
		msg.Err, isErr = errors.New("x"+body), "1"
		body = "x" + body
	}
	if nd.Bool("to") {
		msg.To = "b"
	}
	w.s[0].Broadcast(nil, msg)
	nd.Quiesce()
	want := hx.W("", "n", room, event, isErr, "0", body)
	if msg.To == "" {
		ms[0].got("the content", want)
	} else {
		ms[0].got("the content of a message to another")
	}
	ms[1].got("the content", want)
	nd.Reach("end")
}

// CheckPrefix: servers of different channels or subjects do not hear each other.
func CheckPrefix() {
	radix.Redis.Reset()
	nats.Nats.Reset()
	w := &world{redis: nd.Bool("redis")}
	same := nd.Bool("same")
	for i := 0; i < 2; i++ {
		p := "p"
		if i == 1 && !same {
			p = "q"
		}
		var e neffos.StackExchange
		if w.redis {
			r, err := redisx.NewStackExchange(redisx.Config{}, p)
			nd.Assert(err == nil, "no exchange")
			e = r
		} else {
			n, err := natsx.NewStackExchange("")
			nd.Assert(err == nil, "no exchange")
			n.SubjectPrefix = p
			e = n
		}
		next := new(*hx.Sock)
		s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
		nd.Assert(s.UseStackExchange(e) == nil, "UseStackExchange")
		w.s, w.next = append(w.s, s), append(w.next, next)
	}
	a, b := w.member(0, "a"), w.member(1, "b")
	a.do(connect, "n", "")
	b.do(connect, "n", "")
	to := [...]string{"", "a", "b"}[nd.Choose("to", 3)]
	w.s[0].Broadcast(nil, neffos.Message{Namespace: "n", Event: "e", To: to})
	nd.Quiesce()
	if to != "b" {
		a.got("a message of its own prefix", frame("n", "", "e", ""))
	} else {
		a.got("a message to another")
	}
	if to != "a" && same {
		b.got("a message of the same prefix", frame("n", "", "e", ""))
	} else {
		b.got("a message of another prefix")
	}
	nd.Reach("end")
}

// CheckAsk: a question to one or all connections of two servers, which answer (or not) at any moment, ends with the
// first answer, or with the context, whatever else arrives; and the exchange goes on.
func CheckAsk() {
	w := newWorld(2, neffos.Namespaces{"n": neffos.Events{}})
	ms := []*member{w.member(0, "a"), w.member(1, "b")}
	answers, failed := 0, nd.Bool("failed")
	to := ""
	if nd.Bool("to") {
		to = "b"
	}
	mute := nd.Choose("mute", 3) // none, the first, both
	for i, m := range ms {
		m.do(connect, "n", "")
		m.k.OnWrite = func(f hx.Frame) {
			if !hx.IsQuestion(f, "q") {
				return
			}
			nd.Assert(to == "" || i == 1, "a question to one is asked another")
			if mute == 2 || mute == 1 && i == 0 {
				return
			}
			answers++
			tok := hx.Token(f)
			if failed {
				m.k.Push(hx.Wire(tok, "n", "", "q", "1", "0", "no"))
			} else {
				m.k.Push(hx.Wire(tok, "n", "", "q", "0", "0", m.c.ID()))
			}
		}
	}
	nd.Delays(nd.Pick(1, 2))
	ctx, cancel := context.WithCancel(context.Background())
	var reply neffos.Message
	var err error
	done := false
	nd.Spawn(func() {
		reply, err = w.s[0].Ask(ctx, neffos.Message{Namespace: "n", Event: "q", To: to})
		done = true
	})
	cancelled := nd.Bool("cancel")
	if cancelled {
		nd.Spawn(cancel)
	}
	hx.Settle()
	if !cancelled {
		nd.Assert(done == (answers > 0), "a question with an answer does not return, or one without returns")
	}
	cancel()
	hx.Settle()
	nd.Assert(done, "a question does not return")
	switch {
	case err == context.Canceled:
		nd.Assert(cancelled || answers == 0, "the answer is lost")
	case failed:
		nd.Assert(answers > 0 && err != nil && err.Error() == "no", "the error of the answer")
	default:
		b := string(reply.Body)
		nd.Assert(answers > 0 && err == nil && (b == "a" && mute == 0 && to == "" || b == "b"), "the answer")
		nd.Reach("answered")
	}
	for _, m := range ms {
		m.k.Take()
		m.k.OnWrite = nil
	}
	w.s[1].Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"})
	hx.Settle()
	for _, m := range ms {
		m.got("a broadcast after a question", frame("n", "", "e", ""))
	}
	nd.Assert(w.clients() == w.base+2, "connections to the broker after a question")
	nd.Assert(nats.Nats.Handlers == 0, "the handler of a question does not return")
	nd.Reach("end")
}

// CheckFresh: a message to a connection that was just accepted and connected arrives.
func CheckFresh() {
	w := newWorld(2, neffos.Namespaces{"n": neffos.Events{}})
	from := w.s[nd.Choose("from", 2)]
	nd.Delays(2)
	k := hx.NewSock()
	*w.next[0] = k
	k.OnWrite = func(f hx.Frame) {
		if string(f.Body) == hx.Empty("$5") {
			nd.Spawn(func() { from.Broadcast(nil, neffos.Message{Namespace: "n", Event: "e", To: "id"}) })
		}
	}
	_, err := w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	nd.Assert(err == nil, "upgrade")
	k.Push([]byte("M"))
	k.Push(hx.Wire("$5", "n", "", connect, "0", "0", ""))
	hx.Settle()
	n := 0
	for _, f := range k.Take() {
		if string(f.Body) == frame("n", "", "e", "") {
			n++
		}
	}
	nd.Assert(n == 1, "a message to a connection that was just accepted")
	nd.Reach("end")
}

// CheckEnd: a connection that ends while it is being accepted, or while messages arrive, is forgotten by the exchange, and the others go on.
func CheckEnd() {
	w := newWorld(1, neffos.Namespaces{"n": neffos.Events{}, "o": neffos.Events{}})
	stays := w.member(0, "stays")
	stays.do(connect, "n", "")
	how := nd.Choose("how", 4)
	nd.Delays(nd.Pick(1, 2))
	k := hx.NewSock()
	*w.next[0] = k
	switch how {
	case 0: // lost at once
		nd.Spawn(func() { w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("goes")) })
		nd.Spawn(k.Drop)
	case 1: // closed by the server at once
		nd.Spawn(func() { w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("goes")) })
		nd.Spawn(w.s[0].Close)
		hx.Settle()
		nd.Assert(w.clients() == w.base, "an ended connection keeps its connection to the broker")
		return
	case 2: // its connect overlaps with its end
		w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("goes"))
		k.Push([]byte("M"))
		k.Push(hx.Wire("$5", "n", "", connect, "0", "0", ""))
		k.Push(hx.Wire("$6", "o", "", connect, "0", "0", ""))
		nd.Spawn(k.Drop)
	case 3: // messages arrive for it meanwhile
		c, err := w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("goes"))
		nd.Assert(err == nil, "upgrade")
		k.Push([]byte("M"))
		k.Push(hx.Wire("$5", "n", "", connect, "0", "0", ""))
		k.Push(hx.Wire("$6", "o", "", connect, "0", "0", ""))
		hx.Settle()
		nd.Spawn(func() {
			w.s[0].Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"}, neffos.Message{Namespace: "n", Event: "e"})
		})
		nd.Spawn(c.Close)
		hx.Settle()
		stays.got("broadcasts while another ends", frame("n", "", "e", ""), frame("n", "", "e", ""))
	}
	hx.Settle()
	nd.Assert(w.clients() == w.base+1, "an ended connection keeps its connection to the broker")
	stays.do(connect, "o", "")
	hx.Settle()
	w.s[0].Broadcast(nil, neffos.Message{Namespace: "o", Event: "e"})
	hx.Settle()
	stays.got("a broadcast after another ended", frame("o", "", "e", ""))
	nd.Reach("end")
}

// CheckSlow: a client that does not read stalls nobody else.
func CheckSlow() {
	w := newWorld(1, neffos.Namespaces{"n": neffos.Events{}, "o": neffos.Events{}})
	slow, other := w.member(0, "slow"), w.member(0, "other")
	slow.do(connect, "n", "")
	slow.do(connect, "o", "")
	other.do(connect, "n", "")
	release := make(chan struct{})
	stuck := false
	slow.k.OnWrite = func(f hx.Frame) {
		if strings.Contains(string(f.Body), ";e;") {
			slow.k.OnWrite = nil
			stuck = true
			<-release
		}
	}
	for i := 0; i < 2; i++ {
		w.s[0].Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"})
	}
	nd.Quiesce()
	nd.Assert(stuck, "no message was written")
	other.got("broadcasts beside a slow client", frame("n", "", "e", ""), frame("n", "", "e", ""))
	switch nd.Choose("then", 3) {
	case 0:
		slow.k.Say(hx.W("$7", "o", "", disconnect, "0", "0", ""))
	case 1:
		w.s[0].Broadcast(nil, neffos.Message{Namespace: "o", Event: "x"})
		nd.Quiesce()
	case 2:
		done := false
		nd.Spawn(func() { slow.c.Close(); done = true })
		nd.Quiesce()
		nd.Assert(done, "Close of a slow connection")
		close(release) // the write fails
		nd.Quiesce()
	}
	other.do(connect, "o", "")
	w.s[0].Broadcast(nil, neffos.Message{Namespace: "o", Event: "e"})
	nd.Quiesce()
	other.got("a broadcast beside a slow client", frame("o", "", "e", ""))
	nd.Reach("end")
}

// CheckDown: without a broker a broadcast is lost, nothing else.
func CheckDown() {
	w := newWorld(1, neffos.Namespaces{"n": neffos.Events{}})
	m := w.member(0, "id")
	m.do(connect, "n", "")
	e := w.s[0].StackExchange
	msg := neffos.Message{Namespace: "n", Event: "e"}
	nd.Assert(e.Publish([]neffos.Message{msg, msg}), "Publish fails")
	nd.Quiesce()
	m.got("published", frame("n", "", "e", ""), frame("n", "", "e", ""))
	radix.Redis.Down, nats.Nats.Down = true, true
	if w.redis {
		nd.Assert(!e.Publish([]neffos.Message{msg}), "Publish succeeds without a broker")
		_, err := redisx.NewStackExchange(redisx.Config{}, "ch")
		nd.Assert(err != nil, "an exchange without a broker")
	} else {
		_, err := natsx.NewStackExchange("")
		nd.Assert(err != nil, "an exchange without a broker")
		_, err = w.s[0].Ask(nil, msg)
		nd.Assert(err != nil, "a question without a broker")
		k := hx.NewSock()
		*w.next[0] = k
		_, err = w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("x"))
		nd.Assert(err != nil, "a connection without a broker")
	}
	nd.Quiesce()
	m.got("nothing")
	radix.Redis.Down, nats.Nats.Down = false, false
	if !w.redis {
		// an ID that is no subject
		base := w.clients()
		k := hx.NewSock()
		*w.next[0] = k
		_, err := w.s[0].Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("x y"))
		nd.Assert(err != nil, "a connection the exchange refuses")
		nd.Assert(w.clients() == base, "the connection to the broker of a refused connection")
	}
	nd.Assert(e.Publish([]neffos.Message{msg}), "Publish fails")
	nd.Quiesce()
	m.got("published", frame("n", "", "e", ""))
	nd.Reach("end")
}
