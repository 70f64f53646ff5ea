// Package c20: question tokens are unique and tell who asked.
package c20

import (
	"context"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type side struct {
	r *hx.Rig
	n *neffos.NSConn
}

func newSide(client bool) *side {
	l := &hx.Log{}
	r := hx.NewRig(client, neffos.Namespaces{"n": l.System("e"), "o": l.System()}, l)
	return &side{r, r.Open("n")}
}

// ask asks in one of the ways; it never returns, as nobody replies.
func (s *side) ask(how int) {
	switch how {
	case 0:
		s.n.Ask(nil, "q", nil)
	case 1:
		s.r.C.Ask(hx.Bg, neffos.Message{Namespace: "n", Event: "q"})
	case 2:
		s.r.C.Connect(nil, "o")
	case 3:
		s.n.JoinRoom(nil, "r")
	case 4:
		s.n.Disconnect(nil)
	case 5:
		s.r.S.Ask(nil, neffos.Message{Namespace: "n", Event: "q"})
	}
}

func (s *side) tokens(all []string) []string {
	for _, f := range s.r.K.Take() {
		t := hx.Token(f)
		nd.Assert(t != "", "a question without token")
		nd.Assert((t[0] == '$') == s.r.Client, "a token does not tell who asked")
		nd.Assert(t[0] != '#' && (len(t) < 2 || t[1] != '!'), "a token looks like another kind")
		m := neffos.DeserializeMessage(neffos.TextMessage, f.Body, false, false)
		nd.Assert(m.IsWait(s.r.Client), "the asker takes the reply to its question for a question")
		nd.Assert(!s.r.Client || !m.IsWait(false), "a server takes a client's question for a reply")
		nd.Assert(!m.FromStackExchange && m.FromExplicit == "", "a token looks like another kind")
		all = append(all, t)
	}
	return all
}

func distinct(all []string) {
	for i := range all {
		for j := 0; j < i; j++ {
			nd.Assert(all[i] != all[j], "two questions carry the same token")
		}
	}
}

// CheckInstant: questions of every kind asked at the same instant by two connections, of the same side or of both.
func CheckInstant() {
	a := newSide(nd.Bool("a"))
	b := newSide(nd.Bool("b"))
	n := nd.Pick(3, 4)
	for i := 0; i < n; i++ {
		x := a
		if nd.Bool("who" + string(rune('0'+i))) {
			x = b
		}
		kinds := 6
		if x.r.Client {
			kinds = 5
		}
		how := nd.Choose("how"+string(rune('0'+i)), kinds)
		nd.Spawn(func() { x.ask(how) })
		nd.Quiesce()
	}
	all := b.tokens(a.tokens(nil))
	nd.Assert(len(all) >= 1, "no question is sent")
	distinct(all)
	nd.Reach("end")
}

// CheckConcurrent: questions asked by several goroutines at once.
func CheckConcurrent() {
	a := newSide(nd.Bool("a"))
	b := newSide(nd.Bool("b"))
	server := nd.Bool("server") && !b.r.Client
	nd.Delays(nd.Pick(2, 3))
	nd.Spawn(func() { a.ask(0) })
	nd.Spawn(func() { a.ask(1) })
	nd.Spawn(func() {
		if server {
			b.ask(5)
		} else {
			b.ask(0)
		}
	})
	hx.Settle()
	all := b.tokens(a.tokens(nil))
	nd.Assert(len(all) == 3, "number of questions sent")
	distinct(all)
	nd.Reach("end")
}

// CheckExchange: the tokens of a server's questions through a StackExchange differ from each other and from a connection's own.
func CheckExchange() {
	next := new(*hx.Sock)
	l := &hx.Log{}
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	e := hx.NewExchange()
	s.UseStackExchange(e)
	c, k := hx.Attach(s, next, "id")
	hx.ConnectNS(k, "n")
	concurrent := nd.Bool("concurrent")
	if concurrent {
		nd.Delays(nd.Pick(2, 3))
	}
	nd.Spawn(func() { s.Ask(context.Background(), neffos.Message{Namespace: "n", Event: "q"}) })
	nd.Spawn(func() { s.Ask(context.Background(), neffos.Message{Namespace: "n", Event: "q"}) })
	nd.Spawn(func() { c.Namespace("n").Ask(nil, "q", nil) })
	hx.Settle()
	nd.Assert(len(e.Tokens) == 2, "questions given to the StackExchange")
	out := k.Take()
	nd.Assert(len(out) == 1, "the connection's own question")
	distinct([]string{e.Tokens[0], e.Tokens[1], hx.Token(out[0])})
	nd.Reach("end")
}
