// Package c24: a StackExchange sees exactly what happened.
package c24

import (
	"context"
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

func same(e *hx.Exchange, msg string, want []string) {
	nd.Assert(len(e.Calls) == len(want), msg+": number of calls of a StackExchange")
	for i := range want {
		nd.Assert(e.Calls[i] == want[i], msg+": call of a StackExchange")
	}
}

// use adds n exchanges to s.
func use(s *neffos.Server, n int) []*hx.Exchange {
	var es []*hx.Exchange
	for i := 0; i < n; i++ {
		e := hx.NewExchange()
		nd.Assert(s.UseStackExchange(e) == nil, "UseStackExchange")
		es = append(es, e)
	}
	return es
}

// CheckHistory: a connection that connects, disconnects (by either side, refused or not), sends and broadcasts, and ends in any way; one or two exchanges are told exactly that.
func CheckHistory() {
	refuse := false
	l := &hx.Log{Ret: func(ns *neffos.NSConn, m neffos.Message) error {
		if refuse && (m.Event == neffos.OnNamespaceConnect || m.Event == neffos.OnNamespaceDisconnect) {
			return hx.ErrFake
		}
		return nil
	}}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e"), "o": l.System("e")}, next)
	es := use(s, nd.Choose("exchanges", 2)+1)
	c, k := hx.Attach(s, next, "id")
	want := []string{"connect id"}
	in := map[string]bool{}
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		ns := "n"
		if nd.Bool("ns" + string(rune('0'+i))) {
			ns = "o"
		}
		refuse = false
		switch nd.Choose("op"+string(rune('0'+i)), 6) {
		case 0: // the client connects
			refuse = nd.Bool("refuse" + string(rune('0'+i)))
			k.Say(hx.W("$5", ns, "", neffos.OnNamespaceConnect, "0", "0", ""))
			if !in[ns] && !refuse {
				in[ns] = true
				want = append(want, "subscribe id "+ns)
			}
		case 1: // the server connects
			done := hx.Go(func() { c.Connect(nil, ns) })
			if !in[ns] {
				tok := k.Question("connect", ns, "", neffos.OnNamespaceConnect, "")
				k.Say(hx.Empty(tok))
				in[ns] = true
				want = append(want, "subscribe id "+ns)
			}
			nd.Assert(*done, "connect returns")
		case 2: // the client disconnects
			refuse = nd.Bool("refuse" + string(rune('0'+i)))
			k.Say(hx.W("$5", ns, "", neffos.OnNamespaceDisconnect, "0", "0", ""))
			if in[ns] && !refuse {
				in[ns] = false
				want = append(want, "unsubscribe id "+ns)
			}
		case 3: // the server disconnects
			if !in[ns] {
				continue
			}
			n := c.Namespace(ns)
			done := hx.Go(func() { n.Disconnect(nil) })
			tok := k.Question("disconnect", ns, "", neffos.OnNamespaceDisconnect, "")
			if nd.Bool("refuse" + string(rune('0'+i))) {
				k.Say(hx.W(tok, ns, "", neffos.OnNamespaceDisconnect, "1", "0", "no"))
			} else {
				k.Say(hx.Empty(tok))
				in[ns] = false
				want = append(want, "unsubscribe id "+ns)
			}
			nd.Assert(*done, "disconnect returns")
		case 4: // a broadcast is given to the exchange and written nowhere
			k.Take()
			s.Broadcast(nil, neffos.Message{Namespace: ns, Event: "e"})
			hx.Settle()
			want = append(want, "publish")
			nd.Assert(len(k.Take()) == 0, "a broadcast given to a StackExchange is written")
		case 5: // a message and a direct write are no business of the exchange
			k.Take()
			k.Say(hx.W("", ns, "", "e", "0", "0", ""))
			ok := c.Write(neffos.Message{Namespace: ns, Event: "e"})
			nd.Assert(ok == in[ns], "direct write")
		}
		k.Take()
		for _, e := range es {
			same(e, "history", want)
		}
	}
	switch nd.Choose("end", 4) {
	case 0:
		c.Close()
	case 1:
		k.Drop()
	case 2:
		s.Close()
	case 3:
		k.WriteErr = hx.EOF
		if !in["n"] {
			return
		}
		c.Write(neffos.Message{Namespace: "n", Event: "e"})
	}
	hx.Settle()
	want = append(want, "disconnect id")
	for _, e := range es {
		same(e, "end", want)
	}
	c.Close()
	hx.Settle()
	for _, e := range es {
		same(e, "closed again", want)
	}
	nd.Reach("end")
}

// CheckAccept: the exchanges are told of a connection before the server's callback, any message of it and any frame; a refusal by one of them refuses the connection with that error.
func CheckAccept() {
	n := nd.Choose("exchanges", 3) + 1
	refuses := nd.Choose("refuses", n+1) // n: nobody
	var order []string
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	es := use(s, n)
	k := hx.NewSock()
	*next = k
	refusal := errors.New("x" + nd.Str("refusal", 1))
	for i, e := range es {
		name := string(rune('0' + i))
		if i == refuses {
			e.ConnectErr = refusal
		}
		e.OnConnectF = func(c *neffos.Conn) {
			nd.Quiesce() // whatever may happen before, happens.
			nd.Assert(len(l.E) == 0, "a callback runs before the StackExchange knows the connection")
			nd.Assert(len(k.Out) == 0, "a frame is written before the StackExchange knows the connection")
			order = append(order, name)
		}
	}
	s.OnConnect = func(c *neffos.Conn) error { order = append(order, "s"); return nil }
	if nd.Bool("early") {
		k.Push([]byte("M"))
		k.Push(hx.Wire("$1", "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	}
	c, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
	k.Push([]byte("M"))
	hx.Settle()
	told := ""
	for _, o := range order {
		told += o
	}
	out := k.Take()
	if refuses < n {
		nd.Assert(told == "012"[:refuses+1], "exchanges told of a refused connection")
		nd.Assert(c == nil && err == refusal, "the refusal is returned")
		nd.Assert(len(out) == 1 && string(out[0].Body) == "H"+refusal.Error(), "the refusal is sent")
		nd.Assert(len(l.E) == 0, "a callback of a refused connection")
		nd.Assert(k.IsClosed(), "a refused connection stays open")
		nd.Assert(s.GetTotalConnections() == 0, "a refused connection is counted")
		nd.Reach("refused")
	} else {
		nd.Assert(told == "012"[:n]+"s", "exchanges told of a connection")
		nd.Assert(c != nil && err == nil, "an accepted connection")
		nd.Assert(len(out) >= 1 && string(out[0].Body) == "Aid", "the acknowledgement is sent")
	}
	for _, e := range es {
		d := 0
		for _, x := range e.Calls {
			if x == "disconnect id" {
				d++
			}
		}
		nd.Assert(d <= 1 && (refuses < n || d == 0), "a StackExchange is told of an end")
	}
	nd.Reach("end")
}

// CheckBroadcast: every broadcast is given, as it is, once to every exchange, in order, also when some fail; publishing succeeds exactly if all do.
func CheckBroadcast() {
	n := nd.Choose("exchanges", 3) + 1
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
	es := use(s, n)
	order := ""
	all := true
	for i, e := range es {
		name := string(rune('0' + i))
		e.PublishRet = nd.Bool("ok" + name)
		all = all && e.PublishRet
		e.OnPublish = func([]neffos.Message) { order += name }
	}
	c, k := hx.Attach(s, next, "id")
	hx.ConnectNS(k, "n")
	d, k2 := hx.Attach(s, next, "id2")
	_ = d
	hx.ConnectNS(k2, "n")
	msgs := []neffos.Message{{Namespace: "n", Room: "r", Event: "e", Body: []byte(nd.Str("body", 1)), SetBinary: nd.Bool("bin")}, {Namespace: "n", Event: "f", To: "x"}}
	sender := nd.Choose("sender", 3)
	direct := nd.Bool("direct")
	if direct {
		nd.Assert(s.StackExchange.Publish(msgs) == all, "result of publishing")
		sender = 0
	} else {
		switch sender {
		case 0:
			s.Broadcast(nil, msgs...)
		case 1:
			s.Broadcast(c, msgs...)
		case 2:
			s.Broadcast(c.Namespace("n"), msgs...)
		}
	}
	hx.Settle()
	nd.Assert(order == "012"[:n], "exchanges given a broadcast")
	for _, e := range es {
		nd.Assert(len(e.Published) == 1 && len(e.Published[0]) == 2, "messages published")
		for i, m := range e.Published[0] {
			w := msgs[i]
			nd.Assert(m.Namespace == w.Namespace && m.Room == w.Room && m.Event == w.Event && m.To == w.To && m.SetBinary == w.SetBinary && string(m.Body) == string(w.Body), "message published")
			nd.Assert((m.FromExplicit == "") == (sender == 0), "the excluded connection of a message published")
			if sender != 0 {
				// what arrives back through the exchange is not written to the sender, but to the others.
				back := neffos.DeserializeMessage(neffos.TextMessage, m.Serialize(), false, false)
				nd.Assert(back.FromExplicit == m.FromExplicit, "the excluded connection is not serialised")
				if w.Room == "" {
					nd.Assert(!c.Write(back) && d.Write(back), "a published message is written to the excluded connection")
					nd.Assert(len(k.Take()) == 0, "a published message is written to the excluded connection")
					k2.Wrote("published message", hx.W("", w.Namespace, "", w.Event, "0", "0", string(w.Body)))
				}
			}
		}
	}
	nd.Assert(len(k.Take()) == 0 && len(k2.Take()) == 0, "a broadcast given to a StackExchange is written")
	nd.Reach("end")
}

// CheckAsk: a server's question is given to the first exchange, on its failure, unchanged, to the next one; the first success or the last failure is returned.
func CheckAsk() {
	n := nd.Choose("exchanges", 3) + 1
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}}, next)
	es := use(s, n)
	asked := n
	var errs []error
	for i, e := range es {
		e.AskRet = neffos.Message{Body: []byte{byte('0' + i)}}
		err := error(nil)
		if nd.Bool("fails" + string(rune('0'+i))) {
			err = errors.New("f" + string(rune('0'+i)))
			e.AskRet = neffos.Message{}
		} else if asked == n {
			asked = i
		}
		e.AskErr = err
		errs = append(errs, err)
	}
	msg := neffos.Message{Namespace: "n", Room: "r", Event: "e", To: "t", Body: []byte(nd.Str("body", 1))}
	ctx := context.Context(nil)
	if nd.Bool("ctx") {
		ctx = context.Background()
	}
	got, err := s.Ask(ctx, msg)
	if asked < n {
		nd.Assert(err == nil && string(got.Body) == string(rune('0'+asked)), "answer of a StackExchange")
	} else {
		nd.Assert(err == errs[n-1], "failure of every StackExchange")
	}
	for i, e := range es {
		if i > asked {
			nd.Assert(len(e.Asked) == 0, "a question answered already is asked again")
			continue
		}
		nd.Assert(len(e.Asked) == 1, "a question is given to a StackExchange")
		m := e.Asked[0]
		nd.Assert(m.Namespace == "n" && m.Room == "r" && m.Event == "e" && m.To == "t" && string(m.Body) == string(msg.Body), "question given to a StackExchange")
		nd.Assert(e.Tokens[0] != "" && e.Tokens[0] == es[0].Tokens[0], "token given to a StackExchange")
		m.To = ""
		nd.Assert(string(m.Serialize()) == hx.W(e.Tokens[0][:1]+"!"+e.Tokens[0][1:], "n", "r", "e", "0", "0", string(msg.Body)), "the question is marked as one of a StackExchange")
	}
	nd.Reach("end")
}

// CheckNotify: a client's reply to a question of an exchange is passed to the exchanges, with the question's token, until one takes it; no callback runs.
func CheckNotify() {
	n := nd.Choose("exchanges", 3) + 1
	l := &hx.Log{}
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": l.System("e")}, next)
	es := use(s, n)
	takes := n
	for i, e := range es {
		if nd.Bool("fails" + string(rune('0'+i))) {
			e.NotifyErr = hx.ErrFake
		} else if takes == n {
			takes = i
		}
	}
	_, k := hx.Attach(s, next, "id")
	hx.ConnectNS(k, "n")
	l.Clear()
	s.Ask(nil, neffos.Message{Namespace: "n", Event: "e"})
	token := es[0].Tokens[0]
	body := nd.Str("body", 1)
	isErr := "0"
	if nd.Bool("error") {
		isErr = "1"
	}
	k.Say(hx.W(token[:1]+"!"+token[1:], "n", "", "e", isErr, "0", body))
	for i, e := range es {
		if i > takes {
			nd.Assert(len(e.NotifyTok) == 0, "a reply taken already is passed on")
			continue
		}
		nd.Assert(len(e.NotifyTok) == 1 && e.NotifyTok[0] == token, "a reply is passed to a StackExchange")
		m := e.Notified[0]
		nd.Assert(m.Namespace == "n" && m.Event == "e", "reply passed to a StackExchange")
		if isErr == "1" {
			nd.Assert(m.Err != nil && m.Err.Error() == body, "failed reply passed to a StackExchange")
		} else {
			nd.Assert(m.Err == nil && string(m.Body) == body, "reply passed to a StackExchange")
		}
	}
	nd.Assert(len(l.E) == 0 && len(k.Take()) == 0, "a reply to a StackExchange is handled as a message")
	// a reply to a connection's own question is not the exchange's.
	nd.Reach("end")
}

// initer is an exchange with an Init method.
type initer struct {
	*hx.Exchange
	err   error
	given neffos.Namespaces
	n     int
}

func (i *initer) Init(nss neffos.Namespaces) error { i.n++; i.given = nss; return i.err }

// CheckInit: an exchange is initialised once with the server's namespaces; one that fails is not used.
func CheckInit() {
	next := new(*hx.Sock)
	s := hx.NewServer(neffos.Namespaces{"n": neffos.Events{}, "o": neffos.Events{}}, next)
	var first *hx.Exchange
	if nd.Bool("first") {
		first = use(s, 1)[0]
	}
	nd.Assert(s.UseStackExchange(nil) == nil, "no StackExchange")
	i := &initer{Exchange: hx.NewExchange()}
	if nd.Bool("fails") {
		i.err = hx.ErrFake
	}
	nd.Assert(s.UseStackExchange(i) == i.err, "UseStackExchange")
	nd.Assert(i.n == 1 && len(i.given) == 2 && i.given["n"] != nil && i.given["o"] != nil, "Init")
	_, k := hx.Attach(s, next, "id")
	hx.ConnectNS(k, "n")
	s.Broadcast(nil, neffos.Message{Namespace: "n", Event: "e"})
	hx.Settle()
	told := []string{"connect id", "subscribe id n", "publish"}
	if first != nil {
		same(first, "first", told)
	}
	if i.err == nil {
		same(i.Exchange, "second", told)
	} else {
		same(i.Exchange, "failed", nil)
	}
	if i.err != nil && first == nil {
		k.Wrote("broadcast without StackExchange", hx.W("", "n", "", "e", "0", "0", ""))
	}
	nd.Reach("end")
}
