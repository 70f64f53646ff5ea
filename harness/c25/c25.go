// Package c25: a server's question is answered by the right client.
package c25

import (
	"context"
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

var ids = []string{"a", "b", "c"}

type world struct {
	s     *neffos.Server
	l     *hx.Log
	conns []*neffos.Conn
	ks    []*hx.Sock
}

func newWorld(n int, connected func(i int) bool) *world {
	w := &world{l: &hx.Log{}}
	next := new(*hx.Sock)
	w.s = hx.NewServer(neffos.Namespaces{"n": neffos.Events{"e": w.l.Handler, "f": w.l.Handler}, "o": neffos.Events{}}, next)
	w.s.SyncBroadcaster = nd.Bool("sync")
	for i := 0; i < n; i++ {
		c, k := hx.Attach(w.s, next, ids[i])
		if connected == nil || connected(i) {
			hx.ConnectNS(k, "n")
		} else {
			hx.ConnectNS(k, "o")
		}
		w.conns, w.ks = append(w.conns, c), append(w.ks, k)
	}
	return w
}

type question struct {
	m    neffos.Message
	err  error
	done bool
	tok  string
}

func (w *world) ask(ctx context.Context, to, event, body string) *question {
	q := &question{}
	nd.Spawn(func() {
		q.m, q.err = w.s.Ask(ctx, neffos.Message{Namespace: "n", Event: event, Body: []byte(body), To: to})
		q.done = true
	})
	nd.Quiesce()
	return q
}

// CheckAddressed: the question is written once to every connection of its namespace (or only to the receiver named) and to no other; the first reply with its token, whoever of them sends it and whatever it contains, is the result.
func CheckAddressed() {
	var in [3]bool
	any := false
	w := newWorld(3, func(i int) bool {
		in[i] = nd.Bool("in" + ids[i])
		any = any || in[i]
		return in[i]
	})
	to := nd.Choose("to", 4)
	toID := ""
	if to < 3 {
		toID = ids[to]
	}
	body := nd.StrUpTo("body", 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q := w.ask(ctx, toID, "e", body)
	nd.Assert(!q.done, "a question is answered by nobody")
	var got []int
	for i := range ids {
		if in[i] && (to == 3 || to == i) {
			tok := w.ks[i].Question("question", "n", "", "e", body)
			nd.Assert(q.tok == "" || q.tok == tok, "one question has two tokens")
			q.tok = tok
			got = append(got, i)
		} else {
			w.ks[i].Wrote("a connection that is not addressed")
		}
	}
	if len(got) == 0 {
		time.Sleep(time.Second)
		nd.Assert(!q.done, "a question is answered by nobody")
		cancel()
		nd.Quiesce()
		nd.Assert(q.done && errors.Is(q.err, context.Canceled), "a question ends with its context")
		nd.Reach("nobody")
		return
	}
	i := got[nd.Choose("who", len(got))]
	reply := nd.StrUpTo("reply", 2)
	isErr := nd.Bool("err")
	flag := "0"
	if isErr {
		flag = "1"
	}
	w.ks[i].Say(hx.W(q.tok, "n", "", "e", flag, "0", reply))
	nd.Assert(q.done, "a reply is not delivered")
	if isErr {
		nd.Assert(q.err != nil && q.err.Error() == reply, "an error reply")
	} else {
		nd.Assert(q.err == nil && string(q.m.Body) == reply, "a reply's body")
	}
	// the others', and a second one, are dropped.
	for _, j := range got {
		w.ks[j].Say(hx.W(q.tok, "n", "", "e", flag, "0", "late"))
		w.ks[j].Wrote("a late reply")
		nd.Assert(!w.conns[j].IsClosed(), "a late reply closes the connection")
	}
	nd.Assert(len(w.l.E) == 0, "a reply is handled as a message")
	nd.Reach("end")
}

// CheckTwo: two questions are open; replies of any connection with the right, the other, a closed or an unknown token, in any order, with messages in between.
func CheckTwo() {
	w := newWorld(2, nil)
	qs := []*question{w.ask(nil, "", "e", "1"), w.ask(nil, "", "f", "2")}
	for i := 0; i < 2; i++ {
		out := w.ks[i].Take()
		nd.Assert(len(out) == 2, "number of questions written")
		for _, f := range out {
			q := qs[0]
			if hx.FieldOf(f, 3) == "f" {
				q = qs[1]
			}
			nd.Assert(q.tok == "" || q.tok == hx.Token(f), "one question has two tokens")
			q.tok = hx.Token(f)
		}
	}
	nd.Assert(qs[0].tok != qs[1].tok, "two questions have the same token")
	var want [2]string
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		x := string(rune('0' + i))
		k := w.ks[nd.Choose("who"+x, 2)]
		switch what := nd.Choose("what"+x, 4); what {
		case 0, 1:
			k.Say(hx.W(qs[what].tok, "n", "", "e", "0", "0", "r"+x))
			if want[what] == "" {
				want[what] = "r" + x
			}
		case 2:
			k.Say(hx.W(qs[0].tok+"9", "n", "", "e", "0", "0", "r"+x))
		case 3:
			w.l.Clear()
			k.Say(hx.W("", "n", "", "e", "0", "0", "r"+x))
			w.l.Is("a message between replies", hx.Ev("n", "", "e", "", "r"+x))
			w.l.Clear()
		}
		k.Wrote("after a reply")
		for j, q := range qs {
			nd.Assert(q.done == (want[j] != ""), "a question ends with its own reply only")
			if q.done {
				nd.Assert(q.err == nil && string(q.m.Body) == want[j], "a question gets its own first reply")
			}
		}
		nd.Assert(len(w.l.E) == 0, "a reply is handled as a message")
	}
	nd.Reach("end")
}

// CheckRace: two questions at once, answered at once by two (three) clients, one of them addressed to one client; one is cancelled, or a client is lost, meanwhile.
func CheckRace() {
	n := nd.Pick(2, 3)
	w := newWorld(n, nil)
	for i := range w.ks {
		k, id := w.ks[i], ids[i]
		k.OnWrite = func(f hx.Frame) {
			if hx.Token(f) != "" {
				k.Push(hx.Wire(hx.Token(f), "n", "", hx.FieldOf(f, 3), "0", "0", id+hx.FieldOf(f, 6)))
			}
		}
	}
	what := nd.Choose("what", 3)
	if what == 1 {
		nd.Delays(nd.Pick(1, 2))
	} else {
		nd.Delays(nd.Pick(2, 3))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var q1, q2 question
	nd.Spawn(func() {
		q1.m, q1.err = w.s.Ask(ctx, neffos.Message{Namespace: "n", Event: "e", Body: []byte("1")})
		q1.done = true
	})
	nd.Spawn(func() {
		q2.m, q2.err = w.s.Ask(nil, neffos.Message{Namespace: "n", Event: "f", Body: []byte("2"), To: "b"})
		q2.done = true
	})
	switch what {
	case 1:
		nd.Spawn(cancel)
	case 2:
		nd.Spawn(func() { w.ks[0].Drop() })
	}
	time.Sleep(time.Second)
	nd.Assert(q1.done && q2.done, "a question does not end")
	nd.Assert(q2.err == nil && string(q2.m.Body) == "b2", "the addressed client's reply")
	if what == 1 && q1.err != nil {
		nd.Assert(errors.Is(q1.err, context.Canceled), "a question ends with its context")
		nd.Reach("cancelled")
	} else {
		b := string(q1.m.Body)
		nd.Assert(q1.err == nil && (b == "a1" || b == "b1" || n == 3 && b == "c1"), "a question gets the reply of another")
	}
	nd.Assert(len(w.l.E) == 0, "a reply is handled as a message")
	nd.Reach("end")
}

// CheckEnd: a question without a reply ends exactly with its context, and later replies are dropped.
func CheckEnd() {
	w := newWorld(2, nil)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	want := context.DeadlineExceeded
	how := nd.Choose("how", 3)
	q := w.ask(ctx, "", "e", "")
	tok := w.ks[0].Question("question", "n", "", "e", "")
	w.ks[1].Take()
	switch how {
	case 0:
		time.Sleep(99 * time.Millisecond)
		nd.Assert(!q.done, "a question ends before its context")
		time.Sleep(2 * time.Millisecond)
	case 1:
		want = context.Canceled
		cancel()
		nd.Quiesce()
	case 2: // a client goes away; the other may still answer.
		w.ks[0].Drop()
		hx.Settle()
		nd.Assert(!q.done, "a question ends with one of its receivers")
		w.ks[1].Say(hx.W(tok, "n", "", "e", "0", "0", "x"))
		nd.Assert(q.done && q.err == nil && string(q.m.Body) == "x", "the other client's reply")
		nd.Reach("other")
		return
	}
	nd.Assert(q.done && errors.Is(q.err, want), "a question ends with its context")
	w.ks[1].Say(hx.W(tok, "n", "", "e", "0", "0", "late"))
	w.ks[1].Wrote("a late reply")
	nd.Assert(len(w.l.E) == 0, "a late reply is handled as a message")
	q = w.ask(nil, "", "e", "2")
	tok = w.ks[1].Question("the next question", "n", "", "e", "2")
	w.ks[1].Say(hx.W(tok, "n", "", "e", "0", "0", "x"))
	nd.Assert(q.done && q.err == nil && string(q.m.Body) == "x", "the next question")
	nd.Reach("end")
}

// CheckExchange: the exchange publishes the question to the connections as it is given it; a client answers with the token it got; the reply is passed to the exchange under the question's token, and nothing else happens.
func CheckExchange() {
	w := newWorld(2, nil)
	x := hx.NewExchange()
	w.s.UseStackExchange(x)
	body := nd.StrUpTo("body", 1)
	viaWire := nd.Bool("wire")
	x.OnAsk = func(m neffos.Message, token string) {
		for _, c := range w.conns {
			out := m
			if viaWire { // as an exchange with a broker does
				out = c.DeserializeMessage(neffos.TextMessage, m.Serialize())
				out.FromStackExchange = true
			}
			nd.Assert(c.Write(out), "the question is not written")
		}
	}
	x.AskRet = neffos.Message{Body: []byte("answer")}
	x.PublishRet = true
	m, err := w.s.Ask(nil, neffos.Message{Namespace: "n", Event: "e", Body: []byte(body), To: "b"})
	nd.Assert(err == nil && string(m.Body) == "answer", "the exchange's answer")
	nd.Assert(len(x.Asked) == 1 && x.Asked[0].To == "b" && string(x.Asked[0].Body) == body, "the question given to the exchange")
	reply := nd.StrUpTo("reply", 2)
	for i, k := range w.ks {
		tok := k.Question("question", "n", "", "e", body)
		k.Say(hx.W(tok, "n", "", "e", "0", "0", reply))
		nd.Assert(len(x.NotifyTok) == i+1 && x.NotifyTok[i] == x.Tokens[0], "a reply is not passed to the exchange under the question's token")
		nd.Assert(string(x.Notified[i].Body) == reply && x.Notified[i].Err == nil, "the reply passed to the exchange")
		k.Wrote("after a reply")
	}
	nd.Assert(len(w.l.E) == 0, "a reply is handled as a message")
	nd.Reach("end")
}
