// Package c11: every reply reaches the question it answers, once.
package c11

import (
	"context"
	"errors"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type ask struct {
	tok  string
	done bool
	msg  neffos.Message
	err  error
}

func setup() (*hx.Log, *hx.Rig, *neffos.NSConn) {
	l := &hx.Log{}
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "echo" {
			return neffos.Reply(m.Body)
		}
		return nil
	}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System("q", "e", "echo")}, l)
	n := r.Open("n")
	l.Clear()
	return l, r, n
}

// CheckCorrelate: several questions are open; replies come in any order,
// repeated, wrong, and mixed with other messages.
func CheckCorrelate() {
	l, r, n := setup()
	k := nd.Pick(2, 3)
	var asks [3]ask
	for i := 0; i < k; i++ {
		a := &asks[i]
		body := "b" + string(rune('0'+i))
		d := hx.Go(func() {
			if i == 1 {
				a.msg, a.err = r.C.Ask(nil, neffos.Message{Namespace: "n", Event: "q", Body: []byte(body)})
			} else {
				a.msg, a.err = n.Ask(nil, "q", []byte(body))
			}
			a.done = true
		})
		a.tok = r.K.Question("ask", "n", "", "q", body)
		nd.Assert(!*d, "Ask returns without a reply")
	}
	var want [3]string
	var isErr [3]bool
	var answered [3]bool
	var events []string
	steps := nd.Pick(3, 5)
	for s := 0; s < steps; s++ {
		switch op := nd.Choose("op", k+3); {
		case op < k: // a reply (maybe a second one)
			text := nd.StrUpTo("text", 1)
			flag := "0"
			e := nd.Bool("err")
			if e {
				flag = "1"
			}
			r.K.Say(hx.W(asks[op].tok, "n", "", "q", flag, "0", text))
			if !answered[op] {
				answered[op], want[op], isErr[op] = true, text, e
			}
		case op == k: // somebody else's token
			wrong := asks[0].tok + "0"
			if nd.Bool("short") {
				wrong = asks[0].tok[:len(asks[0].tok)-1]
			}
			r.K.Say(hx.W(wrong, "n", "", "q", "0", "0", "wrong"))
			if r.Client && wrong[0] != '$' {
				events = append(events, hx.Ev("n", "", "q", "", "wrong"))
			}
		case op == k+1: // another message
			r.K.Say(hx.W("", "n", "", "e", "0", "0", "x"))
			events = append(events, hx.Ev("n", "", "e", "", "x"))
		default: // a question of the other side
			tok, out := r.Ask("n", "", "echo", "y")
			nd.Assert(len(out) == 1 && string(out[0].Body) == hx.W(tok, "n", "", "echo", "0", "0", "y"), "a question is not answered while others are open")
			events = append(events, hx.Ev("n", "", "echo", "", "y"))
		}
		for i := 0; i < k; i++ {
			nd.Assert(asks[i].done == answered[i], "Ask returns exactly when its reply arrives")
		}
	}
	for i := 0; i < k; i++ {
		if !answered[i] {
			continue
		}
		a := &asks[i]
		nd.Assert(nd.All(a.msg.Namespace == "n", a.msg.Event == "q"), "the reply's namespace and event")
		if isErr[i] {
			nd.Assert(a.err != nil && a.err.Error() == want[i], "the reply's error")
		} else {
			nd.Assert(a.err == nil && string(a.msg.Body) == want[i], "the reply's body")
		}
		nd.Reach("answered")
	}
	l.Is("messages that are not replies", events...)
	nd.Assert(len(r.K.Take()) == 0, "replies are answered")
	nd.Reach("end")
}

// CheckInside: a callback asks; the messages that arrive before the reply are
// handled after it, none lost, in order.
func CheckInside() {
	l := &hx.Log{}
	var got neffos.Message
	var err error
	n := nd.Pick(2, 3)
	depth := 0
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		if m.Event == "ask" {
			depth++
			got, err = ns.Ask(nil, "q", []byte("?"))
			depth--
		}
		return nil
	}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System("ask", "e")}, l)
	r.Open("n")
	l.Clear()
	r.K.Say(hx.W("", "n", "", "ask", "0", "0", ""))
	tok := r.K.Question("ask inside a callback", "n", "", "q", "?")
	want := []string{hx.Ev("n", "", "ask", "", "")}
	text := nd.StrUpTo("text", 1)
	at := nd.Choose("at", n+1)
	for i := 0; i <= n; i++ {
		if i == at {
			r.K.Push(hx.Wire(tok, "n", "", "q", "0", "0", text))
		}
		if i < n {
			body := string(rune('0' + i))
			if nd.Bool("bin") {
				r.K.PushBin(hx.Wire("", "n", "", "e", "0", "0", body))
			} else {
				r.K.Push(hx.Wire("", "n", "", "e", "0", "0", body))
			}
			want = append(want, hx.Ev("n", "", "e", "", body))
		}
		if nd.Bool("pause") {
			nd.Quiesce()
		}
	}
	nd.Quiesce()
	nd.Assert(depth == 0, "a callback's Ask does not return")
	nd.Assert(err == nil && string(got.Body) == text, "the reply of a callback's Ask")
	l.Is("messages that arrive during a callback's Ask", want...)
	// and again
	l.Clear()
	r.K.Say(hx.W("", "n", "", "ask", "0", "0", ""))
	tok = r.K.Question("ask inside a callback", "n", "", "q", "?")
	r.K.Say(hx.W(tok, "n", "", "q", "1", "0", text))
	nd.Assert(depth == 0 && err != nil && err.Error() == text, "the error reply of a callback's Ask")
	r.K.Say(hx.W("", "n", "", "e", "0", "0", "last"))
	l.Is("after", hx.Ev("n", "", "ask", "", ""), hx.Ev("n", "", "e", "", "last"))
	nd.Reach("end")
}

// CheckLate: a reply that comes after the question was given up is dropped.
func CheckLate() {
	l, r, n := setup()
	ctx, cancel := context.WithCancel(context.Background())
	var a ask
	d := hx.Go(func() { a.msg, a.err = n.Ask(ctx, "q", nil) })
	tok := r.K.Question("ask", "n", "", "q", "")
	cancel()
	nd.Quiesce()
	nd.Assert(*d && a.err == context.Canceled, "cancelled Ask")
	flag := "0"
	if nd.Bool("err") {
		flag = "1"
	}
	r.K.Say(hx.W(tok, "n", "", "q", flag, "0", "late"))
	if !r.Client || tok[0] == '$' {
		l.Is("late reply")
	}
	nd.Assert(len(r.K.Take()) == 0, "a late reply is answered")
	// the next question is not confused by it
	var b ask
	d = hx.Go(func() { b.msg, b.err = n.Ask(nil, "q", nil) })
	tok2 := r.K.Question("second ask", "n", "", "q", "")
	nd.Assert(tok2 != tok, "a token is used twice")
	r.K.Say(hx.W(tok, "n", "", "q", "0", "0", "late"))
	nd.Assert(!*d, "a late reply answers another question")
	r.K.Say(hx.W(tok2, "n", "", "q", "0", "0", "right"))
	nd.Assert(*d && b.err == nil && string(b.msg.Body) == "right", "second ask")
	nd.Reach("end")
}

// CheckRace: replies race with each other, with a cancellation and with
// other questions; nobody gets another's reply and nobody waits forever.
func CheckRace() {
	l, r, n := setup()
	_ = l
	var asks [3]ask
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	r.K.OnWrite = func(f hx.Frame) {
		if hx.IsQuestion(f, "q") {
			r.K.Push(hx.Wire(hx.Token(f), "n", "", "q", "0", "0", hx.FieldOf(f, 6)))
		}
	}
	canceller := nd.Bool("cancel")
	k := nd.Pick(2, 3)
	nd.Delays(nd.Pick(2, 3))
	for i := 0; i < k; i++ {
		body := "b" + string(rune('0'+i))
		nd.Spawn(func() {
			c := context.Context(nil)
			if i == 0 {
				c = ctx
			}
			asks[i].msg, asks[i].err = n.Ask(c, "q", []byte(body))
			asks[i].done = true
		})
	}
	if canceller {
		nd.Spawn(func() { cancel() })
	}
	hx.Settle()
	for i := 0; i < k; i++ {
		a := &asks[i]
		nd.Assert(a.done, "an answered Ask does not return")
		if i == 0 && canceller && errors.Is(a.err, context.Canceled) {
			nd.Reach("cancelled")
			continue
		}
		nd.Assert(a.err == nil && string(a.msg.Body) == "b"+string(rune('0'+i)), "Ask got another's reply")
	}
	tok, out := r.Ask("n", "", "echo", "y")
	_ = tok
	ok := false
	for _, f := range out {
		ok = ok || string(f.Body) == hx.W(tok, "n", "", "echo", "0", "0", "y")
	}
	nd.Assert(ok, "the connection does not answer after questions")
	nd.Reach("end")
}

// CheckAside: a question is asked while the reader is inside another
// message's callback; whatever arrives before its reply is handled as soon as
// that callback is over, also what the other side waits for before it replies.
func CheckAside() {
	l := &hx.Log{}
	hold := make(chan struct{})
	entered := make(chan struct{}, 1)
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		switch m.Event {
		case "busy":
			entered <- struct{}{}
			<-hold
		case "echo":
			return neffos.Reply(m.Body)
		}
		return nil
	}
	r := hx.NewRig(nd.Bool("client"), neffos.Namespaces{"n": l.System("busy", "e", "echo")}, l)
	n := r.Open("n")
	l.Clear()
	first := nd.Bool("arrives during the callback")
	plain := nd.Bool("a message before it")
	nd.Delays(nd.Pick(2, 3))
	r.K.Push(hx.Wire("", "n", "", "busy", "0", "0", ""))
	<-entered
	var got neffos.Message
	var err error
	done := false
	nd.Spawn(func() { got, err = n.Ask(nil, "q", nil); done = true })
	hx.Settle()
	tok := r.K.Question("ask", "n", "", "q", "")
	ask := r.Tok()
	arrive := func() {
		if plain {
			r.K.Push(hx.Wire("", "n", "", "e", "0", "0", "x"))
		}
		r.K.Push(hx.Wire(ask, "n", "", "echo", "0", "0", "y"))
	}
	if first {
		arrive()
		hx.Settle()
		close(hold)
	} else {
		nd.Spawn(func() { close(hold) })
		arrive()
	}
	hx.Settle()
	r.K.Wrote("the other side's question before it replies", hx.W(ask, "n", "", "echo", "0", "0", "y"))
	want := []string{hx.Ev("n", "", "busy", "", "")}
	if plain {
		want = append(want, hx.Ev("n", "", "e", "", "x"))
	}
	want = append(want, hx.Ev("n", "", "echo", "", "y"))
	l.Is("messages during a question", want...)
	nd.Assert(!done, "Ask returns without a reply")
	r.K.Push(hx.Wire(tok, "n", "", "q", "0", "0", "z"))
	hx.Settle()
	nd.Assert(done && err == nil && string(got.Body) == "z", "Ask's reply")
	l.Is("messages during a question, after it", want...)
	nd.Reach("end")
}
