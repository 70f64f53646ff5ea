// Package c21: handlers combine without loss and timeouts are applied.
package c21

import (
	"context"
	"net/http"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

var nss = []string{"", "n"}
var evs = []string{"x", "y"}

// handler makes a handler with any subset of the events; what it declares is put in decl (or later overridden).
func handler(i int, tag string, decl map[string]string, log *[]string) neffos.ConnHandler {
	label := "h" + string(rune('0'+i))
	cb := func(*neffos.NSConn, neffos.Message) error { *log = append(*log, tag); return nil }
	kind := nd.Choose(label, 3) // Events, Namespaces, WithTimeout
	n := neffos.Namespaces{}
	e := neffos.Events{}
	for _, ns := range nss {
		if kind == 0 && ns != "" {
			continue
		}
		if kind == 1 && nd.Bool(label+"nil"+ns) {
			n[ns] = nil
			continue
		}
		for _, ev := range evs {
			if !nd.Bool(label + ns + ev) {
				continue
			}
			decl[ns+"/"+ev] = tag
			if kind == 0 || kind == 2 && ns == "" {
				e[ev] = cb
			} else {
				n.On(ns, ev, cb)
			}
		}
	}
	switch kind {
	case 0:
		return e
	case 1:
		return n
	}
	return neffos.WithTimeout{Namespaces: n, Events: e}
}

// snapshot lists what a handler serves.
func snapshot(h neffos.ConnHandler) map[string]bool {
	m := map[string]bool{}
	for ns, events := range h.GetNamespaces() {
		for ev := range events {
			m[ns+"/"+ev] = true
		}
	}
	return m
}

func served(h neffos.ConnHandler, decl map[string]string, log *[]string) {
	got := h.GetNamespaces()
	count := 0
	for _, events := range got {
		count += len(events)
	}
	nd.Assert(count == len(decl), "number of events served")
	for _, ns := range nss {
		for _, ev := range evs {
			cb := got[ns][ev]
			tag, ok := decl[ns+"/"+ev]
			nd.Assert((cb != nil) == ok, "an event is served exactly if it is declared")
			if ok {
				*log = nil
				cb(nil, neffos.Message{})
				nd.Assert(len(*log) == 1 && (*log)[0] == tag, "the callback of the last handler that declares the event")
			}
		}
	}
}

// CheckJoin: the union of two (three) handlers of any kind; the inputs are not changed.
func CheckJoin() {
	var log []string
	decl := map[string]string{}
	d0 := map[string]string{}
	a := handler(0, "a", decl, &log)
	for k, v := range decl {
		d0[k] = v
	}
	d1 := map[string]string{}
	b := handler(1, "b", d1, &log)
	for k, v := range d1 {
		decl[k] = v
	}
	j := neffos.JoinConnHandlers(a, b)
	served(j, decl, &log)
	served(a, d0, &log)
	served(b, d1, &log)
	if nd.Thorough() || nd.Bool("more") {
		// joined again with one more event.
		again := neffos.JoinConnHandlers(j, neffos.Namespaces{"n": neffos.Events{"x": func(*neffos.NSConn, neffos.Message) error { log = append(log, "c"); return nil }}})
		served(j, decl, &log)
		decl["n/x"] = "c"
		served(again, decl, &log)
	}
	nd.Reach("end")
}

// CheckServe: a server or client with joined handlers serves exactly the joined events over the wire.
func CheckServe() {
	var log []string
	rec := func(tag string) neffos.MessageHandlerFunc {
		return func(ns *neffos.NSConn, m neffos.Message) error { log = append(log, tag); return nil }
	}
	decl := map[string]string{}
	mk := func(i int, tag string) neffos.Namespaces {
		n := neffos.Namespaces{}
		for _, ns := range []string{"n", "o"} {
			if nd.Bool(tag + ns) {
				n[ns] = neffos.Events{}
				if _, ok := decl[ns]; !ok {
					decl[ns] = ""
				}
				if nd.Bool(tag + ns + "x") {
					n[ns]["x"] = rec(tag)
					decl[ns] = tag
				}
			}
		}
		return n
	}
	h := neffos.JoinConnHandlers(mk(0, "a"), mk(1, "b"))
	var k *hx.Sock
	tok := "$5"
	if nd.Bool("client") {
		_, k = hx.ClientConn(h, "id")
		tok = "5"
	} else {
		_, _, k = hx.ServerConn(h, "id")
	}
	for _, ns := range []string{"n", "o"} {
		tag, ok := decl[ns]
		k.Say(hx.W(tok, ns, "", neffos.OnNamespaceConnect, "0", "0", ""))
		if !ok {
			k.Wrote("connect to an undeclared namespace", hx.W(tok, ns, "", neffos.OnNamespaceConnect, "1", "0", neffos.ErrBadNamespace.Error()))
			continue
		}
		k.Wrote("connect to a declared namespace", hx.Empty(tok))
		log = nil
		k.Say(hx.W("", ns, "", "x", "0", "0", ""))
		if tag == "" {
			nd.Assert(len(log) == 0, "an undeclared event is handled")
		} else {
			nd.Assert(len(log) == 1 && log[0] == tag, "the callback of the last handler handles the event")
		}
	}
	nd.Reach("end")
}

// tsock records the timeouts it is given.
type tsock struct {
	*hx.Sock
	r, w []time.Duration
}

func (s *tsock) ReadData(t time.Duration) ([]byte, neffos.MessageType, error) {
	s.r = append(s.r, t)
	return s.Sock.ReadData(t)
}
func (s *tsock) WriteText(b []byte, t time.Duration) error {
	s.w = append(s.w, t)
	return s.Sock.WriteText(b, t)
}
func (s *tsock) WriteBinary(b []byte, t time.Duration) error {
	s.w = append(s.w, t)
	return s.Sock.WriteBinary(b, t)
}

// CheckTimeouts: every read and write of the transport uses the timeouts given, whatever is read and written; none without WithTimeout.
func CheckTimeouts() {
	rt := time.Duration(nd.Int("read", 0, 1<<40))
	wt := time.Duration(nd.Int("write", 0, 1<<40))
	l := &hx.Log{}
	l.Ret = func(ns *neffos.NSConn, m neffos.Message) error {
		switch m.Event {
		case "Err":
			return hx.ErrFake
		case "Emit":
			ns.Emit("out", nil)
			ns.EmitBinary("out", nil)
		case "Ask":
			ns.Ask(nil, "q", nil) // reads inside the callback
		}
		return nil
	}
	events := neffos.Namespaces{"n": l.System("Err", "Emit", "Ask")}
	var h neffos.ConnHandler = events
	with := nd.Bool("with")
	if nd.Bool("struct") {
		st := neffos.NewStruct(&structHandler{l}).SetNamespace("n")
		if with {
			st.SetTimeouts(rt, wt)
		}
		h = st
	} else if with {
		h = neffos.WithTimeout{ReadTimeout: rt, WriteTimeout: wt, Namespaces: events}
	}
	if !with {
		rt, wt = 0, 0
	}
	k := &tsock{Sock: hx.NewSock()}
	tok := "$5"
	if nd.Bool("client") {
		tok = "5"
		k.Push([]byte("Aid"))
		_, err := neffos.Dial(nil, func(context.Context, string) (neffos.Socket, error) { return k, nil }, "x", h)
		nd.Assert(err == nil, "dial")
	} else {
		s := neffos.New(func(http.ResponseWriter, *http.Request) (neffos.Socket, error) { return k, nil }, h)
		_, err := s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), nil, hx.FixedID("id"))
		nd.Assert(err == nil, "upgrade")
		k.Say("M")
	}
	k.OnWrite = func(f hx.Frame) {
		if hx.IsQuestion(f, "q") {
			k.Push([]byte(hx.Empty(hx.Token(f))))
		}
	}
	k.Say(hx.W(tok, "n", "", neffos.OnNamespaceConnect, "0", "0", ""))
	for _, e := range []string{"Err", "Emit", "Ask"} {
		k.Say(hx.W("", "n", "", e, "0", "0", ""))
	}
	k.Say(hx.W(tok, "n", "r", neffos.OnRoomJoin, "0", "0", ""))
	k.Say(hx.W(tok, "n", "r", neffos.OnRoomLeave, "0", "0", ""))
	k.Say(hx.W(tok, "z", "", neffos.OnNamespaceConnect, "0", "0", ""))
	k.Say(hx.W(tok, "z", "", "x", "0", "0", ""))
	k.Say(hx.W(tok, "n", "", neffos.OnNamespaceDisconnect, "0", "0", ""))
	nd.Assert(len(k.w) == 11, "number of frames written")
	nd.Assert(len(k.r) >= 12, "number of frames read")
	for _, t := range k.r {
		nd.Assert(t == rt, "read timeout")
	}
	for _, t := range k.w {
		nd.Assert(t == wt, "write timeout")
	}
	nd.Reach("end")
}

// structHandler serves the same as a struct.
type structHandler struct{ l *hx.Log }

func (h *structHandler) Err(c *neffos.NSConn, m neffos.Message) error  { return h.l.Handler(c, m) }
func (h *structHandler) Emit(c *neffos.NSConn, m neffos.Message) error { return h.l.Handler(c, m) }
func (h *structHandler) Ask(c *neffos.NSConn, m neffos.Message) error  { return h.l.Handler(c, m) }
