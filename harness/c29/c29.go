package c29

import (
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type msg struct {
	typ  neffos.MessageType
	body string
}

func write(s neffos.Socket, m msg, timeout time.Duration) error {
	b := []byte(m.body)
	var err error
	if m.typ == neffos.TextMessage {
		err = s.WriteText(b, timeout)
	} else {
		err = s.WriteBinary(b, timeout)
	}
	nd.Assert(string(b) == m.body, "the bytes given to a write are changed by it")
	return err
}

// pick returns a message of n bytes, any bytes in a binary one.
func pick(label string, n int) msg {
	if nd.Bool(label + ".text") {
		return msg{neffos.TextMessage, "hey, some text"[:n]}
	}
	return msg{neffos.BinaryMessage, nd.Str(label, n)}
}

func expect(s neffos.Socket, m msg) []byte {
	b, typ, err := s.ReadData(0)
	nd.Assert(err == nil, "reading a message failed")
	nd.Assert(typ == m.typ, "a message changed its type on the wire")
	nd.Assert(len(b) == len(m.body), "a message changed its size on the wire")
	nd.Assert(string(b) == m.body, "a message changed on the wire")
	return b
}

// CheckWhole: what is written through one adapter is read through the other, message by message.
func CheckWhole() {
	a, b := newWire(), newWire()
	client := nd.Bool("client")
	x := socket(nd.Bool("gorilla1"), client, a)
	y := socket(nd.Bool("gorilla2"), !client, b)
	link(a, b)
	b.seg = []int{1, 3, 1 << 20}[nd.Choose("seg", 3)]
	n := nd.Pick(2, 3)
	var ms []msg
	for i := 0; i < 2; i++ {
		m := pick("m", nd.Choose("len", n+1))
		ms = append(ms, m)
		nd.Assert(write(x, m, 0) == nil, "the write failed")
	}
	var got [][]byte
	for _, m := range ms {
		got = append(got, expect(y, m))
	}
	for i, m := range ms {
		nd.Assert(string(got[i]) == m.body, "a message changed after it had been read")
	}
	// and the other way
	back := pick("back", 1)
	nd.Assert(write(y, back, 0) == nil, "the write failed")
	expect(x, back)
	a.Close()
	_, _, err := y.ReadData(0)
	nd.Assert(err != nil, "a read succeeded after the other side had gone")
	nd.Reach("whole")
}

// CheckText: texts of any characters.
func CheckText() {
	a, b := newWire(), newWire()
	client := nd.Bool("client")
	x := socket(nd.Bool("gorilla1"), client, a)
	y := socket(nd.Bool("gorilla2"), !client, b)
	link(a, b)
	body := nd.Bytes("ascii", nd.Choose("len", 2))
	for _, c := range body {
		nd.Assume(c < 0x80)
	}
	body = append(body, []string{"", "\u00e9", "\u07ff", "\u20ac", "\U0001f600"}[nd.Choose("wide", 5)]...)
	m := msg{neffos.TextMessage, string(body)}
	nd.Assert(write(x, m, 0) == nil, "the write failed")
	expect(y, m)
}

// CheckSizes: the size classes of the wire format, and sizes around the buffers of the libraries.
func CheckSizes() {
	sizes := []int{124, 125, 126, 127, 4095, 4096, 4097, 65535, 65536}
	n := sizes[nd.Choose("size", nd.Pick(7, 9))]
	a, b := newWire(), newWire()
	client := nd.Bool("client")
	x := socket(nd.Bool("gorilla1"), client, a)
	y := socket(nd.Bool("gorilla2"), !client, b)
	link(a, b)
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte('a' + i%26)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		raw[i] = nd.Byte("b")
	}
	m := msg{neffos.BinaryMessage, string(raw)}
	nd.Assert(write(x, m, 0) == nil, "the write failed")
	next := msg{neffos.TextMessage, "next"}
	nd.Assert(write(x, next, 0) == nil, "the write failed")
	expect(y, m)
	expect(y, next)
}

const (
	opCont   = 0
	opText   = 1
	opBinary = 2
	opClose  = 8
	opPing   = 9
	opPong   = 10
)

// peer encodes frames; a client masks them, the first few with any mask.
type peer struct {
	masks bool
	any   int
}

func (p *peer) frame(fin bool, op int, body []byte) []byte {
	b0 := byte(op)
	if fin {
		b0 |= 0x80
	}
	out := []byte{b0, byte(len(body))}
	if !p.masks {
		return append(out, body...)
	}
	out[1] |= 0x80
	mask := []byte{0x5a, 0xc3, 0x0f, 0x81}
	if p.any > 0 {
		p.any--
		mask = nd.Bytes("mask", 4)
	}
	out = append(out, mask...)
	for i, c := range body {
		out = append(out, c^mask[i%4])
	}
	return out
}

type fr struct {
	op   int
	body string
}

// frames decodes what a socket wrote, asserting it is a sequence of whole, unfragmented frames.
func frames(b []byte, masked bool) []fr {
	var out []fr
	for len(b) > 0 {
		nd.Assert(len(b) >= 2, "a frame was cut")
		nd.Assert(b[0]&0x80 != 0, "a short message was fragmented")
		nd.Assert((b[1]&0x80 != 0) == masked, "masking does not match the role")
		n := int(b[1] & 0x7f)
		op := int(b[0] & 0x7f)
		b = b[2:]
		var mask []byte
		if masked {
			nd.Assert(len(b) >= 4, "a frame was cut")
			mask, b = b[:4], b[4:]
		}
		nd.Assert(len(b) >= n, "a frame was cut")
		body := append([]byte(nil), b[:n]...)
		b = b[n:]
		for i := range body {
			if masked {
				body[i] ^= mask[i%4]
			}
		}
		out = append(out, fr{op, string(body)})
	}
	return out
}

func readAll(s neffos.Socket, got *[]msg, done *bool) {
	for {
		b, typ, err := s.ReadData(0)
		if err != nil {
			*done = true
			return
		}
		*got = append(*got, msg{typ, string(b)})
	}
}

// CheckFrames: a peer sends any sequence of whole or fragmented messages and control frames.
func CheckFrames() {
	w := newWire()
	client := nd.Bool("client")
	s := socket(nd.Bool("gorilla"), client, w)
	p := &peer{masks: !client, any: 1}
	w.seg = []int{1, 1 << 20}[nd.Choose("seg", 2)]
	var want []msg
	var pongs []fr
	var stream []byte
	closed := false
	for i := 0; i < nd.Pick(2, 3) && !closed; i++ {
		switch nd.Choose("frame", 5) {
		case 0: // a message, whole or in two parts with a control frame between
			m := pick("m", 2*nd.Choose("len", 2))
			want = append(want, m)
			op := opText
			if m.typ == neffos.BinaryMessage {
				op = opBinary
			}
			cut := nd.Choose("cut", len(m.body)+2) - 1
			if cut < 0 {
				stream = append(stream, p.frame(true, op, []byte(m.body))...)
				break
			}
			stream = append(stream, p.frame(false, op, []byte(m.body[:cut]))...)
			if nd.Bool("between") {
				stream = append(stream, p.frame(true, opPing, []byte{'q'})...)
				pongs = append(pongs, fr{opPong, "q"})
			}
			stream = append(stream, p.frame(true, opCont, []byte(m.body[cut:]))...)
		case 1:
			b := nd.Bytes("ping", nd.Choose("plen", 2))
			stream = append(stream, p.frame(true, opPing, b)...)
			pongs = append(pongs, fr{opPong, string(b)})
		case 2:
			stream = append(stream, p.frame(true, opPong, nd.Bytes("pong", nd.Choose("plen", 2)))...)
		case 3:
			stream = append(stream, p.frame(true, opClose, []byte{3, 0xe8})...)
			// what follows the close is not a message any more
			stream = append(stream, p.frame(true, opText, []byte("late"))...)
			closed = true
		case 4:
			stream = append(stream, p.frame(true, opClose, nil)...)
			closed = true
		}
	}
	var got []msg
	done := false
	nd.Spawn(func() { readAll(s, &got, &done) })
	w.feed(stream)
	nd.Quiesce()
	if closed {
		nd.Assert(done, "the close of the other side was not reported")
	} else {
		nd.Assert(!done, "a valid sequence of frames was refused")
	}
	nd.Assert(len(got) == len(want), "the messages read are not the messages sent")
	for i := range want {
		nd.Assert(got[i].typ == want[i].typ, "a message changed its type")
		nd.Assert(got[i].body == want[i].body, "a message changed")
	}
	out := frames(w.taken(), client)
	for len(out) > 0 && out[len(out)-1].op == opClose && closed {
		out = out[:len(out)-1]
	}
	nd.Assert(len(out) == len(pongs), "pings and pongs do not match")
	for i := range out {
		nd.Assert(out[i].op == opPong && out[i].body == pongs[i].body, "a ping was not answered with its pong")
	}
	w.end(!closed && nd.Bool("lost"))
	nd.Quiesce()
	nd.Assert(done, "the loss of the connection was not reported")
	nd.Assert(len(got) == len(want), "a message was read after the end")
}

// CheckCut: the connection ends at any byte.
func CheckCut() {
	w := newWire()
	client := nd.Bool("client")
	s := socket(nd.Bool("gorilla"), client, w)
	p := &peer{masks: !client, any: 1}
	first := pick("first", 2)
	second := pick("second", 2)
	op := func(m msg) int {
		if m.typ == neffos.TextMessage {
			return opText
		}
		return opBinary
	}
	stream := p.frame(true, op(first), []byte(first.body))
	n1 := len(stream)
	if nd.Bool("fragment") {
		stream = append(stream, p.frame(false, op(second), []byte(second.body[:1]))...)
		stream = append(stream, p.frame(true, opCont, []byte(second.body[1:]))...)
	} else {
		stream = append(stream, p.frame(true, op(second), []byte(second.body))...)
	}
	cut := nd.Choose("cut", len(stream)+1)
	var got []msg
	done := false
	nd.Spawn(func() { readAll(s, &got, &done) })
	w.feed(stream[:cut])
	if nd.Bool("later") {
		nd.Quiesce()
	}
	w.end(nd.Bool("lost"))
	nd.Quiesce()
	nd.Assert(done, "the end of the connection was not reported")
	var want []msg
	if cut >= n1 {
		want = append(want, first)
	}
	if cut == len(stream) {
		want = append(want, second)
	}
	nd.Assert(len(got) == len(want), "a message that was cut was delivered, or a whole one was not")
	for i := range want {
		nd.Assert(got[i].typ == want[i].typ && got[i].body == want[i].body, "a message changed")
	}
}

// CheckEarly: the server's first messages arrive together with its answer to the handshake.
func CheckEarly() {
	w := newWire()
	m := pick("m", nd.Choose("len", 2))
	op := opText
	if m.typ == neffos.BinaryMessage {
		op = opBinary
	}
	p := &peer{}
	raw := append(p.frame(true, op, []byte(m.body)), p.frame(true, opText, []byte("next"))...)
	cut := nd.Choose("cut", len(raw)+1)
	s := clientSocket(nd.Bool("gorilla"), w, raw[:cut])
	w.feed(raw[cut:])
	var got []msg
	done := false
	nd.Spawn(func() { readAll(s, &got, &done) })
	nd.Quiesce()
	nd.Assert(!done, "a valid sequence of frames was refused")
	nd.Assert(len(got) == 2, "a message that arrived with the handshake was lost")
	nd.Assert(got[0].typ == m.typ && got[0].body == m.body && got[1].body == "next", "a message that arrived with the handshake changed")
	w.end(false)
	nd.Quiesce()
	nd.Assert(done, "the end of the connection was not reported")
}

// CheckWriters: concurrent writers and the answer to a ping.
func CheckWriters() {
	w := newWire()
	client := nd.Bool("client")
	s := socket(nd.Bool("gorilla"), client, w)
	ms := []msg{pick("a", 1), pick("b", 2)}
	timeout := time.Duration(nd.Choose("timeout", 2)) * time.Hour
	var got []msg
	end := false
	nd.Spawn(func() { readAll(s, &got, &end) })
	nd.Quiesce()
	nd.Delays(nd.Pick(2, 3))
	n := 0
	for _, m := range ms {
		m := m
		nd.Spawn(func() {
			nd.Assert(write(s, m, timeout) == nil, "the write failed")
			n++
		})
	}
	ping := nd.Bool("ping")
	if ping {
		w.feed((&peer{masks: !client}).frame(true, opPing, []byte{'p'}))
	}
	hx.Settle()
	nd.Assert(n == 2, "a writer did not return")
	fs := frames(w.taken(), client)
	want := []fr{}
	for _, m := range ms {
		op := opText
		if m.typ == neffos.BinaryMessage {
			op = opBinary
		}
		want = append(want, fr{op, m.body})
	}
	if ping {
		want = append(want, fr{opPong, "p"})
	}
	nd.Assert(len(fs) == len(want), "frames were lost or added")
	for _, x := range want {
		found := false
		for _, f := range fs {
			found = nd.Or(found, nd.And(f.op == x.op, f.body == x.body))
		}
		nd.Assert(found, "a message of one of the writers was not written whole")
	}
	nd.Assert(len(got) == 0, "a control frame was delivered")
	w.end(false)
	nd.Quiesce()
}

const tick = 10 * time.Millisecond

// CheckTimeouts: a read or write lasts as long as its timeout, and every one gets its own.
func CheckTimeouts() {
	w := newWire()
	client := nd.Bool("client")
	s := socket(nd.Bool("gorilla"), client, w)
	timeout := 10 * tick
	if nd.Bool("write") {
		time.Sleep(tick)
		nd.Assert(write(s, msg{neffos.TextMessage, "x"}, timeout) == nil, "the write failed")
		time.Sleep(time.Duration(nd.Choose("pause", 3)) * 8 * tick)
		w.stall = true
		start := nd.Now()
		err := write(s, pick("m", 1), timeout)
		took := time.Duration(nd.Now() - start)
		nd.Assert(err != nil, "a write that did not go out succeeded")
		nd.Assert(took >= timeout-tick && took <= timeout+tick, "a write did not last its timeout")
		return
	}
	gap := time.Duration(nd.Choose("gap", 3)) * 8 * tick
	at := []time.Duration{7 * tick, 7*tick + gap}
	go func() {
		var last time.Duration
		for _, t := range at {
			time.Sleep(t - last)
			last = t
			w.feed((&peer{masks: !client}).frame(true, opText, []byte{'x'}))
		}
	}()
	start := nd.Now()
	n := 0
	var last time.Duration
	for {
		_, _, err := s.ReadData(timeout)
		took := time.Duration(nd.Now() - start)
		if err != nil {
			nd.Assert(took >= last+timeout-tick && took <= last+timeout+tick, "a read did not last its timeout")
			break
		}
		n++
		last = took
	}
	if gap < timeout {
		nd.Assert(n == 2, "a message that came in time was not read")
	} else {
		nd.Assert(n == 1, "a message that came in time was not read")
	}
}
