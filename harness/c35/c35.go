// Package c35: objects as bodies.
package c35

import (
	"errors"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

var errObject = errors.New("object")

// object has its own encoding: its bytes, each changed, after a mark.
type object struct {
	data  string
	fails bool
	calls int
}

func (o *object) Marshal() ([]byte, error) {
	o.calls++
	if o.fails {
		return []byte("half"), errObject
	}
	b := []byte{'o'}
	for i := 0; i < len(o.data); i++ {
		b = append(b, o.data[i]^0x55)
	}
	return b, nil
}

func (o *object) Unmarshal(body []byte) error {
	o.calls++
	if len(body) == 0 || body[0] != 'o' || o.fails {
		return errObject
	}
	o.data = ""
	for _, x := range body[1:] {
		o.data += string([]byte{x ^ 0x55})
	}
	return nil
}

// only one of the two, and none, are own encodings.
type (
	out   struct{ data string }
	in    struct{ data string }
	plain struct{ data string }
)

func (o out) Marshal() ([]byte, error)       { return []byte("out" + o.data), nil }
func (i *in) Unmarshal(body []byte) error    { i.data = "in" + string(body); return nil }
func (p plain) Marshal() string              { return "no" }
func (p *plain) Unmarshal(body string) error { return errObject }

// defaults replaces the package's encoding by one that records.
func defaults() (calls *int, fails bool) {
	calls = new(int)
	fails = nd.Bool("default fails")
	neffos.DefaultMarshaler = func(v interface{}) ([]byte, error) {
		*calls++
		if fails {
			return []byte("half"), errObject
		}
		switch v := v.(type) {
		case plain:
			return []byte("d" + v.data), nil
		case in:
			return []byte("d" + v.data), nil
		case string:
			return []byte("d" + v), nil
		}
		return nil, nil
	}
	neffos.DefaultUnmarshaler = func(body []byte, p interface{}) error {
		*calls++
		if fails {
			return errObject
		}
		switch p := p.(type) {
		case *plain:
			p.data = "d" + string(body)
		case *out:
			p.data = "d" + string(body)
		case *string:
			*p = "d" + string(body)
		}
		return nil
	}
	return
}

// CheckMarshal: a body is what the value's own Marshal, or else the default one, gives.
func CheckMarshal() {
	calls, fails := defaults()
	data := nd.StrUpTo("data", nd.Pick(2, 4))
	want, n := "d"+data, 1
	var v interface{}
	switch nd.Choose("type", 5) {
	case 0:
		o := &object{data: data, fails: nd.Bool("fails")}
		v, n = o, 0
		want = "o"
		for i := 0; i < len(data); i++ {
			want += string([]byte{data[i] ^ 0x55})
		}
		if o.fails {
			want = errObject.Error()
		}
	case 1:
		v, n, want = out{data}, 0, "out"+data
	case 2:
		v = plain{data}
	case 3:
		v = in{data}
	case 4:
		v = data
	}
	if n == 1 && fails {
		want = errObject.Error()
	}
	got := neffos.Marshal(v)
	nd.Assert(string(got) == want, "the body of an object")
	nd.Assert(*calls == n, "who encodes an object")
	if o, ok := v.(*object); ok {
		nd.Assert(o.calls == 1 && o.data == data, "an object is encoded once, as it is")
	}
	nd.Reach("end")
}

// CheckUnmarshal: a body is given to the target's own Unmarshal, or else the default one, whose error is returned.
func CheckUnmarshal() {
	calls, fails := defaults()
	body := nd.StrUpTo("body", nd.Pick(2, 4))
	m := neffos.Message{Namespace: "n", Event: "e", Body: []byte(body)}
	n := 1
	var err error
	ok := !fails
	var got, want string
	want = "d" + body
	switch nd.Choose("type", 4) {
	case 0:
		o := &object{fails: nd.Bool("fails")}
		err = m.Unmarshal(o)
		n, ok = 0, len(body) > 0 && body[0] == 'o' && !o.fails
		got, want = o.data, ""
		if ok {
			for i := 1; i < len(body); i++ {
				want += string([]byte{body[i] ^ 0x55})
			}
		}
		nd.Assert(o.calls == 1, "a body is decoded once")
	case 1:
		i := &in{}
		err = m.Unmarshal(i)
		n, ok, got, want = 0, true, i.data, "in"+body
	case 2:
		p := &plain{}
		err = m.Unmarshal(p)
		got = p.data
	case 3:
		p := &out{}
		err = m.Unmarshal(p)
		got = p.data
	}
	if ok {
		nd.Assert(err == nil && got == want, "the object of a body")
	} else {
		nd.Assert(err == errObject, "the error of a body that is no object")
	}
	nd.Assert(*calls == n, "who decodes a body")
	nd.Assert(string(m.Body) == body, "the body is changed")
	nd.Reach("end")
}

// CheckNil: nil is refused.
func CheckNil() {
	refused := func(f func()) (r bool) {
		defer func() { r = recover() != nil }()
		f()
		return
	}
	nd.Assert(refused(func() { neffos.Marshal(nil) }), "Marshal of nil")
	m := neffos.Message{Body: []byte(nd.StrUpTo("body", 1))}
	nd.Assert(refused(func() { m.Unmarshal(nil) }), "Unmarshal to nil")
	nd.Reach("end")
}

// CheckWire: an object sent by one side is the same in the other's callback, as text or binary, and so is the answer.
func CheckWire() {
	defaults()
	data := nd.StrUpTo("data", nd.Pick(2, 4))
	bin := nd.Bool("binary")
	var got object
	var seen, bad bool
	server := neffos.Events{"e": func(c *neffos.NSConn, m neffos.Message) error {
		seen = true
		bad = m.Unmarshal(&got) != nil
		return neffos.Reply(neffos.Marshal(&object{data: got.data + "!"}))
	}}
	client := neffos.Events{}
	p := hx.NewPair(neffos.Namespaces{"n": server}, neffos.Namespaces{"n": client})
	p.Start()
	hx.Settle()
	nd.Assert(p.DialErr == nil && p.Dialed, "dial")
	ns, err := p.Cl.Connect(nil, "n")
	nd.Assert(err == nil, "connect")
	answer, err := ns.Conn.Ask(nil, neffos.Message{Namespace: "n", Event: "e", Body: neffos.Marshal(&object{data: data}), SetBinary: bin})
	nd.Assert(err == nil && seen && !bad, "an object that is sent")
	nd.Assert(got.data == data, "an object is another on the other side")
	var back object
	nd.Assert(answer.Unmarshal(&back) == nil && back.data == data+"!", "the object of an answer")
	nd.Reach("end")
}
