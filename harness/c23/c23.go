// Package c23: the HTTP entry upgrades only what it should.
package c23

import (
	"errors"
	"net/http"
	"strings"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

type rig struct {
	s        *neffos.Server
	upgrades int
	err      error
	headers  http.Header
	upErrs   []error
	accepted int
	k        *hx.Sock
}

func newRig() *rig {
	r := &rig{k: hx.NewSock()}
	r.s = neffos.New(func(w http.ResponseWriter, q *http.Request) (neffos.Socket, error) {
		r.upgrades++
		r.headers = q.Header
		if r.err != nil {
			return nil, r.err
		}
		return r.k, nil
	}, neffos.Namespaces{"n": neffos.Events{}})
	r.s.OnUpgradeError = func(err error) { r.upErrs = append(r.upErrs, err) }
	r.s.OnConnect = func(*neffos.Conn) error { r.accepted++; return nil }
	nd.Quiesce()
	return r
}

// CheckMethod: any method of up to four bytes, on an open and a closed server, with an upgrader that fails or not.
func CheckMethod() {
	r := newRig()
	method := nd.StrUpTo("method", 5)
	closed := nd.Bool("closed")
	if closed {
		r.s.Close()
	}
	fails, told := nd.Bool("fails"), true
	if fails {
		r.err = errors.New("no upgrade")
		if told = nd.Bool("told"); !told {
			r.s.OnUpgradeError = nil
		}
	}
	w := hx.NewRW()
	q := hx.NewRequest(method, "")
	var c *neffos.Conn
	var err error
	serve := nd.Bool("serve")
	if serve {
		r.s.ServeHTTP(w, q)
	} else {
		c, err = r.s.Upgrade(w, q, nil, nil)
	}
	hx.Settle()
	up := 0
	switch {
	case closed:
		nd.Assert(w.Status == 500, "a closed server answers 500")
		nd.Assert(serve || err != nil && !neffos.IsTryingToReconnect(err), "a closed server returns an error")
		nd.Reach("closed")
	case method == "HEAD":
		nd.Assert(w.Status == 302, "HEAD answers 302")
		nd.Assert(serve || neffos.IsTryingToReconnect(err), "HEAD is a reconnect probe")
		nd.Reach("head")
	case method == "GET":
		up = 1
		nd.Assert(w.Status == 0 && w.Writes == 0, "the server answers an upgraded request itself")
		nd.Reach("get")
	default:
		nd.Assert(w.Status == 405, "another method answers 405")
		nd.Assert(w.H.Get("Allow") == "GET", "the allowed method is named")
		nd.Assert(serve || err != nil && !neffos.IsTryingToReconnect(err), "another method returns an error")
		nd.Reach("other")
	}
	nd.Assert(r.upgrades == up, "number of upgrades")
	ok := up == 1 && !fails
	if up == 1 && fails {
		nd.Assert(!told || len(r.upErrs) == 1 && r.upErrs[0] == r.err, "a failed upgrade is reported once")
		nd.Assert(serve || err == r.err, "a failed upgrade is returned")
	} else {
		nd.Assert(len(r.upErrs) == 0, "a failed upgrade is reported")
	}
	nd.Assert(serve || (c != nil) == ok, "a connection is returned exactly if it is upgraded")
	nd.Assert(serve || (err == nil) == ok, "no error exactly if it is upgraded")
	n := 0
	if ok {
		n = 1
	}
	nd.Assert(r.s.GetTotalConnections() == uint64(n) && r.accepted == n, "a connection is registered exactly if it is upgraded")
	nd.Reach("end")
}

const prefix = "X-Websocket-Header-"

// plain is a string of n bytes that a query string holds as they are.
func plain(label string, n int, token bool) string {
	s := nd.Str(label, n)
	for i := 0; i < n; i++ {
		b := s[i]
		if token {
			nd.Assume(nd.Or(nd.And(b >= 'a', b <= 'z'), nd.Or(nd.And(b >= 'A', b <= 'Z'), nd.Or(nd.And(b >= '0', b <= '9'), b == '-'))))
		} else {
			nd.Assume(nd.All(b != '&', b != '=', b != '+', b != '%', b != ';', b != '#'))
		}
	}
	return s
}

func request(query string) (*rig, http.Header) {
	r := newRig()
	q := hx.NewRequest("GET", query)
	q.Header.Set("Old", "1")
	_, err := r.s.Upgrade(hx.NewRW(), q, nil, nil)
	nd.Assert(err == nil && r.upgrades == 1, "upgraded")
	nd.Assert(r.headers.Get("Old") == "1" && len(r.headers["Old"]) == 1, "a header of the request is lost")
	return r, r.headers
}

// CheckHeader: a parameter with the prefix becomes a header of exactly the rest of its name and its value.
func CheckHeader() {
	name := "Q" + plain("name", nd.Choose("namelen", nd.Pick(2, 3)), true)
	value := plain("value", nd.Choose("valuelen", 3), false)
	pre := prefix
	if nd.Bool("lower") {
		pre = strings.ToLower(prefix)
	}
	_, h := request("x=y&" + pre + name + "=" + value)
	nd.Assert(len(h) == 2, "number of headers")
	got := h[http.CanonicalHeaderKey(name)]
	nd.Assert(len(got) == 1 && got[0] == value, "header of a parameter")
	nd.Reach("end")
}

// CheckNoHeader: a parameter whose name does not begin with the prefix, or is no more than it, becomes no header.
func CheckNoHeader() {
	name := ""
	switch nd.Choose("kind", 5) {
	case 0:
		name = prefix
	case 1:
		name = plain("c", 1, true) + prefix + "Key"
	case 2: // one character is different
		b := []byte(prefix)
		i := nd.Choose("at", len(b))
		c := plain("c", 1, true)[0]
		nd.Assume(nd.And(c != b[i], nd.And(c|32 != b[i]|32, true)))
		b[i] = c
		name = string(b) + "Key"
	case 3:
		name = plain("c", nd.Pick(2, 3), false)
	case 4:
		name = "Q-" + prefix + "Key"
	}
	_, h := request(name + "=v")
	nd.Assert(len(h) == 1, "a parameter without the prefix becomes a header")
	nd.Reach("end")
}

// CheckTwo: several parameters and values of the same name are all there, in order, and keep apart.
func CheckTwo() {
	v := plain("v", 1, false)
	same := nd.Bool("same")
	second := "Qb"
	if same {
		second = "Qa"
	}
	_, h := request(prefix + "Qa=1" + v + "&k=z&" + prefix + second + "=2")
	if same {
		got := h["Qa"]
		nd.Assert(len(h) == 2 && len(got) == 2 && got[0] == "1"+v && got[1] == "2", "two values of one header")
	} else {
		nd.Assert(len(h) == 3 && len(h["Qa"]) == 1 && h["Qa"][0] == "1"+v && len(h["Qb"]) == 1 && h["Qb"][0] == "2", "two headers")
	}
	nd.Reach("end")
}

// CheckReconnect: the reconnect header, or parameter, gives the number of tries.
func CheckReconnect() {
	n := nd.Choose("len", 3)
	text := plain("tries", n, false)
	r := newRig()
	query := ""
	q := hx.NewRequest("GET", "")
	if nd.Bool("param") {
		query = prefix + "X-Websocket-Reconnect=" + text
		q = hx.NewRequest("GET", query)
	} else if n > 0 {
		q.Header.Set("X-Websocket-Reconnect", text)
	}
	c, err := r.s.Upgrade(hx.NewRW(), q, nil, nil)
	nd.Assert(err == nil, "upgraded")
	want, digits := 0, n > 0
	for i := 0; i < n; i++ {
		if text[i] < '0' || text[i] > '9' {
			digits = false
			break
		}
		want = want*10 + int(text[i]-'0')
	}
	if digits {
		nd.Assert(c.ReconnectTries == want && c.WasReconnected() == (want > 0), "number of reconnect tries")
		nd.Reach("digits")
	} else if n == 0 {
		nd.Assert(c.ReconnectTries == 0 && !c.WasReconnected(), "a connection without the header is a reconnection")
	}
	nd.Reach("end")
}

// CheckIdentity: the ID is the given generator's, else the server's; the socket is the wrapper's if there is one.
func CheckIdentity() {
	r := newRig()
	id := nd.StrUpTo("id", 2)
	other := "o" + nd.Str("other", 1)
	r.s.IDGenerator = hx.FixedID(other)
	var gen neffos.IDGenerator
	if nd.Bool("custom") {
		gen = hx.FixedID(id)
	} else {
		id = other
	}
	k := r.k
	var wrap func(neffos.Socket) neffos.Socket
	if nd.Bool("wrap") {
		k = hx.NewSock()
		wrap = func(neffos.Socket) neffos.Socket { return k }
	}
	c, err := r.s.Upgrade(hx.NewRW(), hx.NewRequest("GET", ""), wrap, gen)
	nd.Assert(err == nil && c.ID() == id && c.String() == id, "ID of a connection")
	nd.Assert(c.Socket() == neffos.Socket(k), "socket of a connection")
	nd.Assert(!c.IsClient() && c.Server() == r.s, "side of a connection")
	k.Say("M")
	k.Wrote("acknowledgement", "A"+id)
	nd.Reach("end")
}
