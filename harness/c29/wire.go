// Package c29: the transport adapters carry whole messages.
package c29

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	gobwas "github.com/gobwas/ws"
	gorilla "github.com/gorilla/websocket"

	"github.com/kataras/neffos"
	ngobwas "github.com/kataras/neffos/gobwas"
	ngorilla "github.com/kataras/neffos/gorilla"
	"github.com/kataras/neffos/verifh/nd"
)

// wire is one end of an in-memory connection.
type wire struct {
	mu     sync.Mutex
	in     []byte // to be read by this end
	eof    bool
	lost   bool // reads and writes fail
	closed bool
	change chan struct{}
	rd, wd time.Time
	out    []byte // what this end wrote, if it has no peer
	never  chan struct{}
	peer   *wire
	seg    int  // a read returns at most this many bytes
	stall  bool // writes wait until their deadline
}

func newWire() *wire { return &wire{change: make(chan struct{}), seg: 1 << 20} }

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var (
	errLost   = errors.New("connection lost")
	errClosed = errors.New("use of closed network connection")
)

func (w *wire) changed() {
	close(w.change)
	w.change = make(chan struct{})
}

func (w *wire) feed(b []byte) {
	w.mu.Lock()
	w.in = append(w.in, b...)
	w.changed()
	w.mu.Unlock()
}

func (w *wire) end(lost bool) {
	w.mu.Lock()
	w.eof = true
	w.lost = lost
	w.changed()
	w.mu.Unlock()
}

func (w *wire) Read(b []byte) (int, error) {
	for {
		w.mu.Lock()
		if w.closed {
			w.mu.Unlock()
			return 0, errClosed
		}
		if len(w.in) > 0 || len(b) == 0 {
			n := len(w.in)
			if n > w.seg {
				n = w.seg
			}
			n = copy(b, w.in[:n])
			w.in = w.in[n:]
			w.mu.Unlock()
			return n, nil
		}
		if w.eof {
			w.mu.Unlock()
			if w.lost {
				return 0, errLost
			}
			return 0, io.EOF
		}
		ch := w.change
		d := w.rd
		w.mu.Unlock()
		if d.IsZero() {
			<-ch
			continue
		}
		left := time.Until(d)
		if left <= 0 {
			return 0, timeoutError{}
		}
		t := time.NewTimer(left)
		select {
		case <-ch:
			t.Stop()
		case <-t.C:
			return 0, timeoutError{}
		}
	}
}

// Write is not atomic: other goroutines may run halfway, as with a socket whose buffer is full.
func (w *wire) Write(b []byte) (int, error) {
	w.mu.Lock()
	if w.closed || w.lost {
		w.mu.Unlock()
		return 0, errClosed
	}
	if w.stall {
		d := w.wd
		w.mu.Unlock()
		if d.IsZero() {
			<-w.never
		}
		time.Sleep(time.Until(d))
		return 0, timeoutError{}
	}
	p := w.peer
	if p == nil {
		w.out = append(w.out, b...)
	}
	w.mu.Unlock()
	if p != nil {
		p.feed(b)
	}
	nd.Point()
	return len(b), nil
}

func (w *wire) Close() error {
	w.mu.Lock()
	p := w.peer
	w.closed = true
	w.changed()
	w.mu.Unlock()
	if p != nil {
		p.end(false)
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "127.0.0.1:1" }

func (w *wire) LocalAddr() net.Addr  { return addr{} }
func (w *wire) RemoteAddr() net.Addr { return addr{} }
func (w *wire) SetDeadline(t time.Time) error {
	w.SetWriteDeadline(t)
	return w.SetReadDeadline(t)
}
func (w *wire) SetReadDeadline(t time.Time) error {
	w.mu.Lock()
	w.rd = t
	w.changed()
	w.mu.Unlock()
	return nil
}
func (w *wire) SetWriteDeadline(t time.Time) error {
	w.mu.Lock()
	w.wd = t
	w.mu.Unlock()
	return nil
}

func (w *wire) taken() []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := w.out
	w.out = nil
	return b
}

func link(a, b *wire) {
	a.peer, b.peer = b, a
}

type hijack struct {
	w *wire
	h http.Header
}

func (h *hijack) Header() http.Header         { return h.h }
func (h *hijack) Write(b []byte) (int, error) { return len(b), nil }
func (h *hijack) WriteHeader(int)             {}
func (h *hijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.w, bufio.NewReadWriter(bufio.NewReader(h.w), bufio.NewWriter(h.w)), nil
}

const key = "dGhlIHNhbXBsZSBub25jZQ=="

func accept(key string) string {
	s := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(s[:])
}

// serverSocket upgrades a request over w with the given adapter.
func serverSocket(useGorilla bool, w *wire) neffos.Socket {
	r := &http.Request{
		Method: "GET", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "h", RequestURI: "/",
		URL: &url.URL{Path: "/"},
		Header: http.Header{
			"Connection":            {"Upgrade"},
			"Upgrade":               {"websocket"},
			"Sec-Websocket-Version": {"13"},
			"Sec-Websocket-Key":     {key},
		},
	}
	var up neffos.Upgrader
	if useGorilla {
		up = ngorilla.Upgrader(gorilla.Upgrader{})
	} else {
		up = ngobwas.Upgrader(gobwas.HTTPUpgrader{})
	}
	s, err := up(&hijack{w, http.Header{}}, r)
	nd.Assert(err == nil, "the upgrade of a valid handshake failed")
	resp := string(w.taken())
	nd.Assert(strings.HasPrefix(resp, "HTTP/1.1 101 "), "the handshake was not answered")
	nd.Assert(strings.HasSuffix(resp, "\r\n\r\n"), "the answer to the handshake is not complete")
	nd.Assert(s.NetConn() == net.Conn(w), "NetConn is not the connection that was upgraded")
	nd.Assert(s.Request() == r, "Request is not the request that was upgraded")
	return s
}

// clientSocket dials over w with the given adapter; early is sent right behind the handshake.
func clientSocket(useGorilla bool, w *wire, early []byte) neffos.Socket {
	nd.Spawn(func() {
		var req []byte
		for !strings.HasSuffix(string(req), "\r\n\r\n") {
			nd.Quiesce()
			req = append(req, w.taken()...)
		}
		k := ""
		for _, l := range strings.Split(string(req), "\r\n") {
			if i := strings.Index(l, ":"); i > 0 && strings.EqualFold(l[:i], "Sec-WebSocket-Key") {
				k = strings.TrimSpace(l[i+1:])
			}
		}
		resp := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept(k) + "\r\n\r\n"
		w.feed(append([]byte(resp), early...))
	})
	var d neffos.Dialer
	if useGorilla {
		d = ngorilla.Dialer(&gorilla.Dialer{NetDialContext: func(context.Context, string, string) (net.Conn, error) { return w, nil }}, http.Header{})
	} else {
		d = ngobwas.Dialer(gobwas.Dialer{NetDial: func(context.Context, string, string) (net.Conn, error) { return w, nil }})
	}
	s, err := d(context.Background(), "ws://h/")
	nd.Assert(err == nil, "the dial failed")
	w.taken()
	return s
}

// socket returns the adapter's socket, server or client.
func socket(useGorilla, client bool, w *wire) neffos.Socket {
	if client {
		return clientSocket(useGorilla, w, nil)
	}
	return serverSocket(useGorilla, w)
}
