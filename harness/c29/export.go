package c29

import "github.com/kataras/neffos"

// Open returns a socket of an adapter, and what its other side can do: send a
// ping, send a message, go away.
func Open(useGorilla, client bool) (s neffos.Socket, ping, say, leave func()) {
	w := newWire()
	s = socket(useGorilla, client, w)
	p := &peer{masks: !client}
	return s, func() { w.feed(p.frame(true, opPing, []byte{'p'})) },
		func() { w.feed(p.frame(true, opText, []byte{'x'})) },
		func() { w.end(false) }
}
