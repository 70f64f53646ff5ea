package hx

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/nd"
)

// Pair is a real client and a real server on one in-memory transport.
type Pair struct {
	S        *neffos.Server
	ClientK  *Sock
	ServerK  *Sock
	Cl       *neffos.Client
	DialErr  error
	Dialed   bool
	Conn     *neffos.Conn // the server's
	UpErr    error
	Upgraded bool
	Handler  neffos.ConnHandler // the client's
	ID       string
}

// NewPair prepares a pair; Start lets it begin.
func NewPair(server, client neffos.ConnHandler) *Pair {
	p := &Pair{Handler: client, ID: "id"}
	p.ClientK, p.ServerK = Pipe()
	p.S = NewServer(server, &p.ServerK)
	return p
}

// Start dials and upgrades concurrently.
func (p *Pair) Start() {
	nd.Spawn(func() {
		p.Conn, p.UpErr = p.S.Upgrade(NewRW(), NewRequest("GET", ""), nil, FixedID(p.ID))
		p.Upgraded = true
	})
	nd.Spawn(func() {
		p.Cl, p.DialErr = DialSock(p.ClientK, p.Handler)
		p.Dialed = true
	})
}
