package hx

import (
	"context"

	"github.com/kataras/neffos"
)

// Exchange is a StackExchange that records its calls.
type Exchange struct {
	Calls      []string
	Published  [][]neffos.Message
	Asked      []neffos.Message
	Tokens     []string
	Notified   []neffos.Message
	NotifyTok  []string
	ConnectErr error
	PublishRet bool
	AskRet     neffos.Message
	AskErr     error
	NotifyErr  error
	OnPublish  func([]neffos.Message)
	OnConnectF func(c *neffos.Conn)
	OnAsk      func(msg neffos.Message, token string)
}

func NewExchange() *Exchange { return &Exchange{PublishRet: true} }

func (e *Exchange) OnConnect(c *neffos.Conn) error {
	e.Calls = append(e.Calls, "connect "+c.ID())
	if e.OnConnectF != nil {
		e.OnConnectF(c)
	}
	return e.ConnectErr
}
func (e *Exchange) OnDisconnect(c *neffos.Conn) { e.Calls = append(e.Calls, "disconnect "+c.ID()) }
func (e *Exchange) Publish(msgs []neffos.Message) bool {
	e.Calls = append(e.Calls, "publish")
	e.Published = append(e.Published, msgs)
	if e.OnPublish != nil {
		e.OnPublish(msgs)
	}
	return e.PublishRet
}
func (e *Exchange) Subscribe(c *neffos.Conn, ns string) {
	e.Calls = append(e.Calls, "subscribe "+c.ID()+" "+ns)
}
func (e *Exchange) Unsubscribe(c *neffos.Conn, ns string) {
	e.Calls = append(e.Calls, "unsubscribe "+c.ID()+" "+ns)
}
func (e *Exchange) Ask(ctx context.Context, msg neffos.Message, token string) (neffos.Message, error) {
	e.Calls = append(e.Calls, "ask")
	e.Asked = append(e.Asked, msg)
	e.Tokens = append(e.Tokens, token)
	if e.OnAsk != nil {
		e.OnAsk(msg, token)
	}
	return e.AskRet, e.AskErr
}
func (e *Exchange) NotifyAsk(msg neffos.Message, token string) error {
	e.Calls = append(e.Calls, "notify "+token)
	e.Notified = append(e.Notified, msg)
	e.NotifyTok = append(e.NotifyTok, token)
	return e.NotifyErr
}
