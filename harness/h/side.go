package h

import (
	"errors"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Answer is what sending a request returned.
type Answer struct {
	Resp messages.Response
	Err  error
}

// Sender sends a request.
type Sender func(messages.Request) (messages.Response, error)

// Subject is what the last Side made: the connection, the central system or the charge point.
var Subject interface{}

// Side makes one of the three things that send requests over a websocket, and the peer it sends to: a bare connection, the
// service of a central system, a charge point. Schedules do not vary until it is done. It also says which messages that side sends.
func Side() (send Sender, p *Peer, fromCP bool) {
	vp.Calm()
	defer vp.Busy()
	switch vp.Choice("side", 3) {
	case 0:
		s := Serve()
		c, err := ws.Dial("me", "ws://localhost"+s.Port, ocpp.V16)
		vp.Assert(err == nil, "a websocket cannot be dialled")
		Subject = c
		go func() {
			for {
				select {
				case <-c.WaitClose():
					return
				default:
					c.ReadMessage()
				}
			}
		}()
		return c.SendRequest, s.Accept(), true
	case 1:
		c, port := StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			return nil, errors.New("no call expected")
		})
		Subject = c
		p := MustDial(port, "/me")
		<-c.WaitConnect("me")
		svc, err := c.GetServiceOf("me", ocpp.V16, "")
		vp.Assert(err == nil, "a connected charge point cannot be looked up")
		return func(r messages.Request) (messages.Response, error) {
			a, err := svc.Send(r.(csreq.CentralSystemRequest))
			if a == nil {
				return nil, err
			}
			return a, err
		}, p, false
	}
	c, p, _ := StartCP(Serve(), "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("no call expected")
	})
	Subject = c
	return func(r messages.Request) (messages.Response, error) {
		a, err := c.Send(r.(cpreq.ChargePointRequest))
		if a == nil {
			return nil, err
		}
		return a, err
	}, p, true
}

// Go sends a request from another goroutine.
func Go(send Sender, r messages.Request) chan Answer {
	ch := make(chan Answer, 2)
	go func() {
		a, err := send(r)
		ch <- Answer{a, err}
	}()
	return ch
}

// Await waits for what a request returned.
func Await(ch chan Answer, what string) Answer {
	select {
	case a := <-ch:
		return a
	case <-vp.After(Patience):
		vp.Assert(false, what)
	}
	return Answer{}
}

// ID reads a Call frame and returns its id.
func (p *Peer) ID(what string) string {
	f, ok := Parse(p.Read())
	vp.Assert(ok && f.Type == 2, what)
	return f.ID
}
