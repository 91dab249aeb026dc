// Package c23 checks that connections leave no goroutines.
package c23

import (
	"errors"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

const timeout = 60 * time.Second

// endpoint is a central system or a charge point, with connections to harness peers.
type endpoint struct {
	fromCP  bool
	connect func() *h.Peer // makes the next connection
	send    func() h.Sender
	cancel  func() // stops a charge point
	refuse  func(bool)
	gate    chan bool // when set, handlers wait for it
	mode    int       // what handlers do: answer, fail, return nothing
}

// start makes an endpoint; connect has to be called before anything else.
func start(charge bool) *endpoint {
	e := &endpoint{fromCP: charge}
	if !charge {
		c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			if e.gate != nil {
				<-e.gate
			}
			switch e.mode {
			case 1:
				return nil, errors.New("failed")
			case 2:
				return nil, nil
			}
			return &cpresp.StatusNotification{}, nil
		})
		e.connect = func() *h.Peer {
			p := h.MustDial(port, "/me")
			<-c.WaitConnect("me")
			return p
		}
		e.send = func() h.Sender {
			svc, err := c.GetServiceOf("me", ocpp.V16, "")
			vp.Assert(err == nil, "a connected charge point cannot be looked up")
			return func(r messages.Request) (messages.Response, error) {
				a, err := svc.Send(r.(csreq.CentralSystemRequest))
				if a == nil {
					return nil, err
				}
				return a, err
			}
		}
		e.refuse = func(bool) {}
		return e
	}
	s := h.Serve()
	first := true
	var sender h.Sender
	e.connect = func() *h.Peer {
		if !first {
			p := s.Accept()
			vp.Assert(p != nil, "a charge point does not connect again")
			return p
		}
		first = false
		c, p, cancel := h.StartCP(s, "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			if e.gate != nil {
				<-e.gate
			}
			switch e.mode {
			case 1:
				return nil, errors.New("failed")
			case 2:
				return nil, nil
			}
			return &csresp.ClearCache{Status: "Accepted"}, nil
		})
		e.cancel = cancel
		sender = func(r messages.Request) (messages.Response, error) {
			a, err := c.Send(r.(cpreq.ChargePointRequest))
			if a == nil {
				return nil, err
			}
			return a, err
		}
		return p
	}
	e.send = func() h.Sender { return sender }
	e.refuse = s.Refuse
	return e
}

// call is a call the endpoint handles.
func (e *endpoint) call(id string) string {
	if e.fromCP {
		return h.Call(id, "ClearCache", "{}")
	}
	return h.Call(id, "StatusNotification", `{"connectorId":1,"errorCode":"NoError","status":"Available"}`)
}

func (e *endpoint) request() messages.Request {
	if e.fromCP {
		return &cpreq.DataTransfer{VendorId: "v"}
	}
	return &csreq.DataTransfer{VendorId: "v"}
}

func (e *endpoint) badRequest() messages.Request {
	if e.fromCP {
		return &cpreq.MeterValues{}
	}
	return &csreq.SendLocalList{}
}

const kinds = 12

// talk exchanges one message, or a message and its answer.
func (e *endpoint) talk(p *h.Peer, kind int) {
	answered := func() { vp.Assert(p.Read() != "", "a call is not answered") }
	switch kind {
	case 0, 1, 2: // a call
		e.mode = kind
		p.Write(e.call("1"))
		answered()
		e.mode = 0
	case 3: // an unknown action
		p.Write(h.Call("1", "Foo", "{}"))
		answered()
	case 4: // a payload that does not decode
		p.Write(h.Call("1", "StatusNotification", `{"connectorId":"x"}`))
		answered()
	case 5: // an action of the other direction
		p.Write((&endpoint{fromCP: !e.fromCP}).call("1"))
		answered()
	case 6: // bad messages
		p.Write("[2,\"1\"")
		vp.Quiesce()
		p.Write("[7,\"1\",{}]")
	case 7: // replies to nothing
		p.Write(h.Result("nothing", "{}"))
		vp.Quiesce()
		p.Write(h.Error("nothing", "GenericError", "", "{}"))
	case 8: // a request and its answer, given twice
		ch := h.Go(e.send(), e.request())
		id := p.ID("a request is not written")
		p.Write(h.Result(id, `{"status":"Accepted"}`))
		vp.Assert(h.Await(ch, "an answered request does not return").Err == nil, "an answered request fails")
		p.Write(h.Result(id, `{"status":"Accepted"}`))
	case 9: // a request that is refused
		ch := h.Go(e.send(), e.request())
		p.Write(h.Error(p.ID("a request is not written"), "InternalError", "no", "{}"))
		h.Await(ch, "an answered request does not return")
	case 10: // a request and an answer that does not decode
		ch := h.Go(e.send(), e.request())
		p.Write(h.Result(p.ID("a request is not written"), `{"status":1}`))
		h.Await(ch, "an answered request does not return")
	case 11: // a request that is not answered in time
		ch := h.Go(e.send(), e.request())
		id := p.ID("a request is not written")
		vp.Sleep(timeout + 5*time.Second)
		h.Await(ch, "a request waits beyond its timeout")
		p.Write(h.Result(id, `{"status":"Accepted"}`))
	}
	vp.Quiesce()
}

func count() int {
	vp.Quiesce()
	return vp.RepoGoroutines()
}

// end ends a connection.
func (e *endpoint) end(p *h.Peer, how int) {
	switch how {
	case 0:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
		vp.Quiesce()
		p.C.Close()
	case 1:
		p.C.Close()
	case 2:
		vp.Reset(p.C)
	case 3:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(4001, "bye"))
		vp.Quiesce()
		p.C.Close()
	case 4:
		e.cancel()
		vp.Assert(p.Drained(), "a cancelled charge point keeps its connection")
	}
}

// ways is the number of ways in which a connection of the endpoint may end.
func (e *endpoint) ways() int {
	if e.fromCP {
		return 5
	}
	return 4
}

// CheckMix exchanges any sequence of messages, up to the bound, and ends the connection.
func CheckMix() {
	e := start(vp.Choice("charge point", 2) == 1)
	idle := count()
	p := e.connect()
	up := count()
	steps := 2
	if vp.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		k := vp.Choice("kind", kinds)
		e.talk(p, k)
		first := count()
		for j := 0; j < 2; j++ {
			e.talk(p, k)
		}
		vp.Assert(count() <= first, "the goroutines of a connection grow with its messages")
		vp.Assert(count() <= up+2, "the goroutines of a connection grow with its messages")
	}
	e.over(p, vp.Choice("how", e.ways()), idle, up)
}

// over ends a connection, and checks that its goroutines end and that another connection has no more than the first had.
func (e *endpoint) over(p *h.Peer, how int, idle, up int) {
	if how == 4 {
		e.end(p, how)
		vp.Assert(count() == 0, "a goroutine is left behind by a cancelled charge point")
		vp.Reach("cancelled")
		return
	}
	if !e.fromCP {
		e.end(p, how)
		vp.Assert(count() <= idle, "a goroutine is left behind by a connection")
		p = e.connect()
		vp.Assert(count() <= up, "a connection has more goroutines than the one before it")
		e.talk(p, 0)
		e.end(p, how)
		vp.Assert(count() <= idle, "a goroutine is left behind by a connection")
		vp.Reach("end")
		return
	}
	e.end(p, how)
	p = e.connect()
	vp.Assert(count() <= up, "a goroutine is left behind by a connection")
	e.talk(p, 0)
	vp.Assert(count() <= up, "a goroutine is left behind by a connection")
	e.refuse(true)
	e.end(p, how)
	vp.Quiesce()
	vp.Sleep(23 * time.Second)
	vp.Assert(count() <= up, "the goroutines of a charge point grow with its dials")
	e.refuse(false)
	p = e.connect()
	vp.Assert(count() <= up, "a goroutine is left behind by a connection")
	e.cancel()
	vp.Assert(count() == 0, "a goroutine is left behind by a cancelled charge point")
	vp.Reach("end")
}

// CheckBusy ends a connection while messages are under way: calls being handled or waiting, a request waiting for its answer,
// bad messages; under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckBusy() {
	vp.Calm()
	e := start(vp.Choice("charge point", 2) == 1)
	idle := count()
	p := e.connect()
	up := count()
	kind := vp.Choice("traffic", 5)
	how := []int{0, 1, 2, 4}[vp.Choice("how", 4)]
	vp.Assume(how < e.ways())
	var ch chan h.Answer
	vp.Busy()
	switch kind {
	case 0: // two calls, the first being handled until the end
		e.gate = make(chan bool, 2)
		p.Write(e.call("1"))
		p.Write(e.call("2"))
	case 1: // two calls
		p.Write(e.call("1"))
		p.Write(e.call("2"))
	case 2: // a request and its answer
		ch = h.Go(e.send(), e.request())
		p.Write(h.Result(p.ID("a request is not written"), `{"status":"Accepted"}`))
	case 3: // a request without an answer, and a call
		ch = h.Go(e.send(), e.request())
		p.ID("a request is not written")
		p.Write(e.call("1"))
	case 4: // a bad message, a reply to nothing
		p.Write("[]")
		p.Write(h.Result("nothing", "{}"))
	}
	if e.fromCP {
		e.refuse(true)
	}
	e.end(p, how)
	if e.gate != nil {
		e.gate <- true
		e.gate <- true
	}
	vp.Calm()
	vp.Quiesce()
	if ch != nil {
		vp.Sleep(timeout + 5*time.Second)
		h.Await(ch, "a request waits beyond its timeout")
	}
	if e.fromCP {
		if how != 4 {
			vp.Sleep(12 * time.Second)
			vp.Assert(count() <= up, "a goroutine is left behind by a connection")
			e.cancel()
		}
		vp.Assert(count() == 0, "a goroutine is left behind by a cancelled charge point")
		vp.Reach("cancelled")
		return
	}
	vp.Assert(count() <= idle, "a goroutine is left behind by a connection")
	vp.Reach("end")
}

// CheckMany has several connections at the same time.
//
//vp: delays=1 thorough:delays=2
func CheckMany() {
	vp.Calm()
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	idle := count()
	same := vp.Choice("same", 2) == 1
	hows := []int{vp.Choice("how", 3), vp.Choice("how", 3)}
	vp.Busy()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			path := "/me"
			if !same && i == 1 {
				path = "/you"
			}
			p := h.MustDial(port, path)
			p.Write(h.Call("1", "Heartbeat", "{}"))
			(&endpoint{}).end(p, hows[i])
			done <- true
		}()
	}
	<-done
	<-done
	vp.Calm()
	vp.Assert(count() <= idle, "a goroutine is left behind by a connection")
	vp.Reach("end")
}

// CheckSilent ends connections that never say anything.
func CheckSilent() {
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	idle := count()
	for i := 0; i < 3; i++ {
		p := h.MustDial(port, "/me")
		(&endpoint{}).end(p, vp.Choice("how", 4))
		vp.Assert(count() <= idle, "a goroutine is left behind by a connection")
	}
	vp.Reach("end")
}
