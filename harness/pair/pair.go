// Package pair joins a central system and a charge point of the library.
package pair

import (
	"reflect"
	"sync"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

const identity = "point"

// Ends are a central system and a charge point; each hands what arrives to the harness.
type Ends struct {
	mu     sync.Mutex
	got    []messages.Request
	answer func(r messages.Request, fromCP bool) (messages.Response, error)
	Up     h.Sender // from the charge point
	Down   h.Sender
}

func (e *Ends) handle(r messages.Request, fromCP bool) (messages.Response, error) {
	e.mu.Lock()
	e.got = append(e.got, r)
	e.mu.Unlock()
	return e.answer(r, fromCP)
}

// Arrived lists the requests that came to a handler.
func (e *Ends) Arrived() []messages.Request {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]messages.Request{}, e.got...)
}

// Sender is how one of the two sends.
func (e *Ends) Sender(fromCP bool) h.Sender {
	if fromCP {
		return e.Up
	}
	return e.Down
}

// Start connects the two, over a websocket or SOAP.
func Start(json bool, answer func(r messages.Request, fromCP bool) (messages.Response, error)) *Ends {
	vp.Calm()
	defer vp.Busy()
	e := &Ends{answer: answer}
	c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, err := e.handle(r, true)
		if a == nil {
			return nil, err
		}
		return a.(cpresp.ChargePointResponse), err
	})
	p := h.Join(json, port, identity, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		a, err := e.handle(r, false)
		if a == nil {
			return nil, err
		}
		return a.(csresp.CentralSystemResponse), err
	})
	if json {
		h.Connected(c, identity)
	}
	e.Up, e.Down = p.Up, p.Down(c, identity)
	return e
}

// Pick picks a message that a transport carries.
func Pick(json bool) spec.Msg {
	var ms []spec.Msg
	for _, m := range spec.Msgs {
		if json && m.Table || !json && m.V15 {
			ms = append(ms, m)
		}
	}
	return ms[vp.Choice("message", len(ms))]
}

// Fill makes the request or the response of an operation, with all or only the required fields set, one field being free.
func Fill(name string, json bool, m spec.Msg, resp bool, focused bool) interface{} {
	s := spec.Side{Msg: m, Resp: resp, Fields: m.Req}
	if resp {
		s.Fields = m.Resp
	}
	focus, mode := "", "full"
	if focused {
		paths := append([]string{""}, spec.Paths(s.Fields)...)
		focus = paths[vp.Choice(name+" field", len(paths))]
		if vp.Choice(name+" mode", 2) == 1 {
			mode = "req"
		}
	}
	x := s.Make()
	vp.Fill(name, x, mode, !json, spec.Optional(s.Fields), focus)
	if !json {
		spec.Strip(s.XFields(), reflect.ValueOf(x))
	}
	vp.Note(s.Action + " " + focus)
	return x
}

// Same compares messages as far as a transport keeps them.
func Same(json bool, a, b interface{}) bool {
	if json {
		return vp.Same(a, b)
	}
	return vp.SameExact(a, b)
}
