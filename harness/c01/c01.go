// Package c01 checks that bad websocket messages do no harm.
package c01

import (
	"errors"
	"io/ioutil"
	"log"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// raw is any websocket message; an array has up to five elements.
func raw(name string) string {
	depth := 2
	return vp.Raw(name, depth, 5)
}

func kind() int {
	if vp.Choice("binary", 2) == 1 {
		return websocket.BinaryMessage
	}
	return websocket.TextMessage
}

// CheckParse parses any message: no panic, and a message exactly if it is a well-formed frame.
func CheckParse() {
	s := raw("message")
	var m ws.Message
	var err error
	text, panicked := vp.Panics(func() { m, err = ws.UnmarshalMessage([]byte(s)) })
	if panicked {
		vp.Note(text)
	}
	vp.Assert(!panicked, "parsing a websocket message panics")
	if h.WellFormed(s) {
		vp.Reach("frame")
		vp.Assert(err == nil && m != nil, "a well-formed frame is rejected")
	} else {
		vp.Reach("no frame")
		vp.Assert(err != nil, "a message that is no well-formed frame is accepted")
	}
}

// CheckRead reads a bad message from a connection, then a good one.
func CheckRead() {
	s := h.Serve()
	c, err := ws.Dial("me", "ws://localhost"+s.Port, ocpp.V16)
	vp.Assert(err == nil, "a websocket cannot be dialled")
	p := s.Accept()
	bad := raw("message")
	vp.Assume(!h.WellFormed(bad))
	p.C.WriteMessage(kind(), []byte(bad))
	vp.Assert(c.ReadMessage() != nil, "a bad message is not reported as an error")
	done := make(chan error, 1)
	go func() { done <- c.ReadMessage() }()
	p.Write(h.Call("1", "Heartbeat", "{}"))
	select {
	case r := <-c.Requests():
		_, ok := r.Request.(*cpreq.Heartbeat)
		vp.Assert(ok && r.MessageID == "1", "a call after a bad message is not read properly")
	case <-vp.After(h.Patience):
		vp.Assert(false, "a call after a bad message is not read")
	}
	vp.Assert(<-done == nil, "a call after a bad message is reported as an error")
	_, more := p.Pending()
	vp.Assert(!more, "a bad message is answered")
	vp.Reach("end")
}

// CheckCS sends a bad message, possibly two, to a central system, then a call.
//
//vp: delays=1 thorough:delays=2
func CheckCS() {
	calls := make(chan string, 8)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		calls <- r.Action()
		return nil, errors.New("handled")
	})
	p := h.MustDial(port, "/cp")
	play(p, "Heartbeat", calls)
}

// CheckCP sends a bad message, possibly two, to a charge point, then a call.
//
//vp: delays=1 thorough:delays=2
func CheckCP() {
	calls := make(chan string, 8)
	_, p, _ := h.StartCP(h.Serve(), "cp", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		calls <- r.Action()
		return nil, errors.New("handled")
	})
	play(p, "ClearCache", calls)
}

func play(p *h.Peer, action string, calls chan string) {
	if vp.Choice("loggers", 2) == 1 {
		ocpp.SetDebugLogger(log.New(ioutil.Discard, "", 0))
		ocpp.SetErrorLogger(log.New(ioutil.Discard, "", 0))
	}
	if vp.Choice("first", 2) == 1 {
		p.C.WriteMessage(websocket.BinaryMessage, []byte(`[2,"x"]`))
	}
	bad := raw("message")
	vp.Assume(!h.WellFormed(bad))
	vp.Assert(p.C.WriteMessage(kind(), []byte(bad)) == nil, "the connection does not take a message")
	id := vp.String("id")
	vp.Assert(p.Write(h.Call(id, action, "{}")) == nil, "the connection does not take a call after a bad message")
	d, ok := h.IsError(p.Read(), id, "InternalError")
	vp.Assert(ok && d == "handled", "a call after a bad message is not answered as usual")
	vp.Quiesce()
	vp.Assert(len(calls) == 1 && <-calls == action, "the handler is called for a bad message")
	_, more := p.Pending()
	vp.Assert(!more, "a bad message is answered")
	vp.Reach("end")
}
