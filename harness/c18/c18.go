// Package c18 checks that sending a request yields a response of its own type or an error.
package c18

import (
	"encoding/json"
	"reflect"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// one checks that there is either a response, of the right type, or an error.
func one(a h.Answer, m spec.Msg) {
	vp.Assert(a.Resp != nil || a.Err != nil, "a request yields neither a response nor an error")
	vp.Assert(a.Resp == nil || a.Err == nil, "a request yields both a response and an error")
	if a.Resp != nil {
		vp.Assert(spec.SameType(a.Resp, m.NewResp()), "a request yields a response of another type")
		vp.Assert(!reflect.ValueOf(a.Resp).IsNil(), "a request yields a nil response and no error")
	}
}

func await(ch chan h.Answer) h.Answer {
	select {
	case a := <-ch:
		return a
	case <-vp.After(75 * time.Second):
		vp.Assert(false, "a request yields nothing")
	}
	return h.Answer{}
}

func pick(fromCP, soap bool) spec.Msg {
	var ms []spec.Msg
	for _, m := range spec.Msgs {
		if m.FromCP == fromCP && (m.V15 || !soap) {
			ms = append(ms, m)
		}
	}
	return ms[vp.Choice("message", len(ms))]
}

func full(name string, m interface{}, fs []spec.Field) interface{} {
	vp.Fill(name, m, "full", false, spec.Optional(fs), "")
	return m
}

// CheckJSON answers every request over a websocket with any payload, another message's response, an error, something malformed,
// or not at all.
func CheckJSON() {
	send, p, fromCP := h.Side()
	m := pick(fromCP, false)
	kind := vp.Choice("kind", 6)
	ch := h.Go(send, full("req", m.New(), m.Req).(messages.Request))
	id := p.ID("a request is not written as a Call frame")
	switch kind {
	case 0: // any object
		depth := 1
		if vp.Thorough() {
			depth = 2
		}
		payload := vp.JSONValue("payload", depth, 2)
		vp.Assume(h.IsObject(json.RawMessage(payload)))
		want := m.NewResp()
		ok := json.Unmarshal([]byte(payload), want) == nil
		p.Write(h.Result(id, payload))
		a := await(ch)
		one(a, m)
		vp.Assert(ok == (a.Err == nil), "a response that decodes is not returned, or one that does not is")
		if ok {
			vp.Reach("decodes")
			vp.Assert(vp.Same(a.Resp, want), "a request yields another response than the peer's")
		} else {
			vp.Reach("does not decode")
		}
	case 1: // a response to another request
		o := spec.Msgs[vp.Choice("other", len(spec.Msgs))]
		doc := h.JSON(full("resp", o.NewResp(), o.Resp))
		want := m.NewResp()
		ok := json.Unmarshal([]byte(doc), want) == nil
		p.Write(h.Result(id, doc))
		a := await(ch)
		one(a, m)
		vp.Assert(ok == (a.Err == nil), "a response that decodes is not returned, or one that does not is")
		vp.Assert(!ok || vp.Same(a.Resp, want), "a request yields another response than the peer's")
		vp.Reach("other")
	case 2: // a call error
		p.Write(h.Error(id, vp.String("code"), spec.Long(vp.String("description")), "{}"))
		a := await(ch)
		one(a, m)
		vp.Assert(a.Err != nil, "a call error yields no error")
		vp.Reach("error")
	case 3: // no payload object
		v := vp.JSONValue("payload", 0, 0)
		vp.Assume(!h.IsObject(json.RawMessage(v)))
		p.Write(`[3,"` + id + `",` + v + `]`)
		a := await(ch)
		one(a, m)
		vp.Assert(a.Err != nil, "a malformed reply yields no error")
		vp.Reach("malformed")
	case 4: // the connection ends
		if vp.Bool("reset") {
			vp.Reset(p.C)
		} else {
			p.C.Close()
		}
		a := await(ch)
		one(a, m)
		vp.Assert(a.Err != nil, "a request without an answer yields no error")
		vp.Reach("ended")
	case 5: // an answer, then another
		p.Write(h.Result(id, h.JSON(full("resp", m.NewResp(), m.Resp))))
		p.Write(h.Error(id, "GenericError", "", "{}"))
		one(await(ch), m)
		vp.Reach("twice")
	}
}

// CheckDead sends a request over a connection that has ended.
func CheckDead() {
	send, p, fromCP := h.Side()
	m := pick(fromCP, false)
	if vp.Bool("reset") {
		vp.Reset(p.C)
	} else {
		p.C.Close()
	}
	if vp.Bool("noticed") {
		vp.Quiesce()
	}
	a := await(h.Go(send, full("req", m.New(), m.Req).(messages.Request)))
	one(a, m)
	vp.Assert(a.Err != nil, "a request without an answer yields no error")
	vp.Reach("end")
}

// CheckSOAP answers every request over SOAP with any content of the response, another message, a fault, something else.
func CheckSOAP() {
	fromCP := vp.Bool("from charge point")
	m := pick(fromCP, true)
	status, doc := 200, ""
	kind := vp.Choice("kind", 6)
	side := spec.Side{Msg: m, Resp: true, Fields: m.Resp}
	var want interface{}
	switch kind {
	case 0:
		paths := append([]string{""}, spec.XPaths(side.XFields())...)
		focus := paths[vp.Choice("field", len(paths))]
		want = side.Make()
		vp.Fill("resp", want, "full", true, spec.Optional(m.Resp), focus)
		spec.Strip(side.XFields(), reflect.ValueOf(want))
		doc = spec.XDoc(side, want, false)
	case 1:
		ss := spec.Sides15()
		o := ss[vp.Choice("other", len(ss))]
		vp.Assume(o.Element() != side.Element() || o.NS() != side.NS())
		x := o.Make()
		vp.Fill("other", x, "full", true, spec.Optional(o.Fields), "")
		spec.Strip(o.XFields(), reflect.ValueOf(x))
		doc = spec.XDoc(o, x, false)
	case 2:
		status = 500
		doc = spec.XEnvelope("", `<soap:Fault><soap:Code><soap:Value>soap:Receiver</soap:Value></soap:Code><soap:Reason><soap:Text>`+vp.XMLText(vp.Text("reason"))+`</soap:Text></soap:Reason></soap:Fault>`)
	case 3:
		doc = spec.XEnvelope("", "")
	case 4:
		status = []int{0, 200, 500}[vp.Choice("status", 3)]
	case 5:
		doc = vp.XMLText(vp.Text("text"))
	}
	send, _ := h.SoapSide(fromCP, func(h.Post) (int, string) { return status, doc })
	req := m.New()
	vp.Fill("req", req, "full", true, spec.Optional(m.Req), "")
	a := await(h.Go(send, req.(messages.Request)))
	one(a, m)
	if want == nil {
		vp.Reach("refused")
		vp.Assert(a.Err != nil, "a request without an answer yields no error")
		return
	}
	vp.Reach("answered")
	vp.Assert(a.Err == nil, "a request that was answered yields an error")
	vp.Assert(vp.Same(a.Resp, want), "a request yields another response than the peer's")
}
