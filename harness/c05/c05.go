// Package c05 checks how the central system answers Calls.
package c05

import (
	"encoding/json"
	"errors"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

type call struct {
	req cpreq.ChargePointRequest
	id  string
}

func msgs() []spec.Msg {
	var out []spec.Msg
	for _, m := range spec.Msgs {
		if m.FromCP && m.Table {
			out = append(out, m)
		}
	}
	return out
}

// CheckAnswered sends one decodable call of every kind; the handler answers with any response or any error.
func CheckAnswered() {
	ms := msgs()
	m := ms[vp.Choice("message", len(ms))]
	want := m.New()
	vp.Fill("req", want, "full", false, spec.Optional(m.Req), "")
	resp := m.NewResp()
	vp.Fill("resp", resp, "full", false, spec.Optional(m.Resp), "")
	fails := vp.Bool("fails")
	text := spec.Long(vp.String("error"))
	calls := make(chan call, 8)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		calls <- call{r, md.ChargePointID}
		if fails {
			return nil, errors.New(text)
		}
		return resp.(cpresp.ChargePointResponse), nil
	})
	who := vp.Ident("identity")
	p := h.MustDial(port, "/"+who)
	id := vp.String("id")
	vp.Assert(p.Write(h.Call(id, m.Action, h.JSON(want))) == nil, "the connection does not take a call")
	reply := p.Read()
	vp.Quiesce()
	vp.Assert(len(calls) == 1, "the handler is not called exactly once")
	c := <-calls
	vp.Assert(c.id == who, "the handler sees another identity")
	vp.Assert(spec.SameType(c.req, want) && vp.Same(c.req, want), "the handler sees another request")
	if fails {
		vp.Reach("error")
		desc, ok := h.IsError(reply, id, "InternalError")
		vp.Assert(ok, "a handler error is not answered with InternalError")
		vp.Assert(desc == text, "the CallError does not carry the handler's error text")
	} else {
		vp.Reach("result")
		payload, ok := h.IsResult(reply, id)
		vp.Assert(ok, "a response is not answered with a CallResult")
		got := m.NewResp()
		vp.Assert(json.Unmarshal([]byte(payload), got) == nil && vp.Same(got, resp), "the CallResult does not carry the handler's response")
	}
	_, more := p.Pending()
	vp.Assert(!more, "more than one reply to a call")
}

// CheckNotSupported sends a call whose action, any string at all, is no charge point request.
func CheckNotSupported() {
	called := make(chan bool, 8)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		called <- true
		return nil, errors.New("called")
	})
	action := vp.String("action")
	for _, m := range msgs() {
		vp.Assume(m.Action != action)
	}
	p := h.MustDial(port, "/cp")
	id := vp.String("id")
	payload := "{}"
	decodes := true
	for _, m := range spec.Msgs {
		if !m.FromCP && m.Table && m.Action == action {
			r := m.New()
			vp.Fill("req", r, "full", false, spec.Optional(m.Req), "")
			payload = h.JSON(r)
			vp.Reach("central system request")
			if vp.Bool("undecodable") {
				payload, decodes = `{"unknownField":1}`, false
			}
		}
	}
	vp.Assert(p.Write(h.Call(id, action, payload)) == nil, "the connection does not take a call")
	reply := p.Read()
	vp.Assert(reply != "", "no reply to a call with an action the central system does not support")
	_, ok := h.IsError(reply, id, "NotSupported")
	if !decodes {
		_, fv := h.IsError(reply, id, "FormationViolation")
		ok = ok || fv
	}
	vp.Assert(ok, "a call with an action the central system does not support is not answered with NotSupported")
	vp.Quiesce()
	vp.Assert(len(called) == 0, "the handler is called for something that is no charge point request")
	_, more := p.Pending()
	vp.Assert(!more, "more than one reply to a call")
}

// CheckPayload sends any JSON object as the payload of every kind of call.
func CheckPayload() {
	ms := msgs()
	m := ms[vp.Choice("message", len(ms))]
	calls := make(chan call, 8)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		calls <- call{r, md.ChargePointID}
		return nil, errors.New("handled")
	})
	depth := 1
	if vp.Thorough() {
		depth = 2
	}
	payload := vp.JSONValue("payload", depth, 2)
	vp.Assume(h.IsObject(json.RawMessage(payload)))
	want := m.New()
	decodes := json.Unmarshal([]byte(payload), want) == nil
	p := h.MustDial(port, "/cp")
	id := vp.String("id")
	vp.Assert(p.Write(h.Call(id, m.Action, payload)) == nil, "the connection does not take a call")
	reply := p.Read()
	vp.Quiesce()
	if decodes {
		vp.Reach("decodes")
		vp.Assert(len(calls) == 1, "the handler is not called exactly once for a call that decodes")
		c := <-calls
		vp.Assert(spec.SameType(c.req, want) && vp.Same(c.req, want), "the handler sees another request")
		desc, ok := h.IsError(reply, id, "InternalError")
		vp.Assert(ok && desc == "handled", "a handler error is not answered with InternalError and its text")
	} else {
		vp.Reach("does not decode")
		vp.Assert(len(calls) == 0, "the handler is called for a payload that does not decode")
		_, ok := h.IsError(reply, id, "FormationViolation")
		vp.Assert(ok, "a payload that does not decode is not answered with FormationViolation")
	}
	_, more := p.Pending()
	vp.Assert(!more, "more than one reply to a call")
}

// CheckNoResponse lets the handler return no response, a nil pointer, or a response that cannot be encoded.
func CheckNoResponse() {
	kind := vp.Choice("kind", 3)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		switch kind {
		case 0:
			return nil, nil
		case 1:
			return (*cpresp.StatusNotification)(nil), nil
		}
		return &cpresp.Authorize{}, nil // lacks the required idTagInfo
	})
	p := h.MustDial(port, "/cp")
	id := vp.String("id")
	tag := vp.String("tag")
	vp.Assert(p.Write(h.Call(id, "Authorize", h.JSON(map[string]string{"idTag": tag}))) == nil, "the connection does not take a call")
	reply := p.Read()
	vp.Assert(reply != "", "no reply to a call whose response is missing or cannot be encoded")
	_, ok := h.IsError(reply, id, "InternalError")
	vp.Assert(ok, "a missing response or one that cannot be encoded is not answered with InternalError")
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "more than one reply to a call")
	// the connection goes on
	vp.Assert(p.Write(h.Call(id, "Nonsense", "{}")) == nil, "the connection does not take a second call")
	_, ok = h.IsError(p.Read(), id, "NotSupported")
	vp.Assert(ok, "a call after a failed one is not answered")
}

// CheckSeveral sends calls one after the other without waiting for the replies, on two connections, ids possibly equal.
//
//vp: delays=2 thorough:delays=3
func CheckSeveral() {
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a := r.(*cpreq.Authorize)
		if a.IdTag == "bad" {
			return nil, errors.New(md.ChargePointID)
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: a.IdTag + md.ChargePointID}}, nil
	})
	p, q := h.MustDial(port, "/one"), h.MustDial(port, "/two")
	tag := vp.Ident("tag")
	p.Write(h.Call("1", "Authorize", h.JSON(map[string]string{"idTag": tag})))
	p.Write(h.Call("2", "Authorize", `{}`))
	q.Write(h.Call("1", "Authorize", `{"idTag":"bad"}`))
	p.Write(h.Call("3", "Nonsense", `{}`))
	p.Write(h.Call("1", "Authorize", `{"idTag":"bad"}`))
	var got []string
	for i := 0; i < 4; i++ {
		got = append(got, p.Read())
	}
	seen := [4]int{}
	for _, s := range got {
		payload, ok := h.IsResult(s, "1")
		if ok && tag != "bad" {
			var r cpresp.Authorize
			vp.Assert(json.Unmarshal([]byte(payload), &r) == nil && r.IdTagInfo.Status == tag+"one", "a reply carries something else than the handler's response")
			seen[0]++
		}
		if _, ok = h.IsError(s, "2", "FormationViolation"); ok {
			seen[1]++
		}
		if _, ok = h.IsError(s, "3", "NotSupported"); ok {
			seen[2]++
		}
		if d, ok := h.IsError(s, "1", "InternalError"); ok && d == "one" {
			seen[3]++
		}
	}
	if tag == "bad" {
		vp.Assert(seen == [4]int{0, 1, 1, 2}, "the calls of a connection are not answered exactly once each")
	} else {
		vp.Assert(seen == [4]int{1, 1, 1, 1}, "the calls of a connection are not answered exactly once each")
	}
	d, ok := h.IsError(q.Read(), "1", "InternalError")
	vp.Assert(ok && d == "two", "the call on another connection is not answered by itself")
	vp.Quiesce()
	_, more := p.Pending()
	_, more2 := q.Pending()
	vp.Assert(!more && !more2, "more replies than calls")
	vp.Reach("end")
}
