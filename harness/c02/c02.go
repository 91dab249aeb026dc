// Package c02 checks the shape of OCPP-J frames.
package c02

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// object is any JSON object, as text and decoded.
func object(name string) (string, map[string]interface{}) {
	depth := 2
	if vp.Thorough() {
		depth = 3
	}
	text := vp.JSONValue(name, depth, 2)
	var v map[string]interface{}
	vp.Assume(json.Unmarshal([]byte(text), &v) == nil && v != nil)
	return text, v
}

// frame checks that text is an array of n elements with the given type and id, and returns the others.
func frame(text string, n, typ int, id string) []json.RawMessage {
	f, ok := h.Parse(text)
	vp.Assert(ok && len(f.Rest) == n-2, "a frame is not an array of the right length")
	vp.Assert(f.Type == typ, "a frame has another message type")
	vp.Assert(f.ID == id, "a frame has another id")
	return f.Rest
}

func str(r json.RawMessage, want, what string) {
	s, ok := h.Str(r)
	vp.Assert(ok && s == want, "a frame has another "+what)
}

// CheckCall encodes and parses Call frames.
func CheckCall() {
	id, action := spec.Long(vp.String("id")), vp.String("action")
	text, payload := object("payload")
	var out string
	if vp.Choice("parse", 2) == 0 {
		b, err := json.Marshal(ws.NewCallMessage(ws.MessageID(id), ws.Action(action), payload))
		vp.Assert(err == nil, "a call cannot be encoded")
		out = string(b)
		rest := frame(out, 4, 2, id)
		str(rest[0], action, "action")
		vp.Assert(vp.SameJSON(string(rest[1]), text), "a frame has another payload")
	} else {
		out = h.Call(id, action, text)
	}
	m, err := ws.UnmarshalMessage([]byte(out))
	vp.Assert(err == nil, "a Call frame cannot be parsed")
	c, ok := m.(*ws.CallMessage)
	vp.Assert(ok && c.Type() == ws.Call, "a Call frame is taken for another")
	vp.Assert(string(c.ID()) == id, "a Call frame is parsed with another id")
	vp.Assert(string(c.Action) == action, "a Call frame is parsed with another action")
	vp.Assert(vp.Same(c.Payload, payload), "a Call frame is parsed with another payload")
	vp.Reach("end")
}

// CheckResult encodes and parses CallResult frames.
func CheckResult() {
	id := vp.String("id")
	text, payload := object("payload")
	var out string
	if vp.Choice("parse", 2) == 0 {
		b, err := json.Marshal(ws.NewCallResult(ws.MessageID(id), payload))
		vp.Assert(err == nil, "a call result cannot be encoded")
		out = string(b)
		rest := frame(out, 3, 3, id)
		vp.Assert(vp.SameJSON(string(rest[0]), text), "a frame has another payload")
	} else {
		out = h.Result(id, text)
	}
	m, err := ws.UnmarshalMessage([]byte(out))
	vp.Assert(err == nil, "a CallResult frame cannot be parsed")
	c, ok := m.(*ws.CallResultMessage)
	vp.Assert(ok && c.Type() == ws.CallResult, "a CallResult frame is taken for another")
	vp.Assert(string(c.ID()) == id, "a CallResult frame is parsed with another id")
	vp.Assert(vp.Same(c.Payload, payload), "a CallResult frame is parsed with another payload")
	vp.Reach("end")
}

// CheckError encodes and parses CallError frames.
func CheckError() {
	id, code, desc := vp.String("id"), vp.String("code"), spec.Long(vp.String("description"))
	text := "{}"
	var out string
	if vp.Choice("parse", 2) == 0 {
		b, err := json.Marshal(ws.NewCallErrorMessage(ws.MessageID(id), ws.ErrorCode(code), desc))
		vp.Assert(err == nil, "a call error cannot be encoded")
		out = string(b)
	} else {
		text, _ = object("details")
		out = h.Error(id, code, desc, text)
	}
	rest := frame(out, 5, 4, id)
	str(rest[0], code, "error code")
	str(rest[1], desc, "description")
	vp.Assert(vp.SameJSON(string(rest[2]), text), "a frame has other details")
	m, err := ws.UnmarshalMessage([]byte(out))
	vp.Assert(err == nil, "a CallError frame cannot be parsed")
	c, ok := m.(*ws.CallErrorMessage)
	vp.Assert(ok && c.Type() == ws.CallError, "a CallError frame is taken for another")
	vp.Assert(string(c.ID()) == id, "a CallError frame is parsed with another id")
	b, err := json.Marshal(c)
	vp.Assert(err == nil, "a parsed call error cannot be encoded")
	rest = frame(string(b), 5, 4, id)
	str(rest[0], code, "error code after parsing")
	str(rest[1], desc, "description after parsing")
	vp.Assert(vp.SameJSON(string(rest[2]), text), "a frame has other details after parsing")
	vp.Reach("end")
}

// CheckTypes parses arrays whose first element is any JSON value: the message is of the type that stands there, or none.
func CheckTypes() {
	typ := vp.JSONValue("type", 1, 1)
	rest := []string{`"1","Heartbeat",{}`, `"1",{}`, `"1","a","b",{}`}[vp.Choice("rest", 3)]
	m, err := ws.UnmarshalMessage([]byte("[" + typ + "," + rest + "]"))
	if err != nil {
		vp.Reach("rejected")
		return
	}
	var n interface{}
	vp.Assert(json.Unmarshal([]byte(typ), &n) == nil && n == interface{}(float64(m.Type())), "a frame is taken for one of another type")
	vp.Reach("accepted")
}

// CheckErrorText looks at the text of a received call error: it shows the code, the description and the details.
func CheckErrorText() {
	code, desc, key, val := vp.String("code"), spec.Long(vp.String("description")), vp.String("key"), vp.String("value")
	m, err := ws.UnmarshalMessage([]byte(h.Error("1", code, desc, h.JSON(map[string]string{key: val}))))
	vp.Assert(err == nil, "a CallError frame cannot be parsed")
	text := m.(*ws.CallErrorMessage).Error()
	vp.Assert(strings.Contains(text, code), "the text of a call error lacks its code")
	vp.Assert(strings.Contains(text, desc), "the text of a call error lacks its description")
	vp.Assert(strings.Contains(text, key) && strings.Contains(text, val), "the text of a call error lacks its details")
	vp.Reach("end")
}

// CheckRequest builds the Call frame of every request.
func CheckRequest() {
	m := spec.Msgs[vp.Choice("message", len(spec.Msgs))]
	id := vp.String("id")
	req := m.New()
	vp.Fill("req", req, "full", false, spec.Optional(m.Req), "")
	c, err := ws.UnmarshalRequest(ws.MessageID(id), req)
	vp.Assert(err == nil, "a request cannot be made a call")
	b, err := json.Marshal(c)
	vp.Assert(err == nil, "a call cannot be encoded")
	rest := frame(string(b), 4, 2, id)
	str(rest[0], m.Action, "action")
	vp.Assert(h.IsObject(rest[1]), "the payload of a call is no object")
	got := m.New()
	vp.Assert(json.Unmarshal(rest[1], got) == nil && vp.Same(got, req), "a call has another payload than its request")
	vp.Reach("end")
}

// CheckWire looks at what a connection writes: a request, a response, a handler error, an error, the reply to an unknown action.
func CheckWire() {
	s := h.Serve()
	c, err := ws.Dial("me", "ws://localhost"+s.Port, ocpp.V16)
	vp.Assert(err == nil, "a websocket cannot be dialled")
	p := s.Accept()
	id, text := vp.String("id"), vp.String("text")
	switch vp.Choice("what", 5) {
	case 0:
		go c.SendRequest(&cpreq.Authorize{IdTag: text})
		f, ok := h.Parse(p.Read())
		vp.Assert(ok && f.Type == 2 && len(f.Rest) == 2 && f.ID != "", "a request is not written as a Call frame")
		str(f.Rest[0], "Authorize", "action")
		vp.Assert(vp.SameJSON(string(f.Rest[1]), h.JSON(map[string]string{"idTag": text})), "a Call frame has another payload")
	case 1:
		vp.Assert(c.SendResponse(ws.MessageID(id), &csresp.GetDiagnostics{FileName: text}, nil) == nil, "a response cannot be sent")
		rest := frame(p.Read(), 3, 3, id)
		vp.Assume(text != "")
		vp.Assert(vp.SameJSON(string(rest[0]), h.JSON(map[string]string{"fileName": text})), "a CallResult frame has another payload")
	case 2:
		vp.Assert(c.SendResponse(ws.MessageID(id), nil, errors.New(text)) == nil, "an error cannot be sent")
		rest := frame(p.Read(), 5, 4, id)
		str(rest[0], "InternalError", "error code")
		str(rest[1], text, "description")
		vp.Assert(h.IsObject(rest[2]), "the details of a CallError frame are no object")
	case 3:
		go c.ReadMessage()
		p.Write(h.Call(id, "Nonsense", h.JSON(map[string]string{"a": text})))
		rest := frame(p.Read(), 5, 4, id)
		str(rest[0], "NotSupported", "error code")
		_, ok := h.Str(rest[1])
		vp.Assert(ok && h.IsObject(rest[2]), "a CallError frame has no description or no details")
	case 4:
		go c.SendRequest(&csreq.SendLocalList{ListVersion: 3, UpdateType: text})
		f, ok := h.Parse(p.Read())
		vp.Assert(ok && f.Type == 2 && len(f.Rest) == 2 && f.ID != "", "a request is not written as a Call frame")
		str(f.Rest[0], "SendLocalList", "action")
		vp.Assert(vp.SameJSON(string(f.Rest[1]), h.JSON(map[string]interface{}{"listVersion": 3, "updateType": text})), "a Call frame has another payload")
	}
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "more than one frame is written")
	vp.Reach("end")
}
