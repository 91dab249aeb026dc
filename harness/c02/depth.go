package c02

import (
	"encoding/json"
	"strings"

	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// write writes an array with white space of some sort between its parts.
func write(style int, parts ...string) string {
	sp := []string{"", " ", "\n", "\r\n\t "}[style]
	out := sp + "[" + sp
	for i, p := range parts {
		if i > 0 {
			out += sp + "," + sp
		}
		out += p
	}
	return out + sp + "]" + sp
}

// CheckStyle parses frames with any white space between their parts.
func CheckStyle() {
	style := vp.Choice("style", 4)
	id, text := vp.String("id"), vp.String("text")
	obj, payload := object("payload")
	switch vp.Choice("frame", 3) {
	case 0:
		m, err := ws.UnmarshalMessage([]byte(write(style, "2", h.JSON(id), h.JSON(text), obj)))
		vp.Assert(err == nil, "a Call frame cannot be parsed")
		c, ok := m.(*ws.CallMessage)
		vp.Assert(ok && c.Type() == ws.Call, "a Call frame is taken for another")
		vp.Assert(string(c.ID()) == id, "a Call frame is parsed with another id")
		vp.Assert(string(c.Action) == text, "a Call frame is parsed with another action")
		vp.Assert(vp.Same(c.Payload, payload), "a Call frame is parsed with another payload")
	case 1:
		m, err := ws.UnmarshalMessage([]byte(write(style, "3", h.JSON(id), obj)))
		vp.Assert(err == nil, "a CallResult frame cannot be parsed")
		c, ok := m.(*ws.CallResultMessage)
		vp.Assert(ok && c.Type() == ws.CallResult, "a CallResult frame is taken for another")
		vp.Assert(string(c.ID()) == id, "a CallResult frame is parsed with another id")
		vp.Assert(vp.Same(c.Payload, payload), "a CallResult frame is parsed with another payload")
	case 2:
		m, err := ws.UnmarshalMessage([]byte(write(style, "4", h.JSON(id), h.JSON("InternalError"), h.JSON(text), obj)))
		vp.Assert(err == nil, "a CallError frame cannot be parsed")
		c, ok := m.(*ws.CallErrorMessage)
		vp.Assert(ok && c.Type() == ws.CallError, "a CallError frame is taken for another")
		vp.Assert(string(c.ID()) == id, "a CallError frame is parsed with another id")
		b, err := json.Marshal(c)
		vp.Assert(err == nil, "a parsed call error cannot be encoded")
		rest := frame(string(b), 5, 4, id)
		str(rest[0], "InternalError", "error code after parsing")
		str(rest[1], text, "description after parsing")
		vp.Assert(vp.SameJSON(string(rest[2]), obj), "a frame has other details after parsing")
	}
	vp.Reach("end")
}

// CheckTwice parses two frames of any types one after the other: the first message is what it was.
func CheckTwice() {
	k := []int{vp.Choice("frame", 3), vp.Choice("frame", 3)}
	var ms []ws.Message
	var texts []string
	for i := range k {
		id, text := vp.String("id"), vp.String("text")
		s := h.Call(id, text, `{"a":1}`)
		if k[i] == 1 {
			s = h.Result(id, h.JSON(map[string]string{"b": text}))
		} else if k[i] == 2 {
			s = h.Error(id, "GenericError", text, "{}")
		}
		m, err := ws.UnmarshalMessage([]byte(s))
		vp.Assert(err == nil, "a frame cannot be parsed after another")
		ms, texts = append(ms, m), append(texts, s)
	}
	for i, m := range ms {
		b, err := json.Marshal(m)
		vp.Assert(err == nil, "a parsed frame cannot be encoded")
		vp.Assert(vp.SameJSON(string(b), texts[i]), "a frame is parsed into something else, next to another")
	}
	vp.Reach("end")
}

// CheckBig encodes and parses frames with texts of up to more than a megabyte, and deep or wide payloads.
//
//vp: steps=80000000
func CheckBig() {
	big := strings.Repeat("x", []int{200, 300, 4200, 70000, 1200000}[vp.Choice("size", 5)]) + "end"
	text := ""
	switch vp.Choice("payload", 4) {
	case 0:
		text = `{"a":"` + big + `"}`
	case 1:
		text = strings.Repeat(`{"a":`, 60) + "{}" + strings.Repeat("}", 60)
	case 2:
		text = `{"a":[` + strings.Repeat("1,", 300) + `2]}`
	case 3:
		text = "{}"
	}
	var payload map[string]interface{}
	vp.Assume(json.Unmarshal([]byte(text), &payload) == nil)
	where := vp.Choice("where", 3)
	id, action := "id", "action"
	if where == 1 {
		id = big
	} else if where == 2 {
		action = big
	}
	b, err := json.Marshal(ws.NewCallMessage(ws.MessageID(id), ws.Action(action), payload))
	vp.Assert(err == nil, "a call cannot be encoded")
	rest := frame(string(b), 4, 2, id)
	str(rest[0], action, "action")
	vp.Assert(vp.SameJSON(string(rest[1]), text), "a frame has another payload")
	m, err := ws.UnmarshalMessage(b)
	vp.Assert(err == nil, "a Call frame cannot be parsed")
	c, ok := m.(*ws.CallMessage)
	vp.Assert(ok && string(c.ID()) == id && string(c.Action) == action && vp.Same(c.Payload, payload), "a Call frame is parsed into something else")
	vp.Reach("end")
}
