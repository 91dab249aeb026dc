// Package c11 checks the decoding of message payloads against the OCPP 1.6 schemas.
package c11

import (
	"encoding/json"
	"reflect"

	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func side() spec.Side {
	ss := spec.Sides()
	return ss[vp.Choice("message", len(ss))]
}

// decode decodes text into an empty message.
func decode(s spec.Side, text string) (m interface{}, err error) {
	m = s.Make()
	p, panicked := vp.Panics(func() { err = json.Unmarshal([]byte(text), m) })
	if panicked {
		vp.Note(p)
	}
	vp.Assert(!panicked, "decoding a payload panics")
	return m, err
}

// CheckAccepts decodes the document the schema prescribes for a message, with all or only the required fields, one field at a
// time being free.
func CheckAccepts() {
	s := side()
	paths := append([]string{""}, spec.Paths(s.Fields)...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	want := s.Make()
	vp.Fill("m", want, mode, false, spec.Optional(s.Fields), focus)
	vp.Note(s.Action + " " + focus)
	got, err := decode(s, h.JSON(spec.Doc(s.Fields, reflect.ValueOf(want))))
	vp.Assert(err == nil, "a conforming payload is rejected")
	vp.Assert(vp.Same(got, want), "a payload is not stored as given")
	vp.Reach("end")
}

// full is a document with all fields and the field to be changed in it.
func full(s spec.Side) (doc, at map[string]interface{}, f spec.Field) {
	paths := spec.Paths(s.Fields)
	vp.Assume(len(paths) > 0)
	path := paths[vp.Choice("field", len(paths))]
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), "")
	vp.Note(s.Action + " " + path)
	doc = spec.Doc(s.Fields, reflect.ValueOf(m))
	at, f = spec.At(s.Fields, doc, path)
	return
}

// CheckMissing leaves out one field, required or not, or gives it as null.
func CheckMissing() {
	s := side()
	doc, at, f := full(s)
	if vp.Bool("null") {
		at[f.Name] = nil
	} else {
		delete(at, f.Name)
	}
	_, err := decode(s, h.JSON(doc))
	if f.Req {
		vp.Reach("required")
		vp.Assert(err != nil, "a payload without a required field is accepted")
	} else {
		vp.Reach("optional")
		vp.Assert(err == nil, "a payload without an optional field is rejected")
	}
}

func kind(text string) string {
	var v interface{}
	if json.Unmarshal([]byte(text), &v) != nil {
		return "invalid"
	}
	switch v.(type) {
	case nil:
		return "null"
	case string:
		return "string"
	case float64:
		return "number"
	case bool:
		return "boolean"
	case []interface{}:
		return "array"
	}
	return "object"
}

func kindOf(f spec.Field) string {
	switch f.Type {
	case "time":
		return "string"
	case "integer":
		return "number"
	case "objects", "strings":
		return "array"
	}
	return f.Type
}

// CheckWrongType gives one field as a value of another JSON type.
func CheckWrongType() {
	s := side()
	doc, at, f := full(s)
	text := vp.JSONValue("value", 1, 1)
	k := kind(text)
	vp.Assume(k != "null" && k != "invalid" && k != kindOf(f))
	at[f.Name] = json.RawMessage(text)
	_, err := decode(s, h.JSON(doc))
	vp.Assert(err != nil, "a payload with a field of the wrong type is accepted")
	vp.Reach("end")
}

// CheckUnknown adds a field of any name the schema does not define, with any value.
func CheckUnknown() {
	s := side()
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), "")
	doc := spec.Doc(s.Fields, reflect.ValueOf(m))
	name := vp.String("name")
	for _, f := range s.Fields {
		vp.Assume(name != f.Name)
	}
	doc[name] = json.RawMessage(vp.JSONValue("value", 1, 1))
	vp.Note(s.Action)
	_, err := decode(s, h.JSON(doc))
	vp.Assert(err != nil, "a payload with a field the schema does not define is accepted")
	vp.Reach("end")
}

// CheckAny decodes any JSON value: no panic, and no message without its required fields.
//
//vp: share=3
func CheckAny() {
	s := side()
	depth := 1
	if vp.Thorough() {
		depth = 2
	}
	text := vp.JSONValue("value", depth, 2)
	_, err := decode(s, text)
	var doc map[string]json.RawMessage
	if json.Unmarshal([]byte(text), &doc) != nil {
		vp.Assert(err != nil, "a payload that is no object is accepted")
		return
	}
	missing := false
	for _, f := range s.Fields {
		if _, ok := doc[f.Name]; f.Req && !ok {
			missing = true
		}
	}
	vp.Assert(!missing || err != nil, "a payload without a required field is accepted")
	vp.Reach("end")
}
