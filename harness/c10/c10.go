// Package c10 checks that messages survive encoding to JSON and decoding.
package c10

import (
	"encoding/json"
	"reflect"

	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckRoundTrip encodes and decodes every message with all or only the required fields set, one field at a time being free.
func CheckRoundTrip() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.Paths(s.Fields)...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, mode, false, spec.Optional(s.Fields), focus)
	b, err := json.Marshal(m)
	vp.Note(s.Action + " " + focus)
	vp.Assert(err == nil, "a message cannot be encoded")
	got := s.Make()
	vp.Assert(json.Unmarshal(b, got) == nil, "an encoded message cannot be decoded")
	vp.Assert(vp.Same(got, m), "a message is not what was encoded")
	vp.Reach("end")
}

// CheckMissing encodes every message with one of its nested objects (or a list element) missing, or with nothing set at all:
// encoding does not panic, and fails only if the object is required.
func CheckMissing() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	m := s.Make()
	var objs []place
	required := false
	if vp.Choice("empty", 2) == 0 {
		vp.Fill("m", m, "full", false, spec.Optional(s.Fields), "")
		objs = objects(s.Fields, reflect.ValueOf(m).Elem(), nil)
		vp.Assume(len(objs) > 0)
		o := objs[vp.Choice("object", len(objs))]
		o.v.Set(reflect.Zero(o.v.Type()))
		required = o.required
	} else {
		for _, f := range s.Fields {
			required = required || f.Req && f.Type == "object"
		}
	}
	vp.Note(s.Action)
	var err error
	text, panicked := vp.Panics(func() { _, err = json.Marshal(m) })
	if panicked {
		vp.Note(text)
	}
	vp.Assert(!panicked, "encoding a message panics")
	vp.Assert(err == nil || required, "a message with all its required objects cannot be encoded")
	vp.Reach("end")
}

type place struct {
	v        reflect.Value
	required bool
}

// objects lists the places that can hold a nested object.
func objects(fs []spec.Field, v reflect.Value, out []place) []place {
	for _, f := range fs {
		x := v.FieldByName(f.Go)
		if x.Kind() == reflect.Ptr {
			out = append(out, place{x, f.Req && f.Type == "object"})
		}
		switch {
		case f.Type == "object":
			if x.Kind() == reflect.Ptr {
				x = x.Elem()
			}
			out = objects(f.Sub, x, out)
		case f.Type == "objects":
			for i := 0; i < x.Len(); i++ {
				e := x.Index(i)
				if e.Kind() == reflect.Ptr {
					out = append(out, place{e, true})
					e = e.Elem()
				}
				out = objects(f.Sub, e, out)
			}
		}
	}
	return out
}
