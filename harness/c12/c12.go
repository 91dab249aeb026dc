// Package c12 checks the JSON form of messages against the OCPP 1.6 schemas.
package c12

import (
	"encoding/json"
	"reflect"

	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckConforms encodes every message with all or only the required fields set, one field at a time being free.
func CheckConforms() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.Paths(s.Fields)...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, mode, false, spec.Optional(s.Fields), focus)
	b, err := json.Marshal(m)
	vp.Assert(err == nil, "a message cannot be encoded")
	bad := spec.Conforms(s.Fields, b, reflect.ValueOf(m))
	vp.Note(s.Action + " " + focus)
	vp.Assert(bad == "", bad)
	vp.Reach("end")
}
