package c12

import (
	"encoding/json"
	"reflect"

	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func conforms(s spec.Side, focus string) {
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), focus)
	b, err := json.Marshal(m)
	vp.Assert(err == nil, "a message cannot be encoded")
	bad := spec.Conforms(s.Fields, b, reflect.ValueOf(m))
	vp.Note(s.Action + " " + focus)
	vp.Assert(bad == "", bad)
	vp.Reach("end")
}

// CheckPairs encodes every message with two fields free at a time.
func CheckPairs() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	conforms(s, spec.Pair(spec.Paths(s.Fields)))
}

// CheckLists encodes messages with long lists.
func CheckLists() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	ls := spec.Lists(s.Fields)
	vp.Assume(len(ls) > 0)
	conforms(s, ls[vp.Choice("list", len(ls))]+spec.Length())
}
