package c14

import (
	"reflect"

	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// receive unmarshals what m was marshalled into.
func receive(s spec.Side, m interface{}, b []byte) {
	env, err := soap.Unmarshal(b)
	vp.Assert(err == nil, "a marshalled message cannot be unmarshalled")
	vp.Assert(env.Body.Fault == nil && env.Body.Content != nil, "a marshalled message is received as something else")
	vp.Assert(spec.SameType(env.Body.Content, m), "a message is received as a message of another type")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	vp.Assert(vp.Same(env.Body.Content, m), "a message is received with other content")
}

func trip(s spec.Side, focus string) {
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), focus)
	vp.Note(s.Element() + " " + focus)
	b, err := soap.Marshal(m, nil, spec.SoapNS)
	vp.Assert(err == nil, "a message cannot be marshalled")
	receive(s, m, b)
	vp.Reach("end")
}

// CheckPairs marshals and unmarshals every message with two fields free at a time.
func CheckPairs() {
	ss := spec.Sides15()
	s := ss[vp.Choice("message", len(ss))]
	trip(s, spec.Pair(spec.XPaths(s.XFields())))
}

// CheckLists marshals and unmarshals messages with long lists.
func CheckLists() {
	ss := spec.Sides15()
	s := ss[vp.Choice("message", len(ss))]
	ls := spec.XLists(s.XFields())
	vp.Assume(len(ls) > 0)
	trip(s, ls[vp.Choice("list", len(ls))]+spec.Length())
}

// CheckTwice marshals two messages of any types, one after the other, and unmarshals them in the other order: neither affects
// the other.
func CheckTwice() {
	ss := spec.Sides15()
	i, j := vp.Choice("message", len(ss)), vp.Choice("other", len(ss))
	a, b := ss[i].Make(), ss[j].Make()
	vp.Fill("a", a, "full", true, spec.Optional(ss[i].Fields), "")
	vp.Fill("b", b, "req", true, spec.Optional(ss[j].Fields), "")
	vp.Note(ss[i].Element() + " " + ss[j].Element())
	x, err1 := soap.Marshal(a, nil, spec.SoapNS)
	y, err2 := soap.Marshal(b, nil, spec.SoapNS)
	vp.Assert(err1 == nil && err2 == nil, "a message cannot be marshalled")
	receive(ss[j], b, y)
	receive(ss[i], a, x)
	vp.Reach("end")
}
