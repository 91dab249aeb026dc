package c15

import (
	"reflect"

	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func encode(s spec.Side, focus string) {
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), focus)
	b, err := soap.Marshal(m, nil, spec.SoapNS)
	vp.Assert(err == nil, "a message cannot be marshalled")
	n, bad := spec.Body(string(b))
	vp.Assert(bad == "", bad)
	bad = spec.XConforms(s, n, m)
	vp.Note(s.Element() + " " + focus)
	vp.Assert(bad == "", bad)
	vp.Reach("end")
}

func decode(s spec.Side, focus string) {
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), focus)
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	env, err := soap.Unmarshal([]byte(doc(s, m, vp.Choice("prefixed", 2) == 1)))
	vp.Note(s.Element() + " " + focus)
	vp.Assert(err == nil, "a message with the WSDL's names is not decoded")
	vp.Assert(env.Body.Fault == nil && env.Body.Content != nil, "a message with the WSDL's names is not received")
	vp.Assert(spec.SameType(env.Body.Content, m), "a message with the WSDL's names is decoded into another type")
	vp.Assert(vp.Same(env.Body.Content, m), "an element is not decoded into the field it stands for")
	vp.Reach("end")
}

func side() spec.Side {
	ss := spec.Sides15()
	return ss[vp.Choice("message", len(ss))]
}

// CheckPairsOut marshals every message with two fields free at a time.
func CheckPairsOut() {
	s := side()
	encode(s, spec.Pair(spec.XPaths(s.XFields())))
}

// CheckPairsIn unmarshals every message with two fields free at a time.
func CheckPairsIn() {
	s := side()
	decode(s, spec.Pair(spec.XPaths(s.XFields())))
}

// CheckLists marshals or unmarshals messages with long lists.
func CheckLists() {
	s := side()
	ls := spec.XLists(s.XFields())
	vp.Assume(len(ls) > 0)
	focus := ls[vp.Choice("list", len(ls))] + spec.Length()
	if vp.Choice("in", 2) == 1 {
		decode(s, focus)
	} else {
		encode(s, focus)
	}
}

// CheckStyle unmarshals every message written down in any of the ways that mean the same.
func CheckStyle() {
	s := side()
	spec.Style = vp.Choice("style", spec.Styles)
	decode(s, "")
}
