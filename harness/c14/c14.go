// Package c14 checks that SOAP messages and faults survive encoding and decoding.
package c14

import (
	"errors"
	"reflect"

	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckRoundTrip marshals and unmarshals every message with all or only the required fields set, one field at a time being free.
func CheckRoundTrip() {
	ss := spec.Sides15()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.Paths(s.Fields)...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, mode, true, spec.Optional(s.Fields), focus)
	vp.Note(s.Element() + " " + focus)
	b, err := soap.Marshal(m, nil, spec.SoapNS)
	vp.Assert(err == nil, "a message cannot be marshalled")
	env, err := soap.Unmarshal(b)
	vp.Assert(err == nil, "a marshalled message cannot be unmarshalled")
	vp.Assert(env.Body.Fault == nil && env.Body.Content != nil, "a marshalled message is received as something else")
	vp.Assert(spec.SameType(env.Body.Content, m), "a message is received as a message of another type")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	vp.Assert(vp.SameExact(env.Body.Content, m), "a message is received with other content")
	vp.Reach("end")
}

// CheckFault marshals any error and unmarshals it, with or without a response besides.
func CheckFault() {
	text := spec.Long(vp.Text("error"))
	var data interface{}
	if ss := spec.Sides15(); vp.Choice("data", 2) == 1 {
		s := ss[vp.Choice("message", len(ss))]
		data = s.Make()
		vp.Fill("m", data, "full", true, spec.Optional(s.Fields), "")
	}
	b, err := soap.Marshal(data, errors.New(text), spec.SoapNS)
	vp.Assert(err == nil, "an error cannot be marshalled")
	env, err := soap.Unmarshal(b)
	vp.Assert(err == nil, "a marshalled error cannot be unmarshalled")
	vp.Assert(env.Body.Fault != nil, "an error is not received as a fault")
	vp.Assert(env.Body.Content == nil, "an error is received together with a message")
	vp.Assert(env.Body.Fault.Error() == text, "a fault has another text than the error")
	vp.Reach("end")
}

// CheckNames unmarshals an empty message element of any name.
func CheckNames() {
	ss := spec.Sides15()
	i := vp.Choice("message", len(ss)+1)
	name := ""
	ns := "urn://Ocpp/Cs/2012/06/"
	if i < len(ss) {
		name, ns = ss[i].Element(), ss[i].NS()
	} else {
		name = vp.Ident("name")
		vp.Assume(name != "Fault")
		for _, s := range ss {
			vp.Assume(name != s.Element())
		}
		if vp.Choice("service", 2) == 1 {
			ns = "urn://Ocpp/Cp/2012/06/"
		}
	}
	body := "<" + name + ` xmlns="` + ns + `"></` + name + ">"
	if vp.Choice("prefixed", 2) == 1 {
		body = "<x:" + name + ` xmlns:x="` + ns + `"/>`
	}
	env, err := soap.Unmarshal([]byte(spec.XEnvelope("", body)))
	if i == len(ss) {
		vp.Reach("unknown")
		vp.Assert(err != nil, "an element that is no message is accepted")
		return
	}
	vp.Reach("known")
	vp.Assert(err == nil, "a message element is not decoded")
	vp.Assert(spec.SameType(env.Body.Content, ss[i].Make()), "a message element is decoded into another type")
	vp.Assert(vp.Same(env.Body.Content, ss[i].Make()), "an empty message element is decoded into a message with content")
}
