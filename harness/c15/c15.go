// Package c15 checks the XML form of messages against the OCPP 1.5 WSDLs.
package c15

import (
	"reflect"

	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckEncode marshals every message with all or only the required fields set, one field at a time being free.
func CheckEncode() {
	ss := spec.Sides15()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.XPaths(s.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, mode, true, spec.Optional(s.Fields), focus)
	b, err := soap.Marshal(m, nil, spec.SoapNS)
	vp.Assert(err == nil, "a message cannot be marshalled")
	n, bad := spec.Body(string(b))
	vp.Assert(bad == "", bad)
	bad = spec.XConforms(s, n, m)
	vp.Note(s.Element() + " " + focus)
	vp.Assert(bad == "", bad)
	vp.Reach("end")
}

// doc builds the XML of a message from the WSDL's names, with values that come from the message m.
func doc(s spec.Side, m interface{}, prefixed bool) string {
	return spec.XDoc(s, m, prefixed)
}

// CheckDecode unmarshals every message written down with the WSDL's names, with all or only the required elements, one field at
// a time being free, with or without namespace prefixes.
func CheckDecode() {
	ss := spec.Sides15()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.XPaths(s.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, mode, true, spec.Optional(s.Fields), focus)
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	text := doc(s, m, vp.Choice("prefixed", 2) == 1)
	env, err := soap.Unmarshal([]byte(text))
	vp.Note(s.Element() + " " + focus)
	vp.Assert(err == nil, "a message with the WSDL's names is not decoded")
	vp.Assert(env.Body.Fault == nil && env.Body.Content != nil, "a message with the WSDL's names is not received")
	vp.Assert(spec.SameType(env.Body.Content, m), "a message with the WSDL's names is decoded into another type")
	vp.Assert(vp.Same(env.Body.Content, m), "an element is not decoded into the field it stands for")
	vp.Reach("end")
}
