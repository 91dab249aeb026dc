package c11

import (
	"encoding/json"
	"reflect"

	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func accepts(s spec.Side, focus string) {
	want := s.Make()
	vp.Fill("m", want, "full", false, spec.Optional(s.Fields), focus)
	vp.Note(s.Action + " " + focus)
	got, err := decode(s, h.JSON(spec.Doc(s.Fields, reflect.ValueOf(want))))
	vp.Assert(err == nil, "a conforming payload is rejected")
	vp.Assert(vp.Same(got, want), "a payload is not stored as given")
	vp.Reach("end")
}

// CheckPairs decodes the document of every message with two fields free at a time.
func CheckPairs() {
	s := side()
	accepts(s, spec.Pair(spec.Paths(s.Fields)))
}

// CheckLists decodes documents with long lists.
func CheckLists() {
	s := side()
	ls := spec.Lists(s.Fields)
	vp.Assume(len(ls) > 0)
	accepts(s, ls[vp.Choice("list", len(ls))]+spec.Length())
}

// CheckElement spoils one element of a list of five: a field is missing there, or has another JSON type.
func CheckElement() {
	s := side()
	ls := spec.Lists(s.Fields)
	vp.Assume(len(ls) > 0)
	path := ls[vp.Choice("list", len(ls))]
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), path+"*5")
	doc := spec.Doc(s.Fields, reflect.ValueOf(m))
	at, f := spec.At(s.Fields, doc, path)
	vp.Assume(f.Type == "objects")
	vp.Note(s.Action + " " + path)
	var list []interface{}
	b, _ := json.Marshal(at[f.Name])
	vp.Assert(json.Unmarshal(b, &list) == nil && len(list) == 5, "a list of a document is no list")
	e := list[vp.Choice("element", 5)].(map[string]interface{})
	k := f.Sub[vp.Choice("field", len(f.Sub))]
	wrong := true
	if vp.Choice("mistyped", 2) == 1 {
		text := vp.JSONValue("value", 0, 1)
		is := kind(text)
		vp.Assume(is != "null" && is != "invalid" && is != kindOf(k))
		e[k.Name] = json.RawMessage(text)
	} else {
		delete(e, k.Name)
		wrong = k.Req
	}
	at[f.Name] = list
	_, err := decode(s, h.JSON(doc))
	if wrong {
		vp.Reach("wrong")
		vp.Assert(err != nil, "a payload with a wrong list element is accepted")
	} else {
		vp.Reach("right")
		vp.Assert(err == nil, "a payload with a conforming list element is rejected")
	}
}

// CheckTwice decodes documents of two messages of any types one after the other: the first is what it was.
func CheckTwice() {
	ss := spec.Sides()
	i, j := vp.Choice("message", len(ss)), vp.Choice("other", len(ss))
	a, b := ss[i].Make(), ss[j].Make()
	vp.Fill("a", a, "full", false, spec.Optional(ss[i].Fields), "")
	vp.Fill("b", b, "req", false, spec.Optional(ss[j].Fields), "")
	vp.Note(ss[i].Action + " " + ss[j].Action)
	x, err1 := decode(ss[i], h.JSON(spec.Doc(ss[i].Fields, reflect.ValueOf(a))))
	y, err2 := decode(ss[j], h.JSON(spec.Doc(ss[j].Fields, reflect.ValueOf(b))))
	vp.Assert(err1 == nil && err2 == nil, "a conforming payload is rejected after another")
	vp.Assert(vp.Same(x, a) && vp.Same(y, b), "a payload is not stored as given, next to another")
	vp.Reach("end")
}
