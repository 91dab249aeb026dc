package c10

import (
	"encoding/json"

	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func trip(s spec.Side, m interface{}) {
	b, err := json.Marshal(m)
	vp.Assert(err == nil, "a message cannot be encoded")
	got := s.Make()
	vp.Assert(json.Unmarshal(b, got) == nil, "an encoded message cannot be decoded")
	vp.Assert(vp.Same(got, m), "a message is not what was encoded")
}

// CheckPairs encodes and decodes every message with two fields free at a time.
func CheckPairs() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	focus := spec.Pair(spec.Paths(s.Fields))
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), focus)
	vp.Note(s.Action + " " + focus)
	trip(s, m)
	vp.Reach("end")
}

// CheckLists encodes and decodes messages with long lists.
func CheckLists() {
	ss := spec.Sides()
	s := ss[vp.Choice("message", len(ss))]
	ls := spec.Lists(s.Fields)
	vp.Assume(len(ls) > 0)
	focus := ls[vp.Choice("list", len(ls))] + spec.Length()
	m := s.Make()
	vp.Fill("m", m, "full", false, spec.Optional(s.Fields), focus)
	vp.Note(s.Action + " " + focus)
	trip(s, m)
	vp.Reach("end")
}

// CheckTwice encodes two messages of any types, one after the other, and decodes them in the other order: neither affects the
// other.
func CheckTwice() {
	ss := spec.Sides()
	i, j := vp.Choice("message", len(ss)), vp.Choice("other", len(ss))
	a, b := ss[i].Make(), ss[j].Make()
	vp.Fill("a", a, "full", false, spec.Optional(ss[i].Fields), "")
	mode := "req"
	if vp.Thorough() && vp.Choice("mode", 2) == 1 {
		mode = "full"
	}
	vp.Fill("b", b, mode, false, spec.Optional(ss[j].Fields), "")
	vp.Note(ss[i].Action + " " + ss[j].Action)
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	vp.Assert(err1 == nil && err2 == nil, "a message cannot be encoded")
	c, d := ss[i].Make(), ss[j].Make()
	vp.Assert(json.Unmarshal(y, d) == nil && json.Unmarshal(x, c) == nil, "an encoded message cannot be decoded")
	vp.Assert(vp.Same(c, a) && vp.Same(d, b), "a message is not what was encoded, next to another")
	vp.Reach("end")
}
