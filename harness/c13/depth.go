package c13

import (
	"encoding/json"

	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/messages/res"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckFresh fills requests and responses that were looked up, in one of two ways, and looks them up again: they are empty, and
// the filled ones stay what they are.
func CheckFresh() {
	m := spec.Msgs[vp.Choice("message", len(spec.Msgs))]
	a, x := m.New(), m.NewResp()
	if m.Table {
		a, x = req.FromActionName(m.Action), res.FromActionName(m.Action)
	}
	y := a.GetResponse()
	decode := vp.Choice("decode", 2) == 1
	fill := func(name string, v interface{}, fs []spec.Field, like interface{}) interface{} {
		vp.Fill(name, like, "full", false, spec.Optional(fs), "")
		if decode {
			b, err := json.Marshal(like)
			vp.Assert(err == nil && json.Unmarshal(b, v) == nil, "a message does not survive encoding")
		} else {
			vp.Fill(name+"'", v, "full", false, spec.Optional(fs), "")
			return v
		}
		return like
	}
	wa := fill("a", a, m.Req, m.New())
	wx := fill("x", x, m.Resp, m.NewResp())
	wy := fill("y", y, m.Resp, m.NewResp())
	b, z := m.New(), m.NewResp()
	if m.Table {
		b, z = req.FromActionName(m.Action), res.FromActionName(m.Action)
	}
	vp.Assert(vp.SameExact(b, m.New()), "the request of an action is not empty, after another was filled")
	vp.Assert(vp.SameExact(z, m.NewResp()), "the response of an action is not empty, after another was filled")
	vp.Assert(vp.SameExact(a.GetResponse(), m.NewResp()), "the response of a request is not empty, after another was filled")
	vp.Assert(vp.SameExact(b.GetResponse(), m.NewResp()), "the response of a request is not empty, after another was filled")
	vp.Assert(vp.Same(a, wa) && vp.Same(x, wx) && vp.Same(y, wy), "a message changes when another is looked up")
	vp.Assert(a.Action() == m.Action && b.Action() == m.Action, "a request reports another action")
	vp.Reach("end")
}

// CheckLookups looks up two names, one after the other: the first lookup has no effect on the second.
func CheckLookups() {
	m, o := spec.Msgs[vp.Choice("message", len(spec.Msgs))], spec.Msgs[vp.Choice("other", len(spec.Msgs))]
	vp.Assume(m.Table && o.Table)
	name := m.Action
	if vp.Choice("unknown", 2) == 1 {
		name = "x" + name
	}
	req.FromActionName(name)
	res.FromActionName(name)
	r, s := req.FromActionName(o.Action), res.FromActionName(o.Action)
	vp.Assert(r != nil && spec.SameType(r, o.New()) && vp.SameExact(r, o.New()), "the request of an action depends on what was looked up before")
	vp.Assert(s != nil && spec.SameType(s, o.NewResp()) && vp.SameExact(s, o.NewResp()), "the response of an action depends on what was looked up before")
	vp.Reach("end")
}
