// Package c13 checks the pairing of action names, requests and responses.
package c13

import (
	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/messages/res"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckNames looks up any string whatever in both tables.
func CheckNames() {
	name := vp.String("action")
	r := req.FromActionName(name)
	s := res.FromActionName(name)
	for _, m := range spec.Msgs {
		if !m.Table || m.Action != name {
			continue
		}
		vp.Reach("supported")
		vp.Assert(r != nil, "a supported action yields no request")
		vp.Assert(spec.SameType(r, m.New()), "the request of an action is of another type")
		vp.Assert(vp.SameExact(r, m.New()), "the request of an action is not empty")
		vp.Assert(r.Action() == name, "the request of an action reports another action")
		if s != nil {
			vp.Assert(spec.SameType(s, m.NewResp()), "the response table disagrees with the request of the action")
			vp.Assert(vp.SameExact(s, m.NewResp()), "the response table's response is not empty")
		}
		return
	}
	vp.Reach("unsupported")
	vp.Assert(r == nil, "a string that is no supported action yields a request")
	vp.Assert(s == nil, "a string that is no supported action yields a response")
}

// CheckTypes looks at every request type: action, response, sides, freshness.
func CheckTypes() {
	m := spec.Msgs[vp.Choice("message", len(spec.Msgs))]
	r := m.New()
	vp.Assert(r.Action() == m.Action, "a request reports another action")
	a, b := r.GetResponse(), r.GetResponse()
	vp.Assert(a != nil && spec.SameType(a, m.NewResp()), "the response of a request is of another type")
	vp.Assert(a != b, "two responses of a request are one object")
	vp.Assert(vp.SameExact(a, m.NewResp()), "the response of a request is not empty")
	_, cp := r.(cpreq.ChargePointRequest)
	_, cs := r.(csreq.CentralSystemRequest)
	vp.Assert(cp == m.FromCP && cs == !m.FromCP, "a request belongs to the wrong side")
	_, cp = a.(cpresp.ChargePointResponse)
	_, cs = a.(csresp.CentralSystemResponse)
	vp.Assert(cp == m.FromCP && cs == !m.FromCP, "a response belongs to the wrong side")
	if m.Table {
		x, y := req.FromActionName(m.Action), req.FromActionName(m.Action)
		vp.Assert(x != nil && x != y, "two requests of an action are one object")
		vp.Assert(res.FromActionName(m.Action) != nil, "a supported action yields no response")
		vp.Assert(res.FromActionName(m.Action) != res.FromActionName(m.Action), "two responses of an action are one object")
	}
	vp.Reach("end")
}
