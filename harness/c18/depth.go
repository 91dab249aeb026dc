package c18

import (
	"reflect"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckTwo has two requests of any types under way at the same time, which are answered in either order, one of them perhaps with
// an error.
func CheckTwo() {
	send, p, fromCP := h.Side()
	vp.Calm()
	ms := []spec.Msg{pick(fromCP, false), pick(fromCP, false)}
	var chs []chan h.Answer
	var ids []string
	var want []interface{}
	for _, m := range ms {
		want = append(want, full("resp", m.NewResp(), m.Resp))
		chs = append(chs, h.Go(send, full("req", m.New(), m.Req).(messages.Request)))
		ids = append(ids, p.ID("a request is not written as a Call frame"))
	}
	bad := vp.Choice("bad", 3)
	first := vp.Choice("first", 2)
	for _, i := range []int{first, 1 - first} {
		if i == bad {
			p.Write(h.Error(ids[i], "GenericError", "", "{}"))
		} else {
			p.Write(h.Result(ids[i], h.JSON(want[i])))
		}
	}
	for i := range ms {
		a := await(chs[i])
		one(a, ms[i])
		if i == bad {
			vp.Assert(a.Err != nil, "a call error yields no error")
		} else {
			vp.Assert(a.Err == nil, "a request that was answered yields an error")
			vp.Assert(vp.Same(a.Resp, want[i]), "a request yields another response than the peer's")
		}
	}
	vp.Reach("end")
}

// CheckTwoSOAP does the same over SOAP, where the peer answers each after some time.
func CheckTwoSOAP() {
	fromCP := vp.Bool("from charge point")
	ms := []spec.Msg{pick(fromCP, true), pick(fromCP, true)}
	var docs []string
	var want []interface{}
	for _, m := range ms {
		s := spec.Side{Msg: m, Resp: true, Fields: m.Resp}
		x := s.Make()
		vp.Fill("resp", x, "full", true, spec.Optional(m.Resp), "")
		spec.Strip(s.XFields(), reflect.ValueOf(x))
		want = append(want, x)
		docs = append(docs, spec.XDoc(s, x, false))
	}
	first := vp.Choice("first", 2)
	together := ms[0].Action != ms[1].Action
	n := 0
	send, _ := h.SoapSide(fromCP, func(p h.Post) (int, string) {
		i := 0
		if !together {
			i = n
			n++
		} else if b, bad := spec.Body(p.Body); bad != "" {
			return 400, ""
		} else if b.Name == (spec.Side{Msg: ms[1], Fields: ms[1].Req}).Element() {
			i = 1
		}
		if together && i != first {
			vp.Sleep(10 * time.Second)
		}
		return 200, docs[i]
	})
	var chs []chan h.Answer
	for i, m := range ms {
		req := m.New()
		vp.Fill("req", req, "full", true, spec.Optional(m.Req), "")
		chs = append(chs, h.Go(send, req.(messages.Request)))
		if !together {
			a := await(chs[i])
			chs[i] <- a
		}
	}
	for i, m := range ms {
		a := await(chs[i])
		one(a, m)
		vp.Assert(a.Err == nil, "a request that was answered yields an error")
		vp.Assert(vp.Same(a.Resp, want[i]), "a request yields another response than the peer's")
	}
	vp.Reach("end")
}

// CheckSlow has the answer come after up to a minute, over either transport: there is a response or an error, and an answer that
// comes within half of it is returned.
func CheckSlow() {
	d := vp.Duration("delay", 0, 55*time.Second)
	soap := vp.Choice("soap", 2) == 1
	fromCP := false
	var send h.Sender
	var p *h.Peer
	if soap {
		fromCP = vp.Bool("from charge point")
	} else {
		send, p, fromCP = h.Side()
		vp.Calm()
	}
	m := spec.Msg{}
	for _, x := range spec.Msgs {
		if x.Action == "DataTransfer" && x.FromCP == fromCP {
			m = x
		}
	}
	s := spec.Side{Msg: m, Resp: true, Fields: m.Resp}
	want := full("resp", m.NewResp(), m.Resp)
	if soap {
		want = s.Make()
		vp.Fill("resp", want, "full", true, spec.Optional(m.Resp), "")
		spec.Strip(s.XFields(), reflect.ValueOf(want))
		doc := spec.XDoc(s, want, false)
		send, _ = h.SoapSide(fromCP, func(p h.Post) (int, string) {
			vp.Sleep(d)
			return 200, doc
		})
	}
	req := m.New()
	vp.Fill("req", req, "full", true, spec.Optional(m.Req), "")
	ch := h.Go(send, req.(messages.Request))
	if !soap {
		id := p.ID("a request is not written as a Call frame")
		vp.Sleep(d)
		p.Write(h.Result(id, h.JSON(want)))
	}
	a := await(ch)
	one(a, m)
	if d < 30*time.Second {
		vp.Assert(a.Err == nil, "a request that was answered yields an error")
	}
	vp.Assert(a.Err != nil || vp.Same(a.Resp, want), "a request yields another response than the peer's")
	vp.Reach("end")
}

// CheckBig answers with a text of up to more than a megabyte.
//
//vp: steps=80000000
func CheckBig() {
	send, p, fromCP := h.Side()
	vp.Calm()
	m := spec.Msg{}
	for _, x := range spec.Msgs {
		if x.Action == "DataTransfer" && x.FromCP == fromCP {
			m = x
		}
	}
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)]) + "end"
	ch := h.Go(send, full("req", m.New(), m.Req).(messages.Request))
	id := p.ID("a request is not written as a Call frame")
	if vp.Choice("error", 2) == 1 {
		p.Write(h.Error(id, "GenericError", big, "{}"))
		a := await(ch)
		one(a, m)
		vp.Assert(a.Err != nil, "a call error yields no error")
		vp.Assert(strings.Contains(a.Err.Error(), big), "the error of a request lacks the description")
	} else {
		p.Write(h.Result(id, h.JSON(map[string]string{"status": "Accepted", "data": big})))
		a := await(ch)
		one(a, m)
		vp.Assert(a.Err == nil, "a request that was answered yields an error")
		vp.Assert(reflect.ValueOf(a.Resp).Elem().FieldByName("Data").String() == big, "a request yields another response than the peer's")
	}
	vp.Reach("end")
}
