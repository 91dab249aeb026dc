// Package c03 checks that each request gets the answer to itself.
package c03

import (
	"encoding/json"
	"strings"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// plan is a request and how the peer answers it.
type plan struct {
	req  messages.Request
	want messages.Response // nil: a call error
	code string
	desc string
	id   string
}

func (p *plan) reply() string {
	if p.want != nil {
		return h.Result(p.id, h.JSON(p.want))
	}
	return h.Error(p.id, p.code, p.desc, `{"detail":"`+p.code+`"}`)
}

func (p *plan) judge(a h.Answer) {
	if p.want != nil {
		vp.Assert(a.Err == nil, "a request that was answered with a result returns an error")
		vp.Assert(spec.SameType(a.Resp, p.want) && vp.Same(a.Resp, p.want), "a request returns another response than the one to itself")
		return
	}
	vp.Assert(a.Err != nil, "a request that was answered with an error returns none")
	vp.Assert(a.Resp == nil, "a request that was answered with an error returns a response")
	text := a.Err.Error()
	vp.Assert(strings.Contains(text, p.code) && strings.Contains(text, p.desc), "the error of a request lacks the code or the description of its call error")
}

// plans are n requests of different types (the first two of one type), answered with symbolic contents.
func plans(fromCP bool, n int) []*plan {
	var out []*plan
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		p := &plan{}
		text := vp.Ident(name)
		if fromCP {
			switch i {
			case 0, 1:
				p.req, p.want = &cpreq.Authorize{IdTag: name}, &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: text}}
			default:
				p.req, p.want = &cpreq.DataTransfer{VendorId: name}, &cpresp.DataTransfer{Status: text}
			}
		} else {
			switch i {
			case 0, 1:
				p.req, p.want = &csreq.ChangeConfiguration{Key: name, Value: "v"}, &csresp.ChangeConfiguration{Status: text}
			default:
				p.req, p.want = &csreq.GetDiagnostics{Location: name}, &csresp.GetDiagnostics{FileName: text}
			}
		}
		if vp.Bool(name + " fails") {
			p.want, p.code, p.desc = nil, text, vp.Ident(name+" text")
		}
		out = append(out, p)
	}
	return out
}

// match finds the plan of a Call frame.
func match(ps []*plan, s string) *plan {
	f, ok := h.Parse(s)
	vp.Assert(ok && f.Type == 2 && len(f.Rest) == 2, "a request is not written as a Call frame")
	action, ok := h.Str(f.Rest[0])
	vp.Assert(ok && h.IsObject(f.Rest[1]), "a request is not written as a Call frame")
	for _, p := range ps {
		vp.Assert(p.id == "" || p.id != f.ID, "two outstanding calls carry the same id")
	}
	for _, p := range ps {
		if p.id == "" && p.req.Action() == action && vp.SameJSON(string(f.Rest[1]), h.JSON(p.req)) {
			p.id = f.ID
			vp.Assert(p.id != "", "a call carries no id")
			return p
		}
	}
	vp.Assert(false, "a Call frame is not that of any request, or comes twice")
	return nil
}

func run(n int) {
	send, p, fromCP := h.Side()
	ps := plans(fromCP, n)
	got := make([]chan h.Answer, n)
	for i := range ps {
		q, ch := ps[i], make(chan h.Answer, 2)
		got[i] = ch
		go func() {
			r, err := send(q.req)
			ch <- h.Answer{Resp: r, Err: err}
		}()
	}
	order := []*plan{}
	for range ps {
		order = append(order, match(ps, p.Read()))
	}
	// the replies come in any order
	for len(order) > 0 {
		i := vp.Choice("next", len(order))
		p.Write(order[i].reply())
		order = append(order[:i:i], order[i+1:]...)
	}
	for i := range ps {
		select {
		case a := <-got[i]:
			ps[i].judge(a)
		case <-vp.After(h.Patience):
			vp.Assert(false, "a request that was answered does not return")
		}
	}
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "a request writes more than one frame")
	vp.Reach("end")
}

// CheckTwo has two requests outstanding.
//
//vp: delays=2 thorough:delays=3 share=3
func CheckTwo() { run(2) }

// CheckThree has three requests outstanding.
//
//vp: delays=1 thorough:delays=2 share=2
func CheckThree() { run(3) }

// CheckEach sends every request, answered by every content of its response or by a call error.
func CheckEach() {
	send, p, fromCP := h.Side()
	var ms []spec.Msg
	for _, m := range spec.Msgs {
		if m.FromCP == fromCP {
			ms = append(ms, m)
		}
	}
	m := ms[vp.Choice("message", len(ms))]
	req := m.New()
	vp.Fill("req", req, "full", false, spec.Optional(m.Req), "")
	q := &plan{req: req, want: m.NewResp()}
	vp.Fill("resp", q.want, "full", false, spec.Optional(m.Resp), "")
	if vp.Bool("fails") {
		q.want, q.code, q.desc = nil, vp.Ident("code"), vp.String("description")
	}
	ch := make(chan h.Answer, 2)
	go func() {
		r, err := send(req)
		ch <- h.Answer{Resp: r, Err: err}
	}()
	s := p.Read()
	f, ok := h.Parse(s)
	vp.Assert(ok && f.Type == 2 && len(f.Rest) == 2, "a request is not written as a Call frame")
	action, ok := h.Str(f.Rest[0])
	vp.Assert(ok && action == m.Action, "a Call frame carries another action")
	got := m.New()
	vp.Assert(json.Unmarshal(f.Rest[1], got) == nil && vp.Same(got, req), "a Call frame carries another payload")
	q.id = f.ID
	p.Write(q.reply())
	select {
	case a := <-ch:
		q.judge(a)
	case <-vp.After(h.Patience):
		vp.Assert(false, "a request that was answered does not return")
	}
	vp.Reach("end")
}

// CheckMixed lets a call of the peer come between a request and its reply.
//
//vp: delays=2 thorough:delays=3
func CheckMixed() {
	send, p, fromCP := h.Side()
	ps := plans(fromCP, 1)
	ch := make(chan h.Answer, 2)
	go func() {
		r, err := send(ps[0].req)
		ch <- h.Answer{Resp: r, Err: err}
	}()
	q := match(ps, p.Read())
	id := q.id
	if vp.Bool("other id") {
		id = vp.Ident("id")
	}
	p.Write(h.Call(id, "Nonsense", "{}")) // the ids of the two directions are independent
	if vp.Bool("junk") {
		p.Write(`[3]`)
	}
	p.Write(q.reply())
	select {
	case a := <-ch:
		q.judge(a)
	case <-vp.After(h.Patience):
		vp.Assert(false, "a request that was answered does not return")
	}
	_, ok := h.IsError(p.Read(), id, "NotSupported")
	vp.Assert(ok, "a call between a request and its reply is not answered")
	vp.Reach("end")
}
