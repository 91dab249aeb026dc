// Package c04 checks that replies without a request do no harm.
package c04

import (
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func request(fromCP bool) messages.Request {
	if fromCP {
		return &cpreq.DataTransfer{VendorId: "v"}
	}
	return &csreq.DataTransfer{VendorId: "v"}
}

// reply is a result or an error for an id, marked so that it can be told from others.
func reply(name, id, mark string) string {
	if vp.Bool(name + " is an error") {
		return h.Error(id, "InternalError", mark, "{}")
	}
	return h.Result(id, `{"status":"`+mark+`"}`)
}

func carries(a h.Answer, mark string) bool {
	if a.Err != nil {
		return strings.Contains(a.Err.Error(), mark)
	}
	return a.Resp != nil && strings.Contains(h.JSON(a.Resp), `"`+mark+`"`)
}

// alive checks that the connection still completes requests and answers calls.
func alive(send h.Sender, p *h.Peer, fromCP bool, strays ...string) {
	vp.Quiesce()
	vp.Calm()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a later request is not written")
	for _, s := range strays {
		vp.Assume(s != id) // the peer cannot guess the id
	}
	p.Write(h.Result(id, `{"status":"later"}`))
	a := h.Await(ch, "a request after an unsolicited reply does not return")
	vp.Assert(a.Err == nil && carries(a, "later"), "a request after an unsolicited reply does not get its answer")
	p.Write(h.Call("x", "Nonsense", "{}"))
	_, ok := h.IsError(p.Read(), "x", "NotSupported")
	vp.Assert(ok, "a call after an unsolicited reply is not answered")
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "an unsolicited reply is answered")
	vp.Reach("end")
}

// CheckUnknown sends up to two replies with any id and content while no request is outstanding.
//
//vp: delays=2 thorough:delays=3
func CheckUnknown() {
	send, p, fromCP := h.Side()
	n := 1 + vp.Choice("more", 2)
	ids := []string{}
	for i := 0; i < n; i++ {
		id := vp.String("id")
		ids = append(ids, id)
		if vp.Choice("kind", 2) == 0 {
			v := vp.JSONValue("payload", 2, 1)
			vp.Assume(h.IsObject([]byte(v)))
			p.Write(h.Result(id, v))
		} else {
			p.Write(h.Error(id, vp.String("code"), vp.String("description"), "{}"))
		}
	}
	alive(send, p, fromCP, ids...)
}

// CheckOther sends a reply with another id while a request is outstanding, before or after its answer.
//
//vp: delays=2 thorough:delays=3
func CheckOther() {
	send, p, fromCP := h.Side()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	other := vp.String("other")
	vp.Assume(other != id)
	if vp.Choice("first", 2) == 0 {
		p.Write(reply("stray", other, "stray"))
		p.Write(reply("answer", id, "answer"))
	} else {
		p.Write(reply("answer", id, "answer"))
		p.Write(reply("stray", other, "stray"))
	}
	a := h.Await(ch, "an answered request does not return")
	vp.Assert(carries(a, "answer"), "a reply with another id completes a request")
	alive(send, p, fromCP, other)
}

// CheckDuplicate answers a request up to three times.
//
//vp: delays=2 thorough:delays=3
func CheckDuplicate() {
	send, p, fromCP := h.Side()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	p.Write(reply("first", id, "first"))
	p.Write(reply("second", id, "second"))
	if vp.Choice("third", 2) == 1 {
		p.Write(reply("third", id, "third"))
	}
	a := h.Await(ch, "an answered request does not return")
	vp.Assert(carries(a, "first"), "a request returns something else than the first reply to it")
	alive(send, p, fromCP)
}

// CheckUndecodable answers a request with a result that does not decode, then again.
//
//vp: delays=1 thorough:delays=2
func CheckUndecodable() {
	send, p, fromCP := h.Side()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	p.Write(h.Result(id, `{"status":1}`))
	p.Write(reply("second", id, "second"))
	a := h.Await(ch, "an answered request does not return")
	vp.Assert(a.Err != nil && a.Resp == nil && !carries(a, "second"), "a request answered with something that is not its response returns something else than an error")
	alive(send, p, fromCP)
}

// CheckLate answers a request around the time it times out (any delay), and again afterwards.
//
//vp: delays=2 thorough:delays=3
func CheckLate() {
	send, p, fromCP := h.Side()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	vp.Sleep(vp.Duration("delay", 55*time.Second, 65*time.Second))
	p.Write(reply("late", id, "late"))
	vp.Sleep(10 * time.Second)
	a := h.Await(ch, "a request does not return after its timeout")
	vp.Assert(a.Err != nil || carries(a, "late"), "a request returns something else than its answer or an error")
	p.Write(reply("again", id, "again"))
	alive(send, p, fromCP)
}
