package c04

import (
	"strconv"
	"strings"

	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// near lists ids that look like id and are others.
func near(id string, n int) string {
	switch n {
	case 0:
		return strings.ToUpper(id)
	case 1:
		return id + " "
	case 2:
		return " " + id
	case 3:
		return id[:len(id)-1]
	case 4:
		return id[1:]
	case 5:
		return id + "0"
	case 6:
		return id + id
	case 7:
		return id + "\n"
	case 8:
		return "0" + id
	case 9:
		return strings.Replace(id, "-", "", -1)
	case 10:
		return "{" + id + "}"
	case 11:
		return "urn:uuid:" + id
	}
	return strings.ToLower(id)
}

// CheckNear sends a reply with an id that looks like that of an outstanding request, before its answer.
func CheckNear() {
	send, p, fromCP := h.Side()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	vp.Assert(len(id) > 1, "the id of a request is too short to be unique")
	other := near(id, vp.Choice("near", 13))
	if other == id {
		return
	}
	p.Write(reply("stray", other, "stray"))
	p.Write(reply("answer", id, "answer"))
	a := h.Await(ch, "an answered request does not return")
	vp.Assert(carries(a, "answer"), "a reply with another id completes a request")
	alive(send, p, fromCP, other)
}

// CheckMany sends more than a hundred replies that belong to no request, of one sort, before and while a request is outstanding.
//
//vp: threads=900 steps=40000000
func CheckMany() {
	send, p, fromCP := h.Side()
	vp.Calm()
	sort := vp.Choice("sort", 4)
	old := ""
	if sort > 1 {
		ch := h.Go(send, request(fromCP))
		old = p.ID("a request is not written")
		p.Write(h.Result(old, `{"status":"first"}`))
		a := h.Await(ch, "an answered request does not return")
		vp.Assert(carries(a, "first"), "a request does not get its answer")
	}
	strays := func() {
		for i := 0; i < 130; i++ {
			switch sort {
			case 0:
				p.Write(h.Result("stray"+strconv.Itoa(i), `{"status":"stray"}`))
			case 1:
				p.Write(h.Error("stray", "InternalError", "stray", "{}"))
			case 2:
				p.Write(h.Result(old, `{"status":"stray"}`))
			case 3:
				p.Write(h.Error(old, "InternalError", "stray", "{}"))
			}
		}
	}
	strays()
	vp.Quiesce()
	ch := h.Go(send, request(fromCP))
	id := p.ID("a request is not written")
	strays()
	p.Write(h.Result(id, `{"status":"answer"}`))
	a := h.Await(ch, "an answered request does not return")
	vp.Assert(carries(a, "answer"), "a reply with another id completes a request")
	alive(send, p, fromCP)
}
