package c03

import (
	"encoding/json"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// data is a DataTransfer request, whose answer has a text field too.
func data(fromCP bool, text string) messages.Request {
	if fromCP {
		return &cpreq.DataTransfer{VendorId: "v", Data: text}
	}
	return &csreq.DataTransfer{VendorId: "v", Data: text}
}

// frame reads the Call frame of a DataTransfer request: its id and text.
func frame(p *h.Peer) (id, text string) {
	f, ok := h.Parse(p.Read())
	vp.Assert(ok && f.Type == 2 && len(f.Rest) == 2, "a request is not written as a Call frame")
	var r struct{ Data string }
	vp.Assert(json.Unmarshal(f.Rest[1], &r) == nil, "a request is not written as a Call frame")
	return f.ID, r.Data
}

func answered(a h.Answer, text string) {
	vp.Assert(a.Err == nil, "a request that was answered with a result returns an error")
	status, data := "", ""
	switch r := a.Resp.(type) {
	case *cpresp.DataTransfer:
		status, data = r.Status, r.Data
	case *csresp.DataTransfer:
		status, data = r.Status, r.Data
	}
	vp.Assert(status == "Accepted" && data == text, "a request returns another response than the one to itself")
}

// CheckOutstanding has more than a hundred requests outstanding at once, answered in one of several orders.
//
//vp: threads=900 delays=0 steps=40000000
func CheckOutstanding() {
	send, p, fromCP := h.Side()
	vp.Calm()
	n := 130
	if vp.Thorough() {
		n = 300
	}
	got := make([]chan h.Answer, n)
	for i := range got {
		got[i] = h.Go(send, data(fromCP, strconv.Itoa(i)))
	}
	ids := map[string]bool{}
	type out struct{ id, text string }
	var outs []out
	for range got {
		id, text := frame(p)
		vp.Assert(!ids[id], "two outstanding calls carry the same id")
		ids[id] = true
		outs = append(outs, out{id, text})
	}
	order := vp.Choice("order", 3)
	for i := range outs {
		o := outs[i]
		switch order {
		case 1:
			o = outs[n-1-i]
		case 2:
			o = outs[(i*7+3)%n]
		}
		p.Write(h.Result(o.id, `{"status":"Accepted","data":"`+o.text+`"}`))
	}
	for i := range got {
		answered(h.Await(got[i], "a request that was answered does not return"), strconv.Itoa(i))
	}
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "a request writes more than one frame")
	vp.Reach("end")
}

// CheckSequence sends more than a hundred requests one after the other; every third gets a call error.
//
//vp: threads=900 delays=0 steps=40000000
func CheckSequence() {
	send, p, fromCP := h.Side()
	vp.Calm()
	for i := 0; i < 130; i++ {
		text := strconv.Itoa(i)
		ch := h.Go(send, data(fromCP, text))
		id, got := frame(p)
		vp.Assert(got == text, "a Call frame carries another payload")
		if i%3 == 2 {
			p.Write(h.Error(id, "GenericError", "no "+text, "{}"))
			a := h.Await(ch, "a request that was answered does not return")
			vp.Assert(a.Err != nil && a.Resp == nil && strings.Contains(a.Err.Error(), "no "+text), "a request that was answered with an error does not return it")
			continue
		}
		p.Write(h.Result(id, `{"status":"Accepted","data":"`+text+`"}`))
		answered(h.Await(ch, "a request that was answered does not return"), text)
	}
	vp.Reach("end")
}

// CheckBig sends a request and gets an answer with a text of up to more than a megabyte.
//
//vp: steps=80000000
func CheckBig() {
	send, p, fromCP := h.Side()
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)])
	text := "end"
	ch := h.Go(send, data(fromCP, big+text))
	id, got := frame(p)
	vp.Assert(got == big+text, "a Call frame carries another payload")
	if vp.Choice("fails", 2) == 1 {
		p.Write(h.Error(id, "GenericError", big+text, "{}"))
		a := h.Await(ch, "a request that was answered does not return")
		vp.Assert(a.Err != nil && a.Resp == nil && strings.Contains(a.Err.Error(), big+text), "a request that was answered with an error does not return it")
	} else {
		p.Write(h.Result(id, `{"status":"Accepted","data":"`+big+text+`"}`))
		answered(h.Await(ch, "a request that was answered does not return"), big+text)
	}
	vp.Reach("end")
}

// CheckIdle leaves the connection alone for up to two hours before each of two requests.
//
//vp: samples=1
func CheckIdle() {
	h.Patience = 20 * time.Minute
	send, p, fromCP := h.Side()
	for i := 0; i < 2; i++ {
		vp.Sleep(vp.Duration("idle", 0, 2*time.Hour))
		text := vp.Ident("text")
		ch := h.Go(send, data(fromCP, text))
		id, _ := frame(p)
		p.Write(h.Result(id, `{"status":"Accepted","data":"`+text+`"}`))
		answered(h.Await(ch, "a request that was answered does not return"), text)
	}
	vp.Reach("end")
}
