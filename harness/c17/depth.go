package c17

import (
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckStyle answers every kind of request with a response written in several ways.
func CheckStyle() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	a := answerOf(s)
	want := filled("a", a, "full", "")
	spec.Strip(a.XFields(), reflect.ValueOf(want))
	spec.Style = vp.Choice("style", spec.Styles)
	doc := spec.XDoc(a, want, vp.Choice("prefixed", 2) == 1)
	spec.Style = 0
	srv := h.ServeHTTP(func(h.Post) (int, string) { return 200, doc })
	got := a.Make()
	err := call("http://localhost"+srv.Port, s.Action, filled("m", s, "full", ""), got, nil)
	vp.Note(doc)
	vp.Assert(err == nil, "a call that is answered returns an error")
	vp.Assert(vp.Same(got, want), "a call returns something else than the response")
	vp.Reach("end")
}

// CheckBig makes a call with a text of up to more than a megabyte; the response or the fault is as big; the server takes a while.
//
//vp: steps=80000000
func CheckBig() {
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)]) + "end"
	fault := vp.Choice("fault", 2) == 1
	srv := h.ServeHTTP(func(p h.Post) (int, string) {
		n, bad := spec.Body(p.Body)
		if bad != "" || n.Kid("data") == nil || n.Kid("data").Text != big {
			return 400, ""
		}
		vp.Sleep(5 * time.Second)
		if fault {
			return 500, spec.XEnvelope("", `<soap:Fault><soap:Code><soap:Value>soap:Receiver</soap:Value></soap:Code><soap:Reason><soap:Text>`+big+`</soap:Text></soap:Reason></soap:Fault>`)
		}
		return 200, spec.XEnvelope("", `<dataTransferResponse xmlns="urn://Ocpp/Cs/2012/06/"><status>Accepted</status><data>`+big+`</data></dataTransferResponse>`)
	})
	got := &cpresp.DataTransfer{}
	err := call("http://localhost"+srv.Port, "DataTransfer", &cpreq.DataTransfer{VendorId: "v", Data: big}, got, nil)
	if fault {
		vp.Assert(err != nil && strings.Contains(err.Error(), big), "an error does not hold the reason of the fault")
	} else {
		vp.Assert(err == nil, "a call that is answered returns an error")
		vp.Assert(got.Status == "Accepted" && got.Data == big, "a call returns something else than the response")
	}
	vp.Reach("end")
}

// CheckMany makes more than a hundred calls, of which some are answered with a fault or dropped.
//
//vp: steps=80000000 threads=900
func CheckMany() {
	every := 2 + vp.Choice("every", 3)
	how := vp.Choice("how", 3)
	ids := map[string]bool{}
	srv := h.ServeHTTP(func(p h.Post) (int, string) {
		n, bad := spec.Body(p.Body)
		if bad != "" || n.Kid("idTag") == nil {
			return 400, ""
		}
		k := spec.Parse(p.Body).Kid("Header").Kid("MessageID")
		vp.Assert(k != nil && !ids[k.Text], "two calls have one message id")
		ids[k.Text] = true
		tag := n.Kid("idTag").Text
		if strings.HasPrefix(tag, "bad") {
			switch how {
			case 0:
				return 0, ""
			case 1:
				return 500, ""
			}
			return 500, spec.XEnvelope("", `<soap:Fault><soap:Code><soap:Value>soap:Receiver</soap:Value></soap:Code><soap:Reason><soap:Text>`+tag+`</soap:Text></soap:Reason></soap:Fault>`)
		}
		return 200, spec.XEnvelope("", `<authorizeResponse xmlns="urn://Ocpp/Cs/2012/06/"><idTagInfo><status>`+tag+`</status></idTagInfo></authorizeResponse>`)
	})
	for i := 0; i < 130; i++ {
		tag := "t" + strconv.Itoa(i)
		bad := i%every == 1
		if bad {
			tag = "bad" + tag
		}
		got := &cpresp.Authorize{}
		err := call("http://localhost"+srv.Port, "Authorize", &cpreq.Authorize{IdTag: tag}, got, nil)
		if bad {
			vp.Assert(err != nil && (how < 2 || strings.Contains(err.Error(), tag)), "a call without a response returns no error")
		} else {
			vp.Assert(err == nil && got.IdTagInfo != nil && got.IdTagInfo.Status == tag, "a call returns something else than the response")
		}
	}
	vp.Assert(len(srv.Posts()) == 130, "a call makes not exactly one HTTP request")
	vp.Reach("end")
}
