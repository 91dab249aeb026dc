package c16

import (
	"errors"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckStyle handles every request written in several ways: with comments, indented, with other quotes or prefixes.
func CheckStyle() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	spec.Style = vp.Choice("style", spec.Styles)
	exchange(s, m, "", 4, vp.Choice("prefixed", 2) == 1, "")
}

// slow is a body that comes in pieces, with pauses between them or not.
type slow struct {
	data  string
	piece int
	pause time.Duration
}

func (r *slow) Read(p []byte) (int, error) {
	if r.data == "" {
		return 0, io.EOF
	}
	if r.pause > 0 {
		vp.Sleep(r.pause)
	}
	n := r.piece
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}
func (r *slow) Close() error { return nil }

func request(doc string, body io.ReadCloser, length int64) *http.Request {
	return &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{"Content-Type": {"application/soap+xml; charset=utf-8"}}, RemoteAddr: "192.0.2.1:1",
		Body: body, ContentLength: length}
}

// CheckBig handles a request of up to more than a megabyte that comes in pieces; the response or the error is as big.
//
//vp: steps=80000000
func CheckBig() {
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)]) + "end"
	doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">box</chargeBoxIdentity></soap:Header>`,
		`<dataTransferRequest xmlns="urn://Ocpp/Cs/2012/06/"><vendorId>v</vendorId><data>`+big+`</data></dataTransferRequest>`)
	length := int64(len(doc))
	if vp.Choice("chunked", 2) == 1 {
		length = -1
	}
	fails := vp.Choice("fails", 2) == 1
	pause := time.Duration(0)
	if vp.Choice("pause", 2) == 1 {
		pause = time.Second
	}
	w := &writer{h: http.Header{}}
	n := 0
	err := soap.Handle(w, request(doc, &slow{doc, len(doc)/7 + 1, pause}, length), func(r messages.Request, id string) (messages.Response, error) {
		n++
		d, ok := r.(*cpreq.DataTransfer)
		vp.Assert(ok && d.Data == big && d.VendorId == "v" && id == "box", "the handler sees another request")
		if fails {
			return nil, errors.New(big)
		}
		return &cpresp.DataTransfer{Status: "Accepted", Data: big}, nil
	})
	vp.Assert(err == nil && n == 1, "a big request is not handled once")
	truthful(w)
	el, bad := spec.Body(w.body)
	vp.Assert(bad == "", "the reply is not an envelope with one element in its body")
	if fails {
		vp.Assert(el.Name == "Fault" && strings.Contains(w.body, big), "a fault does not carry the handler's error text")
	} else {
		k := el.Kid("data")
		vp.Assert(k != nil && k.Text == big, "the reply is not the handler's response")
	}
	vp.Reach("end")
}

// CheckMany handles more than a hundred requests, good and bad ones.
//
//vp: steps=80000000
func CheckMany() {
	text := vp.Text("text")
	every := 2 + vp.Choice("every", 3)
	for i := 0; i < 130; i++ {
		if i%every == 1 {
			refused(spec.XEnvelope("", ""), false)
			continue
		}
		tag := "t" + strconv.Itoa(i)
		id := "box" + strconv.Itoa(i%3)
		doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">`+id+`</chargeBoxIdentity></soap:Header>`,
			`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>`+tag+`</idTag></authorizeRequest>`)
		if i%7 == 3 {
			id = ""
			doc = spec.XEnvelope("", `<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>`+tag+`</idTag></authorizeRequest>`)
		}
		var fault error
		if i%5 == 4 {
			fault = errors.New(tag + text)
		}
		w, s, err := post(doc, false, func(messages.Request) (messages.Response, error) {
			if fault != nil {
				return nil, fault
			}
			return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: tag}}, nil
		})
		a, ok := s.req.(*cpreq.Authorize)
		vp.Assert(err == nil && s.n == 1 && s.id == id && ok && a.IdTag == tag, "the handler sees another request")
		truthful(w)
		el, bad := spec.Body(w.body)
		vp.Assert(bad == "", "the reply is not an envelope with one element in its body")
		if fault != nil {
			env, err := soap.Unmarshal([]byte(w.body))
			vp.Assert(err == nil && env.Body.Fault != nil && env.Body.Fault.Error() == tag+text, "a fault does not carry the handler's error text")
		} else {
			k := el.Kid("idTagInfo")
			vp.Assert(k != nil && k.Kid("status") != nil && k.Kid("status").Text == tag, "the reply is not the handler's response")
		}
	}
	vp.Reach("end")
}

// CheckSlow lets the handler take up to two hours.
//
//vp: samples=1
func CheckSlow() {
	d := vp.Duration("handling", 0, 2*time.Hour)
	doc := spec.XEnvelope("", `<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>tag</idTag></authorizeRequest>`)
	w, s, err := post(doc, false, func(messages.Request) (messages.Response, error) {
		vp.Sleep(d)
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "late"}}, nil
	})
	vp.Assert(err == nil && s.n == 1, "the handler is not called exactly once for a request")
	truthful(w)
	el, bad := spec.Body(w.body)
	vp.Assert(bad == "" && el.Kid("idTagInfo") != nil && el.Kid("idTagInfo").Kid("status").Text == "late", "the reply is not the handler's response")
	vp.Reach("end")
}
