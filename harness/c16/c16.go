// Package c16 checks the handling of SOAP requests.
package c16

import (
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// writer records a reply.
type writer struct {
	h      http.Header
	sent   http.Header
	status int
	body   string
}

func (w *writer) Header() http.Header { return w.h }
func (w *writer) WriteHeader(code int) {
	if w.status == 0 {
		w.status = code
		w.sent = w.h.Clone()
	}
}
func (w *writer) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.body += string(b)
	return len(b), nil
}

// reader is a request body that breaks off.
type reader struct{ *strings.Reader }

func (r reader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}
func (r reader) Close() error { return nil }

// seen is what the handler was called with.
type seen struct {
	n   int
	req messages.Request
	id  string
}

// post has a document handled.
func post(doc string, broken bool, answer func(messages.Request) (messages.Response, error)) (w *writer, s *seen, err error) {
	w, s = &writer{h: http.Header{}}, &seen{}
	var body io.ReadCloser = ioutil.NopCloser(strings.NewReader(doc))
	if broken {
		body = reader{strings.NewReader(doc)}
	}
	r := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{"Content-Type": {"application/soap+xml"}}, RemoteAddr: "192.0.2.1:1",
		Body: body, ContentLength: -1}
	text, panicked := vp.Panics(func() {
		err = soap.Handle(w, r, func(req messages.Request, id string) (messages.Response, error) {
			s.n++
			s.req, s.id = req, id
			return answer(req)
		})
	})
	vp.Note(text)
	vp.Assert(!panicked, "handling a SOAP request panics")
	return w, s, err
}

// truthful checks the headers of a reply.
func truthful(w *writer) {
	vp.Assert(w.status >= 200, "no reply is written")
	ct := w.sent.Get("Content-Type")
	vp.Assert(strings.Contains(ct, "xml"), "a SOAP reply is not announced as XML")
	enc := w.sent.Get("Content-Encoding")
	vp.Assert(enc == "" || enc == "identity", "a SOAP reply is announced with an encoding it does not have")
	if l := w.sent.Get("Content-Length"); l != "" {
		vp.Assert(l == strconv.Itoa(len(w.body)), "a SOAP reply is announced with another length")
	}
}

// reply checks that a reply holds a response or a fault, and nothing else.
func reply(w *writer, resp interface{}, side spec.Side, fault error) {
	truthful(w)
	n, bad := spec.Body(w.body)
	vp.Assert(bad == "", "the reply is not an envelope with one element in its body")
	if fault != nil {
		vp.Reach("fault")
		vp.Assert(n.Name == "Fault" && n.Space == spec.SoapNS, "an error is not answered with a fault")
		env, err := soap.Unmarshal([]byte(w.body))
		vp.Assert(err == nil && env.Body.Fault != nil && env.Body.Content == nil, "an error is not answered with a fault alone")
		vp.Assert(env.Body.Fault.Error() == fault.Error(), "a fault does not carry the handler's error text")
		return
	}
	vp.Reach("response")
	vp.Assert(spec.XConforms(side, n, resp) == "", "the reply is not the handler's response")
}

// requests are the requests of OCPP 1.5, and the responses to them.
func requests() (out []spec.Side) {
	for _, s := range spec.Sides15() {
		if !s.Resp {
			out = append(out, s)
		}
	}
	return out
}

func answerOf(s spec.Side) spec.Side {
	for _, a := range spec.Sides15() {
		if a.Resp && a.Msg.Action == s.Msg.Action && a.Msg.FromCP == s.Msg.FromCP {
			return a
		}
	}
	return s
}

// CheckRequest handles every request, with any content in one of its fields and any identity in one of the forms of a header; the
// handler answers with the response, an error, or both.
func CheckRequest() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.XPaths(s.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), focus)
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	exchange(s, m, "", 4, vp.Choice("prefixed", 2) == 1, "")
}

// CheckReply handles every kind of request with any response, field by field, or an error.
func CheckReply() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	a := answerOf(s)
	paths := append([]string{""}, spec.XPaths(a.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	exchange(s, m, mode, 4, false, focus)
}

// CheckHeader handles a request with every form of header and any identity.
func CheckHeader() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	exchange(s, m, "", vp.Choice("header", 7), false, "")
}

// exchange has a request handled and checks the call and the reply.
func exchange(s spec.Side, m interface{}, mode string, head int, prefixed bool, focus string) {
	header, id := "", ""
	switch head {
	case 1:
		header = "<soap:Header></soap:Header>"
	case 2:
		header = "<soap:Header/>"
	case 3:
		header = `<soap:Header><chargeBoxIdentity xmlns="` + s.NS() + `"></chargeBoxIdentity></soap:Header>`
	case 4:
		id = "box"
		header = `<soap:Header><chargeBoxIdentity xmlns="` + s.NS() + `">box</chargeBoxIdentity></soap:Header>`
	case 5:
		id = vp.Text("identity")
		header = `<soap:Header><chargeBoxIdentity xmlns="` + s.NS() + `">` + vp.XMLText(id) + `</chargeBoxIdentity></soap:Header>`
	case 6:
		id = vp.Text("identity")
		header = `<soap:Header xmlns:wsa5="http://www.w3.org/2005/08/addressing" xmlns:cs="` + s.NS() + `"><wsa5:To>http://x/</wsa5:To><wsa5:Action>/x</wsa5:Action>` +
			`<wsa5:MessageID>uuid:1</wsa5:MessageID><wsa5:From><wsa5:Address>http://y/` + vp.XMLText(vp.Text("from")) + `</wsa5:Address></wsa5:From><cs:chargeBoxIdentity soap:mustUnderstand="true">` + vp.XMLText(id) + `</cs:chargeBoxIdentity></soap:Header>`
	}
	doc := spec.XDocWith(s, m, prefixed, header)
	a := answerOf(s)
	var resp interface{}
	var fail error
	outcome := 0
	if mode != "" {
		outcome = vp.Choice("outcome", 3)
	}
	if outcome != 1 {
		resp = a.Make()
		if mode == "" {
			mode = "full"
		}
		vp.Fill("resp", resp, mode, true, spec.Optional(a.Fields), focus)
	}
	if outcome != 0 {
		fail = errors.New(spec.Long(vp.Text("error")))
	}
	w, seen, err := post(doc, false, func(messages.Request) (messages.Response, error) {
		if resp == nil {
			return nil, fail
		}
		return resp.(messages.Response), fail
	})
	vp.Note(s.Element())
	vp.Assert(seen.n == 1, "the handler is not called exactly once for a request")
	vp.Assert(spec.SameType(seen.req, m) && vp.Same(seen.req, m), "the handler sees another request")
	vp.Assert(seen.id == id, "the handler sees another identity")
	vp.Assert(err == nil, "a request that was answered is reported as an error")
	reply(w, resp, a, fail)
}

// refused has a document handled that is no envelope with a request.
func refused(doc string, broken bool) {
	w, s, err := post(doc, broken, func(messages.Request) (messages.Response, error) { return nil, errors.New("handled") })
	vp.Note(doc)
	vp.Assert(s.n == 0, "the handler is called for something that is no request")
	vp.Assert(err != nil, "something that is no request is not reported as an error")
	if w.body != "" {
		n, bad := spec.Body(w.body)
		vp.Assert(bad == "" && n.Name == "Fault", "something that is no request is answered with a message")
		truthful(w)
	}
	vp.Reach("refused")
}

const hb = `<heartbeatRequest xmlns="urn://Ocpp/Cs/2012/06/"></heartbeatRequest>`

// CheckCut has every beginning of a request handled, the connection ending or breaking off there.
func CheckCut() {
	doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">box</chargeBoxIdentity></soap:Header>`,
		`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>a&amp;b</idTag></authorizeRequest>`)
	n := vp.Choice("length", len(doc))
	refused(doc[:n], vp.Choice("broken", 2) == 1)
}

// CheckOther has envelopes handled that hold something else than a request: a response, a fault, an unknown element of any name,
// nothing, text; or that are no envelopes.
func CheckOther() {
	ss := spec.Sides15()
	kind := vp.Choice("kind", 13)
	doc := ""
	switch kind {
	case 0:
		var rs []spec.Side
		for _, s := range ss {
			if s.Resp {
				rs = append(rs, s)
			}
		}
		s := rs[vp.Choice("message", len(rs))]
		m := s.Make()
		vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
		spec.Strip(s.XFields(), reflect.ValueOf(m))
		doc = spec.XDoc(s, m, false)
	case 1:
		doc = spec.XEnvelope("", `<soap:Fault><soap:Code><soap:Value>soap:Sender</soap:Value></soap:Code><soap:Reason><soap:Text>`+vp.XMLText(vp.Text("reason"))+`</soap:Text></soap:Reason></soap:Fault>`)
	case 2:
		name := vp.Ident("name")
		vp.Assume(name != "Fault")
		for _, s := range ss {
			vp.Assume(name != s.Element())
		}
		doc = spec.XEnvelope("", "<"+name+` xmlns="urn://Ocpp/Cs/2012/06/"><idTag>`+vp.XMLText(vp.Text("text"))+"</idTag></"+name+">")
	case 3:
		doc = spec.XEnvelope("", "")
	case 4:
		doc = spec.XEnvelope("", vp.XMLText(vp.Text("text")))
	case 5:
		doc = `<soap:Envelope xmlns:soap="` + spec.SoapNS + `"></soap:Envelope>`
	case 6:
		doc = `<soap:Envelope xmlns:soap="` + spec.SoapNS + `"><soap:Header><chargeBoxIdentity>box</chargeBoxIdentity>` + hb + `</soap:Header></soap:Envelope>`
	case 7:
		doc = hb
	case 8:
		doc = vp.XMLText(vp.Text("text"))
	case 9:
		name := vp.Ident("name")
		vp.Assume(name != "Envelope")
		doc = "<" + name + "><Body>" + hb + "</Body></" + name + ">"
	case 10:
		// a tag is closed by another
		name := vp.Ident("name")
		vp.Assume(name != "idTag")
		doc = spec.XEnvelope("", `<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag></`+name+"></authorizeRequest>")
	case 11:
		// a value that is none of its type
		text := "x" + vp.Ident("value")
		doc = spec.XEnvelope("", `<unlockConnectorRequest xmlns="urn://Ocpp/Cp/2012/06/"><connectorId>`+text+`</connectorId></unlockConnectorRequest>`)
	case 12:
		text := "x" + vp.Ident("value")
		doc = spec.XEnvelope("", `<startTransactionRequest xmlns="urn://Ocpp/Cs/2012/06/"><connectorId>1</connectorId><idTag>x</idTag><timestamp>`+text+`</timestamp><meterStart>1</meterStart></startTransactionRequest>`)
	}
	refused(doc, false)
}

// CheckNothing lets the handler return neither a response nor an error, or a nil pointer.
func CheckNothing() {
	kind := vp.Choice("kind", 2)
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	a := answerOf(s)
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	_, seen, _ := post(spec.XDoc(s, m, false), false, func(messages.Request) (messages.Response, error) {
		if kind == 0 {
			return nil, nil
		}
		return reflect.Zero(reflect.TypeOf(a.Make())).Interface().(messages.Response), nil
	})
	vp.Assert(seen.n == 1, "the handler is not called exactly once for a request")
	vp.Reach("end")
}
