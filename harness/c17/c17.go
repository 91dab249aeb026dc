// Package c17 checks the SOAP client.
package c17

import (
	"reflect"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func requests() (out []spec.Side) {
	for _, s := range spec.Sides15() {
		if !s.Resp {
			out = append(out, s)
		}
	}
	return out
}

func answerOf(s spec.Side) spec.Side {
	for _, a := range spec.Sides15() {
		if a.Resp && a.Action == s.Action && a.FromCP == s.FromCP {
			return a
		}
	}
	return s
}

// filled makes a message with content.
func filled(name string, s spec.Side, mode, focus string) interface{} {
	m := s.Make()
	vp.Fill(name, m, mode, true, spec.Optional(s.Fields), focus)
	return m
}

// call makes a call; a panic is a violation.
func call(url, action string, req, resp interface{}, o *soap.CallOptions) (err error) {
	text, panicked := vp.Panics(func() {
		err = soap.NewClient(url).Call(action, req.(messages.Request), resp.(messages.Response), o)
	})
	vp.Note(text)
	vp.Assert(!panicked, "a SOAP call panics")
	return err
}

// CheckRequest sends every request with any content in one of its fields, any identity and any action, to one of several URLs.
func CheckRequest() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	paths := append([]string{""}, spec.XPaths(s.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	m := filled("m", s, mode, focus)
	a := answerOf(s)
	want := filled("a", a, "full", "")
	spec.Strip(a.XFields(), reflect.ValueOf(want))
	srv := h.ServeHTTP(func(h.Post) (int, string) { return 200, spec.XDoc(a, want, false) })
	urls := []string{"", "/", "/ocpp/v1.5?a=b&c=d", "/x/y/"}
	options := vp.Choice("options", 4)
	path := urls[options]
	if vp.Thorough() {
		path = urls[vp.Choice("url", len(urls))]
	}
	url := "http://localhost" + srv.Port + path
	var o *soap.CallOptions
	id, action := "", s.Action
	switch options {
	case 1:
		o = &soap.CallOptions{}
	case 2:
		id = vp.Text("identity")
		o = &soap.CallOptions{ChargeBoxIdentity: id}
	case 3:
		id = vp.Ident("identity")
		action = vp.Ident("action")
		o = &soap.CallOptions{ChargeBoxIdentity: id, From: soap.CallOptionsFrom{Address: "http://192.0.2.1/"}}
	}
	got := a.Make()
	err := call(url, action, m, got, o)
	vp.Note(s.Element() + " " + focus)
	vp.Assert(err == nil, "a call that is answered returns an error")
	vp.Assert(vp.Same(got, want), "a call returns something else than the response")
	posts := srv.Posts()
	vp.Assert(len(posts) == 1, "a call makes not exactly one HTTP request")
	p := posts[0]
	vp.Assert(p.Method == "POST", "a call is not a POST")
	uri := p.Path
	if p.Query != "" {
		uri += "?" + p.Query
	}
	if path == "" {
		path = "/"
	}
	vp.Assert(uri == path, "a call goes to another URL")
	ct := strings.Join(p.Header["Content-Type"], " ")
	vp.Assert(strings.Contains(ct, "xml"), "a call is not announced as XML")
	enc := p.Header.Get("Content-Encoding")
	vp.Assert(enc == "" || enc == "identity", "a call is announced with an encoding it does not have")
	n, bad := spec.Body(p.Body)
	vp.Assert(bad == "", "a call is not an envelope with one element in its body")
	bad = spec.XConforms(s, n, m)
	vp.Assert(bad == "", "the body of a call is not its request")
	head := spec.Parse(p.Body).Kid("Header")
	vp.Assert(head != nil, "a call has no header")
	k := head.Kid("Action")
	vp.Assert(k != nil && (k.Text == "/"+action || k.Text == action), "a call names another action")
	k = head.Kid("To")
	vp.Assert(k != nil && k.Text == url, "a call names another destination")
	k = head.Kid("chargeBoxIdentity")
	vp.Assert(k != nil && k.Text == id || k == nil && id == "", "a call names another charge box")
	k = head.Kid("MessageID")
	vp.Assert(k != nil && k.Text != "", "a call has no message id")
	vp.Reach("end")
}

// CheckAnswer answers every kind of request with any response, one field at a time being free, with or without a header,
// prefixes, an error status.
func CheckAnswer() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	a := answerOf(s)
	paths := append([]string{""}, spec.XPaths(a.XFields())...)
	focus := paths[vp.Choice("field", len(paths))]
	mode := "full"
	if vp.Choice("mode", 2) == 1 {
		mode = "req"
	}
	want := filled("a", a, mode, focus)
	spec.Strip(a.XFields(), reflect.ValueOf(want))
	header := ""
	if vp.Choice("header", 2) == 1 {
		header = `<soap:Header xmlns:wsa5="http://www.w3.org/2005/08/addressing"><wsa5:RelatesTo>uuid:1</wsa5:RelatesTo><wsa5:Action>/` + s.Action + `Response</wsa5:Action></soap:Header>`
	}
	status := 200
	if focus == "" {
		status += vp.Choice("status", 3)
	}
	doc := spec.XDocWith(a, want, vp.Choice("prefixed", 2) == 1, header)
	srv := h.ServeHTTP(func(h.Post) (int, string) { return status, doc })
	got := a.Make()
	err := call("http://localhost"+srv.Port, s.Action, filled("m", s, "full", ""), got, &soap.CallOptions{ChargeBoxIdentity: "me"})
	vp.Assert(err == nil, "a call that is answered returns an error")
	vp.Assert(vp.Same(got, want), "a call returns something else than the response")
	vp.Reach("end")
}

// refused makes a call to a server that answers with something else than a response.
func refused(s spec.Side, status int, doc string) error {
	srv := h.ServeHTTP(func(h.Post) (int, string) { return status, doc })
	err := call("http://localhost"+srv.Port, s.Action, filled("m", s, "full", ""), answerOf(s).Make(), &soap.CallOptions{ChargeBoxIdentity: "me"})
	vp.Note(doc)
	vp.Assert(err != nil, "a call without a response returns no error")
	vp.Reach("refused")
	return err
}

// CheckFault answers every kind of request with a fault.
func CheckFault() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	reason := spec.Long(vp.Text("reason"))
	status := []int{200, 400, 500}[vp.Choice("status", 3)]
	extra := ""
	if vp.Choice("detail", 2) == 1 {
		extra = "<soap:Detail>" + vp.XMLText(vp.Text("detail")) + "</soap:Detail>"
	}
	doc := spec.XEnvelope("", `<soap:Fault><soap:Code><soap:Value>soap:Receiver</soap:Value></soap:Code><soap:Reason><soap:Text>`+vp.XMLText(reason)+`</soap:Text></soap:Reason>`+extra+`</soap:Fault>`)
	err := refused(s, status, doc)
	vp.Assert(strings.Contains(err.Error(), reason), "an error does not hold the reason of the fault")
}

// CheckOther answers every kind of request with something else: another message, a message of any other name, an envelope with
// nothing or with text, no envelope, text, nothing, an error status without a body, a dropped connection.
func CheckOther() {
	ss := spec.Sides15()
	rs := requests()
	s := rs[vp.Choice("message", len(rs))]
	status := 200
	kind := vp.Choice("kind", 12)
	if kind != 0 || vp.Thorough() {
		status = []int{200, 404, 500}[vp.Choice("status", 3)]
	}
	doc := ""
	switch kind {
	case 0:
		o := ss[vp.Choice("other", len(ss))]
		vp.Assume(!o.Resp || o.Element() != answerOf(s).Element() || o.NS() != answerOf(s).NS())
		m := filled("o", o, "full", "")
		spec.Strip(o.XFields(), reflect.ValueOf(m))
		doc = spec.XDoc(o, m, false)
	case 1:
		name := vp.Ident("name")
		vp.Assume(name != "Fault")
		for _, o := range ss {
			vp.Assume(name != o.Element())
		}
		doc = spec.XEnvelope("", "<"+name+` xmlns="urn://Ocpp/Cs/2012/06/"></`+name+">")
	case 2:
		doc = spec.XEnvelope("", "")
	case 3:
		doc = spec.XEnvelope("", vp.XMLText(vp.Text("text")))
	case 4:
		doc = `<soap:Envelope xmlns:soap="` + spec.SoapNS + `"></soap:Envelope>`
	case 5:
		doc = "<html><body>" + vp.XMLText(vp.Text("text")) + "</body></html>"
	case 6:
		doc = vp.XMLText(vp.Text("text"))
	case 7:
		doc = ""
	case 8:
		status = 0
	case 9:
		a := answerOf(s)
		m := filled("a", a, "full", "")
		spec.Strip(a.XFields(), reflect.ValueOf(m))
		doc = strings.TrimSuffix(spec.XDoc(a, m, false), "</soap:Envelope>")
	case 10:
		doc = `<soap:Envelope xmlns:soap="` + spec.SoapNS + `"><soap:Header><` + answerOf(s).Element() + `/></soap:Header></soap:Envelope>`
	case 11:
		doc = "{}"
	}
	refused(s, status, doc)
}

// CheckCut answers with every beginning of a response.
func CheckCut() {
	doc := spec.XEnvelope("", `<authorizeResponse xmlns="urn://Ocpp/Cs/2012/06/"><idTagInfo><status>Accepted</status></idTagInfo></authorizeResponse>`)
	for _, s := range requests() {
		if s.Action == "Authorize" {
			refused(s, 200, doc[:vp.Choice("length", len(doc))])
		}
	}
}

// CheckNoServer calls where nobody listens, without a URL, with one that is none.
func CheckNoServer() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	urls := []string{"", "http://localhost" + vp.Port(), "::", "http://", "nothing", "ftp://localhost/", "http://localhost:99999999999/", "%zz"}
	got := answerOf(s).Make()
	err := call(urls[vp.Choice("url", len(urls))], s.Action, filled("m", s, "full", ""), got, nil)
	vp.Assert(err != nil, "a call that cannot be made returns no error")
	vp.Assert(vp.Same(got, answerOf(s).Make()), "a call that cannot be made returns a response")
	vp.Reach("end")
}

// CheckSilent calls a server that does not answer, or does so after any time.
func CheckSilent() {
	ss := requests()
	s := ss[vp.Choice("message", len(ss))]
	a := answerOf(s)
	late := vp.Choice("late", 2) == 1
	delay := vp.Duration("delay", 0, 40*time.Second)
	doc := spec.XDoc(a, filled("a", a, "req", ""), false)
	srv := h.ServeHTTP(func(h.Post) (int, string) {
		if !late {
			vp.Sleep(10 * time.Minute)
		}
		vp.Sleep(delay)
		return 200, doc
	})
	done := make(chan error, 1)
	go func() {
		done <- call("http://localhost"+srv.Port, s.Action, s.Make(), a.Make(), nil)
	}()
	select {
	case err := <-done:
		if late {
			vp.Reach("late")
			vp.Assert(err == nil, "a call that is answered within the timeout returns an error")
		} else {
			vp.Reach("never")
			vp.Assert(err != nil, "a call that is not answered returns no error")
		}
	case <-vp.After(80 * time.Second):
		vp.Assert(false, "a call that is not answered does not return")
	}
}

// CheckTwo makes two calls at once with one client.
//
//vp: delays=1 thorough:delays=2
func CheckTwo() {
	var auth, boot spec.Side
	for _, s := range requests() {
		switch s.Action {
		case "Authorize":
			auth = s
		case "BootNotification":
			boot = s
		}
	}
	tag, vendor := vp.Ident("tag"), vp.Ident("vendor")
	wa, wb := filled("a", answerOf(auth), "req", ""), filled("b", answerOf(boot), "req", "")
	ma, mb := auth.Make(), boot.Make()
	reflect.ValueOf(ma).Elem().FieldByName("IdTag").SetString(tag)
	reflect.ValueOf(mb).Elem().FieldByName("ChargePointVendor").SetString(vendor)
	srv := h.ServeHTTP(func(p h.Post) (int, string) {
		n, _ := spec.Body(p.Body)
		if n != nil && n.Name == auth.Element() && n.Kid("idTag").Text == tag {
			return 200, spec.XDoc(answerOf(auth), wa, false)
		}
		if n != nil && n.Name == boot.Element() && n.Kid("chargePointVendor").Text == vendor {
			return 200, spec.XDoc(answerOf(boot), wb, false)
		}
		return 400, ""
	})
	c := soap.NewClient("http://localhost" + srv.Port)
	ga, gb := answerOf(auth).Make(), answerOf(boot).Make()
	done := make(chan error, 2)
	go func() { done <- c.Call("Authorize", ma.(messages.Request), ga.(messages.Response), nil) }()
	go func() { done <- c.Call("BootNotification", mb.(messages.Request), gb.(messages.Response), nil) }()
	e1, e2 := <-done, <-done
	vp.Assert(e1 == nil && e2 == nil, "a call beside another is not answered")
	vp.Assert(vp.Same(ga, wa) && vp.Same(gb, wb), "a call gets the answer to another")
	vp.Reach("end")
}
