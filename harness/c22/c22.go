// Package c22 checks what the HTTP endpoint of a central system does with requests.
package c22

import (
	"errors"
	"io/ioutil"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// call is a call of the handler.
type call struct {
	req                       interface{}
	id, method, path, tag, ua string
	query                     string
}

// calls records the calls of a handler, which answers with an error.
type calls struct {
	mu   sync.Mutex
	list []call
}

func (c *calls) handle(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	x := call{req: r, id: md.ChargePointID}
	vp.Assert(md.HTTPRequest != nil && md.HTTPRequest.URL != nil, "the metadata have no HTTP request")
	x.method, x.path, x.query = md.HTTPRequest.Method, md.HTTPRequest.URL.Path, md.HTTPRequest.URL.RawQuery
	x.tag = md.HTTPRequest.Header.Get("X-Tag")
	c.mu.Lock()
	c.list = append(c.list, x)
	c.mu.Unlock()
	return nil, errors.New("handled")
}

func (c *calls) all() []call {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]call{}, c.list...)
}

// visit sends an HTTP request and returns the answer.
func visit(method, port, path, tag string, headers map[string]string, body string) (status int, text string) {
	r, err := http.NewRequest(method, "http://localhost"+port+path, strings.NewReader(body))
	vp.Assume(err == nil)
	if tag != "" {
		r.Header.Set("X-Tag", tag)
	}
	for k, v := range headers {
		r.Header.Set(k, v)
	}
	resp, err := http.DefaultClient.Do(r)
	vp.Assert(err == nil, "an HTTP request is not answered")
	b, err := ioutil.ReadAll(resp.Body)
	vp.Assert(err == nil, "the answer to an HTTP request cannot be read")
	resp.Body.Close()
	return resp.StatusCode, string(b)
}

// page checks that an answer is a page that states a number.
func page(status int, text string, n int, when string) {
	vp.Assert(status == 200, "a visitor gets no page")
	html, num, nums := false, "", []string{}
	in := false
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == '<' {
			in, html = true, true
		}
		if !in && c >= '0' && c <= '9' {
			num += text[i : i+1]
		} else if num != "" {
			nums = append(nums, num)
			num = ""
		}
		if c == '>' {
			in = false
		}
	}
	if num != "" {
		nums = append(nums, num)
	}
	vp.Assert(html, "a visitor gets no HTML")
	found := false
	for _, s := range nums {
		// addresses may be on the page too
		found = found || s == strconv.Itoa(n)
	}
	vp.Note(text)
	vp.Assert(found, "the page does not state the number of connected charge points "+when)
}

// end ends a connection.
func end(p *h.Peer, how int) {
	switch how {
	case 0:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
		vp.Quiesce()
		p.C.Close()
	case 1:
		p.C.Close()
	case 2:
		vp.Reset(p.C)
	}
	vp.Quiesce()
}

// CheckPage visits a central system after every step of a history of connects and disconnects of charge points.
func CheckPage() {
	l := &calls{}
	c, port := h.StartCS(l.handle)
	up := 0
	c.SetChargePointConnectionListener(func(string) { up++ })
	ids := []string{vp.Ident("one"), "a-a", "z-z"}
	type live struct {
		who  int
		peer *h.Peer
	}
	var ls []live
	steps := 4
	if vp.Thorough() {
		steps = 6
	}
	dialled := 0
	status, text := visit("GET", port, "/", "", nil, "")
	page(status, text, 0, "at the beginning")
	for i := 0; i < steps; i++ {
		op := vp.Choice("step", 4+len(ls))
		if op < 3 {
			vp.Assume(len(ls) < 4)
			p := h.MustDial(port, "/"+ids[op])
			dialled++
			ls = append(ls, live{op, p})
		} else if op == 3 {
			visit("POST", port, "/"+ids[0], "", nil, envelope("other"))
		} else {
			x := ls[op-4]
			end(x.peer, vp.Choice("how", 3))
			ls = append(append([]live{}, ls[:op-4]...), ls[op-3:]...)
		}
		vp.Quiesce()
		n := 0
		for j := range ids {
			for _, x := range ls {
				if x.who == j {
					n++
					break
				}
			}
		}
		if i == 0 {
			// looking up and waiting for charge points connects none
			c.WaitConnect("never")
			c.WaitDisconnect("never")
			c.GetServiceOf("never", ocpp.V16, "")
		}
		status, text := visit("GET", port, "/"+ids[1], "", nil, "")
		page(status, text, n, "in a history of connections and disconnections")
		vp.Assert(up == dialled, "a visit starts a session")
	}
	vp.Reach("end")
}

func envelope(id string) string {
	return spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">`+vp.XMLText(id)+`</chargeBoxIdentity></soap:Header>`,
		`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>tag</idTag></authorizeRequest>`)
}

// isFault reports whether a document is an envelope with a fault.
func isFault(doc string) bool {
	n, bad := spec.Body(doc)
	return bad == "" && n.Name == "Fault" && n.Space == spec.SoapNS
}

// headers are headers a request may have that is no websocket upgrade.
func headers(kind int) map[string]string {
	switch kind {
	case 1:
		return map[string]string{"Content-Type": "application/soap+xml", "SOAPAction": "/Authorize"}
	case 2:
		return map[string]string{"Connection": "Upgrade", "Upgrade": "h2c"}
	case 3:
		return map[string]string{"Upgrade": "websocket"}
	case 4:
		return map[string]string{"Connection": "Upgrade"}
	case 5:
		return map[string]string{"Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ==", "Sec-WebSocket-Protocol": "ocpp1.6"}
	case 6:
		return map[string]string{"Connection": "keep-alive", "Upgrade": "websocket"}
	}
	return nil
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "FOO", "HEAD"}

// CheckOther sends requests of all methods that are no websocket upgrades, with any of several sets of headers, at any of several
// paths, holding a SOAP request or something else.
func CheckOther() {
	l := &calls{}
	c, port := h.StartCS(l.handle)
	up := 0
	c.SetChargePointConnectionListener(func(string) { up++ })
	live := vp.Choice("connected", 2)
	if live == 1 {
		h.MustDial(port, "/box")
		vp.Quiesce()
		up = 0
	}
	method := methods[vp.Choice("method", len(methods))]
	path := []string{"/", "/" + vp.Ident("path"), "/a/" + vp.Ident("path"), "/box", "/" + vp.Ident("path") + ".ico"}[vp.Choice("paths", 5)]
	query := ""
	if vp.Choice("query", 2) == 1 {
		query = "q=" + vp.Ident("q")
	}
	full := path
	if query != "" {
		full += "?" + query
	}
	id, tag := vp.Text("identity"), vp.Ident("tag")
	body := envelope(id)
	good := vp.Choice("body", 3)
	switch good {
	case 1:
		body = ""
	case 2:
		body = "hello"
	}
	status, text := visit(method, port, full, tag, headers(vp.Choice("headers", 7)), body)
	vp.Quiesce()
	got := l.all()
	vp.Assert(up == 0, "a request that is no websocket upgrade starts a session")
	switch {
	case method == "GET":
		page(status, text, live, "to a visitor")
		vp.Assert(len(got) == 0, "the handler is called for a visitor")
		vp.Reach("page")
	case good != 0:
		vp.Assert(len(got) == 0, "the handler is called for something that is no request")
		vp.Assert(!strings.Contains(text, "<h1"), "a request that is not GET is answered with a page")
		vp.Reach("nothing")
	case method == "HEAD":
		vp.Reach("head")
	default:
		vp.Assert(len(got) == 1, "the handler is not called exactly once for a SOAP request")
		a, ok := got[0].req.(*cpreq.Authorize)
		vp.Assert(ok && a.IdTag == "tag", "the handler sees another request")
		vp.Assert(got[0].id == id, "the metadata of a SOAP request have another identity")
		vp.Assert(got[0].method == method && got[0].path == path && got[0].query == query && got[0].tag == tag, "the metadata of a SOAP request have another HTTP request")
		vp.Assert(isFault(text), "a SOAP request is not answered with the handler's error")
		vp.Reach("soap")
	}
}

// CheckUpgrade connects websockets at several paths, with several spellings of the headers, and sends calls.
func CheckUpgrade() {
	l := &calls{}
	_, port := h.StartCS(l.handle)
	id := []string{vp.Ident("id"), "a/" + vp.Ident("id"), vp.Ident("id") + ".x-1", ""}[vp.Choice("ids", 4)]
	query := ""
	path := "/" + id
	if vp.Choice("query", 2) == 1 {
		query = "q=" + vp.Ident("q")
		path += "?" + query
	}
	tag := vp.Ident("tag")
	hd := http.Header{"X-Tag": {tag}}
	d := websocket.Dialer{}
	if vp.Choice("protocol", 2) == 1 {
		d.Subprotocols = []string{"ocpp1.6"}
	}
	conn, _, err := d.Dial("ws://localhost"+port+path, hd)
	vp.Assert(err == nil, "a websocket upgrade is refused")
	p := h.NewPeer(conn)
	n := 1 + vp.Choice("calls", 2)
	for i := 0; i < n; i++ {
		switch vp.Choice("between", 3) {
		case 1:
			status, text := visit("GET", port, "/x", "other", nil, "")
			page(status, text, 1, "to a visitor")
		case 2:
			visit("POST", port, "/x", "other", nil, "hello")
		}
		v := vp.Ident("value")
		p.Write(h.Call("1", "Authorize", `{"idTag":"`+v+`"}`))
		_, ok := h.IsError(p.Read(), "1", "InternalError")
		vp.Assert(ok, "a call over a websocket is not answered with the handler's error")
		got := l.all()
		vp.Assert(len(got) == i+1, "the handler is not called exactly once for a call")
		g := got[i]
		a, isA := g.req.(*cpreq.Authorize)
		vp.Assert(isA && a.IdTag == v, "the handler sees another request")
		vp.Assert(g.id == id, "the metadata of a call have another identity")
		vp.Assert(g.method == "GET" && g.path == "/"+id && g.query == query && g.tag == tag, "the metadata of a call have another HTTP request")
	}
	vp.Reach("end")
}

// CheckRequests sends each request of OCPP 1.5 over SOAP, and its like over a websocket, with any content.
func CheckRequests() {
	l := &calls{}
	_, port := h.StartCS(l.handle)
	var ss []spec.Side
	for _, s := range spec.Sides15() {
		if !s.Resp && s.Msg.FromCP && s.Msg.Action != "DataTransfer" {
			ss = append(ss, s)
		}
	}
	s := ss[vp.Choice("message", len(ss))]
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	spec.Strip(s.XFields(), reflect.ValueOf(m))
	id := vp.Text("identity")
	_, text := visit("POST", port, "/", "", nil, spec.XDocWith(s, m, false,
		`<soap:Header><chargeBoxIdentity xmlns="`+s.NS()+`">`+vp.XMLText(id)+`</chargeBoxIdentity></soap:Header>`))
	vp.Quiesce()
	got := l.all()
	vp.Assert(len(got) == 1, "the handler is not called exactly once for a SOAP request")
	vp.Assert(spec.SameType(got[0].req, m) && vp.Same(got[0].req, m), "the handler sees another SOAP request")
	vp.Assert(got[0].id == id, "the metadata of a SOAP request have another identity")
	vp.Assert(isFault(text), "a SOAP request is not answered with the handler's error")

	p := h.MustDial(port, "/me")
	p.Write(h.Call("1", s.Msg.Action, h.JSON(spec.Doc(s.Msg.Req, reflect.ValueOf(m)))))
	f := p.Read()
	got = l.all()
	_, ok := h.IsError(f, "1", "InternalError")
	vp.Assert(ok, "a call over a websocket is not answered with the handler's error")
	vp.Assert(len(got) == 2 && spec.SameType(got[1].req, m) && vp.Same(got[1].req, m), "the handler sees another call")
	vp.Assert(got[1].id == "me", "the metadata of a call have another identity")
	vp.Reach("end")
}

// CheckTogether has websocket calls, SOAP requests and visitors at the same time, the handler being busy with one of them, under
// every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckTogether() {
	vp.Calm()
	mu := sync.Mutex{}
	seen := map[string]string{}
	n := 0
	release := make(chan bool, 1)
	slow := []string{"", "a", "soap"}[vp.Choice("slow", 3)]
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		vp.Assert(ok, "the handler sees another request")
		mu.Lock()
		n++
		seen[md.ChargePointID] = a.IdTag + md.HTTPRequest.Method + md.HTTPRequest.URL.Path
		mu.Unlock()
		if md.ChargePointID == slow {
			<-release
		}
		return nil, errors.New(md.ChargePointID)
	})
	vp.Busy()
	done := make(chan bool, 4)
	ws := func(id string) {
		p := h.MustDial(port, "/"+id)
		p.Write(h.Call("1", "Authorize", `{"idTag":"tag`+id+`"}`))
		if id == slow {
			vp.Quiesce()
			release <- true
		}
		d, ok := h.IsError(p.Read(), "1", "InternalError")
		vp.Assert(ok && d == id, "a call over a websocket is not answered with the handler's error")
		done <- true
	}
	go ws("a")
	go ws("b")
	go func() {
		if slow == "soap" {
			go func() {
				vp.Quiesce()
				release <- true
			}()
		}
		_, text := visit("POST", port, "/s", "", nil, strings.Replace(envelope("soap"), ">tag<", ">tagsoap<", 1))
		vp.Assert(isFault(text), "a SOAP request is not answered with the handler's error")
		done <- true
	}()
	status, text := visit("GET", port, "/", "", nil, "")
	vp.Assert(status == 200 && strings.Contains(text, "<"), "a visitor gets no page")
	for i := 0; i < 3; i++ {
		<-done
	}
	vp.Assert(n == 3, "the handler is not called exactly once for each request")
	vp.Assert(seen["a"] == "tagaGET/a" && seen["b"] == "tagbGET/b" && seen["soap"] == "tagsoapPOST/s", "a request gets the metadata of another")
	status, text = visit("GET", port, "/", "", nil, "")
	page(status, text, 2, "after all")
	vp.Reach("end")
}
