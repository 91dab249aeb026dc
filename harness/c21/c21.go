// Package c21 checks the construction of charge points and the life of SOAP ones.
package c21

import (
	"bytes"
	"context"
	"errors"
	"io/ioutil"
	"net/http"
	"reflect"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func handled(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	return nil, errors.New("handled")
}

// nothing checks that nothing of the repository is running.
func nothing(what string) {
	vp.Quiesce()
	vp.Assert(vp.RepoGoroutines() == 0, what)
}

// CheckUnreachable makes a JSON charge point while the central system cannot be reached, in one of several ways.
func CheckUnreachable() {
	s := h.Serve()
	id := vp.Ident("identity")
	url := "ws://localhost" + s.Port
	ctx, cancel := context.WithCancel(context.Background())
	web := h.ServeHTTP(func(h.Post) (int, string) { return []int{200, 404, 0}[vp.Choice("status", 3)], "hello" })
	kind := vp.Choice("kind", 7)
	switch kind {
	case 0:
		s.Stop()
	case 1:
		s.Refuse(true)
	case 2:
		url = "ws://localhost" + web.Port
	case 3:
		url = "http://localhost" + s.Port
	case 4:
		url = []string{"", "::", "ws://", "%zz"}[vp.Choice("url", 4)]
		id = "me"
	case 5:
		cancel()
	case 6:
		url = "ws://localhost" + vp.Port()
	}
	var port *string
	if vp.Bool("port") {
		p := vp.Port()
		port = &p
	}
	c, err := cp.New(ctx, id, url, ocpp.V16, ocpp.JSON, port, handled)
	vp.Assert(err != nil, "a charge point is made although the central system cannot be reached")
	vp.Assert(c == nil, "a charge point is returned together with an error")
	nothing("a goroutine of a charge point that could not be made is left")
	n := len(s.Dials())
	vp.Assert(port == nil || !vp.Listening(*port), "a JSON charge point listens")
	if kind == 0 {
		s.Start()
	}
	s.Refuse(false)
	vp.Sleep(20 * time.Second)
	nothing("a goroutine of a charge point that could not be made is left")
	vp.Assert(len(s.Dials()) == n, "a charge point that could not be made dials")
	vp.Assert(len(s.Conns) == 0, "a charge point that could not be made is connected")
	cancel()
	vp.Reach("end")
}

// CheckNoPort makes a SOAP charge point without a port.
func CheckNoPort() {
	ctx, cancel := context.WithCancel(context.Background())
	url := []string{"http://localhost" + vp.Port(), "", vp.Text("url")}[vp.Choice("url is", 3)]
	c, err := cp.New(ctx, vp.Text("identity"), url, ocpp.V15, ocpp.SOAP, nil, handled)
	vp.Assert(err != nil, "a SOAP charge point is made without a port")
	vp.Assert(c == nil, "a charge point is returned together with an error")
	nothing("a goroutine of a charge point that could not be made is left")
	cancel()
	nothing("a goroutine of a charge point that could not be made is left")
	vp.Reach("end")
}

// post sends an envelope to a charge point.
func post(port, doc string) (status int, body string, err error) {
	r, err := http.NewRequest("POST", "http://localhost"+port+"/", bytes.NewReader([]byte(doc)))
	vp.Assume(err == nil)
	r.Header.Set("Content-Type", "application/soap+xml")
	r.Close = true
	resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}}).Do(r)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

func requests() (out []spec.Msg) {
	for _, m := range spec.Msgs {
		if !m.FromCP && m.V15 {
			out = append(out, m)
		}
	}
	return out
}

// start makes a SOAP charge point that listens.
func start(handler cp.CentralSystemMessageHandler) (port string, cancel context.CancelFunc) {
	port = vp.Port()
	ctx, cancel := context.WithCancel(context.Background())
	c, err := cp.New(ctx, "me", "http://localhost"+vp.Port(), ocpp.V15, ocpp.SOAP, &port, handler)
	vp.Assert(err == nil && c != nil && c.Identity() == "me", "a SOAP charge point cannot be made")
	vp.WaitListen(port)
	return port, cancel
}

// over checks that a cancelled charge point is gone.
func over(port string) {
	nothing("a goroutine of a cancelled SOAP charge point is left")
	vp.Assert(!vp.Listening(port), "a cancelled SOAP charge point listens")
	_, _, err := post(port, spec.XEnvelope("", `<clearCacheRequest xmlns="urn://Ocpp/Cp/2012/06/"/>`))
	vp.Assert(err != nil, "a cancelled SOAP charge point answers")
	vp.Sleep(20 * time.Second)
	nothing("a goroutine of a cancelled SOAP charge point is left")
	vp.Assert(!vp.Listening(port), "a cancelled SOAP charge point listens again")
	vp.Reach("over")
}

// CheckServes sends every central system request to a SOAP charge point, with any response or an error, before and after other
// requests; then cancels it.
func CheckServes() {
	ms := requests()
	m := ms[vp.Choice("message", len(ms))]
	req, resp := m.New(), m.NewResp()
	vp.Fill("req", req, "full", true, spec.Optional(m.Req), "")
	vp.Fill("resp", resp, "full", true, spec.Optional(m.Resp), "")
	out := spec.Side{Msg: m, Fields: m.Req}
	spec.Strip(out.XFields(), reflect.ValueOf(req))
	back := spec.Side{Msg: m, Resp: true, Fields: m.Resp}
	fails := vp.Bool("fails")
	text := spec.Long(vp.Text("error"))
	calls := 0
	port, cancel := start(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		calls++
		vp.Assert(spec.SameType(r, req) && vp.Same(r, req), "the handler sees another request")
		if fails {
			return nil, errors.New(text)
		}
		return resp.(csresp.CentralSystemResponse), nil
	})
	n := 1
	if vp.Bool("twice") {
		n = 2
	}
	for i := 0; i < n; i++ {
		_, body, err := post(port, spec.XDoc(out, req, false))
		vp.Assert(err == nil, "a SOAP charge point does not answer")
		el, bad := spec.Body(body)
		vp.Assert(bad == "", "a SOAP charge point answers with something else than an envelope")
		if fails {
			vp.Assert(el.Name == "Fault", "a SOAP charge point does not answer a handler error with a fault")
			vp.Reach("fault")
		} else {
			vp.Assert(spec.XConforms(back, el, resp) == "", "a SOAP charge point answers with another response than the handler's")
			vp.Reach("response")
		}
	}
	vp.Assert(calls == n, "the handler is not called exactly once for a request")
	cancel()
	over(port)
}

// CheckNotMine sends charge point requests and other things to a SOAP charge point.
func CheckNotMine() {
	calls := 0
	port, cancel := start(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		calls++
		return handled(r)
	})
	doc := ""
	switch vp.Choice("kind", 3) {
	case 0:
		var ss []spec.Side
		for _, s := range spec.Sides15() {
			if s.Resp || s.FromCP {
				ss = append(ss, s)
			}
		}
		s := ss[vp.Choice("message", len(ss))]
		x := s.Make()
		vp.Fill("m", x, "full", true, spec.Optional(s.Fields), "")
		spec.Strip(s.XFields(), reflect.ValueOf(x))
		doc = spec.XDoc(s, x, false)
	case 1:
		doc = spec.XEnvelope("", "")
	case 2:
		doc = vp.XMLText(vp.Text("text"))
	}
	_, body, err := post(port, doc)
	vp.Assert(err == nil, "a SOAP charge point does not answer")
	vp.Assert(calls == 0, "the handler is called for something else than a central system request")
	if body != "" {
		el, bad := spec.Body(body)
		vp.Assert(bad == "" && el.Name == "Fault", "something else than a central system request is answered with a message")
	}
	// it goes on serving
	_, body, err = post(port, spec.XEnvelope("", `<clearCacheRequest xmlns="urn://Ocpp/Cp/2012/06/"/>`))
	vp.Assert(err == nil && calls == 1, "a SOAP charge point does not serve a request after something else")
	el, bad := spec.Body(body)
	vp.Assert(bad == "" && el.Name == "Fault", "a SOAP charge point does not answer a request after something else")
	cancel()
	over(port)
}

// CheckCancel cancels a SOAP charge point before it listens, while it does, or while it handles a request.
//
//vp: delays=3 thorough:delays=4
func CheckCancel() {
	vp.Calm()
	port := vp.Port()
	ctx, cancel := context.WithCancel(context.Background())
	in, out := make(chan bool, 4), make(chan bool, 4)
	kind := vp.Choice("kind", 4)
	if kind == 0 {
		cancel()
	}
	vp.Busy()
	c, err := cp.New(ctx, "me", "http://localhost"+vp.Port(), ocpp.V15, ocpp.SOAP, &port, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		in <- true
		<-out
		return handled(r)
	})
	switch kind {
	case 0: // cancelled beforehand
		if err != nil {
			vp.Calm()
			over(port)
			return
		}
	case 1: // cancelled at once
		cancel()
	case 2:
		vp.WaitListen(port)
		cancel()
	case 3:
		vp.WaitListen(port)
		go post(port, spec.XEnvelope("", `<clearCacheRequest xmlns="urn://Ocpp/Cp/2012/06/"/>`))
		<-in
		cancel()
		vp.Quiesce()
		vp.Assert(!vp.Listening(port), "a cancelled SOAP charge point listens while it handles a request")
		out <- true
	}
	vp.Assert(err == nil && c != nil, "a SOAP charge point cannot be made")
	vp.Quiesce()
	vp.Calm()
	over(port)
}
