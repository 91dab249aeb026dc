// Package c29 checks that messages belong to those who use the library.
package c29

import (
	"errors"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/pair"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckGiven sends a request twice, and answers it with the same response twice; both stay what they are.
func CheckGiven() {
	json := vp.Choice("transport", 2) == 0
	m := pair.Pick(json)
	free := vp.Choice("free", 2)
	req := pair.Fill("req", json, m, false, free == 0).(messages.Request)
	resp := pair.Fill("resp", json, m, true, free == 1).(messages.Response)
	reqWas, respWas := spec.Copy(req), spec.Copy(resp)
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) { return resp, nil })
	for i := 0; i < 2; i++ {
		a, err := e.Sender(m.FromCP)(req)
		vp.Quiesce()
		vp.Assert(vp.SameExact(req, reqWas), "a request is changed by being sent")
		vp.Assert(vp.SameExact(resp, respWas), "a response is changed by being sent")
		got := e.Arrived()
		vp.Assert(err == nil && len(got) == i+1, "a request does not arrive, or its response does not, when it is sent again")
		vp.Assert(spec.SameType(got[i], reqWas) && pair.Same(json, got[i], reqWas), "a request arrives with other content")
		vp.Assert(a != nil && spec.SameType(a, respWas) && pair.Same(json, a, respWas), "a response arrives with other content")
	}
	vp.Reach("end")
}

// CheckKept keeps what came of a first request while a second one of the same type is sent, or changes it.
func CheckKept() {
	json := vp.Choice("transport", 2) == 0
	m := pair.Pick(json)
	var reqs []messages.Request
	var resps []messages.Response
	for _, n := range []string{"first", "second"} {
		reqs = append(reqs, pair.Fill("req "+n, json, m, false, false).(messages.Request))
		resps = append(resps, pair.Fill("resp "+n, json, m, true, false).(messages.Response))
	}
	n := 0
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) {
		n++
		return resps[n-1], nil
	})
	send := e.Sender(m.FromCP)
	one, err := send(reqs[0])
	vp.Assert(err == nil && one != nil && len(e.Arrived()) == 1, "a request does not arrive, or its response does not")
	first := e.Arrived()[0]
	change := vp.Choice("change", 2) == 1
	if change {
		spec.Scramble(first)
		spec.Scramble(one)
		spec.Scramble(reqs[0])
		spec.Scramble(resps[0])
	}
	firstWas, oneWas := spec.Copy(first), spec.Copy(one)
	two, err := send(reqs[1])
	vp.Assert(err == nil && two != nil && len(e.Arrived()) == 2, "a request does not arrive, or its response does not, after another one")
	second := e.Arrived()[1]
	vp.Assert(spec.SameType(second, reqs[1]) && pair.Same(json, second, reqs[1]), "a request arrives with content of an earlier one")
	vp.Assert(spec.SameType(two, resps[1]) && pair.Same(json, two, resps[1]), "a response arrives with content of an earlier one")
	vp.Assert(vp.SameExact(first, firstWas), "a request that arrived is changed by a later one")
	vp.Assert(vp.SameExact(one, oneWas), "a response that arrived is changed by a later one")
	vp.Reach("end")
}

// some is a request with parts, and a response to it.
func some(fromCP bool) (messages.Request, messages.Response) {
	at := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	if fromCP {
		return &cpreq.MeterValues{ConnectorId: 1, MeterValue: []*cpreq.MeterValueItems{{Timestamp: at, SampledValues: []*cpreq.SampledValue{{Value: "1"}}}}}, &cpresp.MeterValues{}
	}
	return &csreq.ChangeConfiguration{Key: "k", Value: "v"}, &csresp.ChangeConfiguration{Status: "Accepted"}
}

// CheckTogether sends one request from two goroutines at the same time; all handlers return one response.
//
//vp: races delays=1 thorough:delays=2
func CheckTogether() {
	vp.Calm()
	json := vp.Choice("transport", 2) == 0
	fromCP := vp.Choice("direction", 2) == 0
	req, resp := some(fromCP)
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) { return resp, nil })
	vp.Busy()
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() {
			a, err := e.Sender(fromCP)(req)
			if err == nil && (a == nil || !pair.Same(json, a, resp)) {
				err = errors.New("another response")
			}
			done <- err
		}()
	}
	for i := 0; i < 2; i++ {
		vp.Assert(<-done == nil, "a request that is sent twice at the same time is not answered")
	}
	for _, r := range e.Arrived() {
		vp.Assert(pair.Same(json, r, req), "a request that is sent twice at the same time arrives with other content")
	}
	vp.Reach("end")
}

// CheckAfter changes a request as soon as Send has returned (with its response, or because nobody answered in time), a response as
// soon as the next call arrives, and what arrived as soon as it is there.
//
//vp: races delays=1 thorough:delays=2
func CheckAfter() {
	vp.Calm()
	json := vp.Choice("transport", 2) == 0
	fromCP := vp.Choice("direction", 2) == 0
	var last messages.Response
	late := vp.Choice("late", 2) == 1
	e := pair.Start(json, func(r messages.Request, _ bool) (messages.Response, error) {
		if late {
			vp.Sleep(70 * time.Second)
		}
		spec.Scramble(r)
		if last != nil && json {
			// the reply to the earlier call is on its way
			spec.Scramble(last)
		}
		_, resp := some(fromCP)
		last = resp
		return resp, nil
	})
	vp.Busy()
	for i := 0; i < 2; i++ {
		req, _ := some(fromCP)
		a, err := e.Sender(fromCP)(req)
		spec.Scramble(req)
		if late {
			vp.Assert(a == nil && err != nil, "a request that is not answered in time returns a response")
			vp.Sleep(30 * time.Second)
		} else {
			vp.Assert(a != nil && err == nil, "a request is not answered")
			spec.Scramble(a)
		}
	}
	vp.Quiesce()
	vp.Reach("end")
}

// CheckTwoPoints sends one request over two connections at the same time.
//
//vp: races delays=1 thorough:delays=2
func CheckTwoPoints() {
	vp.Calm()
	server := h.Serve()
	req, _ := some(true)
	var ps []*h.Peer
	var ss []h.Sender
	resp := &csresp.ClearCache{Status: "Accepted"}
	for i := 0; i < 2; i++ {
		c, p, _ := h.StartCP(server, "me", func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return resp, nil })
		ps, ss = append(ps, p), append(ss, (&h.Point{CP: c}).Up)
	}
	vp.Busy()
	var chs []chan h.Answer
	for i := range ps {
		chs = append(chs, h.Go(ss[i], req))
		ps[i].Write(h.Call("c", "ClearCache", "{}"))
	}
	for i := range ps {
		ids := map[string]bool{}
		for k := 0; k < 2; k++ {
			s := ps[i].Read()
			if _, ok := h.IsResult(s, "c"); ok {
				continue
			}
			f, ok := h.Parse(s)
			vp.Assert(ok && f.Type == 2, "a call is not answered, or a request does not arrive")
			ids[f.ID] = true
			ps[i].Write(h.Result(f.ID, "{}"))
		}
		vp.Assert(len(ids) == 1, "a request does not arrive once")
		a := h.Await(chs[i], "a request does not return")
		vp.Assert(a.Err == nil && a.Resp != nil, "a request is not answered")
	}
	vp.Reach("end")
}
