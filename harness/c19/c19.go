// Package c19 checks the timeout of requests and that they leave nothing behind.
package c19

import (
	"encoding/json"
	"errors"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

const timeout = 60 * time.Second

// slack is what a run on a real clock may be late.
const slack = 5 * time.Second

func request(fromCP bool) messages.Request {
	if fromCP {
		return &cpreq.DataTransfer{VendorId: "v"}
	}
	return &csreq.DataTransfer{VendorId: "v"}
}

// left remembers what there is before requests, to compare it with what there is after them.
type left struct{ goroutines, weight int }

func before() left {
	vp.Quiesce()
	return left{vp.RepoGoroutines(), vp.Weight(h.Subject)}
}

func (l left) after() {
	vp.Quiesce()
	vp.Assert(vp.RepoGoroutines() == l.goroutines, "a goroutine is left behind by a request")
	vp.Assert(vp.Weight(h.Subject) == l.weight, "an entry is left behind by a request")
}

// timed is an answer and how long it took.
type timed struct {
	h.Answer
	took time.Duration
}

func begin(send h.Sender, r messages.Request) chan timed {
	ch := make(chan timed, 2)
	start := vp.Now()
	go func() {
		a, err := send(r)
		ch <- timed{h.Answer{Resp: a, Err: err}, vp.Now() - start}
	}()
	return ch
}

func (t timed) answered(status string, d time.Duration) {
	vp.Assert(t.Err == nil, "a request answered before the timeout returns an error")
	vp.Assert(strings.Contains(h.JSON(t.Resp), `"`+status+`"`), "a request answered before the timeout returns another answer")
	vp.Assert(t.took <= d+slack, "a request does not return when its answer comes")
	vp.Reach("answered")
}

func (t timed) expired() {
	vp.Assert(t.Err != nil, "a request that is not answered in time returns no error")
	vp.Assert(t.Resp == nil, "a request that is not answered in time returns a response")
	vp.Assert(t.took <= timeout+slack, "a request waits beyond its timeout")
	vp.Reach("expired")
}

func await(ch chan timed) timed {
	select {
	case t := <-ch:
		return t
	case <-vp.After(timeout + 3*slack):
		vp.Assert(false, "a request waits beyond its timeout")
	}
	return timed{}
}

// alive checks that the connection completes another request.
func alive(send h.Sender, p *h.Peer, fromCP bool) {
	vp.Calm()
	ch := h.Go(send, request(fromCP))
	p.Write(h.Result(p.ID("a later request is not written"), `{"status":"later"}`))
	a := h.Await(ch, "a later request does not return")
	vp.Assert(a.Err == nil && strings.Contains(h.JSON(a.Resp), `"later"`), "a later request does not get its answer")
	vp.Quiesce()
	_, more := p.Pending()
	vp.Assert(!more, "a request writes something besides its Call frame")
}

// CheckTime answers a request after any time, with a result, an error, or something that is no response; or never.
//
//vp: delays=2 thorough:delays=3
func CheckTime() {
	send, p, fromCP := h.Side()
	vp.Calm()
	l := before()
	vp.Busy()
	kind := vp.Choice("kind", 4)
	d := vp.Duration("delay", 0, 2*timeout)
	vp.Assume(d <= timeout-slack || d >= timeout+slack)
	ch := begin(send, request(fromCP))
	id := p.ID("a request is not written")
	vp.Sleep(d)
	switch kind {
	case 0:
		p.Write(h.Result(id, `{"status":"ok"}`))
	case 1:
		p.Write(h.Error(id, "InternalError", "failed", "{}"))
	case 2:
		p.Write(h.Result(id, `{"status":1}`))
	}
	t := await(ch)
	switch {
	case d >= timeout || kind == 3:
		t.expired()
	case kind == 0:
		t.answered("ok", d)
	default:
		vp.Assert(t.Err != nil && t.Resp == nil, "a request answered with an error returns none")
		vp.Assert(kind != 1 || strings.Contains(t.Err.Error(), "failed"), "a request answered with an error returns another")
		vp.Assert(t.took <= d+slack, "a request does not return when its answer comes")
		vp.Reach("failed")
	}
	vp.Calm()
	l.after()
	alive(send, p, fromCP)
	l.after()
}

// CheckUnsent sends a request that cannot be written: the connection has ended, or the request cannot be encoded.
func CheckUnsent() {
	send, p, fromCP := h.Side()
	r := request(fromCP)
	if vp.Bool("ended") {
		switch vp.Choice("how", 2) {
		case 0:
			p.C.Close()
		case 1:
			vp.Reset(p.C)
		}
		_, again := h.Subject.(cp.ChargePoint)
		vp.Assume(!again) // it connects again at once, see CheckDown
	} else {
		var bad []messages.Request
		for _, m := range spec.Msgs {
			if m.FromCP != fromCP {
				continue
			}
			r := m.New()
			if _, err := json.Marshal(r); err != nil {
				bad = append(bad, r)
			}
		}
		vp.Assume(len(bad) > 0)
		r = bad[vp.Choice("bad", len(bad))]
		vp.Reach("cannot be encoded")
	}
	l := before()
	t := await(begin(send, r))
	vp.Assert(t.Err != nil && t.Resp == nil, "a request that cannot be written returns no error")
	vp.Assert(t.took <= slack, "a request that cannot be written does not return at once")
	l.after()
	vp.Reach("end")
}

// CheckDown sends a request while a charge point is not connected.
func CheckDown() {
	s := h.Serve()
	c, p, _ := h.StartCP(s, "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("no call expected")
	})
	h.Subject = c
	s.Refuse(true)
	if vp.Bool("reset") {
		vp.Reset(p.C)
	} else {
		p.C.Close()
	}
	l := before()
	for i := 0; i < 2; i++ {
		start := vp.Now()
		a, err := c.Send(&cpreq.DataTransfer{VendorId: "v"})
		vp.Assert(err != nil && a == nil, "a request that cannot be written returns no error")
		vp.Assert(vp.Now()-start <= slack, "a request that cannot be written does not return at once")
		l.after()
		vp.Sleep(7 * time.Second)
	}
	vp.Reach("end")
}

// CheckEnded ends the connection while a request waits, and counts what is left when both are over.
//
//vp: delays=2 thorough:delays=3
func CheckEnded() {
	send, p, fromCP := h.Side()
	ch := begin(send, request(fromCP))
	id := p.ID("a request is not written")
	d := vp.Duration("delay", 0, timeout-slack)
	vp.Sleep(d)
	answer := vp.Bool("answer")
	if answer {
		p.Write(h.Result(id, `{"status":"ok"}`))
	}
	if vp.Bool("reset") {
		if answer {
			vp.Quiesce() // a reset may overtake what was sent before it
		}
		vp.Reset(p.C)
	} else {
		p.C.Close()
	}
	t := await(ch)
	if answer {
		t.answered("ok", d)
	} else {
		t.expired()
	}
}

// CheckMany has several requests outstanding, of which some are answered, some after the timeout, some not at all.
//
//vp: delays=2 thorough:delays=3
func CheckMany() {
	send, p, fromCP := h.Side()
	vp.Calm()
	l := before()
	vp.Busy()
	n := 2
	if vp.Thorough() {
		n = 3
	}
	kinds := make([]int, n)
	chs := make([]chan timed, n)
	ids := make([]string, n)
	for i := range kinds {
		kinds[i] = vp.Choice("kind", 3)
		chs[i] = begin(send, request(fromCP))
		ids[i] = p.ID("a request is not written")
	}
	for i, k := range kinds {
		if k == 0 {
			p.Write(h.Result(ids[i], `{"status":"`+string(rune('a'+i))+`"}`))
		}
	}
	for i, k := range kinds {
		t := await(chs[i])
		if k == 0 {
			t.answered(string(rune('a'+i)), 0)
		} else {
			t.expired()
		}
	}
	vp.Calm()
	l.after()
	for i, k := range kinds {
		if k == 1 {
			p.Write(h.Result(ids[i], `{"status":"late"}`))
		}
	}
	l.after()
	alive(send, p, fromCP)
	l.after()
}

// CheckSequence sends one request after the other, answered or refused.
func CheckSequence() {
	send, p, fromCP := h.Side()
	l := before()
	n := 4
	if vp.Thorough() {
		n = 8
	}
	for i := 0; i < n; i++ {
		ch := begin(send, request(fromCP))
		id := p.ID("a request is not written")
		if vp.Bool("fails") {
			p.Write(h.Error(id, "GenericError", "", "{}"))
			t := await(ch)
			vp.Assert(t.Err != nil && t.took <= slack, "a request answered with an error does not return it")
		} else {
			p.Write(h.Result(id, `{"status":"ok"}`))
			await(ch).answered("ok", 0)
		}
		l.after()
	}
}

// CheckNested sends a request to the peer while a call of that peer is being handled.
func CheckNested() {
	done := make(chan timed, 1)
	var p *h.Peer
	if vp.Bool("central system") {
		var sys cs.CentralSystem
		sys, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			svc, err := sys.GetServiceOf("me", ocpp.V16, "")
			if err != nil {
				return nil, err
			}
			start := vp.Now()
			a, err := svc.Send(&csreq.DataTransfer{VendorId: "v"})
			done <- timed{h.Answer{Resp: a, Err: err}, vp.Now() - start}
			return nil, errors.New("handled")
		})
		p = h.MustDial(port, "/me")
		p.Write(h.Call("1", "Heartbeat", "{}"))
	} else {
		var c cp.ChargePoint
		c, p, _ = h.StartCP(h.Serve(), "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			start := vp.Now()
			a, err := c.Send(&cpreq.DataTransfer{VendorId: "v"})
			done <- timed{h.Answer{Resp: a, Err: err}, vp.Now() - start}
			return nil, errors.New("handled")
		})
		p.Write(h.Call("1", "ClearCache", "{}"))
	}
	p.Write(h.Result(p.ID("a request is not written"), `{"status":"ok"}`))
	t := await(done)
	vp.Assert(t.Err == nil, "a request sent by a handler does not get its answer")
	vp.Assert(t.took <= slack, "a request sent by a handler does not return when its answer comes")
	vp.Reach("end")
}
