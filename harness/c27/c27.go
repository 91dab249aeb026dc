// Package c27 checks that the calls of a connection are handled one at a time, in the order they came, and answered in that order.
package c27

import (
	"errors"
	"strconv"
	"sync"
	"time"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// watch is a handler that notes how many calls it is busy with.
type watch struct {
	mu     sync.Mutex
	inside int
	slow   string        // the text it takes its time with
	delay  time.Duration // how long
	fail   string        // the text it refuses
}

func (w *watch) handle(text string) (string, error) {
	w.mu.Lock()
	w.inside++
	n := w.inside
	w.mu.Unlock()
	vp.Assert(n == 1, "a call is handled while an earlier one of the connection is")
	if text == w.slow {
		vp.Sleep(w.delay)
	}
	w.mu.Lock()
	w.inside--
	w.mu.Unlock()
	if text == w.fail {
		return "", errors.New("failed")
	}
	return text + "!", nil
}

// echo starts a central system or a charge point.
func echo(w *watch) *h.Echo {
	if vp.Choice("side", 2) == 0 {
		return h.EchoCS(w.handle)
	}
	return h.EchoCP(w.handle)
}

const (
	good = iota
	failing
	bad
	other
)

// call is a call of some kind.
type call struct {
	kind     int
	id, text string
}

func (c call) frame(e *h.Echo) string {
	switch c.kind {
	case bad:
		return e.Bad(c.id)
	case other:
		return h.Call(c.id, e.Other, "{}")
	}
	return e.Call(c.id, c.text)
}

func (c call) answered(e *h.Echo, s string) bool {
	switch c.kind {
	case bad:
		_, ok := h.IsError(s, c.id, "FormationViolation")
		return ok
	case other:
		_, ok := h.IsError(s, c.id, "NotSupported")
		return ok
	case failing:
		_, ok := h.IsError(s, c.id, "InternalError")
		return ok
	}
	return e.IsReply(s, c.id, c.text+"!")
}

// replies reads the replies to calls and looks at what the handler was given.
func replies(e *h.Echo, cs []call) {
	for _, c := range cs {
		s := e.P.Read()
		vp.Assert(s != "", "a call is not answered")
		vp.Assert(c.answered(e, s), "replies do not come in the order of the calls")
	}
	handled(e, cs)
}

// handled looks at what the handler was given.
func handled(e *h.Echo, cs []call) {
	vp.Quiesce()
	for _, c := range cs {
		if c.kind <= failing {
			vp.Assert(len(e.Calls) > 0, "a call is not handled")
			vp.Assert(<-e.Calls == c.text, "calls are not handled in the order they came")
		}
	}
	vp.Assert(len(e.Calls) == 0, "the handler is called more often than there are calls")
	_, more := e.P.Pending()
	vp.Assert(!more, "more replies than calls")
}

// some makes n calls of any kinds, one of them slow to be handled.
func some(w *watch, n int) []call {
	var cs []call
	w.fail = "failing" + vp.String("fail")
	for i := 0; i < n; i++ {
		c := call{kind: vp.Choice("kind", 4), id: "id" + strconv.Itoa(i), text: strconv.Itoa(i) + vp.String("text")}
		if c.kind == failing {
			c.text = w.fail
		}
		cs = append(cs, c)
	}
	return cs
}

// CheckOrder sends calls of all kinds without waiting for replies; the handler takes its time with one of them.
func CheckOrder() {
	w := &watch{}
	e := echo(w)
	n := 3
	if vp.Thorough() {
		n = 4
	}
	cs := some(w, n)
	w.slow = cs[vp.Choice("slow", n)].text
	w.delay = vp.Duration("delay", 0, 15*time.Second)
	binary := vp.Bool("binary")
	for _, c := range cs {
		e.Send(c.frame(e), binary)
	}
	replies(e, cs)
	vp.Reach("end")
}

// CheckSchedule sends calls without waiting for replies, under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckSchedule() {
	vp.Calm()
	w := &watch{slow: "0"}
	e := echo(w)
	var cs []call
	for i := 0; i < 2; i++ {
		cs = append(cs, call{kind: []int{good, bad, other}[vp.Choice("kind", 3)], id: "id" + strconv.Itoa(i), text: strconv.Itoa(i)})
	}
	cs = append(cs, call{kind: good, id: "last", text: "last"})
	vp.Busy()
	for _, c := range cs {
		e.Send(c.frame(e), false)
	}
	replies(e, cs)
	vp.Reach("end")
}

// CheckPaced sends calls with any pauses between them, longer or shorter than the handler takes.
func CheckPaced() {
	w := &watch{}
	e := echo(w)
	w.slow, w.delay = "0", 3*time.Second
	var cs []call
	for i := 0; i < 3; i++ {
		c := call{kind: []int{good, bad, other}[vp.Choice("kind", 3)], id: "id" + strconv.Itoa(i), text: strconv.Itoa(i)}
		if i == 0 {
			c.kind = good
		}
		cs = append(cs, c)
		e.Send(c.frame(e), false)
		vp.Sleep([]time.Duration{0, time.Second, 5 * time.Second, time.Minute}[vp.Choice("pause", 4)])
	}
	replies(e, cs)
	vp.Reach("end")
}

// CheckMany sends many calls of all kinds without waiting for replies.
func CheckMany() {
	vp.Calm()
	w := &watch{slow: "7", delay: time.Second, fail: "failing"}
	e := echo(w)
	n := 40
	if vp.Thorough() {
		n = 120
	}
	from := vp.Choice("from", 5)
	var cs []call
	for i := 0; i < n; i++ {
		c := call{kind: []int{good, good, bad, other, failing}[(i+from)%5], id: strconv.Itoa(i), text: strconv.Itoa(i)}
		if c.kind == failing {
			c.text = "failing"
		}
		cs = append(cs, c)
		e.Send(c.frame(e), false)
	}
	replies(e, cs)
	vp.Reach("end")
}

// CheckRequests makes calls in both directions: while the peer's calls are handled, requests are sent to it, and it answers them
// between its calls.
//
//vp: delays=1 thorough:delays=2
func CheckRequests() {
	vp.Calm()
	send, p, fromCP := h.Side()
	vp.Assert(p != nil, "no connection")
	_ = fromCP
	done := make(chan h.Answer, 2)
	n := 1 + vp.Choice("requests", 2)
	var req messages.Request = &csreq.ClearCache{}
	if fromCP {
		req = &cpreq.Heartbeat{}
	}
	vp.Busy()
	for i := 0; i < n; i++ {
		go func() {
			a, err := send(req)
			done <- h.Answer{Resp: a, Err: err}
		}()
	}
	for i := 0; i < n; i++ {
		id := p.ID("a request does not arrive")
		payload := `{"status":"Accepted"}`
		if fromCP {
			payload = `{"currentTime":"2020-01-01T00:00:00Z"}`
		}
		// an unknown call before and after the answer: it is refused in its place
		p.Write(h.Call("before"+strconv.Itoa(i), "Nothing", "{}"))
		p.Write(h.Result(id, payload))
		p.Write(h.Call("after"+strconv.Itoa(i), "Nothing", "{}"))
	}
	want := []string{}
	for i := 0; i < n; i++ {
		want = append(want, "before"+strconv.Itoa(i), "after"+strconv.Itoa(i))
	}
	for _, id := range want {
		_, ok := h.IsError(p.Read(), id, "NotSupported")
		vp.Assert(ok, "replies do not come in the order of the calls")
	}
	for i := 0; i < n; i++ {
		a := <-done
		vp.Assert(a.Err == nil && a.Resp != nil, "a request is not answered")
	}
	vp.Reach("end")
}

// CheckActions sends two calls of any two actions without waiting for a reply, the first one taking its time; they may be followed
// by a third like the first.
func CheckActions() {
	vp.Calm()
	fromCP := vp.Choice("side", 2) == 0
	var ms []spec.Msg
	for _, m := range spec.Msgs {
		if m.Table && m.FromCP == fromCP {
			ms = append(ms, m)
		}
	}
	var sent []messages.Request
	for i := 0; i < 2; i++ {
		m := ms[vp.Choice("message", len(ms))]
		s := spec.Side{Msg: m, Fields: m.Req}
		x := s.Make()
		vp.Fill("m"+strconv.Itoa(i), x, "full", false, spec.Optional(s.Fields), "")
		sent = append(sent, x.(messages.Request))
	}
	sent = append(sent, sent[0])
	w := &watch{delay: 5 * time.Second}
	var got []messages.Request
	handle := func(r messages.Request) error {
		w.slow = "other"
		if len(got)%2 == 0 {
			w.slow = "it"
		}
		w.handle("it")
		got = append(got, r)
		return errors.New("number " + strconv.Itoa(len(got)))
	}
	var p *h.Peer
	if fromCP {
		_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			return nil, handle(r)
		})
		p = h.MustDial(port, "/me")
	} else {
		_, p, _ = h.StartCP(h.Serve(), "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			return nil, handle(r)
		})
	}
	for i, r := range sent {
		p.Write(h.Call("id"+strconv.Itoa(i), r.Action(), h.JSON(r)))
	}
	for i := range sent {
		desc, ok := h.IsError(p.Read(), "id"+strconv.Itoa(i), "InternalError")
		vp.Assert(ok, "replies do not come in the order of the calls")
		vp.Assert(desc == "number "+strconv.Itoa(i+1), "calls are not handled in the order they came")
	}
	vp.Quiesce()
	vp.Assert(len(got) == len(sent), "calls are not handled once each")
	for i := range sent {
		vp.Assert(spec.SameType(got[i], sent[i]), "calls are not handled in the order they came")
	}
	vp.Reach("end")
}
