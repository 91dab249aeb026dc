// Package c25 checks that requests and answers travel unchanged between a central system and a charge point of the library.
package c25

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/pair"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckRequest sends every request, over either transport, with one field at a time being free.
func CheckRequest() {
	json := vp.Choice("transport", 2) == 0
	m := pair.Pick(json)
	resp := pair.Fill("resp", json, m, true, false).(messages.Response)
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) { return resp, nil })
	check(e, json, m, pair.Fill("req", json, m, false, true).(messages.Request), resp)
	vp.Reach("end")
}

// CheckResponse answers every request, over either transport, with one field at a time of the response being free.
func CheckResponse() {
	json := vp.Choice("transport", 2) == 0
	m := pair.Pick(json)
	resp := pair.Fill("resp", json, m, true, true).(messages.Response)
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) { return resp, nil })
	check(e, json, m, pair.Fill("req", json, m, false, false).(messages.Request), resp)
	vp.Reach("end")
}

func check(e *pair.Ends, json bool, m spec.Msg, req messages.Request, resp messages.Response) {
	n := len(e.Arrived())
	a, err := e.Sender(m.FromCP)(req)
	got := e.Arrived()
	vp.Assert(len(got) > n, "a request does not arrive at the handler")
	vp.Assert(len(got) == n+1, "a request arrives at the handler more than once")
	vp.Assert(spec.SameType(got[n], req), "a request arrives as one of another type")
	vp.Assert(pair.Same(json, got[n], req), "a request arrives with other content")
	vp.Assert(err == nil, "the response of the handler does not arrive")
	vp.Assert(a != nil && spec.SameType(a, resp), "a response arrives as one of another type")
	vp.Assert(pair.Same(json, a, resp), "a response arrives with other content")
}

// CheckError has the handler answer with an error of any text; the next request is answered as usual.
func CheckError() {
	json := vp.Choice("transport", 2) == 0
	m := pair.Pick(json)
	text := ""
	if json {
		text = spec.Long(vp.String("error"))
	} else {
		text = spec.Long(vp.Text("error"))
	}
	resp := pair.Fill("resp", json, m, true, false).(messages.Response)
	both := vp.Choice("response too", 2) == 1
	fail := true
	e := pair.Start(json, func(messages.Request, bool) (messages.Response, error) {
		if !fail {
			return resp, nil
		}
		fail = false
		if both {
			return resp, errors.New(text)
		}
		return nil, errors.New(text)
	})
	req := pair.Fill("req", json, m, false, false).(messages.Request)
	a, err := e.Sender(m.FromCP)(req)
	vp.Assert(len(e.Arrived()) == 1, "a request does not arrive at the handler once")
	vp.Assert(err != nil, "the error of the handler does not arrive")
	vp.Assert(a == nil, "a response arrives although the handler failed")
	if json {
		vp.Assert(strings.Contains(err.Error(), text), "the error of the handler arrives with another text")
	} else {
		vp.Assert(err.Error() == text, "the error of the handler arrives with another text")
	}
	check(e, json, m, req, resp)
	vp.Reach("end")
}

// echo answers a request with what it holds.
func echo(r messages.Request, fromCP bool) (messages.Response, error) {
	switch r := r.(type) {
	case *cpreq.Authorize:
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted", ParentIdTag: r.IdTag + "!"}}, nil
	case *csreq.ChangeConfiguration:
		return &csresp.ChangeConfiguration{Status: r.Key + "!"}, nil
	}
	return nil, errors.New("another request arrives")
}

// ask sends a request that holds a text, and looks for it in the answer.
func ask(e *pair.Ends, fromCP bool, text string) bool {
	if fromCP {
		a, err := e.Up(&cpreq.Authorize{IdTag: text})
		r, ok := a.(*cpresp.Authorize)
		return err == nil && ok && r.IdTagInfo != nil && r.IdTagInfo.ParentIdTag == text+"!"
	}
	a, err := e.Down(&csreq.ChangeConfiguration{Key: text, Value: "x"})
	r, ok := a.(*csresp.ChangeConfiguration)
	return err == nil && ok && r.Status == text+"!"
}

// CheckTogether sends two requests in either direction, and one in the other, at the same time; handlers take some time.
//
//vp: delays=2 thorough:delays=3
func CheckTogether() {
	json := vp.Choice("transport", 2) == 0
	slow := vp.Duration("slow", 0, 15*time.Second)
	e := pair.Start(json, func(r messages.Request, fromCP bool) (messages.Response, error) {
		if fromCP {
			vp.Sleep(slow)
		}
		return echo(r, fromCP)
	})
	dirs := []bool{true, true, false}
	if vp.Choice("directions", 2) == 1 {
		dirs = []bool{false, false, true}
	}
	texts := []string{vp.Ident("first"), vp.Ident("second"), vp.Ident("third")}
	ok := make(chan bool, 3)
	for i := range dirs {
		i := i
		go func() { ok <- ask(e, dirs[i], texts[i]) }()
	}
	for range dirs {
		select {
		case o := <-ok:
			vp.Assert(o, "one of several requests at the same time does not get its answer")
		case <-vp.After(65 * time.Second):
			vp.Assert(false, "one of several requests at the same time gets nothing")
		}
	}
	vp.Assert(len(e.Arrived()) == 3, "several requests at the same time do not arrive once each")
	vp.Reach("end")
}

// CheckMany sends more than a hundred requests, in both directions, some after a pause.
//
//vp: threads=600
func CheckMany() {
	json := vp.Choice("transport", 2) == 0
	e := pair.Start(json, echo)
	pause := vp.Duration("pause", 0, 2*time.Hour)
	order := vp.Choice("order", 3)
	free := ""
	if json {
		free = vp.String("text")
	} else {
		free = vp.Text("text")
	}
	n := 120
	if !json {
		n = 40
	}
	for i := 0; i < n; i++ {
		text := strconv.Itoa(i)
		if i == 0 || i == n-1 {
			text = free
		}
		if i == n/2 {
			vp.Sleep(pause)
		}
		up := i%2 == 0
		if order > 0 {
			up = (i < n/2) == (order == 1)
		}
		vp.Assert(ask(e, up, text), "one of many requests does not get its answer")
	}
	vp.Assert(len(e.Arrived()) == n, "many requests do not arrive once each")
	vp.Reach("end")
}
