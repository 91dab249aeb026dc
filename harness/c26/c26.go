// Package c26 checks that loggers hear what happens, as it is, and change nothing.
package c26

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// logger keeps what it is told to print.
type logger struct {
	mu    sync.Mutex
	lines []line
}

// line is a line of text, or the texts that are printed in it as they are.
type line struct {
	whole string
	texts []string
}

func (l *logger) Printf(format string, v ...interface{}) {
	var x line
	if len(v) > 0 && plain(format) {
		for _, a := range v {
			switch a := a.(type) {
			case string:
				x.texts = append(x.texts, a)
			case error:
				x.texts = append(x.texts, a.Error())
			}
		}
	} else {
		x.whole = fmt.Sprintf(format, v...)
	}
	l.mu.Lock()
	l.lines = append(l.lines, x)
	l.mu.Unlock()
}

// plain says that a format prints all it is given in full.
func plain(format string) bool {
	for i := 0; i < len(format); i++ {
		if format[i] == '%' {
			i++
			if i == len(format) || format[i] != 's' && format[i] != 'v' && format[i] != 'd' {
				return false
			}
		}
	}
	return true
}

// told says whether a text was printed.
func (l *logger) told(text string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, x := range l.lines {
		for _, t := range x.texts {
			if t == text {
				return true
			}
		}
	}
	for _, x := range l.lines {
		for _, t := range append(x.texts, x.whole) {
			if strings.Contains(t, text) {
				return true
			}
		}
	}
	return false
}

func install() (debug, errs *logger) {
	debug, errs = &logger{}, &logger{}
	ocpp.SetDebugLogger(debug)
	ocpp.SetErrorLogger(errs)
	return debug, errs
}

func answer(fail string, r cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
	if fail != "" {
		return nil, errors.New(fail)
	}
	if a, ok := r.(*cpreq.Authorize); ok {
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: a.IdTag}}, nil
	}
	return nil, errors.New("handled")
}

// CheckSOAP sends a request over SOAP that is answered or fails with any text: the error logger is told the text, the debug logger
// both bodies, and the caller gets what it gets without loggers.
func CheckSOAP() {
	_, errs := install()
	text := spec.Long(vp.Text("error"))
	tag := vp.Text("tag")
	fail := ""
	if vp.Choice("fails", 2) == 1 {
		fail = text
	}
	var send h.Sender
	up := vp.Choice("to", 2) == 0
	c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return answer(fail, r)
	})
	p := h.Join(false, port, "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if fail != "" {
			return nil, errors.New(fail)
		}
		return &csresp.ChangeConfiguration{Status: r.(*csreq.ChangeConfiguration).Key}, nil
	})
	send = p.Down(c, "me")
	got := ""
	var err error
	if up {
		a, e := p.Up(&cpreq.Authorize{IdTag: tag})
		err = e
		if r, ok := a.(*cpresp.Authorize); ok && r.IdTagInfo != nil {
			got = r.IdTagInfo.Status
		}
	} else {
		a, e := send(&csreq.ChangeConfiguration{Key: tag})
		err = e
		if r, ok := a.(*csresp.ChangeConfiguration); ok {
			got = r.Status
		}
	}
	vp.Quiesce()
	if fail == "" {
		vp.Reach("answered")
		vp.Assert(err == nil && got == tag, "with loggers, a request over SOAP does not get its answer")
		vp.Assert(len(errs.lines) == 0, "an error is logged although all went well")
		return
	}
	vp.Reach("failed")
	vp.Assert(err != nil && err.Error() == text, "with loggers, the error of a SOAP handler does not arrive")
	vp.Assert(errs.told(text), "the error of a SOAP handler is not logged as it is")
}

// CheckBodies posts any request over SOAP: the debug logger is told its text.
func CheckBodies() {
	debug, _ := install()
	var ms []spec.Side
	for _, s := range spec.Sides15() {
		if s.FromCP && !s.Resp {
			ms = append(ms, s)
		}
	}
	s := ms[vp.Choice("message", len(ms))]
	m := s.Make()
	vp.Fill("m", m, "full", true, spec.Optional(s.Fields), "")
	doc := spec.XDoc(s, m, vp.Choice("prefixed", 2) == 1)
	if vp.Choice("good", 2) == 1 {
		doc = "<100% no document %d"
	}
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	resp, err := http.Post("http://localhost"+port+"/", "application/soap+xml", strings.NewReader(doc))
	vp.Assert(err == nil, "with loggers, a SOAP request is not answered")
	resp.Body.Close()
	vp.Quiesce()
	vp.Assert(debug.told(doc), "a SOAP request is not logged as it came")
}

// CheckJSON sends any call, reply or bad message over a websocket to a central system or charge point: the debug logger is told
// its text, and that of the answer; what is answered does not depend on the loggers.
func CheckJSON() {
	debug, _ := install()
	text := spec.Long(vp.String("text"))
	kind := vp.Choice("message", 5)
	var e *h.Echo
	if vp.Choice("side", 2) == 0 {
		e = h.EchoCS(h.Exclaim)
	} else {
		e = h.EchoCP(h.Exclaim)
	}
	frame := ""
	switch kind {
	case 0:
		frame = e.Call("one", text)
	case 1:
		frame = h.Result("one", h.JSON(map[string]string{"x": text}))
	case 2:
		frame = h.Error("one", "GenericError", text, "{}")
	case 3:
		frame = h.Call("one", e.Other, h.JSON(map[string]string{"x": text}))
	case 4:
		frame = `["` + "100%d %s %" + `", ` + h.JSON(text) + `]`
	}
	e.Send(frame, false)
	if kind == 0 || kind == 3 {
		reply := e.P.Read()
		vp.Assert(reply != "", "with loggers, a call is not answered")
		vp.Assert(kind == 3 || e.IsReply(reply, "one", text+"!"), "with loggers, a call is not answered with the handler's response to it")
		vp.Quiesce()
		vp.Assert(debug.told(reply), "a message is not logged as it is sent")
	}
	if kind == 0 {
		vp.Assert(<-e.Calls == text, "with loggers, the handler sees another request")
	}
	vp.Quiesce()
	vp.Assert(debug.told(frame), "a message is not logged as it came")
	e.One("two", "again")
}

// CheckClient sends a request of either side over a websocket: the debug logger is told its text and that of the answer.
func CheckClient() {
	debug, _ := install()
	send, p, fromCP := h.Side()
	text := spec.Long(vp.String("text"))
	var r messages.Request = &csreq.ChangeConfiguration{Key: text, Value: "x"}
	payload := h.JSON(map[string]string{"status": text})
	if fromCP {
		r = &cpreq.Authorize{IdTag: text}
		payload = h.JSON(map[string]interface{}{"idTagInfo": map[string]string{"status": text}})
	}
	ch := h.Go(send, r)
	frame := p.Read()
	vp.Assert(frame != "", "with loggers, a request is not sent")
	f, ok := h.Parse(frame)
	vp.Assert(ok, "with loggers, a request is not sent as a frame")
	answer := h.Result(f.ID, payload)
	p.Write(answer)
	a := h.Await(ch, "with loggers, a request does not get its answer")
	got := ""
	switch x := a.Resp.(type) {
	case *cpresp.Authorize:
		got = x.IdTagInfo.Status
	case *csresp.ChangeConfiguration:
		got = x.Status
	}
	vp.Assert(a.Err == nil && got == text, "with loggers, a request gets another answer")
	vp.Quiesce()
	vp.Assert(debug.told(frame), "a message is not logged as it is sent")
	vp.Assert(debug.told(answer), "a message is not logged as it came")
}
