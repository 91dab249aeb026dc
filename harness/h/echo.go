package h

import (
	"encoding/json"
	"errors"
	"strconv"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Echo is a central system or a charge point whose handler is given one text of a call and answers with a text or an error.
type Echo struct {
	P     *Peer
	Port  string      // of the central system
	Calls chan string // the texts the handler was given
	Other string      // an action that this side does not know
	cs    bool
	port  string
}

// EchoCS starts a central system that a charge point is connected to.
func EchoCS(handler func(text string) (string, error)) *Echo {
	e := &Echo{Calls: make(chan string, 512), cs: true, Other: "ClearCache"}
	_, e.Port = StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("unexpected")
		}
		e.Calls <- a.IdTag
		text, err := handler(a.IdTag)
		if text == "" {
			return nil, err
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: text}}, err
	})
	e.P = MustDial(e.Port, "/echo")
	return e
}

// EchoCP starts a charge point that is connected to a central system.
func EchoCP(handler func(text string) (string, error)) *Echo {
	e := &Echo{Calls: make(chan string, 512), Other: "Heartbeat"}
	_, e.P, _ = StartCP(Serve(), "echo", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		a, ok := r.(*csreq.ChangeConfiguration)
		if !ok {
			return nil, errors.New("unexpected")
		}
		e.Calls <- a.Value
		text, err := handler(a.Value)
		if text == "" {
			return nil, err
		}
		return &csresp.ChangeConfiguration{Status: text}, err
	})
	return e
}

// Parts are the action and the payload of the Call frame that carries a text.
func (e *Echo) Parts(text string) (action, payload string) {
	if e.cs {
		return "Authorize", JSON(map[string]string{"idTag": text})
	}
	return "ChangeConfiguration", JSON(map[string]string{"key": "k", "value": text})
}

// Call is the Call frame that carries a text.
func (e *Echo) Call(id, text string) string {
	action, payload := e.Parts(text)
	return Call(id, action, payload)
}

// Bad is a Call frame that does not decode.
func (e *Echo) Bad(id string) string {
	if e.cs {
		return Call(id, "Authorize", `{"idTag":1}`)
	}
	return Call(id, "ChangeConfiguration", `{"key":"k","value":1}`)
}

// IsReply reports whether s is the CallResult of a call with the text of a response.
func (e *Echo) IsReply(s, id, text string) bool {
	payload, ok := IsResult(s, id)
	if !ok {
		return false
	}
	if e.cs {
		var r cpresp.Authorize
		return json.Unmarshal([]byte(payload), &r) == nil && r.IdTagInfo != nil && r.IdTagInfo.Status == text
	}
	var r csresp.ChangeConfiguration
	return json.Unmarshal([]byte(payload), &r) == nil && r.Status == text
}

// Send writes a frame as a text or a binary message.
func (e *Echo) Send(s string, binary bool) {
	kind := websocket.TextMessage
	if binary {
		kind = websocket.BinaryMessage
	}
	vp.Assert(e.P.C.WriteMessage(kind, []byte(s)) == nil, "the connection does not take a message")
}

// One makes a call and expects the answer text+"!", and nothing else; the handler has to be given the text once.
func (e *Echo) One(id, text string) {
	e.Send(e.Call(id, text), false)
	e.Answered(id, text)
}

// Answered waits for the answer to a call.
func (e *Echo) Answered(id, text string) {
	s := e.P.Read()
	vp.Assert(s != "", "a call is not answered")
	vp.Assert(e.IsReply(s, id, text+"!"), "a call is not answered with the handler's response to it")
	vp.Assert(len(e.Calls) == 1, "the handler is not called exactly once")
	vp.Assert(<-e.Calls == text, "the handler sees another request")
}

// Silent expects that nothing more comes.
func (e *Echo) Silent() {
	vp.Quiesce()
	_, more := e.P.Pending()
	vp.Assert(!more, "more replies than calls")
	vp.Assert(len(e.Calls) == 0, "the handler is called more often than there are calls")
}

// Exclaim is the handler One expects.
func Exclaim(text string) (string, error) { return text + "!", nil }

// Burst sends n calls of all sorts without waiting, then reads the replies in any order.
func (e *Echo) Burst(n int, text string) {
	vp.Calm()
	for i := 0; i < n; i++ {
		id := num(i)
		switch i % 4 {
		case 0:
			e.Send(Call(id, e.Other, "{}"), false)
		case 1:
			e.Send(e.Bad(id), false)
		default:
			e.Send(e.Call(id, text+id), i%8 == 2)
		}
	}
	seen := map[string]int{}
	for i := 0; i < n; i++ {
		s := e.P.Read()
		f, ok := Parse(s)
		vp.Assert(ok, "a call of many is not answered")
		k := index(f.ID, n)
		vp.Assert(k >= 0, "a reply carries an id that no call has")
		seen[f.ID]++
		vp.Assert(seen[f.ID] == 1, "a call is answered twice")
		switch k % 4 {
		case 0:
			_, ok = IsError(s, f.ID, "NotSupported")
		case 1:
			_, ok = IsError(s, f.ID, "FormationViolation")
		default:
			ok = e.IsReply(s, f.ID, text+f.ID+"!")
		}
		vp.Assert(ok, "a call of many is not answered properly")
	}
	got := map[string]int{}
	for len(e.Calls) > 0 {
		got[<-e.Calls]++
	}
	for i := 0; i < n; i++ {
		want := 0
		if i%4 > 1 {
			want = 1
		}
		vp.Assert(got[text+num(i)] == want, "the handler is not called exactly once for each call")
	}
	e.Silent()
	e.One("last", "last")
}

func num(i int) string { return strconv.Itoa(i) }

func index(id string, n int) int {
	for i := 0; i < n; i++ {
		if num(i) == id {
			return i
		}
	}
	return -1
}
