package c05

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckBurst sends more than a hundred calls of all sorts at once.
//
//vp: threads=400 delays=0 steps=40000000
func CheckBurst() {
	n := 130
	if vp.Thorough() {
		n = 300
	}
	h.EchoCS(h.Exclaim).Burst(n, "t")
	vp.Reach("end")
}

// CheckBig sends a call with a big payload, as a text or a binary message; the response or the error is as big.
//
//vp: steps=80000000
func CheckBig() {
	n := []int{4200, 70000, 1200000}[vp.Choice("size", 3)]
	big := strings.Repeat("x", n)
	fails := vp.Choice("fails", 2) == 1
	e := h.EchoCS(func(text string) (string, error) {
		if fails {
			return "", errors.New(text + "!")
		}
		return text + "!", nil
	})
	id, text := "id", "end"
	if vp.Choice("free", 2) == 1 {
		id, text = vp.Ident("id"), vp.Ident("text")
	}
	e.Send(e.Call(id, big+text), vp.Choice("binary", 2) == 1)
	reply := e.P.Read()
	vp.Assert(reply != "", "a big call is not answered")
	vp.Assert(len(e.Calls) == 1 && <-e.Calls == big+text, "the handler does not see a big call as it is")
	if fails {
		desc, ok := h.IsError(reply, id, "InternalError")
		vp.Assert(ok && desc == big+text+"!", "a big error text does not arrive as it is")
	} else {
		vp.Assert(e.IsReply(reply, id, big+text+"!"), "a big response does not arrive as it is")
	}
	e.Silent()
	fails = false
	e.One("2", "small")
	vp.Reach("end")
}

// CheckIdle leaves the connection alone for up to two hours before each of two calls.
//
//vp: samples=1
func CheckIdle() {
	h.Patience = 20 * time.Minute
	e := h.EchoCS(h.Exclaim)
	vp.Sleep(vp.Duration("first", 0, 2*time.Hour))
	e.One(vp.Ident("id"), vp.Ident("text"))
	vp.Sleep(vp.Duration("second", 0, 2*time.Hour))
	e.One("2", "again")
	e.Silent()
	vp.Reach("end")
}

// CheckSlow lets the handler take up to two hours; calls that come meanwhile wait.
//
//vp: samples=1
func CheckSlow() {
	h.Patience = 3 * time.Hour
	d := vp.Duration("handling", 0, 2*time.Hour)
	e := h.EchoCS(func(text string) (string, error) {
		if text != "quick" {
			vp.Sleep(d)
		}
		return text + "!", nil
	})
	id := vp.Ident("id")
	vp.Assume(id != "q")
	e.Send(e.Call(id, "slow"), false)
	more := vp.Choice("more", 2) == 1
	if more {
		e.Send(e.Call("q", "quick"), false)
	}
	seen := map[string]int{}
	for i := 0; i < 1 || more && i < 2; i++ {
		s := e.P.Read()
		vp.Assert(s != "", "a call that is handled slowly is not answered")
		switch {
		case e.IsReply(s, id, "slow!"):
			seen["slow"]++
		case e.IsReply(s, "q", "quick!"):
			seen["quick"]++
		}
	}
	vp.Assert(seen["slow"] == 1 && (!more || seen["quick"] == 1), "a call that is handled slowly is not answered once with the handler's response")
	for range seen {
		<-e.Calls
	}
	e.Silent()
	e.One("3", "quick")
	vp.Reach("end")
}

type odd struct{ s string }

func (o odd) Error() string { return o.s }

// handlerErrors are errors of all sorts.
func handlerErrors() error {
	text := vp.String("text")
	switch vp.Choice("error", 15) {
	case 0:
		return io.EOF
	case 1:
		return context.Canceled
	case 2:
		return context.DeadlineExceeded
	case 3:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 4:
		return &websocket.CloseError{Code: 1000, Text: "bye"}
	case 5:
		return websocket.ErrCloseSent
	case 6:
		return ws.ErrorCode("NotImplemented")
	case 7:
		return ws.NotSupported
	case 8:
		return fmt.Errorf("wrapped: %w", ws.FormationViolation)
	case 9:
		return odd{text}
	case 10:
		return &odd{"%s %d %!" + text}
	case 11:
		return errors.New("")
	case 12:
		return io.ErrUnexpectedEOF
	case 13:
		return ws.NewCallErrorMessage("other", ws.NotSupported, text)
	}
	return errors.New("line\nline" + text)
}

// CheckErrors lets the handler return errors of all sorts, with or without a response; twice, then a call is answered as usual.
func CheckErrors() {
	err := handlerErrors()
	both := ""
	if vp.Choice("both", 2) == 1 {
		both = "both"
	}
	e := h.EchoCS(func(text string) (string, error) {
		if text == "fail" {
			return both, err
		}
		return text + "!", nil
	})
	for i := 0; i < 2; i++ {
		id := vp.Ident("id")
		e.Send(e.Call(id, "fail"), false)
		s := e.P.Read()
		vp.Assert(s != "", "a call whose handler returns an error is not answered")
		desc, ok := h.IsError(s, id, "InternalError")
		vp.Assert(ok, "a call whose handler returns an error is not answered with InternalError")
		vp.Assert(desc == err.Error(), "a CallError does not carry the text of the handler's error")
		<-e.Calls
	}
	e.Silent()
	e.One("3", "fine")
	vp.Reach("end")
}

// CheckStyle writes a call in several ways that mean the same.
func CheckStyle() {
	e := h.EchoCS(h.Exclaim)
	action, payload := e.Parts("te\"x/t")
	esc := func(s string) string { return `"\u00` + fmt.Sprintf("%02x", s[0]) + s[1:] + `"` }
	s := ""
	switch vp.Choice("style", 8) {
	case 0:
		s = "[2,\"1\",\"" + action + "\"," + payload + "]"
	case 1:
		s = " [ 2 ,\t\"1\" ,\n\"" + action + "\" , " + payload + " ] \r\n"
	case 2:
		s = "[2,\"\\u0031\"," + esc(action) + "," + payload + "]"
	case 3:
		s = "[2,\"1\",\"" + action + "\"," + strings.Replace(payload, "/", "\\/", -1) + "]"
	case 4:
		s = "[2,\"1\",\"" + action + "\"," + strings.Replace(payload, ":", " : ", -1) + "]"
	case 5:
		s = "[2,\"1\",\"" + action + "\"," + strings.Replace(payload, "{", "{\n  ", -1) + "\n]\n"
	case 6:
		s = "[2,\"1\",\"" + action + "\"," + strings.Replace(payload, "te", "\\u0074e", -1) + "]"
	case 7:
		s = "[2.0,\"1\",\"" + action + "\"," + payload + "]"
	}
	e.Send(s, vp.Choice("binary", 2) == 1)
	e.Answered("1", "te\"x/t")
	e.Silent()
	vp.Reach("end")
}
