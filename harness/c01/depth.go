package c01

import (
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func echo() *h.Echo {
	if vp.Choice("side", 2) == 0 {
		return h.EchoCS(h.Exclaim)
	}
	return h.EchoCP(h.Exclaim)
}

// bad lists messages that are no frames, one of each sort.
func bad(n int) string {
	return []string{
		``,
		`nonsense`,
		`{`,
		`null`,
		`[]`,
		`[2]`,
		`[2,"1"]`,
		`[2,"1","Heartbeat"]`,
		`[2,1,"Heartbeat",{}]`,
		`[3]`,
		`[3,"1"]`,
		`[3,null,{}]`,
		`[4,"1"]`,
		`[4,"1","InternalError"]`,
		`[4,"1",5,"d",{}]`,
		`[5,"1","x",{}]`,
		`[-1]`,
		`["2","1","Heartbeat",{}]`,
		`[2,"1",{},"Heartbeat"]`,
		"\xff\xfe\x00",
		`[2,"1","Heartbeat",{}]]`,
	}[n]
}

// CheckMany sends a bad message of one sort more than a hundred times, then a call.
//
//vp: steps=40000000 threads=900
func CheckMany() {
	e := echo()
	vp.Calm()
	msg, binary := bad(vp.Choice("bad", 21)), vp.Choice("binary", 2) == 1
	if !binary && msg == "\xff\xfe\x00" {
		return // a text message is UTF-8
	}
	for i := 0; i < 130; i++ {
		e.Send(msg, binary)
	}
	e.One(vp.Ident("id"), vp.Ident("text"))
	for i := 0; i < 130; i++ {
		e.Send(msg, binary)
		e.Send(bad(i%19), false)
	}
	e.One("2", "again")
	e.Silent()
	vp.Reach("end")
}

// CheckBig sends a bad message of up to more than a megabyte, then a call, then a big call.
//
//vp: steps=80000000
func CheckBig() {
	e := echo()
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)])
	kind := websocket.TextMessage
	if vp.Choice("binary", 2) == 1 {
		kind = websocket.BinaryMessage
	}
	msg := big
	switch vp.Choice("bad", 5) {
	case 0:
		msg = `["` + big + `"]`
	case 1:
		msg = `[2,"` + big + `"]`
	case 2:
		msg = `[2,"1","Heartbeat",{},` // cut off
	case 3:
		msg = strings.Repeat("[", len(big))
	}
	vp.Assert(e.P.C.WriteMessage(kind, []byte(msg)) == nil, "the connection does not take a message")
	e.One(vp.Ident("id"), vp.Ident("text"))
	e.One("2", big)
	e.Silent()
	vp.Reach("end")
}

// CheckIdle leaves the connection alone for up to two hours before and after a bad message.
//
//vp: samples=1
func CheckIdle() {
	h.Patience = 20 * time.Minute
	e := echo()
	vp.Sleep(vp.Duration("before", 0, 2*time.Hour))
	e.Send(bad(vp.Choice("bad", 19)), false)
	vp.Sleep(vp.Duration("after", 0, 2*time.Hour))
	e.One(vp.Ident("id"), vp.Ident("text"))
	e.Silent()
	vp.Reach("end")
}

// CheckControl mixes pings, pongs and empty messages with bad messages and calls.
func CheckControl() {
	e := echo()
	for i := 0; i < 3; i++ {
		switch vp.Choice("what", 5) {
		case 0:
			e.P.C.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(time.Minute))
		case 1:
			e.P.C.WriteControl(websocket.PongMessage, []byte("pong"), time.Now().Add(time.Minute))
		case 2:
			e.Send("", true)
		case 3:
			e.Send(bad(5), false)
		case 4:
			e.One(vp.Ident("id"), vp.Ident("text"))
		}
	}
	e.One("last", "last")
	e.Silent()
	vp.Reach("end")
}
