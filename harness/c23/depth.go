package c23

import (
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckIdle leaves a connection alone for up to two hours, perhaps with pings, before and after it talks.
//
//vp: delays=0 samples=1
func CheckIdle() {
	e := start(vp.Choice("charge point", 2) == 1)
	idle := count()
	p := e.connect()
	up := count()
	h.Patience = 20 * time.Minute
	vp.Sleep(vp.Duration("idle", 0, 2*time.Hour))
	vp.Assert(count() <= up, "the goroutines of a connection grow with time")
	e.talk(p, []int{0, 3, 6, 8}[vp.Choice("kind", 4)])
	if vp.Choice("ping", 2) == 1 {
		for i := 0; i < 5; i++ {
			p.C.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Hour))
			vp.Sleep(10 * time.Minute)
		}
	}
	vp.Assert(count() <= up+2, "the goroutines of a connection grow with its messages")
	how := []int{0, 2, 4}[vp.Choice("how", 3)]
	vp.Assume(how < e.ways())
	e.over(p, how, idle, up)
}

// CheckLong exchanges twenty-five messages of one or of all kinds.
//
//vp: delays=0 steps=40000000 threads=900 samples=1
func CheckLong() {
	e := start(vp.Choice("charge point", 2) == 1)
	idle := count()
	p := e.connect()
	up := count()
	kind := vp.Choice("kind", kinds)
	n := 25
	if kind == 11 {
		n = 2
	}
	for i := 0; i < n; i++ {
		k := kind
		if kind == 7 {
			k = i % 11
		}
		e.talk(p, k)
	}
	vp.Assert(count() <= up+2, "the goroutines of a connection grow with its messages")
	e.over(p, 1, idle, up)
}

// CheckUnread sends thirty calls, bad messages or stray replies without reading the answers, and ends the connection.
//
//vp: delays=0 steps=40000000 threads=900 samples=1
func CheckUnread() {
	e := start(vp.Choice("charge point", 2) == 1)
	idle := count()
	p := e.connect()
	up := count()
	kind := vp.Choice("kind", 4)
	for i := 0; i < 30; i++ {
		switch kind {
		case 0:
			p.Write(e.call("1"))
		case 1:
			p.Write(h.Call("1", "Foo", "{}"))
		case 2:
			p.Write("[]")
		case 3:
			p.Write(h.Result("x", "{}"))
		}
	}
	if vp.Choice("settled", 2) == 1 {
		vp.Quiesce()
	}
	how := vp.Choice("how", 3)
	if kind < 2 {
		for i := 0; i < 30; i++ {
			p.Read()
		}
	}
	e.over(p, how, idle, up)
}
