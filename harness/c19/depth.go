package c19

import (
	"strconv"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckLong sends more than a hundred requests one after the other, then counts what is left.
//
//vp: threads=900 delays=0 steps=40000000
func CheckLong() {
	send, p, fromCP := h.Side()
	vp.Calm()
	kind := vp.Choice("kind", 3)
	var l left
	for i := 0; i < 130; i++ {
		if i < 2 {
			l = before()
		}
		ch := begin(send, request(fromCP))
		id := p.ID("a request is not written")
		if kind == 1 || kind == 2 && i%2 == 0 {
			p.Write(h.Error(id, "GenericError", "", "{}"))
			t := await(ch)
			vp.Assert(t.Err != nil && t.took <= slack, "a request answered with an error does not return it")
		} else {
			p.Write(h.Result(id, `{"status":"ok"}`))
			await(ch).answered("ok", 0)
		}
	}
	l.after()
	alive(send, p, fromCP)
	vp.Reach("end")
}

// CheckTimeouts lets requests time out one after the other, or all at once; then the answers come; then all goes on.
//
//vp: threads=900 delays=0 steps=40000000 samples=1
func CheckTimeouts() {
	send, p, fromCP := h.Side()
	vp.Calm()
	l := before()
	n := 12
	together := vp.Choice("together", 2) == 1
	var chs []chan timed
	var ids []string
	for i := 0; i < n; i++ {
		ch := begin(send, request(fromCP))
		ids = append(ids, p.ID("a request is not written"))
		chs = append(chs, ch)
		if !together {
			await(ch).expired()
		}
	}
	for i := range chs {
		if together {
			await(chs[i]).expired()
		}
	}
	l.after()
	for _, id := range ids {
		p.Write(h.Result(id, `{"status":"late"}`))
	}
	l.after()
	alive(send, p, fromCP)
	l.after()
	vp.Reach("end")
}

// CheckTraffic has other traffic every two seconds while a request waits, which is answered after some time or not at all.
//
//vp: delays=0 steps=40000000 samples=1
func CheckTraffic() {
	send, p, fromCP := h.Side()
	vp.Calm()
	kind := vp.Choice("kind", 5)
	d := vp.Duration("delay", 0, 2*timeout)
	vp.Assume(d <= timeout-slack || d >= timeout+slack)
	ch := begin(send, request(fromCP))
	id := p.ID("a request is not written")
	over := make(chan bool, 1)
	go func() {
		vp.Sleep(d)
		p.Write(h.Result(id, `{"status":"ok"}`))
		over <- true
	}()
	for i := 0; i < 35; i++ {
		switch kind {
		case 0:
			p.Write(h.Call("c"+strconv.Itoa(i), "Nonsense", "{}"))
		case 1:
			p.Write("[2]")
		case 2:
			p.Write(h.Result("c"+strconv.Itoa(i), `{"status":"other"}`))
		case 3:
			p.C.WriteMessage(websocket.BinaryMessage, []byte("junk"))
		case 4:
			p.C.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Minute))
		}
		vp.Sleep(2 * time.Second)
	}
	t := await(ch)
	if d < timeout {
		t.answered("ok", d)
	} else {
		t.expired()
	}
	select {
	case <-over:
	case <-vp.After(2 * timeout):
	}
	vp.Reach("end")
}

// CheckOld sends a request over a connection that has been idle for up to two hours; it is answered after some time or never.
//
//vp: samples=1
func CheckOld() {
	send, p, fromCP := h.Side()
	vp.Calm()
	h.Patience = 20 * time.Minute
	vp.Sleep(vp.Duration("idle", 0, 2*time.Hour))
	ch := begin(send, request(fromCP))
	id := p.ID("a request is not written")
	if vp.Choice("answered", 2) == 1 {
		p.Write(h.Result(id, `{"status":"ok"}`))
		a := <-ch
		vp.Assert(a.Err == nil && a.took <= timeout/2, "a request that is answered at once does not return its answer")
	} else {
		a := <-ch
		vp.Assert(a.Err != nil && a.Resp == nil, "a request that is not answered in time returns no error")
		vp.Assert(a.took <= 2*timeout, "a request waits beyond its timeout")
	}
	vp.Reach("end")
}

// CheckStalled sends requests to a peer that has stopped reading, for some time or for good, so that they cannot be written.
//
//vp: delays=1 thorough:delays=2
func CheckStalled() {
	send, p, fromCP := h.Side()
	vp.Calm()
	l := before()
	p.Stall()
	first := begin(send, request(fromCP))
	id := p.ID("a request is not written")
	p.Stalled()
	vp.Busy()
	d := vp.Duration("delay", 0, 2*timeout)
	vp.Assume(d <= timeout-2*slack || d >= timeout+2*slack)
	bulk := begin(send, bulk(fromCP))
	vp.Calm()
	vp.Quiesce()
	behind := begin(send, request(fromCP))
	answered := vp.Bool("answered")
	if answered {
		p.Write(h.Result(id, `{"status":"first"}`))
		await(first).answered("first", slack)
	}
	vp.Sleep(d)
	p.Resume()
	if d >= timeout {
		await(bulk).expired()
		await(behind).expired()
	} else {
		for i := 0; i < 2; i++ {
			p.Write(h.Result(p.ID("a request is not written"), `{"status":"ok"}`))
		}
		await(bulk).answered("ok", d)
		await(behind).answered("ok", d)
	}
	if !answered {
		await(first).expired()
	}
	l.after()
	if d < timeout {
		alive(send, p, fromCP)
	}
	vp.Reach("end")
}

func bulk(fromCP bool) messages.Request {
	if fromCP {
		return &cpreq.DataTransfer{VendorId: "v", Data: vp.Bulk()}
	}
	return &csreq.DataTransfer{VendorId: "v", Data: vp.Bulk()}
}
