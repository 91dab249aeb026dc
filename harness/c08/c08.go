// Package c08 checks the registry of the connections of a central system.
package c08

import (
	"errors"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func handler(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	return nil, errors.New("handled")
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// live is what should be connected, the most recent last.
type live struct {
	who  string
	peer *h.Peer
	down <-chan struct{} // the disconnect channel obtained when this connection was the most recent one
}

// end ends a connection in one of the ways in which connections end.
func end(p *h.Peer, how int) {
	switch how {
	case 0:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
		vp.Quiesce()
		p.C.Close()
	case 1:
		p.C.Close()
	case 2:
		vp.Reset(p.C)
	case 3:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, "bye"))
		vp.Quiesce()
		p.C.Close()
	}
	vp.Quiesce()
}

func newest(ls []*live, who string) *live {
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].who == who {
			return ls[i]
		}
	}
	return nil
}

// check compares what the central system says about an identity with what it should.
func check(c cs.CentralSystem, ls []*live, who string) {
	n := newest(ls, who)
	svc, err := c.GetServiceOf(who, ocpp.V16, "")
	if n == nil {
		vp.Reach("not connected")
		vp.Assert(err != nil, "an identity without a live connection can be looked up")
		vp.Assert(!closed(c.WaitConnect(who)), "the connect channel of an identity without a live connection is closed")
		vp.Assert(closed(c.WaitDisconnect(who)), "the disconnect channel of an identity without a live connection is open")
	} else {
		vp.Reach("connected")
		vp.Assert(err == nil && svc != nil, "an identity with a live connection cannot be looked up")
		vp.Assert(closed(c.WaitConnect(who)), "the connect channel of an identity with a live connection is open")
		vp.Assert(!closed(c.WaitDisconnect(who)), "the disconnect channel of an identity with a live connection is closed")
		vp.Assert(!closed(n.down), "a disconnect channel closes although its connection is up")
	}
}

// command sends a command to an identity with a live connection.
func command(c cs.CentralSystem, ls []*live, who string) {
	n := newest(ls, who)
	svc, err := c.GetServiceOf(who, ocpp.V16, "")
	vp.Assert(err == nil, "an identity with a live connection cannot be looked up")
	type result struct {
		r   csresp.CentralSystemResponse
		err error
	}
	ch := make(chan result, 1)
	go func() {
		r, err := svc.Send(&csreq.ClearCache{})
		ch <- result{r, err}
	}()
	id := n.peer.ID("a command does not go to the most recent live connection")
	n.peer.Write(h.Result(id, `{"status":"Accepted"}`))
	select {
	case r := <-ch:
		vp.Assert(r.err == nil && r.r != nil, "a command over a live connection fails")
	case <-vp.After(h.Patience):
		vp.Assert(false, "a command over a live connection does not return")
	}
	vp.Reach("command")
}

func drop(ls []*live, i int) []*live {
	out := append([]*live{}, ls[:i]...)
	return append(out, ls[i+1:]...)
}

// CheckHistory lets two charge points connect and disconnect in any order and in any way, up to two connections each, and
// compares the central system with what it should know after every step.
func CheckHistory() {
	c, port := h.StartCS(handler)
	ids := []string{vp.Ident("one"), vp.Ident("two")}
	vp.Assume(ids[0] != ids[1])
	waiting := []<-chan struct{}{c.WaitConnect(ids[0]), c.WaitConnect(ids[1])}
	vp.Assert(!closed(waiting[0]) && !closed(waiting[1]), "the connect channel of an identity that never connected is closed")
	var ls []*live
	steps := 5
	if vp.Thorough() {
		steps = 7
	}
	max := 3
	for i := 0; i < steps; i++ {
		// connect one, connect two, or end one of the connections
		op := vp.Choice("step", 2+len(ls))
		if op < 2 {
			vp.Assume(len(ls) < max)
			p := h.MustDial(port, "/"+ids[op])
			vp.Quiesce()
			vp.Assert(closed(waiting[op]), "a connect channel does not close when a connection comes up")
			ls = append(ls, &live{ids[op], p, c.WaitDisconnect(ids[op])})
		} else {
			l := ls[op-2]
			last := newest(ls, l.who) == l
			end(l.peer, vp.Choice("how", 3))
			ls = drop(ls, op-2)
			vp.Assert(closed(l.down), "a disconnect channel does not close when its connection ends")
			if last && newest(ls, l.who) == nil {
				for j, id := range ids {
					if id == l.who {
						waiting[j] = c.WaitConnect(id)
					}
				}
			}
			if n := newest(ls, l.who); n != nil && last {
				vp.Reach("fall back")
			}
		}
		check(c, ls, ids[0])
		check(c, ls, ids[1])
	}
	for _, id := range ids {
		if newest(ls, id) != nil {
			command(c, ls, id)
		}
	}
}

// CheckOverlap lets connections of one or two charge points come up and end at the same time, under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckOverlap() {
	vp.Calm()
	c, port := h.StartCS(handler)
	ids := []string{"a", []string{"a", "b"}[vp.Choice("identities", 2)]}
	first := h.MustDial(port, "/"+ids[0])
	vp.Quiesce()
	up := c.WaitConnect(ids[1])
	vp.Busy()
	// the first connection ends while the second comes up
	done := make(chan bool, 1)
	how := vp.Choice("how", 2)
	go func() {
		if how == 0 {
			first.C.Close()
		} else {
			vp.Reset(first.C)
		}
		done <- true
	}()
	second := h.MustDial(port, "/"+ids[1])
	<-done
	vp.Quiesce()
	vp.Calm()
	vp.Assert(closed(up), "a connect channel does not close when a connection comes up")
	ls := []*live{{ids[1], second, c.WaitDisconnect(ids[1])}}
	check(c, ls, ids[1])
	check(c, ls, "c")
	if ids[0] != ids[1] {
		check(c, ls, ids[0])
	}
	command(c, ls, ids[1])
	end(second, 1)
	check(c, nil, ids[0])
	check(c, nil, ids[1])
	vp.Reach("end")
}

// CheckBoth lets two connections of one charge point end at the same time, under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckBoth() {
	vp.Calm()
	c, port := h.StartCS(handler)
	a := h.MustDial(port, "/a")
	vp.Quiesce()
	b := h.MustDial(port, "/a")
	vp.Quiesce()
	down := c.WaitDisconnect("a")
	n := vp.Choice("third", 2)
	vp.Busy()
	done := make(chan bool, 1)
	go func() {
		a.C.Close()
		done <- true
	}()
	b.C.Close()
	var ls []*live
	if n == 1 {
		p := h.MustDial(port, "/a")
		vp.Quiesce()
		ls = append(ls, &live{"a", p, c.WaitDisconnect("a")})
	}
	<-done
	vp.Quiesce()
	vp.Calm()
	vp.Assert(closed(down), "a disconnect channel does not close when its connection ends")
	check(c, ls, "a")
	if n == 1 {
		command(c, ls, "a")
	}
	again := h.MustDial(port, "/a")
	vp.Quiesce()
	ls = append(ls, &live{"a", again, c.WaitDisconnect("a")})
	check(c, ls, "a")
	command(c, ls, "a")
	vp.Reach("end")
}

// CheckWaiting waits for a connection and for its end from other goroutines, under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckWaiting() {
	vp.Calm()
	c, port := h.StartCS(handler)
	vp.Busy()
	events := make(chan string, 4)
	ready := make(chan bool, 1)
	go func() {
		<-c.WaitConnect("a")
		events <- "connected"
		svc, err := c.GetServiceOf("a", ocpp.V16, "")
		vp.Assert(err == nil && svc != nil, "an identity cannot be looked up although its connect channel is closed and it is connected")
		ch := c.WaitDisconnect("a")
		ready <- true
		<-ch
		events <- "disconnected"
	}()
	p := h.MustDial(port, "/a")
	select {
	case e := <-events:
		vp.Assert(e == "connected", "a disconnect comes before a connect")
	case <-vp.After(h.Patience):
		vp.Assert(false, "waiting for a connection does not end although it is up")
	}
	<-ready
	vp.Quiesce()
	vp.Assert(len(events) == 0, "a disconnect channel closes although its connection is up")
	p.C.Close()
	select {
	case <-events:
	case <-vp.After(h.Patience):
		vp.Assert(false, "waiting for a disconnection does not end although the connection has ended")
	}
	vp.Reach("end")
}

// CheckVersions looks up any identity for OCPP 1.5, and for a version that is none.
func CheckVersions() {
	c, port := h.StartCS(handler)
	who := vp.String("identity")
	svc, err := c.GetServiceOf(who, ocpp.V15, vp.String("url"))
	vp.Assert(err == nil && svc != nil, "looking up for OCPP 1.5 fails without a connection")
	v := ocpp.Version(vp.String("version"))
	vp.Assume(v != ocpp.V15 && v != ocpp.V16)
	p := h.MustDial(port, "/a")
	vp.Quiesce()
	_, err = c.GetServiceOf("a", v, "")
	vp.Assert(err != nil, "looking up for an unknown version succeeds")
	_, err = c.GetServiceOf(who, ocpp.V16, "")
	vp.Assert((err == nil) == (who == "a"), "looking up for OCPP 1.6 succeeds for something else than the connected identity")
	_ = p
	vp.Reach("end")
}
