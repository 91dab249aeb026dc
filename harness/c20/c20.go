// Package c20 checks how a JSON charge point reconnects, and that it stops when it is cancelled.
package c20

import (
	"context"
	"errors"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

const (
	interval = 5 * time.Second
	slack    = 2 * time.Second
)

// echo answers with the key of a request.
func echo(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	if c, ok := r.(*csreq.ChangeConfiguration); ok {
		return &csresp.ChangeConfiguration{Status: c.Key}, nil
	}
	return nil, errors.New("handled")
}

func is(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// up checks that the charge point is connected to p: its channels say so, it serves calls and sends requests over p.
func up(c cp.ChargePoint, p *h.Peer, when string) {
	vp.Quiesce()
	vp.Assert(is(c.WaitConnect()), "the connect channel of a connected charge point is open "+when)
	vp.Assert(!is(c.WaitDisconnect()), "the disconnect channel of a connected charge point is closed "+when)
	text := vp.Ident("text")
	p.Write(h.Call("call", "ChangeConfiguration", `{"key":"`+text+`","value":"v"}`))
	payload, ok := h.IsResult(p.Read(), "call")
	vp.Assert(ok && vp.SameJSON(payload, `{"status":"`+text+`"}`), "a connected charge point does not serve a call "+when)
	ch := make(chan error, 1)
	var resp cpresp.ChargePointResponse
	go func() {
		r, err := c.Send(&cpreq.DataTransfer{VendorId: text})
		resp = r
		ch <- err
	}()
	p.Write(h.Result(p.ID("a connected charge point does not send a request over its connection "+when), `{"status":"`+text+`"}`))
	select {
	case err := <-ch:
		vp.Assert(err == nil && resp.(*cpresp.DataTransfer).Status == text, "a request of a connected charge point fails "+when)
	case <-vp.After(h.Patience):
		vp.Assert(false, "a request of a connected charge point does not return "+when)
	}
}

// end ends a connection in one of the ways in which connections end.
func end(p *h.Peer, how int) {
	switch how {
	case 0:
		p.C.Close()
	case 1:
		vp.Reset(p.C)
	case 2:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, "bye"))
		vp.Quiesce()
		p.C.Close()
	case 3:
		p.Write(h.Call("last", "ClearCache", "{}"))
		p.C.Close()
	}
}

// down checks that the charge point knows that it is not connected.
func down(c cp.ChargePoint, old <-chan struct{}, when string) {
	vp.Assert(!is(c.WaitConnect()), "the connect channel of a disconnected charge point is closed "+when)
	vp.Assert(is(old), "a disconnect channel is open after its connection has ended "+when)
	vp.Assert(is(c.WaitDisconnect()), "the disconnect channel of a disconnected charge point is open "+when)
}

// CheckReconnect ends the connection and refuses a few dials before the next is accepted; the identity is any and the URL has a
// path or not.
func CheckReconnect() {
	s := h.Serve()
	id := vp.Ident("identity")
	path := []string{"", "/ocpp", "/a/b"}[vp.Choice("path", 3)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := cp.New(ctx, id, "ws://localhost"+s.Port+path, ocpp.V16, ocpp.JSON, nil, echo)
	vp.Assert(err == nil, "a charge point cannot be made although the central system accepts it")
	p := s.Accept()
	vp.Assert(p != nil && s.Dialled(), "a charge point does not connect")
	up(c, p, "at first")
	rounds := 2
	dials := 1
	for r := 0; r < rounds; r++ {
		n := vp.Choice("refused", 3)
		if vp.Thorough() {
			n = vp.Choice("refused", 5)
		}
		s.Refuse(n > 0)
		old, oldConnect := c.WaitDisconnect(), c.WaitConnect()
		how := vp.Choice("how", 4)
		end(p, how)
		var next <-chan struct{}
		for i := 0; i < n; i++ {
			vp.Assert(s.Dialled(), "a charge point does not dial every five seconds until it is connected")
			if i == n-1 {
				s.Refuse(false)
			}
			down(c, old, "while it reconnects")
			next = c.WaitConnect()
		}
		vp.Assert(s.Dialled(), "a charge point does not dial every five seconds until it is connected")
		p = s.Accept()
		vp.Assert(p != nil, "a charge point does not connect again")
		vp.Quiesce()
		dials += n + 1
		paths, times := s.Dials(), s.Times()
		vp.Assert(len(paths) == dials, "a charge point does not dial every five seconds until it is connected")
		for _, x := range paths {
			vp.Assert(x == path+"/"+id, "a charge point dials another URL or identity")
		}
		for i := dials - n; i < dials; i++ {
			gap := times[i] - times[i-1]
			vp.Assert(gap > interval-slack && gap < interval+slack, "a charge point does not dial five seconds apart")
		}
		vp.Assert(is(old), "a disconnect channel is open after its connection has ended")
		vp.Assert((next == nil || is(next)) && is(oldConnect), "a connect channel is open although the charge point is connected again")
		up(c, p, "after a reconnect")
	}
	_, more := p.Pending()
	vp.Assert(!more && c.Identity() == id, "a charge point writes something of its own accord")
	vp.Reach("end")
}

// CheckBusy ends the connection in the midst of traffic, with or without a refused dial, under varying schedules.
//
//vp: delays=2 thorough:delays=3
func CheckBusy() {
	vp.Calm()
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	s.Dialled()
	defer cancel()
	old := c.WaitDisconnect()
	s.Refuse(vp.Bool("refuse"))
	vp.Busy()
	switch vp.Choice("traffic", 3) {
	case 1:
		p.Write(h.Call("1", "ClearCache", "{}"))
	case 2:
		go c.Send(&cpreq.DataTransfer{VendorId: "v"})
	}
	if vp.Bool("reset") {
		vp.Reset(p.C)
	} else {
		p.C.Close()
	}
	vp.Assert(s.Dialled(), "a charge point does not dial again")
	s.Refuse(false)
	p = s.Accept()
	vp.Assert(p != nil, "a charge point does not connect again")
	vp.Quiesce()
	vp.Calm()
	vp.Assert(is(old), "a disconnect channel is open after its connection has ended")
	if _, more := p.Pending(); !more {
		up(c, p, "after a reconnect")
	}
	vp.Reach("end")
}

// CheckStopped ends the connection while nothing listens; later the central system comes back.
func CheckStopped() {
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	defer cancel()
	old := c.WaitDisconnect()
	s.Stop()
	end(p, vp.Choice("how", 4))
	vp.Quiesce()
	down(c, old, "while nothing listens")
	_, err := c.Send(&cpreq.DataTransfer{VendorId: "v"})
	vp.Assert(err != nil, "a request of a disconnected charge point yields no error")
	vp.Sleep(vp.Duration("outage", 0, 20*time.Second))
	vp.Assert(!is(c.WaitConnect()), "the connect channel of a disconnected charge point is closed")
	s.Start()
	p = s.Accept()
	vp.Assert(p != nil, "a charge point does not connect again")
	up(c, p, "after an outage")
	vp.Reach("end")
}

// silent checks that nothing comes from a cancelled charge point.
func silent(c cp.ChargePoint, s *h.Server, peers []*h.Peer) {
	vp.Quiesce()
	vp.Calm()
	dials := len(s.Dials())
	for {
		select {
		case p := <-s.Conns:
			peers = append(peers, p)
			continue
		default:
		}
		break
	}
	for _, p := range peers {
		vp.Assert(p.Ended(), "a cancelled charge point does not close its connection, or answers")
	}
	s.Refuse(false)
	for i := 0; i < 3; i++ {
		vp.Assert(!is(c.WaitConnect()), "the connect channel of a cancelled charge point is closed")
		vp.Assert(is(c.WaitDisconnect()), "the disconnect channel of a cancelled charge point is open")
		vp.Sleep(2 * interval)
	}
	vp.Quiesce()
	vp.Assert(len(s.Dials()) == dials && len(s.Conns) == 0, "a cancelled charge point dials")
	_, err := c.Send(&cpreq.DataTransfer{VendorId: "v"})
	vp.Assert(err != nil, "a request of a cancelled charge point yields no error")
	vp.Assert(vp.RepoGoroutines() == 0, "a goroutine of a cancelled charge point is left")
	vp.Reach("end")
}

// CheckCancel cancels a charge point that is idle, is being talked to, or has lost its connection and is about to notice.
//
//vp: delays=3 thorough:delays=4
func CheckCancel() {
	vp.Calm()
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	vp.Busy()
	kind := vp.Choice("kind", 6)
	switch kind {
	case 1:
		p.Write(h.Call("1", "ClearCache", "{}"))
	case 2:
		p.C.Close()
	case 3:
		vp.Reset(p.C)
	case 4:
		s.Refuse(true)
		p.C.Close()
	case 5:
		go c.Send(&cpreq.DataTransfer{VendorId: "v"})
	}
	cancel()
	vp.Quiesce()
	switch kind {
	case 1, 5:
		// what was under way when the cancellation came may have been written
		p.Pending()
		vp.Sleep(65 * time.Second)
	}
	silent(c, s, []*h.Peer{p})
}

// CheckCancelWait cancels a charge point at any time during its reconnecting, with dials refused or nobody listening.
func CheckCancelWait() {
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	if vp.Bool("stopped") {
		s.Stop()
	} else {
		s.Refuse(true)
	}
	end(p, vp.Choice("how", 4))
	vp.Quiesce()
	for {
		if _, more := p.Pending(); !more {
			break
		}
	}
	vp.Sleep(vp.Duration("delay", 0, 14*time.Second))
	cancel()
	vp.Quiesce()
	n := len(s.Dials())
	if vp.Bool("back") {
		s.Refuse(false)
		if !vp.Listening(s.Port) {
			s.Start()
		}
	}
	silent(c, s, []*h.Peer{p})
	vp.Assert(len(s.Dials()) == n, "a cancelled charge point dials")
}

// CheckCancelDial cancels a charge point while it dials; afterwards the dial is accepted or refused.
//
//vp: delays=3 thorough:delays=4
func CheckCancelDial() {
	vp.Calm()
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	hold := make(chan bool, 1)
	s.Hold(hold)
	p.C.Close()
	vp.Quiesce()
	vp.Assert(len(s.Dials()) == 2, "a charge point does not dial again at once")
	vp.Busy()
	cancel()
	accept := vp.Bool("accept")
	hold <- accept
	vp.Quiesce()
	s.Hold(nil)
	silent(c, s, []*h.Peer{p})
	vp.Assert(len(s.Dials()) == 2, "a cancelled charge point dials")
}

// CheckCancelHandler cancels a charge point while it handles a call; the handler returns afterwards.
//
//vp: delays=3 thorough:delays=4
func CheckCancelHandler() {
	vp.Calm()
	s := h.Serve()
	in, out := make(chan bool, 4), make(chan bool, 4)
	calls := 0
	c, p, cancel := h.StartCP(s, "me", func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		calls++
		in <- true
		<-out
		return echo(r)
	})
	p.Write(h.Call("1", "ClearCache", "{}"))
	second := vp.Bool("second")
	if second {
		p.Write(h.Call("2", "ClearCache", "{}"))
	}
	<-in
	vp.Busy()
	cancel()
	vp.Quiesce()
	out <- true
	out <- true
	vp.Quiesce()
	vp.Assert(calls == 1, "a cancelled charge point handles a call")
	silent(c, s, []*h.Peer{p})
}
