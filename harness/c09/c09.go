// Package c09 checks the announcements of connections and disconnections.
package c09

import (
	"errors"
	"net/http"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func handler(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	return nil, errors.New("handled")
}

type log struct {
	mu       sync.Mutex
	up, down []string
}

func (l *log) connected(id string) {
	l.mu.Lock()
	l.up = append(l.up, id)
	l.mu.Unlock()
}

func (l *log) disconnected(id string) {
	l.mu.Lock()
	l.down = append(l.down, id)
	l.mu.Unlock()
}

// count says how often an identity was announced as connected and as disconnected, and the number of all announcements.
func (l *log) count(id string) (up, down, all int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, s := range l.up {
		if s == id {
			up++
		}
	}
	for _, s := range l.down {
		if s == id {
			down++
		}
	}
	return up, down, len(l.up) + len(l.down)
}

func (l *log) expect(id string, up, down, all int, when string) {
	u, d, a := l.count(id)
	vp.Assert(u >= up, "a connection is not announced "+when)
	vp.Assert(u <= up, "a connection is announced more than once "+when)
	vp.Assert(d >= down, "a disconnection is not announced "+when)
	vp.Assert(d <= down, "a disconnection is announced too often or too early "+when)
	vp.Assert(a == all, "another identity is announced "+when)
}

func start() (*log, string) {
	c, port := h.StartCS(handler)
	l := &log{}
	c.SetChargePointConnectionListener(l.connected)
	c.SetChargePointDisconnectionListener(l.disconnected)
	return l, port
}

// end ends a connection in one of the ways in which connections end.
func end(p *h.Peer, how int) {
	switch how {
	case 0:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
		vp.Quiesce()
		p.C.Close()
	case 1:
		p.C.Close()
	case 2:
		vp.Reset(p.C)
	case 3:
		p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, "bye"))
		vp.Quiesce()
		p.C.Close()
	case 4: // after a call and a bad message
		p.Write("[2]")
		p.Write(h.Call("1", "Heartbeat", "{}"))
		p.C.Close()
	}
	vp.Quiesce()
}

// CheckIdentity connects and disconnects a charge point with any identity, in any way.
func CheckIdentity() {
	l, port := start()
	id := vp.Ident("identity")
	path := ""
	switch vp.Choice("shape", 8) {
	case 1:
		id += "/" + vp.Ident("more")
	case 2:
		id = ""
	case 3:
		id = "x/" + id + "/y.z"
	case 4:
		path = id + "?token=" + vp.Ident("token")
	case 5:
		path = "a%20" + id + "%2f"
		id = "a " + id + "/"
	case 6:
		id = strings.Repeat("long.", 60) + id
	case 7:
		id += "."
	}
	if path == "" {
		path = id
	}
	p := h.MustDial(port, "/"+path)
	vp.Quiesce()
	l.expect(id, 1, 0, 1, "while the connection is up")
	switch vp.Choice("talk", 3) {
	case 1:
		p.Write(h.Call("1", "Heartbeat", "{}"))
		_, ok := h.IsError(p.Read(), "1", "InternalError")
		vp.Assert(ok, "a connection is not served")
	case 2:
		p.Write("no frame")
	}
	vp.Quiesce()
	l.expect(id, 1, 0, 1, "while the connection is up")
	end(p, vp.Choice("how", 5))
	l.expect(id, 1, 1, 2, "after the end of the connection")
	vp.Reach("end")
}

// CheckHistory lets two charge points connect and disconnect in any order and in any way.
func CheckHistory() {
	l, port := start()
	ids := []string{vp.Ident("one"), vp.Ident("two")}
	vp.Assume(ids[0] != ids[1])
	up, down := [2]int{}, [2]int{}
	type live struct {
		who  int
		peer *h.Peer
	}
	var ls []live
	steps := 5
	if vp.Thorough() {
		steps = 7
	}
	for i := 0; i < steps; i++ {
		op := vp.Choice("step", 2+len(ls))
		if op < 2 {
			vp.Assume(len(ls) < 3)
			p := h.MustDial(port, "/"+ids[op])
			vp.Quiesce()
			ls = append(ls, live{op, p})
			up[op]++
		} else {
			x := ls[op-2]
			end(x.peer, vp.Choice("how", 3))
			down[x.who]++
			ls = append(append([]live{}, ls[:op-2]...), ls[op-1:]...)
		}
		for j := range ids {
			l.expect(ids[j], up[j], down[j], up[0]+up[1]+down[0]+down[1], "in a history of connections and disconnections")
		}
	}
	vp.Reach("end")
}

// CheckOverlap lets two connections come up and end at the same time, under every schedule in bounds.
//
//vp: delays=2 thorough:delays=3
func CheckOverlap() {
	vp.Calm()
	l, port := start()
	ids := []string{"a", []string{"a", "b"}[vp.Choice("identities", 2)]}
	hows := []int{vp.Choice("how", 3), 1}
	vp.Busy()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			p := h.MustDial(port, "/"+ids[i])
			end(p, hows[i])
			done <- true
		}()
	}
	<-done
	<-done
	vp.Quiesce()
	if ids[0] == ids[1] {
		l.expect("a", 2, 2, 4, "when two connections of a charge point overlap")
	} else {
		l.expect("a", 1, 1, 4, "when two connections overlap")
		l.expect("b", 1, 1, 4, "when two connections overlap")
	}
	vp.Reach("end")
}

// request sends an HTTP request that is not a proper websocket upgrade.
func request(port, id string, kind int) {
	method, headers := "GET", map[string]string{}
	switch kind {
	case 1:
		method = "POST"
	case 2: // an upgrade without a key
		headers = map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13"}
	case 3: // an upgrade of another version
		headers = map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "1", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="}
	case 4: // an upgrade with another method
		method = "POST"
		headers = map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="}
	case 5: // an upgrade to something else
		headers = map[string]string{"Connection": "Upgrade", "Upgrade": "h2c"}
	}
	r, err := http.NewRequest(method, "http://localhost"+port+"/"+id, strings.NewReader(""))
	vp.Assume(err == nil)
	for k, v := range headers {
		r.Header.Set(k, v)
	}
	resp, err := http.DefaultClient.Do(r)
	vp.Assert(err == nil, "an HTTP request is not answered")
	resp.Body.Close()
}

// CheckNoUpgrade sends requests that are not upgraded to a websocket, before or while a websocket is up.
func CheckNoUpgrade() {
	l, port := start()
	id := vp.Ident("identity")
	n := 0
	var p *h.Peer
	if vp.Choice("connected", 2) == 1 {
		p = h.MustDial(port, "/"+id)
		vp.Quiesce()
		n = 1
	}
	request(port, id, vp.Choice("kind", 6))
	vp.Quiesce()
	l.expect(id, n, 0, n, "after a request that is not upgraded")
	if p != nil {
		p.C.Close()
		vp.Quiesce()
		l.expect(id, 1, 1, 2, "after the end of the connection")
	}
	vp.Reach("end")
}

// CheckBlocked has listeners that never return.
//
//vp: delays=1 thorough:delays=2
func CheckBlocked() {
	vp.Calm()
	c, port := h.StartCS(handler)
	l := &log{}
	forever := make(chan bool)
	c.SetChargePointConnectionListener(func(id string) {
		l.connected(id)
		<-forever
	})
	c.SetChargePointDisconnectionListener(func(id string) {
		l.disconnected(id)
		<-forever
	})
	vp.Busy()
	for i := 1; i <= 2; i++ {
		p := h.MustDial(port, "/a")
		p.Write(h.Call("1", "Heartbeat", "{}"))
		_, ok := h.IsError(p.Read(), "1", "InternalError")
		vp.Assert(ok, "a connection is not served while a listener blocks")
		vp.Quiesce()
		l.expect("a", i, i-1, 2*i-1, "while a listener blocks")
		p.C.Close()
		vp.Quiesce()
		l.expect("a", i, i, 2*i, "while a listener blocks")
	}
	q := h.MustDial(port, "/b")
	q.Write(h.Call("1", "Heartbeat", "{}"))
	_, ok := h.IsError(q.Read(), "1", "InternalError")
	vp.Assert(ok, "another connection is not served while a listener blocks")
	vp.Reach("end")
}

// CheckChanged replaces the listeners between connections.
func CheckChanged() {
	c, port := h.StartCS(handler)
	p := h.MustDial(port, "/a")
	vp.Quiesce()
	l := &log{}
	c.SetChargePointConnectionListener(l.connected)
	c.SetChargePointDisconnectionListener(l.disconnected)
	q := h.MustDial(port, "/b")
	vp.Quiesce()
	l.expect("b", 1, 0, 1, "after the listeners were set")
	if vp.Choice("first", 2) == 0 {
		p, q = q, p
	}
	p.C.Close()
	q.C.Close()
	vp.Quiesce()
	l.expect("a", 0, 1, 3, "after the listeners were set")
	l.expect("b", 1, 1, 3, "after the listeners were set")
	vp.Reach("end")
}

// CheckBusy ends a connection while a call of it is being handled, or while calls of it wait.
//
//vp: delays=2 thorough:delays=3
func CheckBusy() {
	vp.Calm()
	release := make(chan bool, 8)
	c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		<-release
		return &cpresp.StatusNotification{}, nil
	})
	l := &log{}
	c.SetChargePointConnectionListener(l.connected)
	c.SetChargePointDisconnectionListener(l.disconnected)
	p := h.MustDial(port, "/a")
	n := 1 + vp.Choice("calls", 2)
	how := vp.Choice("how", 4)
	vp.Busy()
	for i := 0; i < n; i++ {
		p.Write(h.Call("1", "Heartbeat", "{}"))
	}
	if vp.Choice("when", 2) == 0 {
		vp.Quiesce()
	}
	end(p, how)
	for i := 0; i < n; i++ {
		release <- true
	}
	vp.Quiesce()
	l.expect("a", 1, 1, 2, "after the end of a connection with a call being handled")
	vp.Reach("end")
}
