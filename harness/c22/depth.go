package c22

import (
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckMany has up to a hundred charge points connected, and visits the page all the while.
//
//vp: threads=2000 delays=0 steps=80000000 samples=1
func CheckMany() {
	vp.Calm()
	l := &calls{}
	c, port := h.StartCS(l.handle)
	var ps []*h.Peer
	visit1 := func(n int) {
		status, text := visit("GET", port, "/", "", nil, "")
		page(status, text, n, "with many charge points")
	}
	n := 104
	for i := 1; i <= n; i++ {
		id := "station" + strconv.Itoa(i)
		ps = append(ps, h.MustDial(port, "/"+id))
		<-c.WaitConnect(id)
		if i < 14 || i%10 == 1 || i > 97 {
			visit1(i)
		}
	}
	for i := 1; i <= 3; i++ {
		down := c.WaitDisconnect("station" + strconv.Itoa(i))
		ps[i-1].C.Close()
		<-down
		vp.Quiesce()
		visit1(n - i)
	}
	for i := 0; i < 60; i++ {
		tag := "tag" + strconv.Itoa(i)
		p := ps[10+i]
		p.Write(h.Call("1", "Authorize", `{"idTag":"`+tag+`"}`))
		_, ok := h.IsError(p.Read(), "1", "InternalError")
		vp.Assert(ok, "a call over a websocket is not answered with the handler's error")
		box := "box" + strconv.Itoa(i)
		_, text := visit("POST", port, "/", "", nil, envelope(box))
		vp.Assert(isFault(text), "a SOAP request is not answered with the handler's error")
		got := l.all()
		vp.Assert(len(got) == 2*i+2, "the handler is not called exactly once for a request")
		a, isA := got[2*i].req.(*cpreq.Authorize)
		vp.Assert(isA && a.IdTag == tag && got[2*i].id == "station"+strconv.Itoa(11+i), "the metadata of a call have another identity")
		vp.Assert(got[2*i+1].id == box, "the metadata of a SOAP request have another identity")
	}
	visit1(n - 3)
	vp.Reach("end")
}

// CheckBig sends a request of up to more than a megabyte over SOAP and over a websocket.
//
//vp: steps=80000000
func CheckBig() {
	l := &calls{}
	_, port := h.StartCS(l.handle)
	big := strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)]) + "end"
	_, text := visit("POST", port, "/", "", nil, strings.Replace(envelope("box"), ">tag<", ">"+big+"<", 1))
	vp.Assert(isFault(text), "a SOAP request is not answered with the handler's error")
	p := h.MustDial(port, "/me")
	p.Write(h.Call("1", "Authorize", `{"idTag":"`+big+`"}`))
	_, ok := h.IsError(p.Read(), "1", "InternalError")
	vp.Assert(ok, "a call over a websocket is not answered with the handler's error")
	got := l.all()
	vp.Assert(len(got) == 2, "the handler is not called exactly once for a request")
	for i := range got {
		a, isA := got[i].req.(*cpreq.Authorize)
		vp.Assert(isA && a.IdTag == big, "the handler sees another request")
	}
	vp.Reach("end")
}

// CheckSlow lets the handler of a SOAP request take up to two hours, while a websocket is idle; then all is as before.
//
//vp: samples=1
func CheckSlow() {
	h.Patience = 20 * time.Minute
	d := vp.Duration("handling", 0, 2*time.Hour)
	ids := make(chan string, 8)
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		ids <- md.ChargePointID
		if md.ChargePointID == "slow" {
			vp.Sleep(d)
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: md.ChargePointID}}, nil
	})
	p := h.MustDial(port, "/me")
	_, text := visit("POST", port, "/", "", nil, envelope("slow"))
	el, bad := spec.Body(text)
	vp.Assert(bad == "" && el.Kid("idTagInfo") != nil && el.Kid("idTagInfo").Kid("status").Text == "slow", "a SOAP request that is handled slowly is not answered with the handler's response")
	vp.Assert(<-ids == "slow" && len(ids) == 0, "the handler is not called exactly once for a SOAP request")
	status, text := visit("GET", port, "/", "", nil, "")
	page(status, text, 1, "after a while")
	p.Write(h.Call("1", "Authorize", `{"idTag":"t"}`))
	_, ok := h.IsResult(p.Read(), "1")
	vp.Assert(ok && <-ids == "me", "a call over a websocket is not answered after a while")
	vp.Reach("end")
}

// CheckHeaders sends requests with several spellings of the headers that ask for a websocket upgrade, or do not.
func CheckHeaders() {
	l := &calls{}
	c, port := h.StartCS(l.handle)
	ups := make(chan string, 8)
	c.SetChargePointConnectionListener(func(id string) { ups <- id })
	connection := []string{"Upgrade", "upgrade", "keep-alive, Upgrade", "UPGRADE , foo", "close", "up grade", ""}[vp.Choice("connection", 7)]
	upgrade := []string{"websocket", "WebSocket", "foo, websocket", "websockets", "h2c", ""}[vp.Choice("upgrade", 6)]
	asks := connection != "close" && connection != "up grade" && connection != "" && upgrade != "websockets" && upgrade != "h2c" && upgrade != ""
	hs := map[string]string{"Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="}
	if connection != "" {
		hs["Connection"] = connection
	}
	if upgrade != "" {
		hs["Upgrade"] = upgrade
	}
	method := []string{"GET", "POST"}[vp.Choice("method", 2)]
	if asks && method == "GET" {
		return // the answer would be a connection, see CheckUpgrade
	}
	body := ""
	if method == "POST" {
		body = envelope("box")
	}
	status, text := visit(method, port, "/me", "", hs, body)
	vp.Quiesce()
	got := l.all()
	vp.Assert(len(ups) == 0, "a request that is no websocket upgrade starts a session")
	switch {
	case asks:
		vp.Assert(len(got) == 0, "a request that asks for a websocket is handled as SOAP")
		vp.Assert(status >= 400, "a bad websocket upgrade is not refused")
		vp.Reach("refused")
	case method == "GET":
		page(status, text, 0, "to a visitor")
		vp.Assert(len(got) == 0, "the handler is called for a visitor")
		vp.Reach("page")
	default:
		vp.Assert(len(got) == 1 && got[0].id == "box" && isFault(text), "a request that is no websocket upgrade is not handled as SOAP")
		vp.Reach("soap")
	}
}

// CheckProtocols connects websockets that offer several protocols, or none, and other headers.
func CheckProtocols() {
	l := &calls{}
	_, port := h.StartCS(l.handle)
	d := websocket.Dialer{Subprotocols: [][]string{nil, {"ocpp1.6"}, {"ocpp1.5", "ocpp1.6"}, {"ocpp2.0.1", "ocpp1.6", "ocpp1.5"}, {"foo"}}[vp.Choice("protocols", 5)]}
	hd := http.Header{}
	switch vp.Choice("header", 4) {
	case 1:
		hd.Set("Authorization", "Basic eDp5")
	case 2:
		hd.Set("Origin", "http://elsewhere")
	case 3:
		hd.Set("User-Agent", "x")
		hd.Set("Content-Type", "application/soap+xml")
	}
	conn, _, err := d.Dial("ws://localhost"+port+"/me", hd)
	vp.Assert(err == nil, "a websocket upgrade is refused")
	p := h.NewPeer(conn)
	p.Write(h.Call("1", "Authorize", `{"idTag":"t"}`))
	_, ok := h.IsError(p.Read(), "1", "InternalError")
	vp.Assert(ok && len(l.all()) == 1 && l.all()[0].id == "me", "a call over a websocket is not answered with the handler's error")
	vp.Reach("end")
}
