package h

import (
	"context"
	"strings"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Point is a charge point of the library that talks to a central system of the library.
type Point struct {
	CP     cp.ChargePoint
	URL    string // where it listens, if it talks SOAP
	Cancel context.CancelFunc
}

// Segments reports whether a path has nothing in it that HTTP servers clean up: empty parts and dots.
func Segments(id string) bool {
	p := "/" + id
	return !strings.Contains(p, "//") && !strings.Contains(p, "/./") && !strings.Contains(p, "/../") && !strings.HasSuffix(p, "/.") && !strings.HasSuffix(p, "/..")
}

// Join makes a charge point that talks to the central system at a port.
func Join(json bool, port, identity string, handler cp.CentralSystemMessageHandler) *Point {
	ctx, cancel := context.WithCancel(context.Background())
	p := &Point{Cancel: cancel}
	var err error
	if json {
		p.CP, err = cp.New(ctx, identity, "ws://localhost"+port, ocpp.V16, ocpp.JSON, nil, handler)
	} else {
		own := vp.Port()
		p.URL = "http://localhost" + own + "/"
		p.CP, err = cp.New(ctx, identity, "http://localhost"+port+"/", ocpp.V15, ocpp.SOAP, &own, handler)
		vp.WaitListen(own)
	}
	vp.Assert(err == nil, "a charge point cannot be made although the central system is there")
	return p
}

// Connected waits for a charge point to be there; only for those that talk JSON.
func Connected(c cs.CentralSystem, identity string) {
	select {
	case <-c.WaitConnect(identity):
	case <-vp.After(Patience):
		vp.Assert(false, "the central system does not know a charge point by its identity")
	}
}

// Up is how the charge point sends.
func (p *Point) Up(r messages.Request) (messages.Response, error) {
	a, err := p.CP.Send(r.(cpreq.ChargePointRequest))
	if a == nil {
		return nil, err
	}
	return a, err
}

// Down is how the central system sends to the charge point.
func (p *Point) Down(c cs.CentralSystem, identity string) Sender {
	version := ocpp.V16
	if p.URL != "" {
		version = ocpp.V15
	}
	svc, err := c.GetServiceOf(identity, version, p.URL)
	vp.Assert(err == nil && svc != nil, "a charge point that is there cannot be looked up by its identity")
	return func(r messages.Request) (messages.Response, error) {
		a, err := svc.Send(r.(csreq.CentralSystemRequest))
		if a == nil {
			return nil, err
		}
		return a, err
	}
}
