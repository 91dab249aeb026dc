package c21

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

func change(key string) string {
	return spec.XEnvelope("", `<changeConfigurationRequest xmlns="urn://Ocpp/Cp/2012/06/"><key>`+key+`</key><value>v</value></changeConfigurationRequest>`)
}

// echo answers with the key.
func echo(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	c, ok := r.(*csreq.ChangeConfiguration)
	if !ok {
		return nil, errors.New("handled")
	}
	return &csresp.ChangeConfiguration{Status: c.Key}, nil
}

func answered(port, key string) {
	_, body, err := post(port, change(key))
	vp.Assert(err == nil, "a SOAP charge point does not answer")
	el, bad := spec.Body(body)
	vp.Assert(bad == "" && el.Name == "changeConfigurationResponse" && el.Kid("status") != nil && el.Kid("status").Text == key, "a SOAP charge point answers with another response than the handler's")
}

// CheckMany sends more than a hundred requests.
//
//vp: threads=2000 steps=80000000 samples=1
func CheckMany() {
	port, cancel := start(echo)
	bad := vp.Choice("bad", 2) == 1
	for i := 0; i < 130; i++ {
		if bad && i%2 == 1 {
			_, _, err := post(port, "nonsense")
			vp.Assert(err == nil, "a SOAP charge point does not answer")
			continue
		}
		answered(port, "k"+strconv.Itoa(i))
	}
	cancel()
	over(port)
}

// CheckBig sends a request of up to more than a megabyte.
//
//vp: steps=80000000
func CheckBig() {
	port, cancel := start(echo)
	answered(port, strings.Repeat("x", []int{4200, 70000, 1200000}[vp.Choice("size", 3)])+"end")
	answered(port, "small")
	cancel()
	over(port)
}

// CheckSlow lets up to two hours pass before a request, and the handler take up to two hours.
//
//vp: samples=1
func CheckSlow() {
	d := vp.Duration("handling", 0, 2*time.Hour)
	port, cancel := start(func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		vp.Sleep(d)
		return echo(r)
	})
	vp.Sleep(vp.Duration("before", 0, 2*time.Hour))
	answered(port, "late")
	answered(port, "again")
	cancel()
	over(port)
}

// CheckStyle sends a request written in several ways.
func CheckStyle() {
	port, cancel := start(echo)
	spec.Style = vp.Choice("style", spec.Styles)
	doc := change("key")
	spec.Style = 0
	_, body, err := post(port, doc)
	vp.Assert(err == nil, "a SOAP charge point does not answer")
	el, bad := spec.Body(body)
	vp.Assert(bad == "" && el.Name == "changeConfigurationResponse" && el.Kid("status") != nil && el.Kid("status").Text == "key", "a SOAP charge point answers with another response than the handler's")
	cancel()
	over(port)
}
