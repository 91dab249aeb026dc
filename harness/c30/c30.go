// Package c30 checks what a handler of a central system is told about who asks.
package c30

import (
	"errors"
	"io/ioutil"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// who is what tells one HTTP request of a charge point from another.
type who struct {
	id, path, query, tag, auth string
	soap                       bool
	more                       string // sets the other headers
}

// usual are headers that a charge point, or a proxy before it, may send.
var usual = []string{"Cookie", "X-Forwarded-For", "User-Agent", "Origin", "Accept-Language", "X-Api-Key", "Forwarded"}

func (w who) usual(i int) string {
	if w.more == "" {
		return ""
	}
	return []string{"a=" + w.more + "; b=" + w.more, "10.0.0." + w.more, "station/" + w.more, "http://station" + w.more,
		"en;q=0." + w.more, "secret" + w.more, "for=10.0.0." + w.more}[i]
}

// told is what the handler was told with one call.
type told struct {
	md   cs.ChargePointRequestMetadata
	w    who
	more []string
}

func others(r *http.Request) (l []string) {
	for _, k := range usual {
		l = append(l, r.Header.Get(k))
	}
	return append(l, r.Header["X-Multi"]...)
}

// desk is a handler, which keeps what it is told, by the tag of the call.
type desk struct {
	mu    sync.Mutex
	calls map[string][]told
	slow  time.Duration
	gate  chan bool
	in    int
}

func read(md cs.ChargePointRequestMetadata) who {
	r := md.HTTPRequest
	vp.Assert(r != nil && r.URL != nil, "a handler is not told the HTTP request")
	vp.Assert(r.RemoteAddr != "" && strings.HasPrefix(r.Host, "localhost"), "a handler is told another HTTP request")
	return who{md.ChargePointID, r.URL.Path, r.URL.RawQuery, r.Header.Get("X-Tag"), r.Header.Get("Authorization"), r.Method == "POST", ""}
}

func (d *desk) handle(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	a, ok := r.(*cpreq.Authorize)
	vp.Assert(ok, "another request arrives")
	d.mu.Lock()
	d.calls[a.IdTag] = append(d.calls[a.IdTag], told{md, read(md), others(md.HTTPRequest)})
	d.in++
	d.mu.Unlock()
	if d.gate != nil {
		<-d.gate
	}
	if strings.HasPrefix(a.IdTag, "bad") {
		return nil, errors.New("bad")
	}
	return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: a.IdTag}}, nil
}

func start() (*desk, string) {
	vp.Calm()
	d := &desk{calls: map[string][]told{}}
	_, port := h.StartCS(d.handle)
	return d, port
}

// was checks that a call was handled once, as a call of w, and that what the handler was told is still so.
func (d *desk) was(tag string, w who) {
	d.mu.Lock()
	defer d.mu.Unlock()
	vp.Assert(len(d.calls[tag]) == 1, "a call is not handled once")
	t := d.calls[tag][0]
	same(t.w, w)
	same(read(t.md), w)
	for _, l := range [][]string{t.more, others(t.md.HTTPRequest)} {
		if w.more == "" {
			continue
		}
		vp.Assert(len(l) == len(usual)+2, "a handler is told other HTTP headers")
		for i := range usual {
			vp.Assert(l[i] == w.usual(i), "a handler is told other HTTP headers")
		}
		vp.Assert(l[len(usual)] == "1"+w.more && l[len(usual)+1] == "2"+w.more, "a handler is told other HTTP headers")
	}
}

func same(a, b who) {
	vp.Assert(a.id == b.id, "a handler is told another charge point")
	vp.Assert(a.path == b.path && a.query == b.query && a.soap == b.soap, "a handler is told the HTTP request of another")
	vp.Assert(a.tag == b.tag && a.auth == b.auth, "a handler is told other HTTP headers")
}

// dial connects to a central system as w.
func dial(port string, w who) *h.Peer {
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
	u := "ws://localhost" + port + w.path
	if w.query != "" {
		u += "?" + w.query
	}
	c, _, err := d.Dial(u, w.header())
	vp.Assert(err == nil, "a websocket upgrade is refused")
	return h.NewPeer(c)
}

func (w who) header() http.Header {
	x := http.Header{}
	if w.tag != "" {
		x.Set("X-Tag", w.tag)
	}
	if w.auth != "" {
		x.Set("Authorization", w.auth)
	}
	if w.more != "" {
		for i, k := range usual {
			x.Set(k, w.usual(i))
		}
		x["X-Multi"] = []string{"1" + w.more, "2" + w.more}
	}
	return x
}

func authorize(tag string) string {
	return h.Call("id-"+tag, "Authorize", h.JSON(map[string]string{"idTag": tag}))
}

// call makes a call over a websocket.
func call(p *h.Peer, tag string) {
	p.Write(authorize(tag))
	answer(p, tag)
}

func answer(p *h.Peer, tag string) {
	s := p.Read()
	if strings.HasPrefix(tag, "bad") {
		f, ok := h.Parse(s)
		vp.Assert(ok && f.Type == 4 && f.ID == "id-"+tag, "a call is not answered")
		return
	}
	_, ok := h.IsResult(s, "id-"+tag)
	vp.Assert(ok, "a call is not answered")
}

// post makes a call over SOAP.
func post(port, tag string, w who) {
	doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">`+vp.XMLText(w.id)+`</chargeBoxIdentity></soap:Header>`,
		`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>`+vp.XMLText(tag)+`</idTag></authorizeRequest>`)
	u := "http://localhost" + port + w.path
	if w.query != "" {
		u += "?" + w.query
	}
	r, err := http.NewRequest("POST", u, strings.NewReader(doc))
	vp.Assert(err == nil, "no request")
	r.Header = w.header()
	resp, err := http.DefaultClient.Do(r)
	vp.Assert(err == nil, "an HTTP request is not answered")
	_, err = ioutil.ReadAll(resp.Body)
	vp.Assert(err == nil, "the answer to an HTTP request cannot be read")
	resp.Body.Close()
}

// point is a charge point that calls over a websocket or SOAP.
type point struct {
	who
	p    *h.Peer
	port string
}

func connect(port string, w who) *point {
	x := &point{w, nil, port}
	if !w.soap {
		x.p = dial(port, w)
	}
	return x
}

func (x *point) call(tag string) {
	if x.soap {
		post(x.port, tag, x.who)
		return
	}
	call(x.p, tag)
}

// some makes a charge point of one of several kinds: n tells its texts from those of others.
func some(port string, n int, ids ...string) *point {
	w := who{id: ids[vp.Choice("identity", len(ids))], tag: "t" + strconv.Itoa(n), auth: []string{"Basic bWU6c2VjcmV0", "Basic eW91OnNlY3JldA=="}[n], more: strconv.Itoa(n)}
	switch vp.Choice("kind", 4) {
	case 0:
		w.path = "/" + w.id
	case 1:
		w.path, w.query = "/"+w.id, "q="+strconv.Itoa(n)
	case 2:
		w.path, w.tag = "/"+w.id, ""
	case 3:
		w.path, w.soap = "/x"+strconv.Itoa(n), true
	}
	return connect(port, w)
}

// CheckTold has two charge points, or one with two connections, make calls in any order; one of them comes again meanwhile with
// other headers.
func CheckTold() {
	d, port := start()
	ps := []*point{some(port, 0, "me"), some(port, 1, "me", "you")}
	n := 3
	if vp.Thorough() {
		n = 5
	}
	want := map[string]who{}
	var tags []string
	for i := 0; i < n; i++ {
		k := vp.Choice("step", 3)
		if k == 2 {
			w := ps[0].who
			w.tag, w.auth = "again"+strconv.Itoa(i), ""
			old := ps[0]
			ps[0] = connect(port, w)
			if old.p != nil && vp.Bool("ends") {
				old.p.C.Close()
			}
			vp.Quiesce()
			k = 0
		}
		tag := "c" + strconv.Itoa(i)
		if vp.Bool("bad") {
			tag = "bad" + tag
		}
		ps[k].call(tag)
		want[tag] = ps[k].who
		tags = append(tags, tag)
	}
	for _, tag := range tags {
		d.was(tag, want[tag])
	}
	vp.Reach("end")
}

// CheckTexts has any identity and any header, over a websocket and over SOAP.
func CheckTexts() {
	d, port := start()
	id := vp.Ident("identity")
	tag := vp.Ident("tag")
	auth := []string{"Basic ", "Bearer ", ""}[vp.Choice("scheme", 3)] + vp.Ident("auth")
	w := who{id: id, path: "/" + id, tag: tag, auth: auth}
	if vp.Bool("soap") {
		w.soap = true
		w.path = "/some/" + vp.Ident("path")
	}
	vp.Assume(id != "." && id != "..")
	vp.Assume(!w.soap || !strings.HasSuffix(w.path, "/.") && !strings.HasSuffix(w.path, "/.."))
	other := connect(port, who{id: "other", path: "/other", tag: "other"})
	x := connect(port, w)
	x.call("one")
	other.call("two")
	x.call("three")
	d.was("one", w)
	d.was("two", other.who)
	d.was("three", w)
	vp.Reach("end")
}

// CheckTogether has two charge points call at the same time, under every schedule in bounds.
//
//vp: delays=1 thorough:delays=2 races
func CheckTogether() {
	d, port := start()
	a, b := some(port, 0, "me"), some(port, 1, "me", "you")
	vp.Busy()
	done := make(chan bool, 2)
	go func() {
		a.call("first")
		done <- true
	}()
	b.call("second")
	<-done
	vp.Calm()
	d.was("first", a.who)
	d.was("second", b.who)
	vp.Reach("end")
}

// CheckHeld has both calls in the handler at the same time.
func CheckHeld() {
	d, port := start()
	d.gate = make(chan bool)
	a, b := some(port, 0, "me"), some(port, 1, "me", "you")
	done := make(chan bool, 2)
	for i, x := range []*point{a, b} {
		i, x := i, x
		go func() {
			x.call([]string{"first", "second"}[i])
			done <- true
		}()
		vp.Quiesce()
	}
	d.mu.Lock()
	vp.Assert(d.in == 2, "the calls of two charge points are not handled at the same time")
	d.mu.Unlock()
	d.was("first", a.who)
	d.was("second", b.who)
	close(d.gate)
	<-done
	<-done
	vp.Quiesce()
	d.was("first", a.who)
	d.was("second", b.who)
	vp.Reach("end")
}

// CheckMany has many charge points, of which some come again.
//
//vp: threads=900 steps=6000000
func CheckMany() {
	d, port := start()
	n := 40
	var ps []*point
	ws := func(i, round int) who {
		id := "p" + strconv.Itoa(i/2)
		w := who{id: id, path: "/" + id, tag: strconv.Itoa(i) + "-" + strconv.Itoa(round)}
		if i%4 == 3 {
			w.soap = true
		}
		return w
	}
	for i := 0; i < n; i++ {
		ps = append(ps, connect(port, ws(i, 0)))
	}
	want := map[string]who{}
	for round := 0; round < 3; round++ {
		for j := 0; j < n; j++ {
			i := j
			if round == 1 {
				i = n - 1 - j
			}
			tag := "c" + strconv.Itoa(round) + "-" + strconv.Itoa(i)
			ps[i].call(tag)
			want[tag] = ps[i].who
		}
		for i := round; i < n; i += 3 {
			old := ps[i]
			ps[i] = connect(port, ws(i, round+1))
			if old.p != nil {
				old.p.C.Close()
			}
		}
		vp.Quiesce()
	}
	for tag, w := range want {
		d.was(tag, w)
	}
	vp.Reach("end")
}

// CheckIdle has a charge point call again after a time without traffic, while another one came.
func CheckIdle() {
	d, port := start()
	a := some(port, 0, "me")
	a.call("one")
	vp.Sleep(vp.Duration("idle", 0, 24*time.Hour))
	b := some(port, 1, "me", "you")
	b.call("two")
	a.call("three")
	d.was("one", a.who)
	d.was("two", b.who)
	d.was("three", a.who)
	vp.Reach("end")
}
