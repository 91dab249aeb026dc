// Package model is the in-memory network the engine puts under the code: it replaces net/http clients and servers and
// gorilla/websocket connections. It is executed by the engine only, every call as one atomic step of the calling goroutine;
// block, ioRead and ioWrite are the engine's.
package model

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gorilla/websocket"
)

// engine primitives
func block(cond func() bool)       { panic("engine") }
func ioRead()                      { panic("engine") } // happens after every earlier ioWrite
func ioWrite()                     { panic("engine") }
func raceOn(p *int, what string)   { panic("engine") } // an unsynchronised write access by the caller
func system(name string, f func()) { panic("engine") } // a server goroutine; a panic in it is a violation
func wakeAfter(d time.Duration)    { panic("engine") } // lets the clock advance to now+d
func now() time.Duration           { panic("engine") }
func userCall(f func())            { panic("engine") } // runs code of the program, preemptible again

// ---- errors ----

type netErr struct {
	msg     string
	timeout bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

func refused(addr string) error {
	return &net.OpError{Op: "dial", Net: "tcp", Err: &netErr{msg: "connect: connection refused"}}
}

// ---- listeners ----

type listener struct {
	addr    string
	port    string
	handler http.Handler
	srv     *http.Server
	closed  bool
	pending []*pendingConn
	raw     bool
}

type pendingConn struct{ l *listener }

var listeners []*listener

func portOf(addr string) string {
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return addr
	}
	return addr[i+1:]
}

func find(port string) *listener {
	for _, l := range listeners {
		if !l.closed && l.port == port {
			return l
		}
	}
	return nil
}

var portN = 20000

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Port
func Port() string {
	portN++
	return ":" + itoa(portN)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.WaitListen
func WaitListen(addr string) {
	p := portOf(addr)
	block(func() bool { l := find(p); return l != nil && l.handler != nil })
}

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Listening
func Listening(addr string) bool { return find(portOf(addr)) != nil }

func listen(addr string) (*listener, error) {
	p := portOf(addr)
	if find(p) != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: &netErr{msg: "bind: address already in use"}}
	}
	l := &listener{addr: addr, port: p}
	listeners = append(listeners, l)
	return l, nil
}

type tcpListener struct{ l *listener }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (t *tcpListener) Accept() (net.Conn, error) {
	block(func() bool { return t.l.closed })
	return nil, net.ErrClosed
}
func (t *tcpListener) Close() error   { t.l.closed = true; return nil }
func (t *tcpListener) Addr() net.Addr { return addr("127.0.0.1:" + t.l.port) }

//vp:redirect net.Listen
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(address)
	if err != nil {
		return nil, err
	}
	return &tcpListener{l}, nil
}

// ---- HTTP server ----

type muxEntry struct {
	pattern string
	h       http.Handler
}

var muxes = map[*http.ServeMux][]muxEntry{}

//vp:redirect net/http.NewServeMux
func NewServeMux() *http.ServeMux { return &http.ServeMux{} }

//vp:redirect (*net/http.ServeMux).Handle
func MuxHandle(m *http.ServeMux, pattern string, h http.Handler) {
	for _, e := range muxes[m] {
		if e.pattern == pattern {
			panic("http: multiple registrations for " + pattern)
		}
	}
	muxes[m] = append(muxes[m], muxEntry{pattern, h})
}

//vp:redirect (*net/http.ServeMux).HandleFunc
func MuxHandleFunc(m *http.ServeMux, pattern string, h func(http.ResponseWriter, *http.Request)) {
	MuxHandle(m, pattern, http.HandlerFunc(h))
}

//vp:redirect net/http.HandleFunc
func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	MuxHandle(http.DefaultServeMux, pattern, http.HandlerFunc(h))
}

//vp:redirect net/http.Handle
func Handle(pattern string, h http.Handler) { MuxHandle(http.DefaultServeMux, pattern, h) }

func muxFind(m *http.ServeMux, r *http.Request) http.Handler {
	var best *muxEntry
	for i, e := range muxes[m] {
		p := e.pattern
		if j := strings.Index(p, " "); j >= 0 {
			if p[:j] != r.Method {
				continue
			}
			p = p[j+1:]
		}
		ok := false
		if strings.HasSuffix(p, "/") {
			ok = strings.HasPrefix(r.URL.Path, p)
		} else {
			ok = r.URL.Path == p
		}
		if ok && (best == nil || len(e.pattern) > len(best.pattern)) {
			best = &muxes[m][i]
		}
	}
	if best == nil {
		return http.HandlerFunc(http.NotFound)
	}
	return best.h
}

// badPath reports whether a ServeMux answers the path with a redirect to its cleaned form.
func badPath(p string) bool {
	return !strings.HasPrefix(p, "/") || strings.Contains(p, "//") || strings.Contains(p, "/./") || strings.Contains(p, "/../") || strings.HasSuffix(p, "/.") || strings.HasSuffix(p, "/..")
}

//vp:redirect (*net/http.ServeMux).ServeHTTP
func MuxServe(m *http.ServeMux, w http.ResponseWriter, r *http.Request) {
	if r.Method != "CONNECT" && badPath(r.URL.Path) {
		w.Header().Set("Location", "/cleaned")
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	h := muxFind(m, r)
	userCall(func() { h.ServeHTTP(w, r) })
}

func serveOn(l *listener, srv *http.Server, h http.Handler) {
	if h == nil {
		h = http.DefaultServeMux
	}
	l.srv = srv
	l.handler = h
	ioWrite() // handlers are started by this goroutine
}

//vp:redirect net/http.ListenAndServe
func ListenAndServe(addr string, h http.Handler) error {
	l, err := listen(addr)
	if err != nil {
		return err
	}
	serveOn(l, nil, h)
	block(func() bool { return l.closed })
	return http.ErrServerClosed
}

//vp:redirect net/http.Serve
func Serve(nl net.Listener, h http.Handler) error {
	l := nl.(*tcpListener).l
	serveOn(l, nil, h)
	block(func() bool { return l.closed })
	return net.ErrClosed
}

type server struct {
	shut   bool
	active int
	onShut []func()
}

var servers = map[*http.Server]*server{}

func serverOf(s *http.Server) *server {
	x := servers[s]
	if x == nil {
		x = &server{}
		servers[s] = x
	}
	return x
}

//vp:redirect (*net/http.Server).ListenAndServe
func ServerListenAndServe(s *http.Server) error {
	x := serverOf(s)
	if x.shut {
		return http.ErrServerClosed
	}
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := listen(a)
	if err != nil {
		return err
	}
	serveOn(l, s, s.Handler)
	block(func() bool { return l.closed })
	return http.ErrServerClosed
}

//vp:redirect (*net/http.Server).Serve
func ServerServe(s *http.Server, nl net.Listener) error {
	x := serverOf(s)
	l := nl.(*tcpListener).l
	if x.shut {
		l.closed = true
		return http.ErrServerClosed
	}
	serveOn(l, s, s.Handler)
	block(func() bool { return l.closed })
	if x.shut {
		return http.ErrServerClosed
	}
	return net.ErrClosed
}

func closeServer(s *http.Server) {
	x := serverOf(s)
	x.shut = true
	for _, l := range listeners {
		if l.srv == s {
			l.closed = true
		}
	}
	ioWrite()
}

//vp:redirect (*net/http.Server).Close
func ServerClose(s *http.Server) error {
	closeServer(s)
	return nil
}

//vp:redirect (*net/http.Server).Shutdown
func ServerShutdown(s *http.Server, ctx context.Context) error {
	closeServer(s)
	x := serverOf(s)
	for _, f := range x.onShut {
		f := f
		system("shutdown hook", func() { userCall(f) })
	}
	if x.active > 0 {
		done := ctx.Done()
		block(func() bool {
			if x.active == 0 {
				return true
			}
			select {
			case <-done:
				return true
			default:
			}
			return false
		})
		if x.active > 0 {
			return ctx.Err()
		}
	}
	return nil
}

//vp:redirect (*net/http.Server).RegisterOnShutdown
func ServerRegisterOnShutdown(s *http.Server, f func()) {
	x := serverOf(s)
	x.onShut = append(x.onShut, f)
}

//vp:redirect (*net/http.Server).SetKeepAlivesEnabled
func ServerSetKeepAlivesEnabled(s *http.Server, v bool) {}

type respWriter struct {
	h        http.Header
	sent     http.Header
	status   int
	body     []byte
	done     bool
	hijacked *end // client end of the upgraded connection
	aborted  bool
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(code int) {
	if w.status != 0 || w.hijacked != nil {
		return
	}
	if code < 100 || code > 999 {
		panic("invalid WriteHeader code " + itoa(code))
	}
	w.status = code
	w.sent = w.h.Clone()
}
func (w *respWriter) Write(p []byte) (int, error) {
	if w.hijacked != nil {
		return 0, http.ErrHijacked
	}
	if w.status == 0 {
		w.WriteHeader(http.StatusOK)
	}
	w.body = append(w.body, p...)
	return len(p), nil
}
func (w *respWriter) Flush() {}

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Abort
func Abort(w http.ResponseWriter) {
	w.(*respWriter).aborted = true
}

type body struct {
	data   []byte
	off    int
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if b.off >= len(b.data) {
		return 0, io.EOF
	}
	n := copy(p, b.data[b.off:])
	b.off += n
	return n, nil
}
func (b *body) Close() error { b.closed = true; return nil }

var remoteN = 40000

// serve starts the handling of one request and returns its response writer.
func serve(l *listener, r *http.Request) *respWriter {
	w := &respWriter{h: http.Header{}}
	srv := l.srv
	if srv != nil {
		serverOf(srv).active++
	}
	ctx, cancel := context.WithCancel(context.Background())
	r2 := r.WithContext(ctx)
	h := l.handler
	began := now()
	system("http handler", func() {
		ioRead()
		defer func() {
			cancel()
			if srv != nil && srv.WriteTimeout > 0 && now()-began >= srv.WriteTimeout && w.hijacked == nil {
				w.aborted = true // the response can no longer be written
			}
			if w.status == 0 && w.hijacked == nil {
				w.WriteHeader(http.StatusOK)
			}
			w.done = true
			if srv != nil {
				serverOf(srv).active--
			}
			ioWrite()
		}()
		userCall(func() { h.ServeHTTP(w, r2) })
	})
	return w
}

// ---- HTTP client ----

//vp:redirect net/http.NewRequest
func NewRequest(method, u string, b io.Reader) (*http.Request, error) {
	return NewRequestWithContext(context.Background(), method, u, b)
}

//vp:redirect net/http.NewRequestWithContext
func NewRequestWithContext(ctx context.Context, method, u string, b io.Reader) (*http.Request, error) {
	if method == "" {
		method = "GET"
	}
	if ctx == nil {
		return nil, errors.New("net/http: nil Context")
	}
	pu, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	rc, ok := b.(io.ReadCloser)
	if !ok && b != nil {
		rc = io.NopCloser(b)
	}
	r := &http.Request{Method: method, URL: pu, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: make(http.Header), Body: rc, Host: pu.Host}
	if ctx != context.Background() {
		r = r.WithContext(ctx)
	}
	return r, nil
}

func opName(m string) string {
	if m == "" {
		return "Get"
	}
	return m[:1] + strings.ToLower(m[1:])
}

//vp:redirect (*net/http.Client).Do
func ClientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	if r.URL == nil {
		return nil, &url.Error{Op: opName(r.Method), URL: "", Err: errors.New("http: nil Request.URL")}
	}
	fail := func(err error) (*http.Response, error) {
		if r.Body != nil {
			r.Body.Close()
		}
		return nil, &url.Error{Op: opName(r.Method), URL: r.URL.String(), Err: err}
	}
	if c.Transport != nil {
		if _, ok := c.Transport.(*http.Transport); !ok {
			var resp *http.Response
			var err error
			userCall(func() { resp, err = c.Transport.RoundTrip(r) })
			if err != nil {
				return fail(err)
			}
			return resp, nil
		}
	}
	resp, err := roundTrip(r, c.Timeout)
	if err != nil {
		return fail(err)
	}
	return resp, nil
}

//vp:redirect (*net/http.Transport).RoundTrip
func TransportRoundTrip(t *http.Transport, r *http.Request) (*http.Response, error) {
	return roundTrip(r, 0)
}

//vp:redirect (*net/http.Transport).CloseIdleConnections
func TransportCloseIdle(t *http.Transport) {}

//vp:redirect (*net/http.Client).CloseIdleConnections
func ClientCloseIdle(c *http.Client) {}

func roundTrip(r *http.Request, timeout time.Duration) (*http.Response, error) {
	if r.URL.Scheme != "http" && r.URL.Scheme != "https" {
		return nil, errors.New("unsupported protocol scheme " + r.URL.Scheme)
	}
	if r.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	var data []byte
	if r.Body != nil {
		d, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		data = d
	}
	ctx := r.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	l := find(portOf(r.URL.Host))
	if l == nil || l.handler == nil || r.URL.Scheme == "https" {
		return nil, refused(r.URL.Host)
	}
	u := &url.URL{Path: r.URL.Path, RawPath: r.URL.RawPath, RawQuery: r.URL.RawQuery}
	if u.Path == "" {
		u.Path = "/"
	}
	remoteN++
	h := r.Header.Clone()
	if h == nil {
		h = http.Header{}
	}
	uri := u.RequestURI()
	sr := &http.Request{Method: r.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Host: r.URL.Host,
		ContentLength: int64(len(data)), RemoteAddr: "127.0.0.1:" + itoa(remoteN), RequestURI: uri, Body: &body{data: data}, Close: r.Close}
	if sr.Method == "" {
		sr.Method = "GET"
	}
	if r.Host != "" {
		sr.Host = r.Host
	}
	ioWrite()
	w := serve(l, sr)
	limit := time.Duration(-1)
	if timeout > 0 {
		limit = now() + timeout
		wakeAfter(timeout)
	}
	done := ctx.Done()
	cancelled := false
	block(func() bool {
		if w.done {
			return true
		}
		if limit >= 0 && now() >= limit {
			return true
		}
		if done != nil {
			select {
			case <-done:
				cancelled = true
				return true
			default:
			}
		}
		return false
	})
	ioRead()
	if !w.done {
		if cancelled {
			return nil, ctx.Err()
		}
		return nil, &netErr{msg: "context deadline exceeded (Client.Timeout exceeded while awaiting headers)", timeout: true}
	}
	if w.aborted || w.hijacked != nil {
		return nil, io.EOF
	}
	return &http.Response{Status: itoa(w.status) + " " + http.StatusText(w.status), StatusCode: w.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: w.sent, Body: &body{data: w.body}, ContentLength: int64(len(w.body)), Request: r}, nil
}

//vp:redirect (*net/http.Client).Post
func ClientPost(c *http.Client, u, contentType string, b io.Reader) (*http.Response, error) {
	r, err := NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", contentType)
	return ClientDo(c, r)
}

//vp:redirect (*net/http.Client).Get
func ClientGet(c *http.Client, u string) (*http.Response, error) {
	r, err := NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return ClientDo(c, r)
}

//vp:redirect net/http.Post
func Post(u, contentType string, b io.Reader) (*http.Response, error) {
	return ClientPost(http.DefaultClient, u, contentType, b)
}

//vp:redirect net/http.Get
func Get(u string) (*http.Response, error) { return ClientGet(http.DefaultClient, u) }

//vp:redirect net/http/httputil.DumpRequest|net/http/httputil.DumpRequestOut
func DumpRequest(r *http.Request, b bool) ([]byte, error) {
	return []byte(r.Method + " HTTP/1.1\r\n"), nil
}

//vp:redirect net/http/httputil.DumpResponse
func DumpResponse(r *http.Response, b bool) ([]byte, error) { return []byte("HTTP/1.1\r\n"), nil }

//vp:redirect net.DialTimeout
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return nil, refused(address)
}

// ---- compression: a marked copy ----

const flateMark = "\x00flate\x00"

type flateWriter struct {
	w io.Writer
	b bytes.Buffer
}

// ---- websocket ----

type frame struct {
	op   int
	data []byte
	code int
	text string
}

const (
	opEOF   = -1
	opReset = -2
)

type end struct {
	ws        *websocket.Conn
	peer      *end
	in        []frame
	closed    bool // by this side
	peerGone  bool // the peer closed the transport
	rst       bool
	readErr   error
	readFails int
	writeErr  error
	closeSent bool
	sub       string
	rd, wr    int
	rDeadline time.Duration
	wDeadline time.Duration
	rSet      bool
	wSet      bool
	pingH     func(string) error
	pongH     func(string) error
	closeH    func(int, string) error
	limit     int64
	name      string
	partial   *frame
	stalled   bool // nothing is taken from the transport
}

var ends = map[*websocket.Conn]*end{}

var errClosedConn = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}

func newPair() (client, server *end) {
	client = &end{ws: &websocket.Conn{}, name: "client"}
	server = &end{ws: &websocket.Conn{}, name: "server"}
	client.peer, server.peer = server, client
	ends[client.ws] = client
	ends[server.ws] = server
	return
}

func endOf(c *websocket.Conn) *end {
	if c == nil {
		// what the real connection does: a nil dereference
		var p *int
		*p = 1
	}
	return ends[c]
}

func token(h http.Header, key, val string) bool {
	for _, v := range h[key] {
		for _, t := range strings.Split(v, ",") {
			if strings.EqualFold(strings.TrimSpace(t), val) {
				return true
			}
		}
	}
	return false
}

//vp:redirect github.com/gorilla/websocket.IsWebSocketUpgrade
func IsWebSocketUpgrade(r *http.Request) bool {
	return token(r.Header, "Connection", "upgrade") && token(r.Header, "Upgrade", "websocket")
}

//vp:redirect github.com/gorilla/websocket.Subprotocols
func Subprotocols(r *http.Request) []string {
	h := strings.TrimSpace(r.Header.Get("Sec-Websocket-Protocol"))
	if h == "" {
		return nil
	}
	ps := strings.Split(h, ",")
	for i := range ps {
		ps[i] = strings.TrimSpace(ps[i])
	}
	return ps
}

type handshakeError struct{ msg string }

func (e handshakeError) Error() string { return e.msg }

//vp:redirect (*github.com/gorilla/websocket.Upgrader).Upgrade
func Upgrade(u *websocket.Upgrader, w http.ResponseWriter, r *http.Request, rh http.Header) (*websocket.Conn, error) {
	const bad = "websocket: the client is not using the websocket protocol: "
	fail := func(status int, msg string) (*websocket.Conn, error) {
		err := handshakeError{msg}
		if u.Error != nil {
			userCall(func() { u.Error(w, r, status, err) })
		} else {
			w.Header().Set("Sec-Websocket-Version", "13")
			http.Error(w, http.StatusText(status), status)
		}
		return nil, err
	}
	if !token(r.Header, "Connection", "upgrade") {
		return fail(http.StatusBadRequest, bad+"'upgrade' token not found in 'Connection' header")
	}
	if !token(r.Header, "Upgrade", "websocket") {
		return fail(http.StatusBadRequest, bad+"'websocket' token not found in 'Upgrade' header")
	}
	if r.Method != "GET" {
		return fail(http.StatusMethodNotAllowed, bad+"request method is not GET")
	}
	if !token(r.Header, "Sec-Websocket-Version", "13") {
		return fail(http.StatusBadRequest, "websocket: unsupported version: 13 not found in 'Sec-Websocket-Version' header")
	}
	if _, ok := rh["Sec-Websocket-Extensions"]; ok {
		return fail(http.StatusInternalServerError, "websocket: application specific 'Sec-WebSocket-Extensions' headers are unsupported")
	}
	okOrigin := true
	if u.CheckOrigin != nil {
		userCall(func() { okOrigin = u.CheckOrigin(r) })
	}
	if !okOrigin {
		return fail(http.StatusForbidden, "websocket: request origin not allowed by Upgrader.CheckOrigin")
	}
	if r.Header.Get("Sec-Websocket-Key") == "" {
		return fail(http.StatusBadRequest, "websocket: not a websocket handshake: `Sec-WebSocket-Key' header is missing or blank")
	}
	sub := ""
	if u.Subprotocols != nil {
	outer:
		for _, sp := range u.Subprotocols {
			for _, cp := range Subprotocols(r) {
				if cp == sp {
					sub = cp
					break outer
				}
			}
		}
	} else if rh != nil {
		sub = rh.Get("Sec-Websocket-Protocol")
	}
	rw, ok := w.(*respWriter)
	if !ok {
		return fail(http.StatusInternalServerError, "websocket: response does not implement http.Hijacker")
	}
	c, s := newPair()
	c.sub, s.sub = sub, sub
	rw.hijacked = c
	rw.sent = http.Header{}
	if sub != "" {
		rw.sent.Set("Sec-Websocket-Protocol", sub)
	}
	for k, vs := range rh {
		if k != "Sec-Websocket-Protocol" {
			rw.sent[k] = vs
		}
	}
	ioWrite()
	return s.ws, nil
}

//vp:redirect (*github.com/gorilla/websocket.Dialer).Dial
func Dial(d *websocket.Dialer, u string, h http.Header) (*websocket.Conn, *http.Response, error) {
	return DialContext(d, context.Background(), u, h)
}

//vp:redirect (*github.com/gorilla/websocket.Dialer).DialContext
func DialContext(d *websocket.Dialer, ctx context.Context, us string, rh http.Header) (*websocket.Conn, *http.Response, error) {
	u, err := url.Parse(us)
	if err != nil {
		return nil, nil, err
	}
	if u.Scheme != "ws" && u.Scheme != "wss" {
		return nil, nil, errors.New("malformed ws or wss URL")
	}
	if u.User != nil {
		return nil, nil, errors.New("malformed ws or wss URL")
	}
	if err := ctx.Err(); err != nil {
		return nil, nil, err
	}
	l := find(portOf(u.Host))
	if l == nil || l.handler == nil || u.Scheme == "wss" {
		return nil, nil, refused(u.Host)
	}
	h := http.Header{}
	for k, v := range rh {
		h[k] = v
	}
	h["Upgrade"] = []string{"websocket"}
	h["Connection"] = []string{"Upgrade"}
	h["Sec-Websocket-Key"] = []string{"AAAAAAAAAAAAAAAAAAAAAA=="}
	h["Sec-Websocket-Version"] = []string{"13"}
	if d != nil && len(d.Subprotocols) > 0 {
		h["Sec-Websocket-Protocol"] = []string{strings.Join(d.Subprotocols, ", ")}
	}
	path := u.Path
	if path == "" {
		path = "/"
	}
	remoteN++
	ru := &url.URL{Path: path, RawPath: u.RawPath, RawQuery: u.RawQuery}
	r := &http.Request{Method: "GET", URL: ru, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Host: u.Host, RemoteAddr: "127.0.0.1:" + itoa(remoteN), RequestURI: ru.RequestURI(), Body: http.NoBody}
	ioWrite()
	w := serve(l, r)
	limit := time.Duration(-1)
	if d != nil && d.HandshakeTimeout > 0 {
		limit = now() + d.HandshakeTimeout
		wakeAfter(d.HandshakeTimeout)
	}
	done := ctx.Done()
	block(func() bool {
		if w.hijacked != nil || w.done || limit >= 0 && now() >= limit {
			return true
		}
		if done != nil {
			select {
			case <-done:
				return true
			default:
			}
		}
		return false
	})
	ioRead()
	if w.hijacked != nil {
		resp := &http.Response{Status: "101 Switching Protocols", StatusCode: 101, Header: w.sent, Body: http.NoBody}
		return w.hijacked.ws, resp, nil
	}
	if !w.done {
		if err := ctx.Err(); err != nil {
			return nil, nil, err
		}
		return nil, nil, &netErr{msg: "i/o timeout", timeout: true}
	}
	return nil, &http.Response{Status: itoa(w.status), StatusCode: w.status, Header: w.sent, Body: &body{data: w.body}}, websocket.ErrBadHandshake
}

//vp:redirect (*github.com/gorilla/websocket.Conn).Subprotocol
func ConnSubprotocol(c *websocket.Conn) string { return endOf(c).sub }

//vp:redirect (*github.com/gorilla/websocket.Conn).LocalAddr|(*github.com/gorilla/websocket.Conn).RemoteAddr
func ConnAddr(c *websocket.Conn) net.Addr { return addr("127.0.0.1:1") }

func (e *end) send(f frame) error {
	if e.writeErr != nil {
		return e.writeErr
	}
	if e.closed {
		e.writeErr = &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		return e.writeErr
	}
	if e.rst {
		e.writeErr = &net.OpError{Op: "write", Net: "tcp", Err: &netErr{msg: "write: broken pipe"}}
		return e.writeErr
	}
	if e.wSet && now() >= e.wDeadline {
		e.writeErr = &netErr{msg: "i/o timeout", timeout: true}
		return e.writeErr
	}
	if e.peer.stalled {
		if e.wSet {
			wakeAfter(e.wDeadline - now())
		}
		block(func() bool { return !e.peer.stalled || e.closed || e.rst || e.peerGone || e.wSet && now() >= e.wDeadline })
		return e.send(f)
	}
	ioWrite()
	if e.peerGone {
		e.rst = true
		return nil
	}
	e.peer.in = append(e.peer.in, f)
	if f.op == websocket.CloseMessage {
		e.closeSent = true
		e.writeErr = websocket.ErrCloseSent
	}
	return nil
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

//vp:redirect (*github.com/gorilla/websocket.Conn).WriteMessage
func ConnWriteMessage(c *websocket.Conn, mt int, data []byte) error {
	e := endOf(c)
	raceOn(&e.wr, "write")
	if mt != websocket.TextMessage && mt != websocket.BinaryMessage {
		if mt == websocket.CloseMessage || mt == websocket.PingMessage || mt == websocket.PongMessage {
			return ConnWriteControl(c, mt, data, time.Time{})
		}
		return errors.New("websocket: bad write message type")
	}
	return e.send(frame{op: mt, data: cp(data)})
}

//vp:redirect (*github.com/gorilla/websocket.Conn).WriteControl
func ConnWriteControl(c *websocket.Conn, mt int, data []byte, deadline time.Time) error {
	e := endOf(c)
	f := frame{op: mt, data: cp(data)}
	switch mt {
	case websocket.CloseMessage:
		f.code, f.text = websocket.CloseNoStatusReceived, ""
		if len(data) >= 2 {
			f.code = int(data[0])<<8 | int(data[1])
			f.text = string(data[2:])
		}
	case websocket.PingMessage, websocket.PongMessage:
	default:
		return errors.New("websocket: bad write message type")
	}
	return e.send(f)
}

func (e *end) ctl(f frame) error {
	switch f.op {
	case websocket.CloseMessage:
		h := e.closeH
		if h == nil {
			h = func(code int, text string) error {
				var d []byte
				if code != websocket.CloseNoStatusReceived {
					d = []byte{byte(code >> 8), byte(code)}
				}
				ConnWriteControl(e.ws, websocket.CloseMessage, d, time.Time{})
				return nil
			}
		}
		if err := h(f.code, f.text); err != nil {
			return err
		}
		return &websocket.CloseError{Code: f.code, Text: f.text}
	case websocket.PingMessage:
		if e.pingH != nil {
			return e.pingH(string(f.data))
		}
		ConnWriteControl(e.ws, websocket.PongMessage, f.data, time.Time{})
	case websocket.PongMessage:
		if e.pongH != nil {
			return e.pongH(string(f.data))
		}
	}
	return nil
}

//vp:redirect (*github.com/gorilla/websocket.Conn).ReadMessage
func ConnReadMessage(c *websocket.Conn) (int, []byte, error) {
	e := endOf(c)
	raceOn(&e.rd, "read")
	for {
		if e.readErr != nil {
			e.readFails++
			if e.readFails >= 1000 {
				panic("repeated read on failed websocket connection")
			}
			return -1, nil, e.readErr
		}
		if e.rSet {
			if d := e.rDeadline - now(); d > 0 {
				wakeAfter(d)
			}
		}
		block(func() bool { return len(e.in) > 0 || e.closed || e.rSet && now() >= e.rDeadline })
		ioRead()
		if e.closed {
			e.readErr = errClosedConn
			continue
		}
		if e.rSet && now() >= e.rDeadline {
			e.readErr = &netErr{msg: "i/o timeout", timeout: true}
			continue
		}
		f := e.in[0]
		e.in = e.in[1:]
		switch f.op {
		case opEOF:
			e.readErr = &websocket.CloseError{Code: websocket.CloseAbnormalClosure, Text: "unexpected EOF"}
		case opReset:
			e.readErr = &net.OpError{Op: "read", Net: "tcp", Err: &netErr{msg: "read: connection reset by peer"}}
		case websocket.TextMessage, websocket.BinaryMessage:
			if e.limit > 0 && int64(len(f.data)) > e.limit {
				ConnWriteControl(c, websocket.CloseMessage, []byte{byte(1009 >> 8), byte(1009 & 255)}, time.Time{})
				e.readErr = websocket.ErrReadLimit
				continue
			}
			return f.op, f.data, nil
		default:
			if err := e.ctl(f); err != nil {
				e.readErr = err
			}
		}
	}
}

//vp:redirect (*github.com/gorilla/websocket.Conn).Close
func ConnClose(c *websocket.Conn) error {
	e := endOf(c)
	if e.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	e.closed = true
	ioWrite()
	op := opEOF
	if len(e.in) > 0 {
		op = opReset
	}
	e.peer.in = append(e.peer.in, frame{op: op})
	e.peer.peerGone = true
	return nil
}

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Reset
func Reset(c *websocket.Conn) {
	e := endOf(c)
	if e.closed {
		return
	}
	e.closed = true
	ioWrite()
	e.peer.in = append(e.peer.in, frame{op: opReset})
	e.peer.peerGone = true
	e.peer.rst = true
}

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Stall
func Stall(c *websocket.Conn) { endOf(c).stalled = true }

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Resume
func Resume(c *websocket.Conn) { endOf(c).stalled = false }

//vp:redirect github.com/voltbras/go-ocpp/zzverif/vp.Bulk
func Bulk() string { return "bulk" }

type msgWriter struct {
	e   *end
	mt  int
	buf []byte
	end bool
}

func (w *msgWriter) Write(p []byte) (int, error) {
	if w.end {
		return 0, errors.New("websocket: write closed")
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}
func (w *msgWriter) Close() error {
	if w.end {
		return errors.New("websocket: write closed")
	}
	w.end = true
	raceOn(&w.e.wr, "write")
	return w.e.send(frame{op: w.mt, data: w.buf})
}

//vp:redirect (*github.com/gorilla/websocket.Conn).NextWriter
func ConnNextWriter(c *websocket.Conn, mt int) (io.WriteCloser, error) {
	e := endOf(c)
	raceOn(&e.wr, "write")
	if e.writeErr != nil {
		return nil, e.writeErr
	}
	return &msgWriter{e: e, mt: mt}, nil
}

//vp:redirect (*github.com/gorilla/websocket.Conn).NextReader
func ConnNextReader(c *websocket.Conn) (int, io.Reader, error) {
	mt, b, err := ConnReadMessage(c)
	if err != nil {
		return mt, nil, err
	}
	return mt, &body{data: b}, nil
}

//vp:redirect (*github.com/gorilla/websocket.Conn).SetReadDeadline
func ConnSetReadDeadline(c *websocket.Conn, t time.Time) error {
	e := endOf(c)
	e.rSet = !t.IsZero()
	if e.rSet {
		e.rDeadline = now() + time.Until(t)
		if d := e.rDeadline - now(); d > 0 {
			wakeAfter(d)
		}
	}
	return nil
}

//vp:redirect (*github.com/gorilla/websocket.Conn).SetWriteDeadline
func ConnSetWriteDeadline(c *websocket.Conn, t time.Time) error {
	e := endOf(c)
	e.wSet = !t.IsZero()
	if e.wSet {
		e.wDeadline = now() + time.Until(t)
	}
	return nil
}

//vp:redirect (*github.com/gorilla/websocket.Conn).SetReadLimit
func ConnSetReadLimit(c *websocket.Conn, n int64) { endOf(c).limit = n }

//vp:redirect (*github.com/gorilla/websocket.Conn).SetPingHandler
func ConnSetPingHandler(c *websocket.Conn, h func(string) error) { endOf(c).pingH = h }

//vp:redirect (*github.com/gorilla/websocket.Conn).SetPongHandler
func ConnSetPongHandler(c *websocket.Conn, h func(string) error) { endOf(c).pongH = h }

//vp:redirect (*github.com/gorilla/websocket.Conn).SetCloseHandler
func ConnSetCloseHandler(c *websocket.Conn, h func(int, string) error) { endOf(c).closeH = h }

//vp:redirect (*github.com/gorilla/websocket.Conn).EnableWriteCompression
func ConnEnableWriteCompression(c *websocket.Conn, b bool) {}
