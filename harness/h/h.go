// Package h has what the harnesses share: websocket and HTTP peers, frames, an independent JSON encoder for messages.
package h

import (
	"encoding/json"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Patience is how long a harness waits for something that should come.
var Patience = 20 * time.Second

// StartCS runs a central system.
func StartCS(handler cs.ChargePointMessageHandler) (cs.CentralSystem, string) {
	c := cs.New()
	port := vp.Port()
	go c.Run(port, handler)
	vp.WaitListen(port)
	return c, port
}

// Peer is the harness's end of a websocket.
type Peer struct {
	C    *websocket.Conn
	got  chan string
	hold sync.Mutex // held while nothing is read
}

// Dial connects to a central system.
func Dial(port, path string) (*Peer, error) {
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
	c, _, err := d.Dial("ws://localhost"+port+path, nil)
	if err != nil {
		return nil, err
	}
	return NewPeer(c), nil
}

// MustDial is Dial for harnesses in which the connection has to be accepted.
func MustDial(port, path string) *Peer {
	p, err := Dial(port, path)
	vp.Assert(err == nil, "a websocket upgrade is refused")
	return p
}

// NewPeer reads all that comes over a connection.
func NewPeer(c *websocket.Conn) *Peer {
	p := &Peer{C: c, got: make(chan string, 512)}
	go func() {
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				close(p.got)
				return
			}
			p.got <- string(b)
			p.hold.Lock()
			p.hold.Unlock()
		}
	}()
	return p
}

// Stall stops reading after the next message, which has to come before Stalled. Resume goes on.
func (p *Peer) Stall()   { p.hold.Lock() }
func (p *Peer) Stalled() { vp.Stall(p.C) }
func (p *Peer) Resume() {
	vp.Resume(p.C)
	p.hold.Unlock()
}

// Write sends a text message.
func (p *Peer) Write(s string) error { return p.C.WriteMessage(websocket.TextMessage, []byte(s)) }

// Read waits for a message; it returns "" when none comes or the connection ends.
func (p *Peer) Read() string {
	select {
	case s := <-p.got:
		return s
	case <-vp.After(Patience):
		return ""
	}
}

// Pending returns what has come already, without waiting.
func (p *Peer) Pending() (string, bool) {
	select {
	case s, ok := <-p.got:
		return s, ok
	default:
		return "", false
	}
}

// Ended reports whether the connection has ended (after what was read).
func (p *Peer) Ended() bool {
	select {
	case _, ok := <-p.got:
		return !ok
	case <-vp.After(Patience):
		return false
	}
}

// Drained waits for the end of the connection, whatever comes before it.
func (p *Peer) Drained() bool {
	for {
		select {
		case _, ok := <-p.got:
			if !ok {
				return true
			}
		case <-vp.After(Patience):
			return false
		}
	}
}

// Frame is a parsed OCPP-J frame.
type Frame struct {
	Type int
	ID   string
	Rest []json.RawMessage
}

// Parse parses a frame.
func Parse(s string) (f Frame, ok bool) {
	var raw []json.RawMessage
	if json.Unmarshal([]byte(s), &raw) != nil || len(raw) < 3 {
		return f, false
	}
	if json.Unmarshal(raw[0], &f.Type) != nil || json.Unmarshal(raw[1], &f.ID) != nil {
		return f, false
	}
	f.Rest = raw[2:]
	return f, true
}

// Str decodes a JSON string.
func Str(r json.RawMessage) (string, bool) {
	var v interface{}
	if json.Unmarshal(r, &v) != nil {
		return "", false
	}
	s, ok := v.(string)
	return s, ok
}

// IsObject reports whether r is a JSON object.
func IsObject(r json.RawMessage) bool {
	var v interface{}
	if json.Unmarshal(r, &v) != nil {
		return false
	}
	_, ok := v.(map[string]interface{})
	return ok
}

// Call builds a Call frame.
func Call(id, action, payload string) string {
	b, err := json.Marshal([]interface{}{2, id, action, json.RawMessage(payload)})
	vp.Assume(err == nil)
	return string(b)
}

// Result builds a CallResult frame.
func Result(id, payload string) string {
	b, err := json.Marshal([]interface{}{3, id, json.RawMessage(payload)})
	vp.Assume(err == nil)
	return string(b)
}

// Error builds a CallError frame.
func Error(id, code, desc, details string) string {
	b, err := json.Marshal([]interface{}{4, id, code, desc, json.RawMessage(details)})
	vp.Assume(err == nil)
	return string(b)
}

// JSON is json.Marshal of something that can be encoded.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	vp.Assume(err == nil)
	return string(b)
}

// IsError reports whether s is the CallError frame of a call with the given code, and its description.
func IsError(s, id, code string) (desc string, ok bool) {
	f, ok := Parse(s)
	if !ok || f.Type != 4 || f.ID != id || len(f.Rest) != 3 || !IsObject(f.Rest[2]) {
		return "", false
	}
	c, ok := Str(f.Rest[0])
	if !ok || c != code {
		return "", false
	}
	return Str(f.Rest[1])
}

// IsResult reports whether s is the CallResult frame of a call, and its payload.
func IsResult(s, id string) (payload string, ok bool) {
	f, ok := Parse(s)
	if !ok || f.Type != 3 || f.ID != id || len(f.Rest) != 1 {
		return "", false
	}
	return string(f.Rest[0]), IsObject(f.Rest[0])
}

// WellFormed reports whether s is an OCPP-J frame: [2, id, action, payload], [3, id, payload] or [4, id, code, description, details].
func WellFormed(s string) bool {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return false
	}
	a, ok := v.([]interface{})
	if !ok || len(a) < 3 {
		return false
	}
	t, ok := a[0].(float64)
	if !ok {
		return false
	}
	if _, ok := a[1].(string); !ok {
		return false
	}
	switch t {
	case 2:
		return len(a) >= 4 && isString(a[2]) && isObject(a[3])
	case 3:
		return isObject(a[2])
	case 4:
		return len(a) >= 5 && isString(a[2]) && isString(a[3]) && isObject(a[4])
	}
	return false
}

func isString(v interface{}) bool {
	_, ok := v.(string)
	return ok
}

func isObject(v interface{}) bool {
	_, ok := v.(map[string]interface{})
	return ok
}
