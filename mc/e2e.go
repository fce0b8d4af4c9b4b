package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync/atomic"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

// C29, first part: complete conversations of two clients through the router, from
// the handshake to GOODBYE, over framed bytes, for all combinations of serializers,
// methods, flows and payloads.

// e2eStatic is a serializer of the static kind: it announces itself as static,
// keeps binary payloads apart from the message and decodes them on demand.
type e2eStatic struct{}

type e2eWire struct {
	List    []any
	Payload []byte
	ID      uint64
	Binary  bool
}

func (*e2eStatic) Static() bool { return true }

func (*e2eStatic) Serialize(m messages.Message) ([]byte, error) {
	w := e2eWire{List: m.Marshal()}
	switch m.(type) {
	case *messages.Call, *messages.Invocation, *messages.Yield, *messages.Result:
		p := m.(binaryPayload)
		w.Binary = true
		if p.PayloadIsBinary() {
			w.Payload, w.ID = p.Payload(), p.PayloadSerializer()
		} else {
			var err error
			if w.Payload, err = serializers.SerializePayload(serializers.MsgPackSerializerID, p.Args(), p.KwArgs()); err != nil {
				return nil, err
			}
			w.ID = serializers.MsgPackSerializerID
		}
		n := 3
		if _, ok := m.(*messages.Call); ok {
			n = 4
		}
		if _, ok := m.(*messages.Invocation); ok {
			n = 4
		}
		w.List = w.List[:n]
	}
	return json.Marshal(w)
}

type e2eLazy struct {
	b    []byte
	id   uint64
	done bool
	args []any
	kw   map[string]any
}

func (l *e2eLazy) PayloadIsBinary() bool     { return true }
func (l *e2eLazy) Payload() []byte           { return l.b }
func (l *e2eLazy) PayloadSerializer() uint64 { return l.id }
func (l *e2eLazy) decode() {
	if !l.done {
		l.args, l.kw, _ = serializers.DeserializePayload(l.id, l.b)
		l.done = true
	}
}
func (l *e2eLazy) Args() []any            { l.decode(); return l.args }
func (l *e2eLazy) KwArgs() map[string]any { l.decode(); return l.kw }

type e2eCall struct {
	*messages.Call
	l *e2eLazy
}
type e2eInvocation struct {
	*messages.Invocation
	l *e2eLazy
}
type e2eYield struct {
	*messages.Yield
	l *e2eLazy
}
type e2eResult struct {
	*messages.Result
	l *e2eLazy
}

func (m e2eCall) PayloadIsBinary() bool           { return true }
func (m e2eCall) Payload() []byte                 { return m.l.Payload() }
func (m e2eCall) PayloadSerializer() uint64       { return m.l.id }
func (m e2eCall) Args() []any                     { return m.l.Args() }
func (m e2eCall) KwArgs() map[string]any          { return m.l.KwArgs() }
func (m e2eInvocation) PayloadIsBinary() bool     { return true }
func (m e2eInvocation) Payload() []byte           { return m.l.Payload() }
func (m e2eInvocation) PayloadSerializer() uint64 { return m.l.id }
func (m e2eInvocation) Args() []any               { return m.l.Args() }
func (m e2eInvocation) KwArgs() map[string]any    { return m.l.KwArgs() }
func (m e2eYield) PayloadIsBinary() bool          { return true }
func (m e2eYield) Payload() []byte                { return m.l.Payload() }
func (m e2eYield) PayloadSerializer() uint64      { return m.l.id }
func (m e2eYield) Args() []any                    { return m.l.Args() }
func (m e2eYield) KwArgs() map[string]any         { return m.l.KwArgs() }
func (m e2eResult) PayloadIsBinary() bool         { return true }
func (m e2eResult) Payload() []byte               { return m.l.Payload() }
func (m e2eResult) PayloadSerializer() uint64     { return m.l.id }
func (m e2eResult) Args() []any                   { return m.l.Args() }
func (m e2eResult) KwArgs() map[string]any        { return m.l.KwArgs() }

func (*e2eStatic) Deserialize(b []byte) (messages.Message, error) {
	var w e2eWire
	if err := json.Unmarshal(b, &w); err != nil {
		return nil, err
	}
	m, err := serializers.ToMessage(w.List)
	if err != nil {
		return nil, err
	}
	if err = m.Parse(w.List); err != nil {
		return nil, err
	}
	if !w.Binary {
		return m, nil
	}
	l := &e2eLazy{b: w.Payload, id: w.ID}
	switch x := m.(type) {
	case *messages.Call:
		return messages.NewCallWithFields(e2eCall{x, l}), nil
	case *messages.Invocation:
		return messages.NewInvocationWithFields(e2eInvocation{x, l}), nil
	case *messages.Yield:
		return messages.NewYieldWithFields(e2eYield{x, l}), nil
	case *messages.Result:
		return messages.NewResultWithFields(e2eResult{x, l}), nil
	}
	return m, nil
}

var e2eSers = []serT{allSerializers[0], allSerializers[1], allSerializers[2], {"static", &e2eStatic{}}}

// frames writes and reads the frames of one direction of a connection.
type frames struct{ buf bytes.Buffer }

func (f *frames) put(b []byte) {
	f.buf.Write(transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, len(b))))
	f.buf.Write(b)
}

func (f *frames) get() ([]byte, string) {
	h := make([]byte, 4)
	if n, _ := f.buf.Read(h); n != 4 {
		return nil, "there is no frame to read"
	}
	hd, err := transports.ReceiveMessageHeader(h)
	if err != nil {
		return nil, "frame header: " + err.Error()
	}
	if hd.Kind() != transports.MessageWamp || hd.Length() > f.buf.Len() {
		return nil, fmt.Sprintf("the frame header says kind %d and %d bytes, %d are there", hd.Kind(), hd.Length(), f.buf.Len())
	}
	b := make([]byte, hd.Length())
	_, _ = f.buf.Read(b)
	return b, ""
}

type e2eEnd struct {
	name       string
	ser        serT
	method     string
	sess       *wampproto.Session
	j          *wampproto.Joiner
	a          *wampproto.Acceptor
	det        *wampproto.SessionDetails // as the router knows it
	up, down   frames
	next       uint64
	authid     string
	generation int
}

type e2eRouter struct {
	b    *wampproto.Broker
	d    *wampproto.Dealer
	ends []*e2eEnd
}

type e2eFail string

func e2eBad(f string, a ...any) { panic(e2eFail(fmt.Sprintf(f, a...))) }

// connect negotiates the transport and joins.
func (r *e2eRouter) connect(e *e2eEnd) {
	id := map[string]transports.Serializer{"JSON": transports.SerializerJson, "MsgPack": transports.SerializerMsgpack, "CBOR": transports.SerializerCbor, "static": 15}[e.ser.name]
	hb, err := transports.SendHandshake(transports.NewHandshake(id, 1<<24))
	if err != nil {
		e2eBad("the transport handshake of %s: %v", e.name, err)
	}
	hs, err := transports.ReceiveHandshake(hb)
	if err != nil || hs.Serializer() != id || hs.MaxMessageSize() != 1<<24 {
		e2eBad("the transport handshake of %s is understood as %v (%v)", e.name, hs, err)
	}
	e.generation++
	e.authid = fmt.Sprintf("%s-%d", e.name, e.generation)
	e.next = 1
	salted := e.method == "wampcra salted"
	method := e.method
	if salted {
		method = "wampcra"
	}
	h := &handshake{method: method, authid: e.name, ticket: "secret of " + e.name, key: e.name[0], extra: map[string]any{"who": e.name}}
	ca, err := h.clientAuth()
	if err != nil {
		e2eBad("authenticator: %v", err)
	}
	e.j = wampproto.NewJoiner("realm of "+e.name, e.ser.s, ca)
	e.a = wampproto.NewAcceptor(e.ser.s, &harnessAuth{methods: auth.Methods, f: func(q auth.Request) (auth.Response, error) {
		role := "role of " + e.name
		switch x := q.(type) {
		case *auth.TicketRequest:
			if x.Ticket() != h.ticket {
				return nil, fmt.Errorf("wrong ticket")
			}
		case *auth.RequestCryptoSign:
			if _, pub := keyPair(h.key); x.PublicKey() != pub {
				return nil, fmt.Errorf("wrong key")
			}
		default:
			if salted {
				return auth.NewCRAResponseSalted(e.authid, role, h.ticket, "salt of "+e.name, 3, 24, 0), nil
			}
			if method == "wampcra" {
				return auth.NewCRAResponse(e.authid, role, h.ticket, 0), nil
			}
		}
		return auth.NewResponse(e.authid, role, 0)
	}})
	b, err := e.j.SendHello()
	if err != nil {
		e2eBad("SendHello: %v", err)
	}
	e.up.put(b)
	for step := 0; ; step++ {
		in, bad := e.up.get()
		if bad != "" || step > 3 {
			e2eBad("handshake of %s, step %d: %s", e.name, step, bad)
		}
		out, welcomed, err := e.a.Receive(in)
		if err != nil {
			e2eBad("handshake of %s: the acceptor says %v", e.name, err)
		}
		e.down.put(out)
		if in, bad = e.down.get(); bad != "" {
			e2eBad("handshake of %s: %s", e.name, bad)
		}
		if out, err = e.j.Receive(in); err != nil {
			e2eBad("handshake of %s: the joiner says %v", e.name, err)
		}
		if welcomed != (out == nil) {
			e2eBad("handshake of %s: welcomed %v, but the client sends %d bytes", e.name, welcomed, len(out))
		}
		if welcomed {
			break
		}
		e.up.put(out)
	}
	cd, err := e.j.SessionDetails()
	if err != nil {
		e2eBad("%s has no details: %v", e.name, err)
	}
	sd, err := e.a.SessionDetails()
	if err != nil {
		e2eBad("the router has no details of %s: %v", e.name, err)
	}
	if cd.ID() != sd.ID() || cd.Realm() != sd.Realm() || cd.AuthID() != sd.AuthID() || cd.AuthRole() != sd.AuthRole() || sd.AuthID() != e.authid || sd.StaticSerializer() != e.ser.s.Static() {
		e2eBad("%s joined as %v %v %v %v, for the router it is %v %v %v %v (static %v), decided was %v", e.name, cd.ID(), cd.Realm(), cd.AuthID(), cd.AuthRole(),
			sd.ID(), sd.Realm(), sd.AuthID(), sd.AuthRole(), sd.StaticSerializer(), e.authid)
	}
	if err := r.b.AddSession(sd); err != nil {
		e2eBad("the broker refuses %s: %v", e.name, err)
	}
	if err := r.d.AddSession(sd); err != nil {
		e2eBad("the dealer refuses %s: %v", e.name, err)
	}
	e.det = sd
	e.sess = wampproto.NewSession(e.ser.s)
}

func (r *e2eRouter) deliver(to uint64, m messages.Message) {
	for _, e := range r.ends {
		if e.det != nil && e.det.ID() == to {
			b, err := e.ser.s.Serialize(m)
			if err != nil {
				e2eBad("%T for %s cannot be serialized: %v", m, e.name, err)
			}
			e.down.put(b)
			return
		}
	}
	e2eBad("%T is addressed to session %d, which is not attached", m, to)
}

// send lets a client send a message and the router process it.
func (r *e2eRouter) send(e *e2eEnd, m messages.Message) {
	b, err := e.sess.SendMessage(m)
	if err != nil {
		e2eBad("%s cannot send %T: %v", e.name, m, err)
	}
	e.up.put(b)
	in, bad := e.up.get()
	if bad != "" {
		e2eBad("%s", bad)
	}
	got, err := e.ser.s.Deserialize(in)
	if err != nil {
		e2eBad("the router cannot read the %T of %s: %v", m, e.name, err)
	}
	id := e.det.ID()
	var out *wampproto.MessageWithRecipient
	switch x := got.(type) {
	case *messages.GoodBye:
		if err := r.b.RemoveSession(id); err != nil {
			e2eBad("GOODBYE: %v", err)
		}
		if err := r.d.RemoveSession(id); err != nil {
			e2eBad("GOODBYE: %v", err)
		}
		r.deliver(id, messages.NewGoodBye("wamp.close.goodbye_and_out", nil))
		e.det = nil
		return
	case *messages.Publish:
		p, err := r.b.ReceivePublish(id, x)
		if err != nil {
			e2eBad("PUBLISH of %s: %v", e.name, err)
		}
		if p.Ack != nil {
			r.deliver(p.Ack.Recipient, p.Ack.Message)
		}
		for _, to := range p.Recipients {
			r.deliver(to, p.Event)
		}
		return
	case *messages.Subscribe, *messages.Unsubscribe:
		out, err = r.b.ReceiveMessage(id, got)
	default:
		out, err = r.d.ReceiveMessage(id, got)
	}
	if err != nil {
		e2eBad("the router refuses the %T of %s: %v", m, e.name, err)
	}
	if out != nil {
		r.deliver(out.Recipient, out.Message)
	}
}

// recv gives the next message a client receives.
func recv[T messages.Message](e *e2eEnd) T {
	in, bad := e.down.get()
	if bad != "" {
		var want T
		e2eBad("%s expects %T: %s", e.name, want, bad)
	}
	m, err := e.sess.Receive(in)
	if err != nil {
		e2eBad("the session of %s refuses what the router sent (%.200q): %v", e.name, in, err)
	}
	x, ok := m.(T)
	if !ok {
		e2eBad("%s expects %T and gets %T %.300v", e.name, x, m, m.Marshal())
	}
	return x
}

func (r *e2eRouter) nothing(e *e2eEnd) {
	if e.down.buf.Len() > 0 {
		e2eBad("%s gets something it should not (%.200q)", e.name, e.down.buf.Bytes())
	}
}

func (e *e2eEnd) req() uint64 { e.next++; return e.next - 1 }

// same content: every serializer may change the Go types of numbers
func e2eEqual(what string, args []any, kw map[string]any, wantA []any, wantK map[string]any) {
	if !exact(args, wantA, true) || !exact(kw, wantK, true) {
		e2eBad("%s carries %.300v %.300v instead of %.300v %.300v", what, fmt.Sprint(args), fmt.Sprint(kw), fmt.Sprint(wantA), fmt.Sprint(wantK))
	}
}

func e2eDisclosed(what, prefix string, d map[string]any, from *e2eEnd, on bool) {
	want := map[string]any{prefix: from.det.ID(), prefix + "_authid": from.authid, prefix + "_authrole": "role of " + from.name}
	for k, w := range want {
		g, ok := d[k]
		if ok != on || on && !exact(g, w, false) {
			e2eBad("%s discloses %v = %v (disclosure %v, the sender's handshake gave %v)", what, k, g, on, w)
		}
	}
}

// fields made by a user of the library
type e2ePublishF struct{ *messages.Publish }
type e2eCallF struct{ *messages.Call }
type e2eYieldF struct{ *messages.Yield }
type e2eErrorF struct{ *messages.Error }

var e2eFlows = []string{"publish", "publish to oneself too", "publish with fields", "call", "call with fields", "error", "progressive results", "progressive call", "binary call",
	"no such procedure", "goodbye and back"}

type e2eCase struct {
	serA, serB serT
	methA      string
	methB      string
	disclose   bool
	flow       int
	match      int
	args       []any
	kw         map[string]any
}

func (x *e2eCase) String() string {
	return fmt.Sprintf("client a over %s by %s, client b over %s by %s, disclosure %v, flow %q, match policy %d, arguments %.200v %.200v",
		x.serA.name, x.methA, x.serB.name, x.methB, x.disclose, e2eFlows[x.flow], x.match, fmt.Sprint(x.args), fmt.Sprint(x.kw))
}

var e2eMatch = []struct{ uri, match, used string }{{"a.b.c", "", "a.b.c"}, {"a.b", "prefix", "a.b.c"}, {"a.*.c", "wildcard", "a.b.c"}}

func (x *e2eCase) opts() map[string]any {
	o := map[string]any{}
	if m := e2eMatch[x.match].match; m != "" {
		o["match"] = m
	}
	return o
}

// run has client a use what client b offers.
func (x *e2eCase) run() (bad string) {
	defer func() {
		if v := recover(); v != nil {
			f, ok := v.(e2eFail)
			if !ok {
				panic(v)
			}
			bad = string(f)
		}
	}()
	a := &e2eEnd{name: "a", ser: x.serA, method: x.methA}
	b := &e2eEnd{name: "b", ser: x.serB, method: x.methB}
	r := &e2eRouter{b: wampproto.NewBroker(), d: wampproto.NewDealer(), ends: []*e2eEnd{a, b}}
	r.b.AutoDisclosePublisher(x.disclose)
	r.d.AutoDiscloseCaller(x.disclose)
	r.connect(a)
	r.connect(b)
	r.flow(x, a, b, x.flow)
	r.nothing(a)
	r.nothing(b)
	return ""
}

func (r *e2eRouter) subscribe(x *e2eCase, e *e2eEnd) uint64 {
	q := e.req()
	r.send(e, messages.NewSubscribe(q, x.opts(), e2eMatch[x.match].uri))
	s := recv[*messages.Subscribed](e)
	if s.RequestID() != q {
		e2eBad("SUBSCRIBED answers %d, asked was %d", s.RequestID(), q)
	}
	return s.SubscriptionID()
}

func (r *e2eRouter) register(x *e2eCase, e *e2eEnd) uint64 {
	q := e.req()
	r.send(e, messages.NewRegister(q, x.opts(), e2eMatch[x.match].uri))
	s := recv[*messages.Registered](e)
	if s.RequestID() != q {
		e2eBad("REGISTERED answers %d, asked was %d", s.RequestID(), q)
	}
	return s.RegistrationID()
}

func (r *e2eRouter) flow(x *e2eCase, a, b *e2eEnd, flow int) {
	used := e2eMatch[x.match].used
	cp := func() ([]any, map[string]any) { return cloneArgs(x.args), cloneMap(x.kw) }
	event := func(e *e2eEnd, sub uint64) uint64 {
		ev := recv[*messages.Event](e)
		if ev.SubscriptionID() != sub {
			e2eBad("EVENT is for subscription %d instead of %d", ev.SubscriptionID(), sub)
		}
		e2eEqual("EVENT", ev.Args(), ev.KwArgs(), x.args, x.kw)
		e2eDisclosed("EVENT", "publisher", ev.Details(), a, x.disclose)
		return ev.PublicationID()
	}
	invocation := func(reg uint64) *messages.Invocation {
		in := recv[*messages.Invocation](b)
		if in.RegistrationID() != reg {
			e2eBad("INVOCATION is for registration %d instead of %d", in.RegistrationID(), reg)
		}
		e2eEqual("INVOCATION", in.Args(), in.KwArgs(), x.args, x.kw)
		e2eDisclosed("INVOCATION", "caller", in.Details(), a, x.disclose)
		return in
	}
	result := func(q uint64, progress bool, args []any, kw map[string]any) {
		res := recv[*messages.Result](a)
		p, _ := res.Details()["progress"].(bool)
		if res.RequestID() != q || p != progress {
			e2eBad("RESULT answers %d (progress %v) instead of %d (progress %v)", res.RequestID(), p, q, progress)
		}
		e2eEqual("RESULT", res.Args(), res.KwArgs(), args, kw)
	}
	switch e2eFlows[flow] {
	case "publish", "publish to oneself too", "publish with fields":
		sub := r.subscribe(x, b)
		o := map[string]any{"acknowledge": true}
		own := e2eFlows[flow] == "publish to oneself too"
		if own {
			if s := r.subscribe(x, a); s != sub {
				e2eBad("the second holder's subscription is %d, the first one's %d", s, sub)
			}
			o["exclude_me"] = false
		}
		q := a.req()
		args, kw := cp()
		m := messages.NewPublish(q, o, used, args, kw)
		if e2eFlows[flow] == "publish with fields" {
			m = messages.NewPublishWithFields(e2ePublishF{m})
		}
		r.send(a, m)
		ack := recv[*messages.Published](a)
		if ack.RequestID() != q {
			e2eBad("PUBLISHED answers %d instead of %d", ack.RequestID(), q)
		}
		if p := event(b, sub); p != ack.PublicationID() {
			e2eBad("EVENT is of publication %d, acknowledged was %d", p, ack.PublicationID())
		}
		if own {
			event(a, sub)
		}
		q = b.req()
		r.send(b, messages.NewUnsubscribe(q, sub))
		recv[*messages.Unsubscribed](b)
	case "call", "call with fields", "error":
		reg := r.register(x, b)
		q := a.req()
		args, kw := cp()
		m := messages.NewCall(q, map[string]any{}, used, args, kw)
		if e2eFlows[flow] == "call with fields" {
			m = messages.NewCallWithFields(e2eCallF{m})
		}
		r.send(a, m)
		in := invocation(reg)
		args, kw = cp()
		if e2eFlows[flow] == "error" {
			er := messages.NewError(messages.MessageTypeInvocation, in.RequestID(), map[string]any{"why": []any{"x", nil}}, "an.error", args, kw)
			if x.disclose {
				er = messages.NewErrorWithFields(e2eErrorF{er})
			}
			r.send(b, er)
			got := recv[*messages.Error](a)
			if got.RequestID() != q || got.MessageType() != messages.MessageTypeCall || got.URI() != "an.error" || !exact(got.Details(), map[string]any{"why": []any{"x", nil}}, true) {
				e2eBad("ERROR answers %d/%d with %s %v", got.MessageType(), got.RequestID(), got.URI(), got.Details())
			}
			e2eEqual("ERROR", got.Args(), got.KwArgs(), x.args, x.kw)
			break
		}
		y := messages.NewYield(in.RequestID(), map[string]any{}, args, kw)
		if e2eFlows[flow] == "call with fields" {
			y = messages.NewYieldWithFields(e2eYieldF{y})
		}
		r.send(b, y)
		result(q, false, x.args, x.kw)
		q = b.req()
		r.send(b, messages.NewUnregister(q, reg))
		recv[*messages.Unregistered](b)
	case "progressive results":
		reg := r.register(x, b)
		q := a.req()
		args, kw := cp()
		r.send(a, messages.NewCall(q, map[string]any{"receive_progress": true}, used, args, kw))
		in := invocation(reg)
		if p, _ := in.Details()["receive_progress"].(bool); !p {
			e2eBad("INVOCATION does not ask for progressive results: %v", in.Details())
		}
		for i := 0; i < 3; i++ {
			o := map[string]any{}
			if i < 2 {
				o["progress"] = true
			}
			args, kw = cp()
			r.send(b, messages.NewYield(in.RequestID(), o, append([]any{i}, args...), kw))
			result(q, i < 2, append([]any{i}, x.args...), x.kw)
		}
	case "progressive call":
		reg := r.register(x, b)
		q := a.req()
		var id uint64
		for i := 0; i < 3; i++ {
			o := map[string]any{}
			if i < 2 {
				o["progress"] = true
			}
			args, kw := cp()
			r.send(a, messages.NewCall(q, o, used, args, kw))
			in := invocation(reg)
			if p, _ := in.Details()["progress"].(bool); p != (i < 2) || (i > 0 && in.RequestID() != id) {
				e2eBad("chunk %d is invocation %d (the first one was %d), progress %v", i, in.RequestID(), id, p)
			}
			id = in.RequestID()
		}
		args, kw := cp()
		r.send(b, messages.NewYield(id, nil, args, kw))
		result(q, false, x.args, x.kw)
	case "binary call":
		// from a static client to anyone and back
		reg := r.register(x, b)
		for id := uint64(1); id <= 3; id++ {
			q := a.req()
			args, kw := cp()
			raw, err := serializers.SerializePayload(id, args, kw)
			if err != nil {
				e2eBad("payload: %v", err)
			}
			var m *messages.Call
			if a.ser.s.Static() {
				m = messages.NewCallBinary(q, map[string]any{"x": "y"}, used, raw, id)
			} else {
				m = messages.NewCall(q, map[string]any{"x": "y"}, used, args, kw)
			}
			r.send(a, m)
			in := invocation(reg)
			if a.ser.s.Static() && b.ser.s.Static() && (!bytes.Equal(in.Payload(), raw) || in.PayloadSerializer() != id) {
				e2eBad("the binary payload of CALL arrives as %x with serializer %d instead of %x with %d", in.Payload(), in.PayloadSerializer(), raw, id)
			}
			var y *messages.Yield
			if b.ser.s.Static() {
				y = messages.NewYieldBinary(in.RequestID(), map[string]any{}, raw, id)
			} else {
				y = messages.NewYield(in.RequestID(), map[string]any{}, args, kw)
			}
			r.send(b, y)
			if a.ser.s.Static() && b.ser.s.Static() {
				res := recv[*messages.Result](a)
				if !bytes.Equal(res.Payload(), raw) || res.PayloadSerializer() != id || res.RequestID() != q {
					e2eBad("the binary payload of YIELD arrives as %x with serializer %d instead of %x with %d", res.Payload(), res.PayloadSerializer(), raw, id)
				}
				e2eEqual("RESULT", res.Args(), res.KwArgs(), x.args, x.kw)
				continue
			}
			result(q, false, x.args, x.kw)
		}
	case "no such procedure":
		q := a.req()
		args, kw := cp()
		r.send(a, messages.NewCall(q, nil, used, args, kw))
		er := recv[*messages.Error](a)
		if er.RequestID() != q || er.MessageType() != messages.MessageTypeCall || er.URI() != wampproto.ErrNoSuchProcedure {
			e2eBad("a CALL of nothing is answered by ERROR %d/%d %s", er.MessageType(), er.RequestID(), er.URI())
		}
		r.nothing(b)
		r.flow(x, a, b, 3)
	case "goodbye and back":
		for round := 0; round < 2; round++ {
			sub := r.subscribe(x, b)
			reg := r.register(x, b)
			_ = reg
			_ = sub
			old := b.det.ID()
			r.send(b, messages.NewGoodBye("wamp.close.close_realm", nil))
			// the reply was addressed before the end
			g := recv[*messages.GoodBye](b)
			if g.Reason() != "wamp.close.goodbye_and_out" {
				e2eBad("GOODBYE came back as %q", g.Reason())
			}
			q := a.req()
			r.send(a, messages.NewPublish(q, map[string]any{"acknowledge": true}, used, nil, nil))
			recv[*messages.Published](a)
			q = a.req()
			r.send(a, messages.NewCall(q, nil, used, nil, nil))
			if er := recv[*messages.Error](a); er.URI() != wampproto.ErrNoSuchProcedure {
				e2eBad("after the callee's GOODBYE a CALL gives %s", er.URI())
			}
			r.connect(b)
			if b.det.ID() == old {
				e2eBad("a second session has the id of the first one")
			}
			// the other one goes and comes back as well
			sub = r.subscribe(x, b)
			r.send(a, messages.NewGoodBye("wamp.close.close_realm", nil))
			recv[*messages.GoodBye](a)
			r.connect(a)
			q = b.req()
			r.send(b, messages.NewUnsubscribe(q, sub))
			recv[*messages.Unsubscribed](b)
			r.flow(x, a, b, []int{3, 0}[round])
		}
	}
}

func c29flows(c *Ctx) *Violation {
	type pl struct {
		args []any
		kw   map[string]any
	}
	big := bigMap(300)
	pls := []pl{{[]any{"x", 1}, map[string]any{"k": "v"}}, {nil, nil}, {nil, map[string]any{"only": []any{true}}}, {[]any{}, map[string]any{}},
		{append([]any{}, c21Values...), map[string]any{"": nil, "żółć": "日本\u2028\x00"}},
		{[]any{nil}, map[string]any{"progress": true, "receive_progress": true, "x_payload_serializer": 1, "caller": 7}},
		{[]any{nest(12), string(bytes.Repeat([]byte("é"), 40000))}, big}}
	for _, v := range c21Values {
		pls = append(pls, pl{[]any{v}, map[string]any{"v": v}})
	}
	if c.Quick() {
		pls = append(pls[:7:7], pl{[]any{int64(1 << 53), -129, 0.1}, map[string]any{"n": int64(-1 << 53), "f": 1e300}})
	}
	type block struct{ sa, sb, ma, mb, di, fl, ma2, p int }
	var cases []block
	for sa := range e2eSers {
		for sb := range e2eSers {
			for ma := range hsMethods {
				for mb := range hsMethods {
					for di := 0; di < 2; di++ {
						for fl := range e2eFlows {
							for m := range e2eMatch {
								for p := range pls {
									// the methods matter for who is joining, the payloads for what is carried:
									// all pairs of methods with the first payload, all payloads with equal methods
									if p > 0 && (ma != mb || (c.Quick() && (ma != (sa+sb+fl+m)%len(hsMethods)))) {
										continue
									}
									if c.Quick() && p == 0 && m != 0 && ma != mb {
										continue
									}
									cases = append(cases, block{sa, sb, ma, mb, di, fl, m, p})
								}
							}
						}
					}
				}
			}
		}
	}
	mk := func(i int) *e2eCase {
		k := cases[i]
		return &e2eCase{serA: e2eSers[k.sa], serB: e2eSers[k.sb], methA: hsMethods[k.ma], methB: hsMethods[k.mb], disclose: k.di == 1, flow: k.fl, match: k.ma2,
			args: pls[k.p].args, kw: pls[k.p].kw}
	}
	var n atomic.Int64
	i, msg := enum(c, len(cases), func(i int) string {
		n.Add(1)
		return mk(i).run()
	})
	c.Cov["conversations"] = n.Load()
	c.Evals += n.Load()
	c.Traces += n.Load()
	for _, j := range []int{3, len(cases) / 3, len(cases) - 5} {
		c.Sample(mk(j).String())
	}
	if i >= 0 {
		return &Violation{Message: fmt.Sprintf("%s\n  %s", msg, mk(i)), Case: i}
	}
	return nil
}

func init() {
	register("C29", "model_checking", func(c *Ctx) *Violation {
		if v := c29flows(c); v != nil {
			return v
		}
		return runCfgs(c, nil, Pick(c, []string{"join-pubsub", "join-rpc", "join-progress"},
			[]string{"join-pubsub", "join-rpc", "join-progress", "join-rpc-3", "join-pubsub-3", "join-three"})...)
	})
}
