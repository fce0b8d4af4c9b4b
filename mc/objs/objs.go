// Package objs has one small driver for each kind of object the library offers.
// A driver performs operations on an object of its own, describes each result, and
// remembers everything handed out by or given to the library together with what it
// looked like at that moment (C28).
package objs

import (
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"github.com/xconnio/wampproto-go/util"
)

// Env holds what objects share on purpose.
type Env struct {
	JSON, CBOR, MsgPack serializers.Serializer
	Static              serializers.Serializer
	Event               *messages.Event
	Call                *messages.Call
	Result              *messages.Result
	Details             *wampproto.SessionDetails
	CRA, Ticket         auth.ClientAuthenticator
	CryptoSign          auth.ClientAuthenticator
	Anonymous           auth.ClientAuthenticator
	Options             map[string]any
}

func seed(n byte) string { return strings.Repeat(fmt.Sprintf("%02x", n), 32) }

func public(n byte) string {
	raw, _ := hex.DecodeString(seed(n))
	return hex.EncodeToString(ed25519.NewKeyFromSeed(raw).Public().(ed25519.PublicKey))
}

func NewEnv() *Env {
	e := &Env{JSON: &serializers.JSONSerializer{}, CBOR: &serializers.CBORSerializer{}, MsgPack: &serializers.MsgPackSerializer{}, Static: &static{}}
	e.Event = messages.NewEvent(7, 8, map[string]any{"topic": "shared"}, []any{"shared event", 5}, map[string]any{"k": []any{1, "two"}})
	e.Call = messages.NewCallBinary(9, map[string]any{"progress": true}, "shared.proc", []byte("shared payload"), 2)
	e.Result = messages.NewResult(9, map[string]any{}, []any{map[string]any{"deep": []any{1, 2, 3}}}, nil)
	e.Details = wampproto.NewSessionDetails(5, "realm", "shared", "role", "ticket", true, map[string]any{"dealer": map[string]any{}}, map[string]any{"x": 1})
	e.CRA = auth.NewWAMPCRAAuthenticator("shared", "secret", map[string]any{"a": "b"})
	e.Ticket = auth.NewTicketAuthenticator("shared", "ticket", map[string]any{"a": "b"})
	e.CryptoSign, _ = auth.NewCryptoSignAuthenticator("shared", seed(3), map[string]any{})
	e.Anonymous = auth.NewAnonymousAuthenticator("shared", nil)
	e.Options = map[string]any{"custom": "option"}
	return e
}

// Driver is one object and what was done with it.
type Driver struct {
	Kind  string
	V     int
	env   *Env
	do    func(k int) string
	trail []entry
}

type entry struct {
	what, snap string
	take       func() string
}

// keep remembers v as it is now.
func (d *Driver) keep(what string, v any) {
	take := func() string { return Show(v) }
	d.trail = append(d.trail, entry{what, take(), take})
}

// Do performs operation k and describes what it gave.
func (d *Driver) Do(k int) string { return d.do(k) }

// Changed reports a value that no longer is what it was.
func (d *Driver) Changed() string {
	for _, e := range d.trail {
		if now := e.take(); now != e.snap {
			return fmt.Sprintf("%s changed after it was handed over: it was\n  %s\nand is now\n  %s", e.what, e.snap, now)
		}
	}
	return ""
}

// Show renders a value completely.
func Show(v any) string {
	var b strings.Builder
	show(&b, v)
	return b.String()
}

func show(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("nil")
	case []byte:
		fmt.Fprintf(b, "%x", x)
	case []any:
		b.WriteByte('[')
		for _, e := range x {
			show(b, e)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", k)
			show(b, x[k])
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case *wampproto.SessionDetails:
		if x == nil {
			b.WriteString("no details")
			return
		}
		fmt.Fprintf(b, "details %d %q %q %q %q %v ", x.ID(), x.Realm(), x.AuthID(), x.AuthRole(), x.AuthMethod(), x.StaticSerializer())
		show(b, x.RouterRoles())
		show(b, x.AuthExtra())
		b.WriteString(x.CreatedAt())
	case *wampproto.Publication:
		if x == nil {
			b.WriteString("no publication")
			return
		}
		b.WriteString("event ")
		if x.Event == nil {
			b.WriteString("none")
		} else {
			show(b, x.Event)
		}
		fmt.Fprintf(b, " to %v ack ", x.Recipients)
		show(b, x.Ack)
	case *wampproto.MessageWithRecipient:
		if x == nil {
			b.WriteString("nothing")
			return
		}
		show(b, x.Message)
		fmt.Fprintf(b, " to %d", x.Recipient)
	case messages.Message:
		show(b, x.Marshal())
		if p, ok := x.(messages.BinaryPayload); ok && p.PayloadIsBinary() {
			fmt.Fprintf(b, " binary %d %x", p.PayloadSerializer(), p.Payload())
		}
	case auth.Request:
		fmt.Fprintf(b, "request %q %q %q ", x.Realm(), x.AuthMethod(), x.AuthID())
		show(b, x.AuthExtra())
		switch y := x.(type) {
		case *auth.TicketRequest:
			b.WriteString(y.Ticket())
		case *auth.RequestCryptoSign:
			b.WriteString(y.PublicKey())
		}
	default:
		fmt.Fprintf(b, "%v", x)
	}
}

func text(v any, err error) string {
	if err != nil {
		return "refused"
	}
	return Show(v)
}

// Kind is a kind of object with its operations.
type Kind struct {
	Name string
	Ops  []string
	// Flow is a typical use, in order
	Flow []int
	New  func(env *Env, v int) *Driver
	// Variants says how many variants New knows, two if zero.
	Variants int
}

func (k Kind) Count() int {
	if k.Variants == 0 {
		return 2
	}
	return k.Variants
}

func pick[T any](v int, xs ...T) T { return xs[v%len(xs)] }

// static is a serializer for messages with a fixed layout, as far as the library is told.
type static struct{ serializers.JSONSerializer }

func (*static) Static() bool { return true }

// list gives away a list that is a part of a longer one, which must stay as it is.
func (d *Driver) list(xs ...any) []any {
	full := append(append(make([]any, 0, len(xs)+3), xs...), "kept 1", "kept 2", "kept 3")
	d.keep("the list given and what follows it", full)
	return full[:len(xs)]
}

// bytes does the same for bytes.
func (d *Driver) bytes(s string) []byte {
	full := []byte(s + "this belongs to the caller")
	d.keep("the bytes given and what follows them", full)
	return full[:len(s)]
}

// long are arguments of some size.
func long(who string) []any {
	out := []any{strings.Repeat(who+" ", 400)}
	for i := 0; i < 20; i++ {
		out = append(out, map[string]any{who: []any{i, who}})
	}
	return out
}

func details(id uint64, authid string, static bool) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm", authid, "role of "+authid, "ticket", static, nil, nil)
}

// recipients are a set: their order is left open
func sorted(p *wampproto.Publication) *wampproto.Publication {
	if p == nil {
		return nil
	}
	q := *p
	q.Recipients = append([]uint64{}, p.Recipients...)
	sort.Slice(q.Recipients, func(i, j int) bool { return q.Recipients[i] < q.Recipients[j] })
	return &q
}

func newBroker(env *Env, v int) *Driver {
	d := &Driver{Kind: "broker", V: v, env: env}
	b := wampproto.NewBroker()
	b.AutoDisclosePublisher(v == 1)
	for i := uint64(1); i <= uint64(pick(v, 3, 3, 9)); i++ {
		if err := b.AddSession(details(i, pick(v, "ann", "bob", "cid")+fmt.Sprint(i), false)); err != nil {
			panic(err)
		}
	}
	put := func(s uint64, m messages.Message) string {
		d.keep("the message given to the broker", m)
		r, err := b.ReceiveMessage(s, m)
		if err == nil {
			d.keep("the broker's answer", r)
		}
		return text(r, err)
	}
	put(1, messages.NewSubscribe(1, map[string]any{}, "t"))
	put(2, messages.NewSubscribe(1, map[string]any{}, "t"))
	put(2, messages.NewSubscribe(2, map[string]any{"match": "prefix"}, "t."))
	if v == 2 {
		for i := uint64(4); i <= 9; i++ {
			put(i, messages.NewSubscribe(1, map[string]any{}, "t"))
		}
		put(4, messages.NewSubscribe(2, map[string]any{"match": "prefix"}, "t."))
	}
	pub := func(s uint64, topic string, opts map[string]any, args []any, kw map[string]any) string {
		m := messages.NewPublish(3, opts, topic, args, kw)
		d.keep("the publication given to the broker", m)
		p, err := b.ReceivePublish(s, m)
		if err != nil {
			return "refused"
		}
		d.keep("a publication", p)
		return Show(sorted(p))
	}
	var third uint64
	d.do = func(k int) string {
		switch k {
		case 0:
			r, err := b.ReceiveMessage(3, messages.NewSubscribe(4, map[string]any{}, "t"))
			if err == nil {
				d.keep("the broker's answer", r)
				third = r.Message.(*messages.Subscribed).SubscriptionID()
			}
			return text(r, err)
		case 1:
			return pub(1, "t", map[string]any{"acknowledge": true, "exclude_me": false}, d.list(pick(v, "news of ann", "bob's"), 1), map[string]any{"from": pick(v, "ann", "bob", "cid")})
		case 2:
			return pub(2, "t.x", map[string]any{"exclude_me": false}, d.list(pick(v, "second", "another")), nil)
		case 3:
			return pub(3, "t", pick(v, map[string]any{}, map[string]any{}, nil), nil, nil)
		default:
			if third != 0 {
				return put(3, messages.NewUnsubscribe(6, third))
			}
			return fmt.Sprint(b.RemoveSession(2) == nil)
		}
	}
	return d
}

func newDealer(env *Env, v int) *Driver {
	d := &Driver{Kind: "dealer", V: v, env: env}
	x := wampproto.NewDealer()
	x.AutoDiscloseCaller(v == 1)
	for i := uint64(1); i <= 3; i++ {
		if err := x.AddSession(details(i, pick(v, "ann", "bob", "cid")+fmt.Sprint(i), i == 2)); err != nil {
			panic(err)
		}
	}
	type open struct{ id, callee uint64 }
	var pending []open
	put := func(s uint64, m messages.Message) string {
		d.keep("the message given to the dealer", m)
		r, err := x.ReceiveMessage(s, m)
		if err != nil {
			return "refused"
		}
		d.keep("the dealer's answer", r)
		if inv, ok := r.Message.(*messages.Invocation); ok {
			pending = append(pending, open{inv.RequestID(), r.Recipient})
		}
		return Show(r)
	}
	put(1, messages.NewRegister(1, map[string]any{"invoke": "roundrobin"}, "p"))
	put(2, messages.NewRegister(1, map[string]any{"invoke": "roundrobin"}, "p"))
	answer := func(f func(id uint64) messages.Message) string {
		if len(pending) == 0 {
			return "nothing to answer"
		}
		o := pending[0]
		pending = pending[1:]
		return put(o.callee, f(o.id))
	}
	who := pick(v, "ann", "bob", "cid")
	d.do = func(k int) string {
		switch k {
		case 0:
			return put(3, messages.NewCall(11, pick(v, map[string]any{"receive_progress": true}, map[string]any{"receive_progress": false}, nil), "p", d.list(who, 1), map[string]any{"k": who}))
		case 1:
			return put(1, messages.NewCallBinary(12, map[string]any{}, "p", d.bytes(who), 2))
		case 2:
			return answer(func(id uint64) messages.Message {
				return messages.NewYield(id, pick(v, map[string]any{}, map[string]any{}, nil), d.list("result for "+who), map[string]any{"r": who})
			})
		case 3:
			return answer(func(id uint64) messages.Message {
				return messages.NewError(messages.MessageTypeInvocation, id, map[string]any{"d": who}, "some.error", d.list(who), nil)
			})
		default:
			return fmt.Sprint(x.RemoveSession(2) == nil)
		}
	}
	return d
}

func newSession(env *Env, v int) *Driver {
	d := &Driver{Kind: "session", V: v, env: env}
	ser := pick(v, env.JSON, env.CBOR, env.Static)
	s := wampproto.NewSession(ser)
	who := pick(v, "ann", "bob", "cid")
	send := func(m messages.Message) string {
		d.keep("the message given to the session", m)
		b, err := s.SendMessage(m)
		if err != nil {
			return "refused"
		}
		d.keep("the bytes to send", b)
		back, err := ser.Deserialize(b)
		return text(back, err)
	}
	receive := func(m messages.Message) string {
		b, err := ser.Serialize(m)
		if err != nil {
			return "not serialized"
		}
		d.keep("the bytes received", b)
		got, err := s.Receive(b)
		if err == nil {
			d.keep("a received message", got)
		}
		return text(got, err)
	}
	send(messages.NewSubscribe(1, nil, "t"))
	receive(messages.NewSubscribed(1, 70))
	d.do = func(k int) string {
		switch k {
		case 0:
			return send(messages.NewCall(5, pick(v, map[string]any{}, map[string]any{}, nil), "p", d.list(pick(v, []any{who, "argument"}, []any{who, "argument"}, long(who))...), map[string]any{"k": who}))
		case 1:
			return receive(messages.NewResult(5, map[string]any{}, []any{"result for " + who}, nil))
		case 2:
			return send(messages.NewPublish(6, map[string]any{"acknowledge": true}, "t", []any{who}, nil))
		case 3:
			return receive(messages.NewEvent(70, 3, map[string]any{}, []any{who, "event"}, nil))
		default:
			return receive(messages.NewPublished(6, 9))
		}
	}
	return d
}

func newSerializer(name string, get func(*Env) serializers.Serializer) func(env *Env, v int) *Driver {
	return func(env *Env, v int) *Driver {
		d := &Driver{Kind: name, V: v, env: env}
		ser := get(env)
		who := pick(v, "ann", "bob", "cid")
		ms := []messages.Message{
			messages.NewCall(1, map[string]any{"who": who}, "proc", []any{who, "a rather long argument that fills a buffer", 1}, map[string]any{"k": []any{who, true}}),
			messages.NewPublish(1, map[string]any{}, "topic", []any{who}, nil),
		}
		if v == 2 {
			ms[0] = messages.NewCall(1, nil, "proc", d.list(long(who)...), map[string]any{"k": d.list(who)})
			ms[1] = messages.NewResult(1, nil, d.list(), nil)
		}
		var data [][]byte
		for _, m := range ms {
			b, err := ser.Serialize(m)
			if err != nil {
				panic(err)
			}
			data = append(data, append([]byte{}, b...))
		}
		d.do = func(k int) string {
			switch k {
			case 0, 1:
				d.keep("the message given to the serializer", ms[k])
				b, err := ser.Serialize(ms[k])
				if err != nil {
					return "refused"
				}
				d.keep("serialized bytes", b)
				back, err := ser.Deserialize(append([]byte{}, b...))
				return text(back, err)
			case 2, 3:
				b := append([]byte{}, data[k-2]...)
				d.keep("the bytes given to the serializer", b)
				m, err := ser.Deserialize(b)
				if err == nil {
					d.keep("a deserialized message", m)
				}
				return text(m, err)
			case 4:
				b, err := ser.Serialize(messages.NewCall(1, nil, "proc", []any{make(chan int)}, nil))
				return fmt.Sprint(len(b), err == nil)
			default:
				_, err := ser.Deserialize(data[0][:len(data[0])-3])
				return fmt.Sprint(err == nil)
			}
		}
		return d
	}
}

func newPayloads(env *Env, v int) *Driver {
	d := &Driver{Kind: "payload codecs", V: v, env: env}
	who := pick(v, "ann", "bob", "cid")
	enc := func(id uint64) string {
		args, kw := d.list(pick(v, []any{who, "argument"}, []any{who, "argument"}, long(who))...), map[string]any{"k": who}
		if id == 0 {
			args, kw = d.list(d.bytes(who)), nil
		}
		d.keep("the arguments given to the codec", []any{args, kw})
		b, err := serializers.SerializePayload(id, args, kw)
		if err != nil {
			return "refused"
		}
		d.keep("an encoded payload", b)
		in := append([]byte{}, b...)
		a, k, err := serializers.DeserializePayload(id, in)
		if err != nil {
			return "not decoded"
		}
		d.keep("decoded arguments", []any{a, k})
		return Show([]any{a, k})
	}
	d.do = func(k int) string {
		if k < 4 {
			return enc(uint64(k))
		}
		b, err := serializers.EncodeCBOR(d.list(who), nil)
		if err != nil {
			return "refused"
		}
		d.keep("an encoded payload", b)
		a, kw, err := serializers.DecodeCBOR(append([]byte{}, b...))
		return text([]any{a, kw}, err)
	}
	return d
}

type server struct {
	methods []auth.Method
	f       func(auth.Request) (auth.Response, error)
}

func (s *server) Methods() []auth.Method                             { return s.methods }
func (s *server) Authenticate(r auth.Request) (auth.Response, error) { return s.f(r) }

func newAcceptor(method auth.Method) func(env *Env, v int) *Driver {
	return func(env *Env, v int) *Driver {
		d := &Driver{Kind: "acceptor " + string(method), V: v, env: env}
		who := pick(v, "ann", "bob", "cid")
		secret := "secret of " + who
		key := byte(v + 1)
		raw, _ := hex.DecodeString(seed(key))
		priv := ed25519.NewKeyFromSeed(raw)
		var asked []string
		srv := &server{methods: []auth.Method{method}, f: func(r auth.Request) (auth.Response, error) {
			d.keep("the request given to the authenticator", r)
			asked = append(asked, Show(r))
			switch x := r.(type) {
			case *auth.TicketRequest:
				if x.Ticket() != secret {
					return nil, errors.New("wrong ticket")
				}
			case *auth.RequestCryptoSign:
				if x.PublicKey() != public(key) {
					return nil, errors.New("wrong key")
				}
			}
			if method == auth.WAMPCRA {
				if v == 2 {
					return auth.NewCRAResponseSalted(who, "role of "+who, secret, "salt", 0, 0, time.Second), nil
				}
				if v == 1 {
					return auth.NewCRAResponseSalted(who, "role of "+who, secret, "salt", 2, 16, time.Second), nil
				}
				return auth.NewCRAResponse(who, "role of "+who, secret, time.Second), nil
			}
			return auth.NewResponse(who, "role of "+who, 0)
		}}
		ser := pick[serializers.Serializer](v, env.MsgPack, env.JSON, env.Static)
		a := wampproto.NewAcceptor(ser, srv)
		challenge := ""
		put := func(m messages.Message) string {
			asked = asked[:0]
			d.keep("the message given to the acceptor", m)
			var r messages.Message
			var err error
			if v == 0 {
				var b, out []byte
				if b, err = ser.Serialize(m); err == nil {
					d.keep("the bytes given to the acceptor", b)
					if out, _, err = a.Receive(b); err == nil {
						d.keep("the acceptor's bytes", out)
						r, err = ser.Deserialize(append([]byte{}, out...))
					}
				}
			} else {
				r, err = a.ReceiveMessage(m)
			}
			if err != nil {
				return "refused, asked " + fmt.Sprint(asked)
			}
			d.keep("the acceptor's answer", r)
			out := ""
			switch x := r.(type) {
			case *messages.Welcome:
				s, err := a.SessionDetails()
				if err != nil {
					return "WELCOME without details"
				}
				d.keep("session details", s)
				d.keep("the roles announced", x.Details())
				out = fmt.Sprint("WELCOME ", s.ID() == x.SessionID(), s.Realm(), s.AuthID(), s.AuthRole(), s.AuthMethod(), x.Details()["authid"], x.Details()["realm"], Show(s.AuthExtra()))
			case *messages.Challenge:
				challenge, _ = x.Extra()["challenge"].(string)
				var c map[string]any
				_ = json.Unmarshal([]byte(challenge), &c)
				out = fmt.Sprint("CHALLENGE ", x.AuthMethod(), len(x.Extra()), c["authid"], c["authrole"], x.Extra()["salt"])
			default:
				out = Show(r)
			}
			return out + " asked " + fmt.Sprint(asked)
		}
		right := func() string {
			switch method {
			case auth.Ticket:
				return secret
			case auth.WAMPCRA:
				k := []byte(secret)
				if v == 1 {
					k = auth.DeriveWAMPCRAKey("salt", secret, 2, 16)
				}
				if v == 2 {
					k = auth.DeriveWAMPCRAKey("salt", secret, 0, 0)
				}
				return auth.SignWAMPCRAChallenge(challenge, k)
			case auth.CryptoSign:
				s, err := auth.SignCryptoSignChallenge(challenge, priv)
				if err != nil {
					return "unsignable"
				}
				return s
			}
			return ""
		}
		d.do = func(k int) string {
			switch k {
			case 0:
				return put(messages.NewHello("realm of "+who, who, map[string]any{"pubkey": public(key), "x": who}, map[string]any{"caller": map[string]any{}}, []string{string(method)}))
			case 1:
				return put(messages.NewAuthenticate(right(), map[string]any{"e": who}))
			case 2:
				return put(messages.NewAuthenticate("wrong", map[string]any{}))
			default:
				s, err := a.SessionDetails()
				if err != nil {
					return "no details"
				}
				d.keep("session details", s)
				return s.AuthID()
			}
		}
		return d
	}
}

func newJoiner(method string, shared bool) func(env *Env, v int) *Driver {
	return func(env *Env, v int) *Driver {
		d := &Driver{Kind: "joiner " + method, V: v, env: env}
		who := pick(v, "ann", "bob", "cid")
		extra := map[string]any{"x": who}
		var ca auth.ClientAuthenticator
		switch method {
		case "wampcra":
			ca = auth.NewWAMPCRAAuthenticator(who, "secret of "+who, extra)
			if shared {
				ca = env.CRA
			}
		case "ticket":
			ca = auth.NewTicketAuthenticator(who, "ticket of "+who, extra)
			if shared {
				ca = env.Ticket
			}
		case "cryptosign":
			ca, _ = auth.NewCryptoSignAuthenticator(who, seed(byte(v+1)), extra)
			if shared {
				ca = env.CryptoSign
			}
		default:
			ca = auth.NewAnonymousAuthenticator(who, extra)
			if shared {
				ca = env.Anonymous
			}
		}
		d.keep("the client roles", wampproto.ClientRoles)
		ser := pick[serializers.Serializer](v, env.JSON, env.MsgPack, env.Static)
		j := wampproto.NewJoiner("realm of "+who, ser, ca)
		put := func(m messages.Message) string {
			b, err := ser.Serialize(m)
			if err != nil {
				return "not serialized"
			}
			d.keep("the bytes given to the joiner", b)
			out, err := j.Receive(b)
			if err != nil {
				return "refused: " + strings.ReplaceAll(err.Error(), "\n", " ")
			}
			if out == nil {
				return "nothing to send"
			}
			d.keep("the bytes to send", out)
			back, err := ser.Deserialize(append([]byte{}, out...))
			return text(back, err)
		}
		d.do = func(k int) string {
			switch k {
			case 0:
				b, err := j.SendHello()
				if err != nil {
					return "refused"
				}
				d.keep("the bytes of HELLO", b)
				back, err := ser.Deserialize(append([]byte{}, b...))
				return text(back, err)
			case 1:
				ch := map[string]any{"challenge": pick(v, "challenge for ann", "bob, sign this", "and cid")}
				if method == "cryptosign" {
					ch["challenge"] = seed(byte(v + 5))
				}
				if method == "wampcra" && v == 1 {
					ch["salt"], ch["iterations"], ch["keylen"] = "salt", 2, 16
				}
				if method == "wampcra" && v == 2 {
					ch["salt"] = "salt"
				}
				return put(messages.NewChallenge(method, ch))
			case 2:
				return put(messages.NewWelcome(uint64(40+v), map[string]any{"authid": who, "authrole": "role of " + who, "authmethod": method, "realm": "realm of " + who, "roles": map[string]any{"broker": map[string]any{}}}))
			case 3:
				return put(messages.NewAbort(map[string]any{}, "some.reason", []any{who}, nil))
			default:
				s, err := j.SessionDetails()
				if err != nil {
					return "no details"
				}
				d.keep("session details", s)
				return fmt.Sprint(s.ID(), s.Realm(), s.AuthID(), s.AuthRole(), s.AuthMethod(), Show(s.RouterRoles()))
			}
		}
		return d
	}
}

func newIDs(env *Env, v int) *Driver {
	d := &Driver{Kind: "id generator", V: v, env: env}
	g := &wampproto.SessionScopeIDGenerator{}
	d.do = func(k int) string {
		if k == 1 {
			id := wampproto.GenerateID()
			return fmt.Sprint(id >= 1 && id <= 1<<53)
		}
		return fmt.Sprint(g.NextID())
	}
	return d
}

func newTransport(env *Env, v int) *Driver {
	d := &Driver{Kind: "transport", V: v, env: env}
	d.do = func(k int) string {
		switch k {
		case 0:
			b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(v%2+1), 512<<v))
			if err == nil {
				d.keep("handshake bytes", b)
			}
			return text(b, err)
		case 1:
			in := []byte{0x7f, byte(0x10*v + 1 + v), 0, 0}
			d.keep("handshake bytes received", in)
			h, err := transports.ReceiveHandshake(in)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(h.Serializer(), h.MaxMessageSize())
		case 2:
			b := transports.SendMessageHeader(transports.NewMessageHeader(transports.Message(v%2), 300+v))
			d.keep("header bytes", b)
			c := transports.SendMessageHeader(transports.NewMessageHeader(transports.Message(v%2), 70001+v))
			d.keep("header bytes", c)
			return Show(b) + Show(c)
		case 3:
			b := transports.IntToBytes(70000 + v)
			d.keep("length bytes", b)
			return fmt.Sprint(transports.BytesToInt(b))
		default:
			in := []byte{byte(v), 1, 2, byte(3 + v)}
			d.keep("header bytes received", in)
			h, err := transports.ReceiveMessageHeader(in)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(h.Kind(), h.Length())
		}
	}
	return d
}

func newAuthFuncs(env *Env, v int) *Driver {
	d := &Driver{Kind: "auth functions", V: v, env: env}
	who := pick(v, "ann", "bob", "cid")
	raw, _ := hex.DecodeString(seed(byte(v + 1)))
	priv := ed25519.NewKeyFromSeed(raw)
	d.do = func(k int) string {
		switch k {
		case 0:
			key := d.bytes("key of " + who)
			d.keep("the key given", key)
			b := auth.SignWAMPCRAChallengeBytes("challenge", key)
			d.keep("signature bytes", b)
			return Show(b)
		case 1:
			b := auth.DeriveWAMPCRAKey("salt", "secret of "+who, 2, pick(v, 32, 32, 48))
			d.keep("a derived key", b)
			return Show(b)
		case 2:
			s, err := auth.SignCryptoSignChallenge(seed(9), priv)
			if err != nil {
				return "refused"
			}
			own, e1 := auth.VerifyCryptoSignSignature(s, priv.Public().(ed25519.PublicKey))
			return fmt.Sprint(s, own, e1 == nil)
		case 3:
			sig := auth.SignWAMPCRAChallenge("challenge", []byte(who))
			return fmt.Sprint(auth.VerifyWAMPCRASignature(sig, "challenge", []byte(who)), auth.VerifyWAMPCRASignature(sig, "challenge", []byte("somebody else")))
		case 4:
			c, err := auth.GenerateWAMPCRAChallenge(uint64(7+v), who, "role", "provider")
			var m map[string]any
			e2 := json.Unmarshal([]byte(c), &m)
			return fmt.Sprint(err == nil, e2 == nil, m["authid"], m["session"])
		case 5:
			methods, offer := []auth.Method{auth.Ticket, auth.WAMPCRA}, []string{pick(v, "ticket", "wampcra"), "x"}
			m, err := auth.SelectAuthMethod(methods, offer)
			if fmt.Sprint(methods, offer) != fmt.Sprint([]auth.Method{auth.Ticket, auth.WAMPCRA}, []string{pick(v, "ticket", "wampcra"), "x"}) {
				return "BAD SelectAuthMethod changed its arguments"
			}
			return fmt.Sprint(m, err == nil)
		default:
			return auth.ISO8601(time.Unix(int64(1700000000+v), 0).In(time.FixedZone("z", 3600*(v+1))))
		}
	}
	return d
}

func newMessages(env *Env, v int) *Driver {
	d := &Driver{Kind: "messages", V: v, env: env}
	who := pick(v, "ann", "bob", "cid")
	d.do = func(k int) string {
		switch k {
		case 0:
			l := []any{messages.MessageTypeCall, uint64(1), map[string]any{"who": who}, "p", d.list(who), map[string]any{"k": who}}
			l = d.list(l...)
			d.keep("the list given to Parse", l)
			m := &messages.Call{}
			if err := m.Parse(l); err != nil {
				return "refused"
			}
			d.keep("a parsed message", m)
			return Show(m)
		case 1:
			o := map[string]any{"": nil, "caller": nil, "callee": map[string]any{"features": nil}, "k": who}
			a := d.list(who, nil)
			d.keep("the options given", o)
			var ls []any
			for _, m := range []messages.Message{messages.NewHello("r", who, o, o, []string{who, "ticket"}), messages.NewWelcome(1, o), messages.NewAbort(o, "r", a, o),
				messages.NewChallenge("m", o), messages.NewAuthenticate("s", o), messages.NewGoodBye("r", o), messages.NewError(48, 1, o, "e", a, o),
				messages.NewPublish(1, o, "t", a, o), messages.NewSubscribe(1, o, "t"), messages.NewEvent(1, 2, o, a, o), messages.NewCall(1, o, "p", a, o),
				messages.NewResult(1, o, a, o), messages.NewRegister(1, o, "p"), messages.NewInvocation(1, 2, o, a, o), messages.NewYield(1, o, a, o),
				messages.NewCancel(1, o), messages.NewInterrupt(1, o), messages.NewPublish(1, map[string]any{}, "t", nil, map[string]any{"k": who})} {
				ls = append(ls, m.Marshal())
			}
			d.keep("marshalled lists", ls)
			return Show(ls)
		case 2: // options may serve several messages
			o := map[string]any{"custom": who}
			d.keep("the options given", o)
			m := messages.NewCallBinary(1, o, "p", d.bytes(who), uint64(1+v))
			d.keep("a binary message", m)
			n := messages.NewYieldBinary(2, o, d.bytes(who), uint64(2+v))
			d.keep("a binary message", n)
			return Show(m) + Show(n)
		case 3:
			o := map[string]any{"custom": who}
			d.keep("the details given", o)
			r := messages.NewResultBinary(1, o, d.bytes(who), uint64(1+v))
			d.keep("a binary message", r)
			i := messages.NewInvocationBinary(2, 3, o, d.bytes(who), uint64(2+v))
			d.keep("a binary message", i)
			return Show(r) + Show(i)
		case 4: // one set of extra data for several authenticators
			x := map[string]any{"custom": who}
			d.keep("the authextra given", x)
			a, e1 := auth.NewCryptoSignAuthenticator(who, seed(1), x)
			b, e2 := auth.NewCryptoSignAuthenticator(who, seed(2), x)
			if e1 != nil || e2 != nil {
				return "BAD a second authenticator cannot be made from the same extra data"
			}
			d.keep("authextra", a.AuthExtra())
			return Show(a.AuthExtra()) + Show(b.AuthExtra())
		default:
			l := d.list("a", who)
			d.keep("the list given to AnysToStrings", l)
			s, err := util.AnysToStrings(l)
			if err == nil {
				d.keep("strings", s)
			}
			return text(s, err)
		}
	}
	return d
}

// newShared: values that several goroutines use at once.
func newShared(env *Env, v int) *Driver {
	d := &Driver{Kind: "shared messages", V: v, env: env}
	sers := []serializers.Serializer{env.JSON, env.CBOR, env.MsgPack}
	out := func(ser serializers.Serializer, m messages.Message) string {
		d.keep("a shared message", m)
		b, err := ser.Serialize(m)
		if err != nil {
			return "refused"
		}
		d.keep("serialized bytes", b)
		back, err := ser.Deserialize(append([]byte{}, b...))
		return text(back, err)
	}
	d.do = func(k int) string {
		switch k {
		case 0, 1, 2:
			return out(sers[(k+v)%3], env.Event)
		case 3:
			return out(sers[v%3], env.Result) + Show(env.Call)
		default:
			d.keep("shared session details", env.Details)
			return strings.TrimSuffix(Show(env.Details), env.Details.CreatedAt())
		}
	}
	return d
}

var Kinds = []Kind{
	{"broker", []string{"subscribe", "publish t", "publish t.x", "publish by 3", "unsubscribe or leave"}, []int{0, 1, 2}, newBroker, 3},
	{"dealer", []string{"call", "call binary", "yield", "error", "leave"}, []int{0, 1, 2, 3}, newDealer, 3},
	{"session", []string{"send call", "receive result", "send publish", "receive event", "receive published"}, []int{0, 1, 2, 3}, newSession, 3},
	{"json", []string{"serialize long", "serialize short", "deserialize long", "deserialize short", "serialize impossible", "deserialize broken"}, []int{0, 2, 1},
		newSerializer("json", func(e *Env) serializers.Serializer { return e.JSON }), 3},
	{"cbor", []string{"serialize long", "serialize short", "deserialize long", "deserialize short", "serialize impossible", "deserialize broken"}, []int{0, 2, 1},
		newSerializer("cbor", func(e *Env) serializers.Serializer { return e.CBOR }), 3},
	{"msgpack", []string{"serialize long", "serialize short", "deserialize long", "deserialize short", "serialize impossible", "deserialize broken"}, []int{0, 2, 1},
		newSerializer("msgpack", func(e *Env) serializers.Serializer { return e.MsgPack }), 3},
	{"payload codecs", []string{"pass-through", "json", "msgpack", "cbor", "EncodeCBOR"}, []int{1, 2, 3, 4}, newPayloads, 3},
	{"acceptor anonymous", []string{"hello", "authenticate", "authenticate wrongly", "details"}, []int{0, 3}, newAcceptor(auth.Anonymous), 3},
	{"acceptor ticket", []string{"hello", "authenticate", "authenticate wrongly", "details"}, []int{0, 1, 3}, newAcceptor(auth.Ticket), 3},
	{"acceptor wampcra", []string{"hello", "authenticate", "authenticate wrongly", "details"}, []int{0, 1, 3}, newAcceptor(auth.WAMPCRA), 3},
	{"acceptor cryptosign", []string{"hello", "authenticate", "authenticate wrongly", "details"}, []int{0, 1, 3}, newAcceptor(auth.CryptoSign), 3},
	{"joiner ticket", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2, 4}, newJoiner("ticket", false), 3},
	{"joiner wampcra", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2, 4}, newJoiner("wampcra", false), 3},
	{"joiner cryptosign", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2, 4}, newJoiner("cryptosign", false), 3},
	{"joiner anonymous, shared authenticator", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 2, 4}, newJoiner("anonymous", true), 3},
	{"joiner ticket, shared authenticator", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2}, newJoiner("ticket", true), 3},
	{"joiner wampcra, shared authenticator", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2}, newJoiner("wampcra", true), 3},
	{"joiner cryptosign, shared authenticator", []string{"hello", "challenge", "welcome", "abort", "details"}, []int{0, 1, 2}, newJoiner("cryptosign", true), 3},
	{"id generator", []string{"next", "global"}, []int{0, 1, 0}, newIDs, 3},
	{"transport", []string{"send handshake", "receive handshake", "send header", "int to bytes", "receive header"}, []int{0, 2, 3, 1, 4}, newTransport, 3},
	{"auth functions", []string{"sign CRA", "derive", "sign cryptosign", "verify", "challenge", "select", "timestamp"}, []int{0, 1, 2, 3}, newAuthFuncs, 3},
	{"messages", []string{"parse", "marshal", "binary from options", "binary from details", "authenticators", "strings"}, []int{0, 1, 2, 3}, newMessages, 3},
	{"shared messages", []string{"serialize event", "serialize event otherwise", "serialize event again", "serialize result", "details"}, []int{0, 1, 3, 4}, newShared, 3},
}
