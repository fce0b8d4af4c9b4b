package main

import (
	"fmt"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// C20: every sequence of SendHello and received messages a joiner may see, up to
// the fixpoint of its states, for every client authenticator.

type joinCfg struct {
	auth string // anonymous, ticket, wampcra, cryptosign, none, or one of the odd ones below
	wire bool
	ser  int
}

const (
	joinNone = iota
	joinHello
	joinAuth
	joinJoined
)

type joinSys struct {
	cfg     *joinCfg
	j       *wampproto.Joiner
	state   int
	odd     bool   // a malformed message came since the last HELLO: what follows may be refused
	details string // of the accepted WELCOME
	stale   bool   // an ABORT followed the WELCOME: the details are not specified
}

func joinAuthenticator(kind string) auth.ClientAuthenticator {
	extra := map[string]any{"x": "y"}
	switch kind {
	case "anonymous":
		return auth.NewAnonymousAuthenticator("alice", extra)
	case "ticket":
		return auth.NewTicketAuthenticator("alice", "t1", extra)
	case "wampcra":
		return auth.NewWAMPCRAAuthenticator("alice", accSecret, extra)
	case "cryptosign":
		a, err := auth.NewCryptoSignAuthenticator("alice", seedHex(1), extra)
		if err != nil {
			panic(err)
		}
		return a
	case "ticket-empty":
		return auth.NewTicketAuthenticator("", "", nil)
	case "wampcra-empty":
		return auth.NewWAMPCRAAuthenticator("", "", nil)
	case "custom":
		return &oddClient{method: "custom", sig: "", extra: map[string]any{"a": "b"}}
	case "custom-nameless":
		return &oddClient{method: "", sig: "x"}
	case "failing":
		return &oddClient{method: "ticket", err: fmt.Errorf("no")}
	case "unserializable":
		return &oddClient{method: "ticket", sig: "x", extra: map[string]any{"c": make(chan int)}}
	}
	return nil
}

// oddClient is an authenticator of the application's own.
type oddClient struct {
	method, sig string
	extra       map[string]any
	err         error
}

func (o *oddClient) AuthMethod() string        { return o.method }
func (o *oddClient) AuthID() string            { return "alice" }
func (o *oddClient) AuthExtra() map[string]any { return o.extra }
func (o *oddClient) Authenticate(messages.Challenge) (*messages.Authenticate, error) {
	if o.err != nil {
		return nil, o.err
	}
	return messages.NewAuthenticate(o.sig, o.extra), nil
}

func newJoinSys(cfg *joinCfg) *joinSys {
	return &joinSys{cfg: cfg, j: wampproto.NewJoiner("realm1", allSerializers[cfg.ser].s, joinAuthenticator(cfg.auth))}
}

func (s *joinSys) ser() serializers.Serializer { return allSerializers[s.cfg.ser].s }

type joinForm struct {
	name string
	mk   func() messages.Message
	ok   int // WELCOME: 1 must be accepted, 0 must be refused, 2 either
}

func welcomeDetails(kv ...any) map[string]any {
	d := map[string]any{"realm": "realm1", "roles": map[string]any{"broker": map[string]any{}}, "authid": "alice", "authrole": "user", "authmethod": "ticket"}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == nil {
			delete(d, kv[i].(string))
		} else {
			d[kv[i].(string)] = kv[i+1]
		}
	}
	return d
}

var joinWelcomes = func() []joinForm {
	w := func(name string, ok int, id uint64, d map[string]any) joinForm {
		return joinForm{name, func() messages.Message { return messages.NewWelcome(id, deepCopy(d).(map[string]any)) }, ok}
	}
	var none map[string]any
	out := []joinForm{
		w("complete", 1, 77, welcomeDetails()),
		w("complete, another session", 1, 1<<53, welcomeDetails("authid", "bob", "authrole", "", "authmethod", "anonymous")),
		w("empty authid", 1, 1, welcomeDetails("authid", "")),
		w("without roles", 2, 5, welcomeDetails("roles", nil)),
		w("without authmethod", 2, 5, welcomeDetails("authmethod", nil)),
		w("roles no dictionary", 2, 5, welcomeDetails("roles", 7)),
		w("authmethod no string", 2, 5, welcomeDetails("authmethod", 7)),
		w("of another realm", 2, 5, welcomeDetails("realm", "realm2")),
		w("realm no string", 2, 5, welcomeDetails("realm", 7)),
		w("without realm", 1, 5, welcomeDetails("realm", nil)),
		w("no details", 0, 5, map[string]any{}),
	}
	_ = none
	for _, k := range []string{"authid", "authrole"} {
		out = append(out, w("without "+k, 0, 6, welcomeDetails(k, nil)))
		for _, v := range []any{7, true, []any{"alice"}, map[string]any{"a": 1}, 1.5} {
			out = append(out, w(fmt.Sprintf("%s %v", k, v), 0, 6, welcomeDetails(k, v)))
		}
	}
	return out
}()

var joinChallenges = func() []joinForm {
	c := func(name, method string, ex map[string]any) joinForm {
		return joinForm{name, func() messages.Message { return messages.NewChallenge(method, deepCopy(ex).(map[string]any)) }, 2}
	}
	hex32 := strings.Repeat("ab", 32)
	return []joinForm{
		c("ticket", "ticket", map[string]any{}),
		c("wampcra", "wampcra", map[string]any{"challenge": `{"nonce":"x"}`}),
		c("wampcra, salted", "wampcra", map[string]any{"challenge": `{"nonce":"x"}`, "salt": "salt", "iterations": 10, "keylen": 32}),
		c("wampcra, salted without parameters", "wampcra", map[string]any{"challenge": "c", "salt": "salt"}),
		c("wampcra, odd parameters", "wampcra", map[string]any{"challenge": 7, "salt": "salt", "iterations": "10", "keylen": -3}),
		c("wampcra, huge key", "wampcra", map[string]any{"challenge": "c", "salt": "salt", "iterations": 1, "keylen": 1 << 40}),
		c("wampcra, numeric salt", "wampcra", map[string]any{"challenge": "c", "salt": 5, "iterations": 1.5, "keylen": nil}),
		c("cryptosign", "cryptosign", map[string]any{"challenge": hex32}),
		c("cryptosign, no hex", "cryptosign", map[string]any{"challenge": "zz"}),
		c("cryptosign, short", "cryptosign", map[string]any{"challenge": "00"}),
		c("without extra", "cryptosign", map[string]any{}),
		c("challenge no string", "cryptosign", map[string]any{"challenge": []any{1}}),
		c("unknown method", "oauth", map[string]any{"challenge": hex32}),
		c("empty method", "", map[string]any{"challenge": hex32}),
	}
}()

var joinAborts = func() []joinForm {
	a := func(name, reason string, args []any, kw map[string]any) joinForm {
		return joinForm{name, func() messages.Message { return messages.NewAbort(map[string]any{"message": "m"}, reason, args, kw) }, 0}
	}
	out := []joinForm{
		a("plain", "wamp.error.no_such_realm", nil, nil),
		a("with arguments", "wamp.error.authentication_failed", []any{"a", 7, nil, []any{1}}, map[string]any{"k": nil, "l": map[string]any{}}),
		a("with keyword arguments", "x.y", nil, map[string]any{"k": 1.5}),
		a("empty reason", "", nil, nil),
	}
	for i, r := range []string{wampproto.CloseGoodByeAndOut, wampproto.CloseCloseRealm, wampproto.CloseSystemShutdown, wampproto.CloseKilled, wampproto.ErrNoMatchingAuthMethod,
		wampproto.ErrAuthenticationDenied, wampproto.ErrAuthenticationRequired, wampproto.ErrAuthorizationFailed, wampproto.ErrTimeout, wampproto.ErrNetworkFailure,
		wampproto.ErrUnavailable, wampproto.ErrCanceled, wampproto.ErrProtocolViolation, wampproto.ErrNotAuthorized} {
		var args []any
		if i%2 == 1 {
			args = []any{"text"}
		}
		out = append(out, a(r, r, args, nil))
	}
	return out
}()

// everything but WELCOME, ABORT and CHALLENGE
var joinOthers = []uint64{1, 5, 6, 8, 16, 17, 32, 33, 34, 35, 36, 48, 49, 50, 64, 65, 66, 67, 68, 69, 70}

var joinGarbage = [][]byte{nil, []byte("["), {0xff}, []byte(`[2]`), []byte(`[2,1]`), []byte(`[2,"a",{}]`), []byte(`[2,1,[]]`), {0x93, 2, 1, 0xc0},
	{0x93, 4, 0xc0, 0x80}, {0x83, 2, 1, 0xa0}, []byte(`[3]`), []byte(`[4,5,6]`), []byte(`{}`), []byte(`null`), {0xc0}, {0xf6}}

func (s *joinSys) Ops() []Op {
	ops := []Op{{"hello", nil}}
	for i := range joinWelcomes {
		ops = append(ops, Op{"welcome", []int{i}})
	}
	for i := range joinChallenges {
		ops = append(ops, Op{"challenge", []int{i}})
	}
	for i := range joinAborts {
		ops = append(ops, Op{"abort", []int{i}})
	}
	for _, t := range joinOthers {
		ops = append(ops, Op{"other", []int{int(t)}})
	}
	for i := range joinGarbage {
		ops = append(ops, Op{"garbage", []int{i}})
	}
	if s.state == joinJoined {
		ops = ops[1:] // a joined client has no reason to send HELLO
	}
	return ops
}

func (s *joinSys) Describe(o Op) string {
	switch o.N {
	case "hello":
		return "SendHello"
	case "welcome":
		return "WELCOME, " + joinWelcomes[o.A[0]].name
	case "challenge":
		return "CHALLENGE, " + joinChallenges[o.A[0]].name
	case "abort":
		return "ABORT, " + joinAborts[o.A[0]].name
	case "other":
		return kindOf(uint64(o.A[0])).name
	}
	return fmt.Sprintf("undecodable bytes %x", joinGarbage[o.A[0]])
}

func (s *joinSys) detailText() string {
	d, err := s.j.SessionDetails()
	if (err == nil) != (d != nil) {
		return "inconsistent"
	}
	if d == nil {
		return ""
	}
	return fmt.Sprintf("%d|%s|%s|%s|%s|%v", d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod(), d.StaticSerializer())
}

func (s *joinSys) Do(o Op) []Fail {
	bad := func(f string, a ...any) []Fail {
		return []Fail{hard(fmt.Sprintf("%s in state %s: ", s.Describe(o), []string{"none", "HELLO sent", "AUTHENTICATE sent", "joined"}[s.state])+fmt.Sprintf(f, a...), "C20")}
	}
	if o.N == "hello" {
		data, err := s.j.SendHello()
		if s.cfg.auth == "unserializable" {
			if err == nil {
				return bad("of something unserializable gives %q", data)
			}
			return nil // nothing was sent
		}
		if err != nil {
			return bad("fails: %v", err)
		}
		m, err := s.ser().Deserialize(data)
		h, ok := m.(*messages.Hello)
		if err != nil || !ok {
			return bad("the bytes are no HELLO: %v %v", m, err)
		}
		a := joinAuthenticator(s.cfg.auth)
		id, method, extra := "", "anonymous", map[string]any{}
		if a != nil {
			id, method, extra = a.AuthID(), a.AuthMethod(), a.AuthExtra()
		}
		if h.Realm() != "realm1" || h.AuthID() != id || len(h.AuthMethods()) != 1 || h.AuthMethods()[0] != method || !same(h.AuthExtra(), extra) {
			return bad("HELLO says %v", kindOf(1).get(h))
		}
		if s.details == "" && s.detailText() != "" {
			return bad("there are session details: %s", s.detailText())
		}
		s.state, s.odd = joinHello, false
		return nil
	}
	var m messages.Message
	var raw []byte
	switch o.N {
	case "welcome":
		m = joinWelcomes[o.A[0]].mk()
	case "challenge":
		m = joinChallenges[o.A[0]].mk()
	case "abort":
		m = joinAborts[o.A[0]].mk()
	case "other":
		m = sampleMsg(uint64(o.A[0]))
	case "garbage":
		raw = append([]byte{}, joinGarbage[o.A[0]]...)
		if x, err := s.ser().Deserialize(append([]byte{}, raw...)); err == nil {
			if t := x.Type(); t == 2 || t == 3 || t == 4 {
				return nil // decodes under this serializer: covered by the other operations
			}
		}
	}
	var reply messages.Message
	var err error
	if s.cfg.wire || raw != nil || o.N == "garbage" {
		if m != nil {
			if raw, err = s.ser().Serialize(m); err != nil {
				return nil
			}
			if _, derr := s.ser().Deserialize(raw); derr != nil {
				return nil
			}
		}
		var out []byte
		out, err = s.j.Receive(raw)
		if err == nil && out != nil {
			if reply, err = s.ser().Deserialize(out); err != nil {
				return bad("the reply does not deserialize: %v", err)
			}
		}
		if err != nil && out != nil {
			return bad("both bytes to send and the error %v", err)
		}
	} else {
		reply, err = s.j.ReceiveMessage(m)
		if err != nil && reply != nil {
			return bad("both a message to send and the error %v", err)
		}
	}
	now := s.detailText()
	joined := err == nil && reply == nil
	if !joined && !s.stale && now != s.details {
		return bad("the session details change from %q to %q (error %v)", s.details, now, err)
	}
	if joined && o.N != "welcome" {
		return bad("is accepted as if it were a WELCOME")
	}
	waiting := s.state == joinHello || s.state == joinAuth
	switch o.N {
	case "welcome":
		f := joinWelcomes[o.A[0]]
		if reply != nil {
			return bad("is answered with %s", compMsg(reply))
		}
		if !waiting {
			if err == nil {
				return bad("is accepted")
			}
			return nil
		}
		if f.ok == 0 {
			if err == nil {
				return bad("is accepted")
			}
			s.odd = true
			return nil
		}
		if err != nil {
			if f.ok == 1 && !s.odd {
				return bad("is refused: %v", err)
			}
			s.odd = true
			return nil
		}
		w := f.mk().(*messages.Welcome)
		d := w.Details()
		str := func(k string) string { x, _ := d[k].(string); return x }
		want := fmt.Sprintf("%d|realm1|%s|%s|%s|%v", w.SessionID(), str("authid"), str("authrole"), str("authmethod"), s.ser().Static())
		if now != want {
			return bad("the session details are %q instead of %q", now, want)
		}
		if det, _ := s.j.SessionDetails(); f.ok == 1 && !same(det.RouterRoles(), d["roles"]) {
			return bad("the router roles are %v", det.RouterRoles())
		}
		s.state, s.details, s.stale, s.odd = joinJoined, now, false, false
	case "challenge":
		if s.state != joinHello {
			if err == nil {
				return bad("is answered with %s", compMsg(reply))
			}
			return nil
		}
		var want *messages.Authenticate
		werr := fmt.Errorf("no authenticator")
		if a := joinAuthenticator(s.cfg.auth); a != nil {
			ch := joinChallenges[o.A[0]].mk()
			want, werr = a.Authenticate(*ch.(*messages.Challenge))
		}
		if werr != nil {
			if err == nil {
				return bad("is answered with %s, though the authenticator fails: %v", compMsg(reply), werr)
			}
			s.odd = true
			return nil
		}
		if err != nil {
			if !s.odd {
				return bad("is not answered: %v", err)
			}
			return nil
		}
		got, ok := reply.(*messages.Authenticate)
		if !ok || got.Signature() != want.Signature() || !same(got.Extra(), want.Extra()) {
			return bad("is answered with %s instead of %s", compMsg(reply), compMsg(want))
		}
		s.state = joinAuth
	case "abort":
		if err == nil {
			return bad("is no error")
		}
		a := joinAborts[o.A[0]].mk().(*messages.Abort)
		if !strings.Contains(err.Error(), a.Reason()) {
			return bad("the error %q does not carry the reason %q", err, a.Reason())
		}
		if s.state == joinJoined {
			s.stale = true
		}
		s.state, s.odd = joinNone, false
	default:
		if err == nil {
			return bad("is answered with %s", compMsg(reply))
		}
	}
	return nil
}

func (s *joinSys) Key() []byte {
	return []byte(fmt.Sprint(s.state, s.odd, s.details, s.stale, "\x00", deepDump(s.j, func(id uint64) string { return fmt.Sprint(id) })))
}

func init() {
	var quick, full []string
	for i, a := range []string{"anonymous", "ticket", "wampcra", "cryptosign", "none", "ticket-empty", "wampcra-empty", "custom", "custom-nameless", "failing", "unserializable"} {
		for w := 0; w < 2; w++ {
			for ser := 0; ser < 3; ser++ {
				c := joinCfg{auth: a, wire: w == 1, ser: ser}
				name := fmt.Sprintf("joiner-%s-%s-%d", a, []string{"msg", "wire"}[w], ser)
				cfgReg[name] = func() Sys { return newJoinSys(&c) }
				full = append(full, name)
				if w == 1 || ser == i%3 {
					quick = append(quick, name)
				}
			}
		}
	}
	register("C20", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, quick, full)...)
	})
}
