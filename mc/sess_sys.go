package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// C15: a client session in lockstep with the set of requests it is waiting for.

type sessCfg struct {
	kinds string   // C calls, P publications, R registrations, S subscriptions, I invocations
	ser   int      // index into allSerializers
	wire  bool     // receive serialized bytes
	nums  []uint64 // the ids behind the numbers 1..3 (nil: the numbers themselves)
	form  int      // 1: nil options and payloads, other URIs and reasons; 2: binary-looking payloads
	ids   int      // number of registration/subscription ids handed out (0 means two)
}

const sessIDsN = 2 // request ids 1..2, 3 is never used; the same numbers for registrations and subscriptions

type sessSys struct {
	cfg  *sessCfg
	s    *wampproto.Session
	call [4]bool
	pub  [4]bool
	reg  [4]bool
	sub  [4]bool
	unr  [4]int // registration id + 1
	uns  [4]int
	regs [4]bool
	subs [4]bool
	inv  [4]bool
}

func newSessSys(cfg *sessCfg) *sessSys {
	return &sessSys{cfg: cfg, s: wampproto.NewSession(allSerializers[cfg.ser].s)}
}

func (s *sessSys) ser() serializers.Serializer { return allSerializers[s.cfg.ser].s }

func (s *sessSys) has(k string) bool { return strings.Contains(s.cfg.kinds, k) }

// expectation of an operation
type sessExp struct {
	verdict int // 0 must be refused, 1 must be accepted, 2 either
	apply   func()
	prune   bool // what follows is not specified
	why     string
}

var sessAnswerTypes = []uint64{50, 65, 67, 33, 35, 17, 36, 68, 8, 6, 3}

// messages that are not addressed to a joined client
var sessForeign = []uint64{1, 2, 4, 5, 16, 32, 34, 48, 49, 64, 66, 69, 70}

// messages a client may not send through its session
var sessNoSend = []uint64{1, 2, 4, 5, 17, 33, 35, 36, 50, 65, 67, 68, 69}

func sampleMsg(typ uint64) messages.Message {
	k := kindOf(typ)
	var v []any
	for _, c := range k.ctorLayout() {
		switch c {
		case 'i':
			v = append(v, uint64(1))
		case 's':
			v = append(v, "s")
		case 'd', 'K':
			v = append(v, map[string]any{"authid": "a", "authrole": "r"})
		case 'A':
			v = append(v, []any{"x"})
		case 'l':
			v = append(v, []string{"anonymous"})
		}
	}
	return k.mk(v)
}

// Ops:
//
//	call r | publish r ack | register r | unregister r id | subscribe r | unsubscribe r id | yield r prog | inverr r
//	senderr r type | send type | bad kind r       (an unserializable request)
//	result r prog | registered r id | unregistered r | subscribed r id | unsubscribed r | published r | event id |
//	invocation r id | error r type | recv type | goodbye | abort | garbage n
func (s *sessSys) Ops() []Op {
	var ops []Op
	nid := s.cfg.ids
	if nid == 0 {
		nid = sessIDsN
	}
	add := func(n string, a ...int) { ops = append(ops, Op{n, a}) }
	for r := 1; r <= 3; r++ {
		for p := 0; p < 4; p++ {
			add("result", r, p)
		}
		for id := 1; id <= nid; id++ {
			add("registered", r, id)
			add("subscribed", r, id)
		}
		for id := 1; id <= 3; id++ {
			add("invocation", r, id)
		}
		add("unregistered", r)
		add("unsubscribed", r)
		add("published", r)
		add("event", r)
		for t := range sessErrTypes {
			add("error", r, t)
			if t < len(sessErrURIs) {
				add("error", r, t, 1)
			}
		}
	}
	for _, t := range sessForeign {
		add("recv", int(t))
	}
	for i := range sessGarbage {
		add("garbage", i)
	}
	add("goodbye")
	add("abort")
	for _, t := range sessNoSend {
		add("send", int(t))
	}
	add("sendgoodbye")
	for r := 1; r <= sessIDsN; r++ {
		for _, t := range []int{0, 16, 32, 34, 48, 64, 66, 70} {
			add("senderr", r, t)
		}
		for k := range sessBad {
			add("bad", k, r)
		}
		if s.has("C") {
			add("call", r)
		}
		if s.has("P") && !s.pub[r] {
			for a := 0; a < 4; a++ {
				add("publish", r, a)
			}
		}
		if s.has("R") {
			if !s.reg[r] {
				add("register", r)
			}
			if s.unr[r] == 0 {
				for id := 1; id <= nid; id++ {
					add("unregister", r, id)
				}
			}
		}
		if s.has("I") {
			for p := 0; p < 2; p++ {
				add("yield", r, p)
			}
			add("inverr", r)
		}
		if s.has("S") {
			if !s.sub[r] {
				add("subscribe", r)
			}
			if s.uns[r] == 0 {
				for id := 1; id <= 3; id++ {
					add("unsubscribe", r, id)
				}
			}
		}
	}
	sort.SliceStable(ops, func(a, b int) bool { return s.SelfLoop(ops[a]) && !s.SelfLoop(ops[b]) })
	return ops
}

var sessErrTypes = []uint64{48, 16, 64, 66, 32, 34, 68, 70, 36, 50, 49, 8, 6, 1, 0, 99, 1 << 53}

// the URIs routers use for these, in the order of sessErrTypes
var sessErrURIs = []string{"wamp.error.no_such_procedure", "wamp.error.not_authorized", "wamp.error.procedure_already_exists", "wamp.error.no_such_registration",
	"wamp.error.invalid_uri", "wamp.error.no_such_subscription"}

var sessBad = []string{"call", "publish", "register", "subscribe"}

var sessGarbage = [][]byte{nil, {}, []byte("["), []byte("{}"), []byte("[50]"), []byte("[36,1]"), {0x80}, {0x90}, {0xff}, {0xc1},
	[]byte(`[33,1,2,3]`), []byte(`[33,"1",2]`), []byte(`[33,1]`), []byte(`[65]`)}

func (s *sessSys) expect(o Op) sessExp {
	a := o.A
	refuse := func(why string) sessExp { return sessExp{verdict: 0, why: why} }
	accept := func(f func()) sessExp { return sessExp{verdict: 1, apply: f} }
	either := sessExp{verdict: 2}
	take := func(set *[4]bool, r int, kind string) sessExp {
		if !set[r] {
			return refuse("no such " + kind + " request is outstanding")
		}
		return accept(func() { set[r] = false })
	}
	switch o.N {
	case "call":
		return accept(func() { s.call[a[0]] = true })
	case "publish":
		return accept(func() {
			if a[1] == 1 {
				s.pub[a[0]] = true
			}
		})
	case "register":
		return accept(func() { s.reg[a[0]] = true })
	case "subscribe":
		return accept(func() { s.sub[a[0]] = true })
	case "unregister":
		f := func() { s.unr[a[0]] = a[1] + 1 }
		if !s.regs[a[1]] {
			return sessExp{verdict: 2, apply: nil, prune: true}
		}
		return accept(f)
	case "unsubscribe":
		if !s.subs[a[1]] {
			return refuse("the session has no such subscription")
		}
		return accept(func() { s.uns[a[0]] = a[1] + 1 })
	case "yield":
		if !s.inv[a[0]] {
			return either
		}
		return accept(func() {
			if a[1] == 0 {
				s.inv[a[0]] = false
			}
		})
	case "inverr":
		if !s.inv[a[0]] {
			return either
		}
		return accept(func() { s.inv[a[0]] = false })
	case "senderr", "send":
		return refuse("clients do not send that")
	case "bad":
		return refuse("it cannot be serialized")
	case "sendgoodbye", "goodbye", "abort":
		return accept(nil)
	case "result":
		if !s.call[a[0]] {
			return refuse("no such call is outstanding")
		}
		return accept(func() {
			if a[1] != 1 {
				s.call[a[0]] = false
			}
		})
	case "registered":
		if !s.reg[a[0]] {
			return refuse("no such REGISTER is outstanding")
		}
		return accept(func() { s.reg[a[0]] = false; s.regs[a[1]] = true })
	case "unregistered":
		u := s.unr[a[0]]
		if u == 0 {
			return refuse("no such UNREGISTER is outstanding")
		}
		if !s.regs[u-1] {
			return sessExp{verdict: 2, prune: true}
		}
		return accept(func() { s.unr[a[0]] = 0; s.regs[u-1] = false })
	case "subscribed":
		if !s.sub[a[0]] {
			return refuse("no such SUBSCRIBE is outstanding")
		}
		return accept(func() { s.sub[a[0]] = false; s.subs[a[1]] = true })
	case "unsubscribed":
		u := s.uns[a[0]]
		if u == 0 {
			return refuse("no such UNSUBSCRIBE is outstanding")
		}
		if !s.subs[u-1] {
			return sessExp{verdict: 2, prune: true}
		}
		return accept(func() { s.uns[a[0]] = 0; s.subs[u-1] = false })
	case "published":
		return take(&s.pub, a[0], "acknowledged PUBLISH")
	case "event":
		if !s.subs[a[0]] {
			return refuse("the session has no such subscription")
		}
		return accept(nil)
	case "invocation":
		if !s.regs[a[1]] {
			return refuse("the session has no such registration")
		}
		return accept(func() { s.inv[a[0]] = true })
	case "error":
		switch sessErrTypes[a[1]] {
		case 48:
			return take(&s.call, a[0], "CALL")
		case 16:
			return take(&s.pub, a[0], "acknowledged PUBLISH")
		case 64:
			return take(&s.reg, a[0], "REGISTER")
		case 32:
			return take(&s.sub, a[0], "SUBSCRIBE")
		case 66:
			if s.unr[a[0]] == 0 {
				return refuse("no such UNREGISTER is outstanding")
			}
			return accept(func() { s.unr[a[0]] = 0 })
		case 34:
			if s.uns[a[0]] == 0 {
				return refuse("no such UNSUBSCRIBE is outstanding")
			}
			return accept(func() { s.uns[a[0]] = 0 })
		}
		return refuse("a client never sends requests of that type")
	case "recv":
		return refuse("a session takes no such message")
	case "garbage":
		return refuse("it is not a message")
	}
	panic("unknown op " + o.N)
}

// SelfLoop: refusals. (What one accepted message undoes, another may restore, so
// the state is compared after each of these.)
func (s *sessSys) SelfLoop(o Op) bool {
	e := s.expect(o)
	return !e.prune && e.verdict == 0
}

func (s *sessSys) message(o Op) (m messages.Message, send bool) {
	a := o.A
	u := func(i int) uint64 { return uint64(a[i]) }
	num := func(i int) uint64 {
		if s.cfg.nums != nil {
			return s.cfg.nums[a[i]-1]
		}
		return u(i)
	}
	mm := func() map[string]any { return map[string]any{} }
	args, kw := []any{"x", uint64(7)}, map[string]any{"k": "v"}
	errURI, bye, abortURI := "e.x", "bye", "r.x"
	switch s.cfg.form {
	case 1:
		args, kw = nil, nil
		errURI, bye, abortURI = "wamp.error.canceled", "wamp.close.goodbye_and_out", "wamp.error.no_such_realm"
		opt := mm
		mm = func() map[string]any {
			if o.N == "result" || o.N == "publish" || o.N == "yield" {
				return opt()
			}
			return nil
		}
	case 2:
		args, kw = []any{}, map[string]any{"progress": true, "acknowledge": true}
		errURI, bye, abortURI = "", "", ""
		opt := mm
		mm = func() map[string]any { // details that mean nothing here
			d := opt()
			d["receive_progress"], d["x_progress"], d["exclude_me"], d["match"] = true, true, true, "prefix"
			d["retained"], d["publisher"], d["topic"], d["procedure"], d["caller"], d["timeout"], d["subscription"] = true, uint64(1), "t.u", "p.q", uint64(1), uint64(1), uint64(1)
			if o.N != "result" && o.N != "yield" {
				d["progress"] = true
			}
			if o.N != "publish" {
				d["acknowledge"] = true
			}
			return d
		}
	}
	regOpts := map[string]any{"match": "prefix"}
	if s.cfg.form == 3 {
		errURI, bye, abortURI = "wamp.error.invalid_argument", "", "wamp.error.x"
		opt := mm
		mm = func() map[string]any { // details that are switched off
			d := opt()
			d["receive_progress"], d["exclude_me"], d["disclose_me"], d["retain"], d["match"] = false, false, false, false, ""
			d["eligible"], d["exclude"], d["timeout"], d["rkey"] = []any{}, []any{uint64(1)}, uint64(0), nil
			return d
		}
		args, kw = []any{nil}, map[string]any{"": nil}
		regOpts = map[string]any{"match": "exact", "invoke": "roundrobin", "disclose_caller": false, "get_retained": true, "concurrency": uint64(0)}
	}
	switch o.N {
	case "call":
		return messages.NewCall(num(0), mm(), "p.q", args, kw), true
	case "publish":
		op := mm()
		if a[1] != 0 {
			op["acknowledge"] = sessFlag[a[1]]
		}
		return messages.NewPublish(num(0), op, "t.u", args, kw), true
	case "register":
		return messages.NewRegister(num(0), regOpts, "p.q"), true
	case "unregister":
		return messages.NewUnregister(num(0), num(1)), true
	case "subscribe":
		return messages.NewSubscribe(num(0), regOpts, "t.u"), true
	case "unsubscribe":
		return messages.NewUnsubscribe(num(0), num(1)), true
	case "yield":
		op := mm()
		if a[1] == 1 {
			op["progress"] = true
		}
		return messages.NewYield(num(0), op, args, kw), true
	case "inverr":
		return messages.NewError(68, num(0), mm(), errURI, args, kw), true
	case "senderr":
		return messages.NewError(u(1), num(0), mm(), errURI, args, kw), true
	case "send":
		return sampleMsg(u(0)), true
	case "bad":
		ch := make(chan int)
		switch sessBad[a[0]] {
		case "call":
			return messages.NewCall(num(1), mm(), "p", []any{ch}, nil), true
		case "publish":
			return messages.NewPublish(num(1), map[string]any{"acknowledge": true}, "p", []any{ch}, nil), true
		case "register":
			return messages.NewRegister(num(1), map[string]any{"x": ch}, "p"), true
		}
		return messages.NewSubscribe(num(1), map[string]any{"x": ch}, "p"), true
	case "sendgoodbye":
		return messages.NewGoodBye(bye, mm()), true
	case "result":
		d := mm()
		if a[1] != 0 {
			d["progress"] = sessFlag[a[1]]
		}
		return messages.NewResult(num(0), d, args, kw), false
	case "registered":
		return messages.NewRegistered(num(0), num(1)), false
	case "unregistered":
		return messages.NewUnregistered(num(0)), false
	case "subscribed":
		return messages.NewSubscribed(num(0), num(1)), false
	case "unsubscribed":
		return messages.NewUnsubscribed(num(0)), false
	case "published":
		return messages.NewPublished(num(0), 77), false
	case "event":
		return messages.NewEvent(num(0), 77, mm(), args, kw), false
	case "invocation":
		return messages.NewInvocation(num(0), num(1), mm(), args, kw), false
	case "error":
		if len(a) > 2 {
			errURI = sessErrURIs[a[1]]
		}
		return messages.NewError(sessErrTypes[a[1]], num(0), mm(), errURI, args, kw), false
	case "recv":
		return sampleMsg(u(0)), false
	case "goodbye":
		return messages.NewGoodBye(bye, mm()), false
	case "abort":
		return messages.NewAbort(mm(), abortURI, args, kw), false
	}
	panic("unknown op " + o.N)
}

// a flag that is absent, true, false, and something that is neither: only true counts
var sessFlag = []any{nil, true, false, uint64(1)}

var sessFlagNames = []string{"absent", "true", "false", "1"}

func sameMessage(a, b messages.Message) bool {
	if a == nil || b == nil || a.Type() != b.Type() {
		return false
	}
	k := kindOf(a.Type())
	if k == nil {
		return false
	}
	x, y := k.get(a), k.get(b)
	for i := range x {
		if !exact(x[i], y[i], true) {
			return false
		}
	}
	return true
}

func (s *sessSys) Do(o Op) []Fail {
	e := s.expect(o)
	bad := func(f string, a ...any) []Fail { return []Fail{hard(fmt.Sprintf(f, a...), "C15")} }
	var err error
	if o.N == "garbage" {
		if _, derr := s.ser().Deserialize(append([]byte{}, sessGarbage[o.A[0]]...)); derr == nil {
			return nil // not garbage under this serializer
		}
		m, err := s.s.Receive(append([]byte{}, sessGarbage[o.A[0]]...))
		if err == nil {
			return bad("Receive of undecodable bytes gives %T and no error", m)
		}
		return nil
	}
	msg, send := s.message(o)
	ref, _ := s.message(o)
	if send {
		var data []byte
		data, err = s.s.SendMessage(msg)
		if o.N == "bad" && err == nil {
			return []Fail{{Msg: "serialized", Hard: true}} // nothing to check
		}
		if err == nil && e.verdict != 0 {
			back, derr := s.ser().Deserialize(data)
			if derr != nil {
				return bad("the bytes made of %s do not deserialize: %v", s.Describe(o), derr)
			}
			if !sameMessage(ref, back) {
				return bad("sending %s put %v on the wire instead of %v", s.Describe(o), kindOf(back.Type()).get(back), kindOf(ref.Type()).get(ref))
			}
		}
	} else {
		var got messages.Message
		if s.cfg.wire {
			data, serr := s.ser().Serialize(msg)
			if serr != nil {
				return []Fail{{Msg: "cannot serialize", Hard: true}}
			}
			if _, derr := s.ser().Deserialize(data); derr != nil {
				return nil // not representable on the wire: C21's business
			}
			got, err = s.s.Receive(data)
		} else {
			got, err = s.s.ReceiveMessage(msg)
		}
		if err == nil && !sameMessage(ref, got) {
			return bad("receiving %s returned another message: %v", s.Describe(o), got)
		}
	}
	switch e.verdict {
	case 0:
		if err == nil {
			return bad("%s is accepted, but %s", s.Describe(o), e.why)
		}
	case 1:
		if err != nil {
			return bad("%s is refused: %v", s.Describe(o), err)
		}
		if e.apply != nil {
			e.apply()
		}
	default:
		if e.prune && err == nil {
			return []Fail{{Msg: "unspecified", Hard: true}}
		}
		if e.prune && o.N != "unregister" {
			return []Fail{{Msg: "unspecified", Hard: true}}
		}
	}
	return nil
}

func (s *sessSys) Describe(o Op) string {
	a := o.A
	switch o.N {
	case "result":
		return fmt.Sprintf("RESULT for call %d (progress %s)", a[0], sessFlagNames[a[1]])
	case "registered":
		return fmt.Sprintf("REGISTERED for request %d with registration %d", a[0], a[1])
	case "subscribed":
		return fmt.Sprintf("SUBSCRIBED for request %d with subscription %d", a[0], a[1])
	case "unregistered", "unsubscribed", "published":
		return fmt.Sprintf("%s for request %d", strings.ToUpper(o.N), a[0])
	case "event":
		return fmt.Sprintf("EVENT for subscription %d", a[0])
	case "invocation":
		return fmt.Sprintf("INVOCATION %d for registration %d", a[0], a[1])
	case "error":
		if len(a) > 2 {
			return fmt.Sprintf("ERROR %s for request %d of type %d", sessErrURIs[a[1]], a[0], sessErrTypes[a[1]])
		}
		return fmt.Sprintf("ERROR for request %d of type %d", a[0], sessErrTypes[a[1]])
	case "recv":
		return fmt.Sprintf("received %s", kindOf(uint64(a[0])).name)
	case "send":
		return fmt.Sprintf("sending %s", kindOf(uint64(a[0])).name)
	case "call", "register", "subscribe":
		return fmt.Sprintf("sending %s request %d", strings.ToUpper(o.N), a[0])
	case "publish":
		return fmt.Sprintf("sending PUBLISH request %d (acknowledge %s)", a[0], sessFlagNames[a[1]])
	case "unregister", "unsubscribe":
		return fmt.Sprintf("sending %s request %d for id %d", strings.ToUpper(o.N), a[0], a[1])
	case "yield":
		return fmt.Sprintf("sending YIELD for invocation %d (progress %v)", a[0], a[1] == 1)
	case "inverr":
		return fmt.Sprintf("sending ERROR for invocation %d", a[0])
	case "senderr":
		return fmt.Sprintf("sending ERROR for request %d of type %d", a[0], a[1])
	case "bad":
		return fmt.Sprintf("sending an unserializable %s request %d", strings.ToUpper(sessBad[a[0]]), a[1])
	}
	return o.String()
}

func (s *sessSys) modelKey() string {
	return fmt.Sprint(s.call, s.pub, s.reg, s.sub, s.unr, s.uns, s.regs, s.subs, s.inv)
}

func (s *sessSys) Key() []byte {
	return []byte(s.modelKey() + "\x00" + deepDump(s.s, func(id uint64) string { return fmt.Sprint(id &^ counterBit) }))
}

func init() {
	reg := func(name string, cfg sessCfg) {
		c := cfg
		cfgReg[name] = func() Sys { return newSessSys(&c) }
	}
	for i, k := range []string{"C", "P", "S", "RI", "CP", "CS", "PS", "CRI", "PRI", "RS", "RSI", "CPS", "CPRI", "CPRS", "CRSI", "CPRSI"} {
		reg("session-"+k, sessCfg{kinds: k, ser: i % 3, wire: i%2 == 1})
		reg("session-wire-"+k, sessCfg{kinds: k, ser: (i + 1) % 3, wire: true})
	}
	alias := []uint64{5, 1<<32 + 5, 1<<33 + 5}
	big := []uint64{1<<53 - 1, 1 << 53, 1<<53 - 2}
	for i, k := range []string{"CP", "RS", "RI"} {
		reg("session-alias-"+k, sessCfg{kinds: k, ser: i % 3, nums: alias, wire: i != 0, form: i})
		reg("session-big-"+k, sessCfg{kinds: k, ser: (i + 1) % 3, nums: big, wire: i != 1, form: (i + 1) % 3})
		reg("session-form1-"+k, sessCfg{kinds: k, ser: (i + 2) % 3, wire: i == 1, form: 1})
		reg("session-form2-"+k, sessCfg{kinds: k, ser: i, wire: i == 0, form: 2})
		reg("session-form3-"+k, sessCfg{kinds: k, ser: (i + 1) % 3, wire: i == 0, form: 3})
	}
	reg("session-RS-1", sessCfg{kinds: "RS", ids: 1, wire: true})
	reg("session-RSI-1", sessCfg{kinds: "RSI", ids: 1})
	register("C15", "model_checking", func(c *Ctx) *Violation {
		for _, n := range Pick(c, []string{"session-C", "session-wire-C", "session-P", "session-S", "session-wire-S", "session-RI", "session-wire-RI", "session-CP", "session-CS", "session-PS",
			"session-CRI", "session-PRI", "session-RS-1", "session-alias-CP", "session-alias-RI", "session-big-CP", "session-big-RI", "session-form1-CP", "session-form1-RI",
			"session-form2-CP", "session-form2-RI", "session-form3-CP", "session-form3-RI"},
			[]string{"session-C", "session-wire-C", "session-wire-P", "session-S", "session-wire-S", "session-RI", "session-wire-RI", "session-CP", "session-wire-CS", "session-PS", "session-CRI",
				"session-alias-CP", "session-alias-RS", "session-alias-RI", "session-big-CP", "session-big-RS", "session-big-RI",
				"session-form1-CP", "session-form1-RS", "session-form1-RI", "session-form2-CP", "session-form2-RS", "session-form2-RI", "session-form3-CP", "session-form3-RI",
				"session-wire-PRI", "session-RS", "session-RSI-1", "session-wire-CPS", "session-CPRI", "session-CPRS"}) {
			if v := RunBFS(c, n, 0, 0, nil); v != nil {
				return v
			}
		}
		return runScripts(c)
	})
}
