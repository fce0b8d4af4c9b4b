package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// injMsg is a message thrown at a router component in some state.
type injMsg struct {
	name string
	mk   func() messages.Message
	pub  bool // through ReceivePublish
}

// odd option values: absent, the right type, wrong types, unknown words
func oddOptions(key string, vals ...any) []map[string]any {
	out := []map[string]any{nil, {}}
	for _, v := range vals {
		out = append(out, map[string]any{key: v})
	}
	return out
}

func injIDs(extra ...uint64) []uint64 {
	return append([]uint64{0, 1, 2, 1 << 53, 1<<64 - 1, neverID}, extra...)
}

// injections builds every message of every type with representative ids, options
// and names. ids are ids live in the component at this moment.
func injections(ids []uint64, names []string) []injMsg {
	var out []injMsg
	add := func(name string, mk func() messages.Message) { out = append(out, injMsg{name: name, mk: mk}) }
	odd := []any{true, false, "yes", 1, nil, []any{}, map[string]any{}, 1.5, "wildcard", "nonsense"}
	names = append(names, "", "*", "[", "a..b", "\xff", strings.Repeat("x", 300))
	matches := append(oddOptions("match", "exact", "prefix", "wildcard", "nonsense", 7, nil, []any{"prefix"}),
		oddOptions("invoke", "single", "first", "roundrobin", "nonsense", 3, nil)[2:]...)
	for _, n := range names {
		n := n
		for _, o := range matches {
			o := o
			add(fmt.Sprintf("SUBSCRIBE %.20q %v", n, o), func() messages.Message { return messages.NewSubscribe(rid(1), cloneMap(o), n) })
			add(fmt.Sprintf("REGISTER %.20q %v", n, o), func() messages.Message { return messages.NewRegister(rid(1), cloneMap(o), n) })
		}
		for _, o := range append(oddOptions("progress", odd...), oddOptions("receive_progress", odd...)[2:]...) {
			o := o
			add(fmt.Sprintf("CALL %.20q %v", n, o), func() messages.Message { return messages.NewCall(rid(2), cloneMap(o), n, nil, nil) })
		}
		for _, o := range append(oddOptions("acknowledge", odd...), append(oddOptions("exclude_me", odd...)[2:], oddOptions("eligible", odd...)[2:]...)...) {
			o := o
			add(fmt.Sprintf("PUBLISH %.20q %v", n, o), func() messages.Message { return messages.NewPublish(rid(3), cloneMap(o), n, nil, nil) })
		}
	}
	for _, id := range injIDs(ids...) {
		id := id
		add(fmt.Sprintf("UNSUBSCRIBE %d", id), func() messages.Message { return messages.NewUnsubscribe(rid(4), id) })
		add(fmt.Sprintf("UNREGISTER %d", id), func() messages.Message { return messages.NewUnregister(rid(4), id) })
		for _, o := range oddOptions("progress", odd...) {
			o := o
			add(fmt.Sprintf("YIELD %d %v", id, o), func() messages.Message { return messages.NewYield(id, cloneMap(o), nil, nil) })
		}
		for t := uint64(0); t < 73; t++ {
			if t == 72 {
				t = 1 << 63
			}
			t := t
			add(fmt.Sprintf("ERROR type %d request %d", t, id), func() messages.Message { return messages.NewError(t, id, nil, "x.y", nil, nil) })
		}
	}
	// binary payloads
	add("CALL binary", func() messages.Message {
		return messages.NewCallWithFields(&binCall{Call: messages.NewCall(rid(2), map[string]any{}, names[0], nil, nil), payload: []byte{1}, ser: 9})
	})
	// types nobody handles
	m := map[string]any{}
	other := []messages.Message{
		messages.NewHello("r", "a", m, m, []string{"anonymous"}), messages.NewWelcome(1, m), messages.NewAbort(m, "r", nil, nil),
		messages.NewChallenge("ticket", m), messages.NewAuthenticate("s", m), messages.NewGoodBye("r", m),
		messages.NewPublished(1, 2), messages.NewSubscribed(1, 2), messages.NewUnsubscribed(1), messages.NewEvent(1, 2, m, nil, nil),
		messages.NewCancel(rid(2), m), messages.NewResult(1, m, nil, nil), messages.NewRegistered(1, 2), messages.NewUnregistered(1),
		messages.NewInvocation(1, 2, m, nil, nil), messages.NewInterrupt(1, m),
	}
	for _, o := range other {
		o := o
		add(fmt.Sprintf("%T", o), func() messages.Message { return o })
	}
	return out
}

func cloneMap(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	return deepCopy(m).(map[string]any)
}

// binCall is a CALL whose payload is given in binary form.
type binCall struct {
	*messages.Call
	payload []byte
	ser     uint64
}

func (b *binCall) PayloadIsBinary() bool     { return true }
func (b *binCall) Payload() []byte           { return b.payload }
func (b *binCall) PayloadSerializer() uint64 { return b.ser }

// guarded runs f and reports a panic of the library.
func guarded(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

type injTarget interface {
	residual
	liveIDs() []uint64
	names() []string
	attached(int) bool
	sessions() int
	inject(from uint64, m injMsg) (refused bool)
	join(id int) error
	leave(id uint64) error
	aftershock()
	handles(m messages.Message) bool
}

func (s *brokerSys) liveIDs() (out []uint64) {
	for _, m := range s.sortedSubs() {
		out = append(out, m.id)
	}
	return
}
func (s *brokerSys) names() []string {
	return []string{s.cfg.keys[0].topic, "a.x"}
}
func (s *brokerSys) attached(i int) bool { return s.att[i] }
func (s *brokerSys) sessions() int       { return s.cfg.sessions }
func (s *brokerSys) inject(from uint64, m injMsg) bool {
	msg := m.mk()
	if p, ok := msg.(*messages.Publish); ok {
		r, err := s.b.ReceivePublish(from, p)
		if err == nil && r == nil {
			return false
		}
		_, err2 := s.b.ReceiveMessage(from, m.mk())
		return err != nil && err2 != nil
	}
	r, err := s.b.ReceiveMessage(from, msg)
	return err != nil || refusedBy(r, msg.Type(), from)
}
func (s *brokerSys) join(i int) error      { return s.b.AddSession(newDetails(i, false)) }
func (s *brokerSys) leave(id uint64) error { return s.b.RemoveSession(id) }
func (s *brokerSys) handles(m messages.Message) bool {
	t := m.Type()
	return t == messages.MessageTypeSubscribe || t == messages.MessageTypeUnsubscribe || t == messages.MessageTypePublish
}
func (s *brokerSys) aftershock() {
	all := func() {
		for i := 0; i <= s.cfg.sessions; i++ {
			for _, t := range []string{"a.b", "a.x", ""} {
				_, _ = s.b.ReceivePublish(sid(i), messages.NewPublish(1, map[string]any{"acknowledge": true}, t, nil, nil))
				s.b.HasSubscription(t)
				for _, k := range s.cfg.keys {
					_, _ = s.b.ReceiveMessage(sid(i), messages.NewSubscribe(1, map[string]any{"match": k.match}, k.topic))
				}
			}
		}
	}
	all()
	for i := 0; i < s.cfg.sessions; i++ {
		_ = s.b.RemoveSession(sid(i))
		all()
	}
	for i := 0; i < s.cfg.sessions; i++ {
		_ = s.b.AddSession(newDetails(i, false))
	}
	all()
}

func (s *dealerSys) liveIDs() (out []uint64) {
	for _, r := range s.liveRegs() {
		out = append(out, r.id)
	}
	for _, p := range s.pend {
		out = append(out, p.inv)
	}
	return
}
func (s *dealerSys) names() []string     { return []string{s.cfg.procs[0], "q.7"} }
func (s *dealerSys) attached(i int) bool { return s.att[i] }
func (s *dealerSys) sessions() int       { return s.cfg.sessions }
func (s *dealerSys) inject(from uint64, m injMsg) bool {
	msg := m.mk()
	r, err := s.d.ReceiveMessage(from, msg)
	return err != nil || refusedBy(r, msg.Type(), from)
}
func (s *dealerSys) join(i int) error      { return s.d.AddSession(newDetails(i, false)) }
func (s *dealerSys) leave(id uint64) error { return s.d.RemoveSession(id) }
func (s *dealerSys) handles(m messages.Message) bool {
	switch m.Type() {
	case messages.MessageTypeCall, messages.MessageTypeYield, messages.MessageTypeRegister, messages.MessageTypeUnregister:
		return true
	case messages.MessageTypeError:
		return m.(*messages.Error).MessageType() == messages.MessageTypeInvocation
	}
	return false
}
func (s *dealerSys) aftershock() {
	all := func() {
		for i := 0; i <= s.cfg.sessions; i++ {
			for _, p := range append(append([]string{}, s.cfg.procs...), "a.b", "") {
				r, err := s.d.ReceiveMessage(sid(i), messages.NewCall(rid(7), nil, p, nil, nil))
				if err == nil && r != nil {
					if inv, ok := r.Message.(*messages.Invocation); ok {
						_, _ = s.d.ReceiveMessage(r.Recipient, messages.NewYield(inv.RequestID(), nil, nil, nil))
					}
				}
				s.d.HasProcedure(p)
			}
			for _, k := range s.cfg.keys {
				_, _ = s.d.ReceiveMessage(sid(i), messages.NewRegister(rid(8), map[string]any{"match": k.match, "invoke": k.policy}, k.proc))
			}
			for _, id := range s.liveIDs() {
				_, _ = s.d.ReceiveMessage(sid(i), messages.NewYield(id, nil, nil, nil))
			}
		}
	}
	all()
	for i := 0; i < s.cfg.sessions; i++ {
		_ = s.d.RemoveSession(sid(i))
		all()
	}
	for i := 0; i < s.cfg.sessions; i++ {
		_ = s.d.AddSession(newDetails(i, false))
	}
	all()
}

// injectCheck throws every message from everybody at the component in this state.
func injectCheck(cfg string) func(Sys, []Op) []Fail {
	mk := configs()[cfg]
	fresh := func(h []Op) injTarget {
		t := mk().(injTarget)
		for _, o := range h {
			safeDo(t, o)
		}
		return t
	}
	return func(sys Sys, h []Op) (fs []Fail) {
		t := sys.(injTarget)
		list := injections(t.liveIDs(), t.names())
		var froms []uint64
		in := map[uint64]bool{}
		for i := 0; i < t.sessions(); i++ {
			froms = append(froms, sid(i))
			in[sid(i)] = t.attached(i)
		}
		froms = append(froms, sid(60), 0)
		bad := func(f string, a ...any) []Fail { return []Fail{fail(fmt.Sprintf(f, a...), "C11")} }

		// 1. everything that must be refused, in one batch
		type refusal struct {
			what string
			do   func(injTarget) error
		}
		var refusals []refusal
		for _, from := range froms {
			from := from
			for _, m := range list {
				m := m
				if in[from] && t.handles(m.mk()) {
					continue
				}
				refusals = append(refusals, refusal{fmt.Sprintf("%s from session %s", m.name, who(from, in[from])), func(t injTarget) error {
					if t.inject(from, m) {
						return errRefused
					}
					return nil
				}})
			}
			if !in[from] {
				refusals = append(refusals, refusal{"detaching session " + who(from, false), func(t injTarget) error { return t.leave(from) }})
			}
		}
		for i := 0; i < t.sessions(); i++ {
			i := i
			if t.attached(i) {
				refusals = append(refusals, refusal{"attaching session " + who(sid(i), true) + " again", func(t injTarget) error { return t.join(i) }})
			}
		}
		before := t.dump()
		for _, r := range refusals {
			var err error
			if p := guarded(func() { err = r.do(t) }); p != "" {
				return bad("%s panics: %s", r.what, p)
			}
			if err == nil {
				return bad("%s is not refused", r.what)
			}
		}
		injCount.Add(int64(len(refusals)))
		if t.dump() != before {
			// does any of them have an observable effect?
			for _, r := range refusals {
				u := fresh(h)
				_ = r.do(u)
				if u.dump() == before {
					continue
				}
				if f := divergence(fresh, h, r.do, 2); f != "" {
					return bad("%s is refused but has an effect: afterwards %s", r.what, f)
				}
			}
		}

		// 2. everything that is handled: must not crash, now or later
		u := fresh(h)
		for _, from := range froms {
			if !in[from] {
				continue
			}
			for _, m := range list {
				if !t.handles(m.mk()) {
					continue
				}
				injCount.Add(1)
				what := fmt.Sprintf("%s from session %s", m.name, who(from, true))
				if p := guarded(func() { u.inject(from, m) }); p != "" {
					return bad("%s panics: %s", what, p)
				}
				if u.dump() == before {
					continue
				}
				if p := guarded(u.aftershock); p != "" {
					return bad("after %s the component panics: %s", what, p)
				}
				u = fresh(h)
			}
		}
		return nil
	}
}

func who(id uint64, in bool) string {
	s := "0"
	if id >= sidBase {
		s = fmt.Sprint(id - sidBase)
	}
	if in {
		return s
	}
	return s + " (not attached)"
}

// divergence explores all operation sequences up to the depth after a refused
// operation and reports the first disagreement with the model, which ignored it.
func divergence(fresh func([]Op) injTarget, h []Op, do func(injTarget) error, depth int) string {
	var walk func(path []Op, d int) string
	walk = func(path []Op, d int) string {
		mk := func() injTarget {
			t := fresh(h)
			_ = do(t)
			for _, o := range path {
				safeDo(t, o)
			}
			return t
		}
		for _, op := range mk().Ops() {
			t := mk()
			for _, f := range safeDo(t, op) {
				if f.Known == "" {
					return fmt.Sprintf("%v %s", append(append([]Op{}, path...), op), f.Msg)
				}
			}
			if d > 1 {
				if s := walk(append(append([]Op{}, path...), op), d-1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	return walk(nil, depth)
}

var errRefused = fmt.Errorf("refused")

var _ = wampproto.NewBroker
