package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

var sers = map[string]serializers.Serializer{
	"json":    &serializers.JSONSerializer{},
	"cbor":    &serializers.CBORSerializer{},
	"msgpack": &serializers.MsgPackSerializer{},
}

type srun struct {
	s    *wampproto.Session
	ser  serializers.Serializer
	ops  [][]string
	sent [][]sentMsg
	pre  map[string][]byte
}

type sentMsg struct {
	want messages.Message
	data []byte
}

type sop struct {
	recv bool
	msg  func() messages.Message
}

func rx(f func() messages.Message) sop { return sop{true, f} }
func tx(f func() messages.Message) sop { return sop{false, f} }

func rerr(kind, id uint64) sop {
	return rx(func() messages.Message {
		return messages.NewError(kind, id, map[string]any{"e": "x"}, "some.error", []any{"boom"}, nil)
	})
}

var sops = map[string]sop{
	"RESULT1": rx(func() messages.Message { return messages.NewResult(1, map[string]any{}, []any{"one"}, nil) }),
	"PRESULT1": rx(func() messages.Message {
		return messages.NewResult(1, map[string]any{"progress": true}, []any{"part"}, nil)
	}),
	"ECALL1":         rerr(messages.MessageTypeCall, 1),
	"REGISTERED2":    rx(func() messages.Message { return messages.NewRegistered(2, 71) }),
	"EREGISTER2":     rerr(messages.MessageTypeRegister, 2),
	"UNREGISTERED3":  rx(func() messages.Message { return messages.NewUnregistered(3) }),
	"EUNREGISTER3":   rerr(messages.MessageTypeUnregister, 3),
	"SUBSCRIBED4":    rx(func() messages.Message { return messages.NewSubscribed(4, 81) }),
	"ESUBSCRIBE4":    rerr(messages.MessageTypeSubscribe, 4),
	"UNSUBSCRIBED5":  rx(func() messages.Message { return messages.NewUnsubscribed(5) }),
	"EUNSUBSCRIBE5":  rerr(messages.MessageTypeUnsubscribe, 5),
	"PUBLISHED6":     rx(func() messages.Message { return messages.NewPublished(6, 91) }),
	"EPUBLISH6":      rerr(messages.MessageTypePublish, 6),
	"INVOCATION70":   rx(func() messages.Message { return messages.NewInvocation(902, 70, map[string]any{}, []any{1}, nil) }),
	"INVOCATION71":   rx(func() messages.Message { return messages.NewInvocation(903, 71, map[string]any{}, []any{1}, nil) }),
	"EVENT80":        rx(func() messages.Message { return messages.NewEvent(80, 904, map[string]any{}, []any{1}, nil) }),
	"EVENT81":        rx(func() messages.Message { return messages.NewEvent(81, 905, map[string]any{}, []any{1}, nil) }),
	"RESULT11":       rx(func() messages.Message { return messages.NewResult(11, map[string]any{}, []any{"eleven"}, nil) }),
	"RESULT12":       rx(func() messages.Message { return messages.NewResult(12, map[string]any{}, []any{"twelve"}, nil) }),
	"REGISTERED13":   rx(func() messages.Message { return messages.NewRegistered(13, 72) }),
	"SUBSCRIBED14":   rx(func() messages.Message { return messages.NewSubscribed(14, 82) }),
	"PUBLISHED16":    rx(func() messages.Message { return messages.NewPublished(16, 92) }),
	"UNSUBSCRIBED15": rx(func() messages.Message { return messages.NewUnsubscribed(15) }),
	"UNREGISTERED17": rx(func() messages.Message { return messages.NewUnregistered(17) }),
	"GOODBYE":        rx(func() messages.Message { return messages.NewGoodBye("wamp.close.normal", map[string]any{}) }),

	"call11": tx(func() messages.Message {
		return messages.NewCall(11, map[string]any{}, "proc.eleven", []any{"a long enough first argument", 11}, map[string]any{"k": "eleven"})
	}),
	"call12": tx(func() messages.Message {
		return messages.NewCall(12, map[string]any{"receive_progress": true}, "proc.twelve", []any{"twelve"}, nil)
	}),
	"register13":    tx(func() messages.Message { return messages.NewRegister(13, map[string]any{}, "proc.r") }),
	"subscribe14":   tx(func() messages.Message { return messages.NewSubscribe(14, map[string]any{}, "topic.s") }),
	"unsubscribe15": tx(func() messages.Message { return messages.NewUnsubscribe(15, 80) }),
	"publish16": tx(func() messages.Message {
		return messages.NewPublish(16, map[string]any{"acknowledge": true}, "topic.p", []any{"pub"}, nil)
	}),
	"unregister17": tx(func() messages.Message { return messages.NewUnregister(17, 70) }),
	"yield901":     tx(func() messages.Message { return messages.NewYield(901, map[string]any{}, []any{"y"}, nil) }),
	"error901": tx(func() messages.Message {
		return messages.NewError(messages.MessageTypeInvocation, 901, map[string]any{}, "some.error", []any{"e"}, nil)
	}),
	"goodbye": tx(func() messages.Message { return messages.NewGoodBye("wamp.close.normal", map[string]any{}) }),
}

// newSrun: requests 1..6 are outstanding, registration 70 and subscription 80
// exist (their removal is requested by 3 and 5), invocation 901 is unanswered.
func newSrun(ser string, threads [][]string) *srun {
	r := &srun{ser: sers[ser], ops: threads, pre: map[string][]byte{}}
	r.s = wampproto.NewSession(r.ser)
	must := func(m messages.Message) {
		if _, err := r.s.SendMessage(m); err != nil {
			panic(err)
		}
	}
	got := func(m messages.Message) {
		if _, err := r.s.ReceiveMessage(m); err != nil {
			panic(err)
		}
	}
	must(messages.NewRegister(900, nil, "p"))
	got(messages.NewRegistered(900, 70))
	must(messages.NewSubscribe(901, nil, "t"))
	got(messages.NewSubscribed(901, 80))
	must(messages.NewCall(1, map[string]any{"receive_progress": true}, "p", nil, nil))
	must(messages.NewRegister(2, nil, "p2"))
	must(messages.NewUnregister(3, 70))
	must(messages.NewSubscribe(4, nil, "t2"))
	must(messages.NewUnsubscribe(5, 80))
	must(messages.NewPublish(6, map[string]any{"acknowledge": true}, "t", nil, nil))
	got(messages.NewInvocation(901, 70, map[string]any{}, nil, nil))
	for _, t := range threads {
		r.sent = append(r.sent, make([]sentMsg, len(t)))
		for _, o := range t {
			if sops[o].recv {
				data, err := r.ser.Serialize(sops[o].msg())
				if err != nil {
					panic(err)
				}
				r.pre[o] = data
			}
		}
	}
	return r
}

func (r *srun) do(t, k int) string {
	o := r.ops[t][k]
	op := sops[o]
	if op.recv {
		m, err := r.s.Receive(r.pre[o])
		if err != nil {
			return "refused"
		}
		return "accepted " + show(m)
	}
	m := op.msg()
	data, err := r.s.SendMessage(m)
	if err != nil {
		return "not sent"
	}
	r.sent[t][k] = sentMsg{m, data}
	return "sent"
}

func show(m messages.Message) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%v", m.Marshal())
}

func (r *srun) settle() []string {
	var out []string
	for i, t := range r.sent {
		for k, s := range t {
			if s.want == nil {
				continue
			}
			m, err := r.ser.Deserialize(s.data)
			if err != nil {
				out = append(out, fmt.Sprintf("BAD the bytes returned for %s cannot be read", r.ops[i][k]))
				continue
			}
			if show(m) != show(s.want) {
				out = append(out, fmt.Sprintf("BAD the bytes returned for %s are those of %s", show(s.want), show(m)))
				continue
			}
			out = append(out, fmt.Sprintf("bytes sent by %d.%d are %s", i, k, show(m)))
		}
	}
	var names []string
	for n, o := range sops {
		if o.recv {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		_, err := r.s.ReceiveMessage(sops[n].msg())
		out = append(out, n+" then "+okOr(err))
	}
	return out
}

// answers of one request: at most one of them may be accepted
var finals = [][]string{
	{"RESULT1", "ECALL1"}, {"REGISTERED2", "EREGISTER2"}, {"UNREGISTERED3", "EUNREGISTER3"}, {"SUBSCRIBED4", "ESUBSCRIBE4"},
	{"UNSUBSCRIBED5", "EUNSUBSCRIBE5"}, {"PUBLISHED6", "EPUBLISH6"},
}

func init() {
	suites["C14"] = func(tier string) []prog {
		var out []prog
		add := func(ser string, ts [][]string, bound int, extra bool) {
			x := ""
			if extra {
				x = ", all packages"
			}
			out = append(out, prog{
				name:    fmt.Sprintf("session[%s] %s (≤%d%s)", ser, threadsName(ts), bound, x),
				threads: ts, bound: bound, extra: extra, canon: plain,
				fresh: func() run { return newSrun(ser, ts) },
			})
		}
		var names []string
		for n := range sops {
			names = append(names, n)
		}
		sort.Strings(names)
		quick := tier == "quick"
		bound := 2
		if !quick {
			bound = 4
		}
		for _, ts := range pairs(names) {
			add("json", ts, bound, false)
		}
		// duplicates of final answers, three at once
		for _, f := range finals {
			for _, ts := range triples(f) {
				add("msgpack", ts, min(bound, 3), false)
			}
		}
		// an answer after its request was sent, with something else going on
		flows := [][]string{{"call11", "RESULT11"}, {"call12", "RESULT12"}, {"register13", "REGISTERED13"}, {"subscribe14", "SUBSCRIBED14"}, {"publish16", "PUBLISHED16"}}
		for i, a := range flows {
			for _, b := range flows[i:] {
				if a[0] != b[0] {
					add("cbor", [][]string{a, b}, min(bound, 3), false)
				}
			}
			for _, o := range names {
				if strings.HasPrefix(o, "call") && strings.HasPrefix(a[0], "call") && o != a[0] || o == a[1] {
					add("cbor", [][]string{a, {o}}, min(bound, 3), false)
				}
			}
		}
		// two sends, two receives, one of each: preemptions inside the serializers too
		txs := []string{"call11", "publish16", "yield901", "subscribe14", "error901"}
		rxs := []string{"RESULT1", "INVOCATION70", "EVENT80", "REGISTERED2"}
		for _, ser := range []string{"json", "cbor", "msgpack"} {
			mixed := append(append([]string{}, txs...), rxs...)
			if quick {
				mixed = append(append([]string{}, txs[:3]...), rxs[:3]...)
			}
			for _, ts := range pairs(mixed) {
				b := 1
				if !quick {
					b = 2
				}
				add(ser, ts, b, true)
			}
		}
		if !quick {
			few := []string{"RESULT1", "PRESULT1", "ECALL1", "call11", "RESULT11", "UNREGISTERED3", "INVOCATION70", "EVENT80", "UNSUBSCRIBED5", "unsubscribe15"}
			for _, ts := range triples(few) {
				add("json", ts, 2, false)
			}
		}
		return out
	}
}
