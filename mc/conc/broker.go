package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

const sidBase = uint64(7_000_000_000_000_001)

func sid(i int) uint64 { return sidBase + uint64(i) }

func sname(id uint64) string {
	if id >= sidBase && id < sidBase+100 {
		return fmt.Sprintf("S%d", id-sidBase)
	}
	return fmt.Sprintf("?%d", id)
}

func details(i int) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(sid(i), "realm", fmt.Sprintf("user%d", i), "role", "anonymous", false, nil, nil)
}

// idFields are the positions of generated ids per message type.
var idFields = map[uint64][]int{
	messages.MessageTypeSubscribed: {2}, messages.MessageTypeEvent: {1, 2}, messages.MessageTypePublished: {2},
	messages.MessageTypeRegistered: {2}, messages.MessageTypeInvocation: {1, 2},
}

func showMsg(m messages.Message) string {
	if m == nil {
		return "nil"
	}
	raw := append([]any{}, m.Marshal()...)
	for _, i := range idFields[m.Type()] {
		if i < len(raw) {
			if id, ok := raw[i].(uint64); ok {
				raw[i] = gid(id)
			}
		}
	}
	return fmt.Sprintf("%v", raw)
}

func showTo(m *wampproto.MessageWithRecipient, err error) string {
	if err != nil {
		return "refused"
	}
	if m == nil {
		return "nothing"
	}
	return showMsg(m.Message) + "→" + sname(m.Recipient)
}

func okOr(err error) string {
	if err != nil {
		return "refused"
	}
	return "ok"
}

// handles are the generated ids an operation may refer to.
type handles map[string]uint64

func (h handles) copy() handles {
	c := handles{}
	for k, v := range h {
		c[k] = v
	}
	return c
}

const unknownID = uint64(1<<53 - 7)

func (h handles) get(k string) uint64 {
	if id, ok := h[k]; ok {
		return id
	}
	return unknownID
}

// sorted ids in the order of their keys, without duplicates
func (h handles) list() []uint64 {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	seen := map[uint64]bool{}
	var out []uint64
	for _, k := range ks {
		if !seen[h[k]] {
			seen[h[k]] = true
			out = append(out, h[k])
		}
	}
	return out
}

// ---- broker

type brun struct {
	b   *wampproto.Broker
	th  []handles
	ops [][]string
}

type bop func(b *wampproto.Broker, h handles) string

const (
	bTopic = "a.b"
)

func bsub(s int, topic, match string) bop {
	return func(b *wampproto.Broker, h handles) string {
		opts := map[string]any{}
		if match != "" {
			opts["match"] = match
		}
		m, err := b.ReceiveMessage(sid(s), messages.NewSubscribe(uint64(100+s), opts, topic))
		if err == nil && m != nil {
			if x, ok := m.Message.(*messages.Subscribed); ok {
				h[fmt.Sprintf("%d %s %s", s, topic, match)] = x.SubscriptionID()
			}
		}
		return showTo(m, err)
	}
}

func bunsub(s int, topic, match string) bop {
	return func(b *wampproto.Broker, h handles) string {
		id := h.get(fmt.Sprintf("%d %s %s", s, topic, match))
		return showTo(b.ReceiveMessage(sid(s), messages.NewUnsubscribe(uint64(200+s), id)))
	}
}

func bpub(s int, topic string, ack, exclude any) bop {
	return func(b *wampproto.Broker, h handles) string {
		opts := map[string]any{}
		if ack != nil {
			opts["acknowledge"] = ack
		}
		if exclude != nil {
			opts["exclude_me"] = exclude
		}
		p, err := b.ReceivePublish(sid(s), messages.NewPublish(uint64(300+s), opts, topic, []any{s}, nil))
		if err != nil {
			return "refused"
		}
		if p == nil {
			return "nothing"
		}
		var rs []string
		for _, r := range p.Recipients {
			rs = append(rs, sname(r))
		}
		sort.Strings(rs)
		ev := "no event"
		if p.Event != nil {
			ev = showMsg(p.Event)
		}
		ackS := "no ack"
		if p.Ack != nil {
			ackS = showTo(p.Ack, nil)
		}
		return fmt.Sprintf("%s to %v; %s", ev, rs, ackS)
	}
}

func badd(s int) bop {
	return func(b *wampproto.Broker, h handles) string { return okOr(b.AddSession(details(s))) }
}
func brem(s int) bop {
	return func(b *wampproto.Broker, h handles) string { return okOr(b.RemoveSession(sid(s))) }
}
func bhas(topic string) bop {
	return func(b *wampproto.Broker, h handles) string { return fmt.Sprint(b.HasSubscription(topic)) }
}
func bdisclose(d bool) bop {
	return func(b *wampproto.Broker, h handles) string { b.AutoDisclosePublisher(d); return "ok" }
}

var bops = map[string]bop{
	"sub1":      bsub(1, bTopic, ""),
	"sub2":      bsub(2, bTopic, ""),
	"sub1p":     bsub(1, "a.", "prefix"),
	"sub2p":     bsub(2, "a.", "prefix"),
	"sub2w":     bsub(2, "a.*", "wildcard"),
	"unsub1":    bunsub(1, bTopic, ""),
	"unsub2":    bunsub(2, bTopic, ""),
	"unsub2p":   bunsub(2, "a.", "prefix"),
	"pub3":      bpub(3, bTopic, true, nil),
	"pub1":      bpub(1, bTopic, true, nil),
	"pub1all":   bpub(1, bTopic, true, false),
	"add4":      badd(4),
	"add1":      badd(1),
	"rem1":      brem(1),
	"rem2":      brem(2),
	"has":       bhas(bTopic),
	"disclose":  bdisclose(true),
	"conceal":   bdisclose(false),
	"rem3":      brem(3),
	"otherSub1": bsub(1, "x.y", ""),
}

var bpreludes = map[string][]string{
	"idle":  {},
	"one":   {"sub1"},
	"two":   {"sub1", "sub2"},
	"mixed": {"sub1", "sub2w", "sub2p"},
}

func newBrun(prelude string, threads [][]string) *brun {
	b := wampproto.NewBroker()
	for i := 1; i <= 3; i++ {
		if err := b.AddSession(details(i)); err != nil {
			panic(err)
		}
	}
	h := handles{}
	for _, o := range bpreludes[prelude] {
		bops[o](b, h)
	}
	r := &brun{b: b, ops: threads}
	for range threads {
		r.th = append(r.th, h.copy())
	}
	return r
}

func (r *brun) do(t, k int) string { return bops[r.ops[t][k]](r.b, r.th[t]) }

func (r *brun) settle() []string {
	var out []string
	say := func(what string, s string) { out = append(out, what+": "+s) }
	all := handles{}
	for i, h := range r.th {
		for k, v := range h {
			all[fmt.Sprintf("%d %s", i, k)] = v
		}
	}
	topics := []string{bTopic, "a.", "a.c", "a.*", "x.y"}
	look := func(tag string) {
		for _, t := range topics {
			say(tag+" has "+t, bhas(t)(r.b, nil))
			say(tag+" pub "+t, bpub(3, t, true, nil)(r.b, nil))
		}
	}
	_ = r.b.AddSession(details(3))
	look("now")
	say("pub1", bpub(1, bTopic, true, false)(r.b, nil))
	for _, s := range []int{1, 2, 4} {
		for _, id := range all.list() {
			say(fmt.Sprintf("unsubscribe %d %s", s, gid(id)), showTo(r.b.ReceiveMessage(sid(s), messages.NewUnsubscribe(9, id))))
			say(" pub", bpub(3, bTopic, nil, nil)(r.b, nil))
		}
	}
	for _, s := range []int{1, 2, 4} {
		say(fmt.Sprintf("remove %d", s), okOr(r.b.RemoveSession(sid(s))))
	}
	look("end")
	return out
}

// ---- programs

func threadsName(ts [][]string) string {
	var p []string
	for _, t := range ts {
		p = append(p, strings.Join(t, ";"))
	}
	return strings.Join(p, " ∥ ")
}

func pairs(ops []string) [][][]string {
	var out [][][]string
	for i, a := range ops {
		for _, b := range ops[i:] {
			out = append(out, [][]string{{a}, {b}})
		}
	}
	return out
}

func triples(ops []string) [][][]string {
	var out [][][]string
	for i, a := range ops {
		for j, b := range ops[i:] {
			for _, c := range ops[i+j:] {
				out = append(out, [][]string{{a}, {b}, {c}})
			}
		}
	}
	return out
}

// twoByOne is all pairs of a two-operation thread and a one-operation thread.
func twoByOne(ops []string) [][][]string {
	var out [][][]string
	for _, a := range ops {
		for _, b := range ops {
			for _, c := range ops {
				out = append(out, [][]string{{a, b}, {c}})
			}
		}
	}
	return out
}

func twoByTwo(ops []string) [][][]string {
	var seqs [][]string
	for _, a := range ops {
		for _, b := range ops {
			seqs = append(seqs, []string{a, b})
		}
	}
	var out [][][]string
	for i, a := range seqs {
		for _, b := range seqs[i:] {
			out = append(out, [][]string{a, b})
		}
	}
	return out
}

func brokerProgs(tier string) []prog {
	var out []prog
	add := func(prelude string, ts [][]string, bound int) {
		out = append(out, prog{
			name:    fmt.Sprintf("broker[%s] %s (≤%d)", prelude, threadsName(ts), bound),
			threads: ts, bound: bound, canon: canonIDs, inTime: true,
			fresh: func() run { return newBrun(prelude, ts) },
		})
	}
	quick := []string{"sub1", "sub2", "sub1p", "unsub1", "unsub2", "pub3", "pub1", "add4", "add1", "rem1", "rem2", "has", "disclose"}
	full := []string{"sub1", "sub2", "sub1p", "sub2p", "unsub1", "unsub2", "unsub2p", "pub3", "pub1", "pub1all", "add4", "add1",
		"rem1", "rem2", "rem3", "has", "disclose", "otherSub1"}
	few := []string{"sub1", "sub2", "unsub1", "pub3", "rem1", "add1"}
	pres := []string{"idle", "one", "two", "mixed"}
	if tier == "quick" {
		for _, pre := range pres {
			for _, ts := range pairs(quick) {
				add(pre, ts, 2)
			}
		}
		for _, pre := range []string{"one", "two"} {
			for _, ts := range triples([]string{"sub2", "unsub1", "pub3", "rem1"}) {
				add(pre, ts, 1)
			}
		}
		return out
	}
	for _, pre := range pres {
		for _, ts := range pairs(full) {
			add(pre, ts, 3)
		}
		for _, ts := range triples(few) {
			add(pre, ts, 2)
		}
		for _, ts := range twoByOne(few) {
			add(pre, ts, 2)
		}
		for _, ts := range twoByTwo([]string{"sub1", "unsub1", "pub3", "rem1"}) {
			add(pre, ts, 1)
		}
	}
	return out
}
