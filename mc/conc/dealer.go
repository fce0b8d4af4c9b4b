package main

import (
	"fmt"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type drun struct {
	d   *wampproto.Dealer
	th  []handles
	ops [][]string
}

type dop func(d *wampproto.Dealer, h handles) string

const dProc = "p.q"

func dreg(s int, proc, match, invoke string) dop {
	return func(d *wampproto.Dealer, h handles) string {
		opts := map[string]any{}
		if match != "" {
			opts["match"] = match
		}
		if invoke != "" {
			opts["invoke"] = invoke
		}
		m, err := d.ReceiveMessage(sid(s), messages.NewRegister(uint64(100+s), opts, proc))
		if err == nil && m != nil {
			if x, ok := m.Message.(*messages.Registered); ok {
				h[fmt.Sprintf("reg %d %s", s, proc)] = x.RegistrationID()
			}
		}
		return showTo(m, err)
	}
}

func dunreg(s int, proc string) dop {
	return func(d *wampproto.Dealer, h handles) string {
		return showTo(d.ReceiveMessage(sid(s), messages.NewUnregister(uint64(200+s), h.get(fmt.Sprintf("reg %d %s", s, proc)))))
	}
}

func dcall(s int, req uint64, proc string, opts map[string]any) dop {
	return func(d *wampproto.Dealer, h handles) string {
		o := map[string]any{}
		for k, v := range opts {
			o[k] = v
		}
		m, err := d.ReceiveMessage(sid(s), messages.NewCall(req, o, proc, []any{int(req)}, map[string]any{"k": s}))
		if err == nil && m != nil {
			if x, ok := m.Message.(*messages.Invocation); ok {
				h[fmt.Sprintf("inv %d %d %s", s, req, sname(m.Recipient))] = x.RequestID()
				h["inv"] = x.RequestID()
			}
		}
		return showTo(m, err)
	}
}

func dyield(s int, progress bool, val int) dop {
	return func(d *wampproto.Dealer, h handles) string {
		o := map[string]any{}
		if progress {
			o["progress"] = true
		}
		return showTo(d.ReceiveMessage(sid(s), messages.NewYield(h.get("inv"), o, []any{val}, nil)))
	}
}

func derr(s int) dop {
	return func(d *wampproto.Dealer, h handles) string {
		return showTo(d.ReceiveMessage(sid(s), messages.NewError(messages.MessageTypeInvocation, h.get("inv"),
			map[string]any{"x": 1}, "some.error", []any{"e"}, nil)))
	}
}

func dadd(s int) dop {
	return func(d *wampproto.Dealer, h handles) string { return okOr(d.AddSession(details(s))) }
}
func drem(s int) dop {
	return func(d *wampproto.Dealer, h handles) string { return okOr(d.RemoveSession(sid(s))) }
}
func dhas(p string) dop {
	return func(d *wampproto.Dealer, h handles) string { return fmt.Sprint(d.HasProcedure(p)) }
}
func ddisclose(v bool) dop {
	return func(d *wampproto.Dealer, h handles) string { d.AutoDiscloseCaller(v); return "ok" }
}

var dops = map[string]dop{
	"reg1":      dreg(1, dProc, "", ""),
	"reg2":      dreg(2, dProc, "", ""),
	"reg1rr":    dreg(1, dProc, "", "roundrobin"),
	"reg2rr":    dreg(2, dProc, "", "roundrobin"),
	"reg1first": dreg(1, dProc, "", "first"),
	"reg1p":     dreg(1, "p.", "prefix", ""),
	"reg2p":     dreg(2, "p.", "prefix", ""),
	"reg2w":     dreg(2, "p.*", "wildcard", ""),
	"unreg1":    dunreg(1, dProc),
	"unreg2":    dunreg(2, dProc),
	"call3":     dcall(3, 1, dProc, nil),
	"call3rp":   dcall(3, 1, dProc, map[string]any{"receive_progress": true}),
	"chunk3":    dcall(3, 1, dProc, map[string]any{"progress": true}),
	"call2":     dcall(2, 1, dProc, nil),
	"call3b":    dcall(3, 2, dProc, nil),
	"yield1":    dyield(1, false, 1),
	"yield1b":   dyield(1, false, 2),
	"progress1": dyield(1, true, 3),
	"error1":    derr(1),
	"rem1":      drem(1),
	"rem2":      drem(2),
	"rem3":      drem(3),
	"add4":      dadd(4),
	"add1":      dadd(1),
	"has":       dhas(dProc),
	"disclose":  ddisclose(true),
}

var dpreludes = map[string][]string{
	"idle":    {},
	"single":  {"reg1"},
	"shared":  {"reg1rr", "reg2rr"},
	"pending": {"reg1", "call3rp"},
	"chunked": {"reg1", "chunk3"},
	"mixed":   {"reg1", "reg2p", "reg2w"},
}

func newDrun(prelude string, threads [][]string) *drun {
	d := wampproto.NewDealer()
	for i := 1; i <= 3; i++ {
		if err := d.AddSession(details(i)); err != nil {
			panic(err)
		}
	}
	h := handles{}
	for _, o := range dpreludes[prelude] {
		dops[o](d, h)
	}
	r := &drun{d: d, ops: threads}
	for range threads {
		r.th = append(r.th, h.copy())
	}
	return r
}

func (r *drun) do(t, k int) string { return dops[r.ops[t][k]](r.d, r.th[t]) }

func (r *drun) settle() []string {
	var out []string
	say := func(what string, s string) { out = append(out, what+": "+s) }
	regs, invs := handles{}, handles{}
	for i, h := range r.th {
		for k, v := range h {
			if k[:3] == "reg" {
				regs[fmt.Sprintf("%d %s", i, k)] = v
			} else {
				invs[fmt.Sprintf("%d %s", i, k)] = v
			}
		}
	}
	procs := []string{dProc, "p.", "p.r", "p.*"}
	_ = r.d.AddSession(details(5))
	h := handles{}
	look := func(tag string) {
		for i, p := range procs {
			say(tag+" has "+p, dhas(p)(r.d, nil))
			say(tag+" call "+p, dcall(5, uint64(50+i), p, nil)(r.d, h))
		}
		say(tag+" call again", dcall(5, 49, dProc, nil)(r.d, h))
	}
	// is the call of session 3 still going on?
	say("chunk", dcall(3, 1, dProc, map[string]any{"progress": true})(r.d, h))
	look("now")
	for i, inv := range invs.list() {
		say(fmt.Sprintf("progress %s", gid(inv)), showTo(r.d.ReceiveMessage(sid(1), messages.NewYield(inv, map[string]any{"progress": true}, []any{i}, nil))))
		say(fmt.Sprintf("yield %s", gid(inv)), showTo(r.d.ReceiveMessage(sid(1), messages.NewYield(inv, nil, []any{i}, nil))))
		say(fmt.Sprintf("error %s", gid(inv)), showTo(r.d.ReceiveMessage(sid(2), messages.NewError(messages.MessageTypeInvocation, inv, nil, "e", nil, nil))))
	}
	for _, s := range []int{1, 2, 4} {
		for _, id := range regs.list() {
			say(fmt.Sprintf("unregister %d %s", s, gid(id)), showTo(r.d.ReceiveMessage(sid(s), messages.NewUnregister(9, id))))
		}
		say(fmt.Sprintf("call after %d", s), dcall(5, uint64(60+s), dProc, nil)(r.d, h))
	}
	for _, inv := range h.list() {
		say(fmt.Sprintf("error %s", gid(inv)), showTo(r.d.ReceiveMessage(sid(1), messages.NewError(messages.MessageTypeInvocation, inv, nil, "e", nil, nil))))
	}
	for _, s := range []int{1, 2, 3, 4} {
		say(fmt.Sprintf("remove %d", s), okOr(r.d.RemoveSession(sid(s))))
	}
	look("end")
	return out
}

func dealerProgs(tier string) []prog {
	var out []prog
	add := func(prelude string, ts [][]string, bound int) {
		out = append(out, prog{
			name:    fmt.Sprintf("dealer[%s] %s (≤%d)", prelude, threadsName(ts), bound),
			threads: ts, bound: bound, canon: canonIDs, inTime: true,
			fresh: func() run { return newDrun(prelude, ts) },
		})
	}
	pres := map[string][]string{
		"idle":    {"reg1", "reg2", "reg1rr", "reg2rr", "reg1p", "call3", "rem1", "add4", "add1", "has", "disclose"},
		"single":  {"reg2", "reg1p", "unreg1", "call3", "chunk3", "call2", "call3b", "rem1", "rem3", "has", "disclose"},
		"shared":  {"reg1rr", "unreg1", "unreg2", "call3", "call3b", "call2", "rem1", "rem2", "has"},
		"pending": {"unreg1", "call3b", "chunk3", "yield1", "yield1b", "progress1", "error1", "rem1", "rem3", "disclose"},
		"chunked": {"unreg1", "chunk3", "call3", "yield1", "error1", "rem1", "rem3", "call3b"},
		"mixed":   {"unreg1", "call3", "rem1", "rem2", "reg2"},
	}
	order := []string{"idle", "single", "shared", "pending", "chunked", "mixed"}
	if tier == "quick" {
		for _, pre := range order {
			for _, ts := range pairs(pres[pre]) {
				add(pre, ts, 2)
			}
		}
		for _, ts := range triples([]string{"yield1", "error1", "rem1"}) {
			add("pending", ts, 1)
		}
		for _, ts := range triples([]string{"call3", "unreg1", "rem2"}) {
			add("shared", ts, 1)
		}
		return out
	}
	for _, pre := range order {
		for _, ts := range pairs(pres[pre]) {
			add(pre, ts, 3)
		}
		few := pres[pre]
		if len(few) > 8 {
			few = few[:8]
		}
		for _, ts := range triples(few) {
			add(pre, ts, 2)
		}
		if len(few) > 6 {
			few = few[:6]
		}
		for _, ts := range twoByOne(few) {
			add(pre, ts, 2)
		}
	}
	return out
}

func init() {
	suites["C12"] = func(tier string) []prog {
		// interleave, so that the shards get similar work
		return append(brokerProgs(tier), dealerProgs(tier)...)
	}
}
