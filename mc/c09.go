package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type payloadForm struct {
	name   string
	binary bool
	args   []any
	kw     map[string]any
	raw    []byte
	ser    uint64
}

func payloadForms(c *Ctx) []payloadForm {
	var out []payloadForm
	for i, p := range payloadSet {
		out = append(out, payloadForm{name: fmt.Sprintf("list#%d", i), args: p.args, kw: p.kw})
	}
	out = append(out,
		payloadForm{name: "numbers", args: []any{int64(math.MinInt64), uint64(math.MaxUint64), -1, 0, 1.5, math.Inf(1)}},
		payloadForm{name: "unicode", args: []any{"żółć\x00\u2028"}, kw: map[string]any{"ключ": "値"}},
		payloadForm{name: "flags", kw: map[string]any{"progress": true, "receive_progress": true, "caller": 1, "procedure": "x"}},
		payloadForm{name: "one nil", args: []any{nil}},
		longPayload,
		payloadForm{name: "deep", args: []any{[]any{[]any{map[string]any{"a": []any{}}}}}, kw: map[string]any{"m": map[string]any{"m": map[string]any{}}}},
	)
	for ser := uint64(0); ser <= 3; ser++ {
		for _, raw := range [][]byte{{}, {0}, {1, 2, 3, 255}} {
			out = append(out, payloadForm{name: fmt.Sprintf("binary serializer %d %v", ser, raw), binary: true, raw: raw, ser: ser,
				args: []any{"decoded", ser}, kw: map[string]any{"n": len(raw)}})
		}
	}
	out = append(out, payloadForm{name: "binary serializer 200", binary: true, raw: bytes.Repeat([]byte{7}, 3000), ser: 200})
	return out
}

// longPayload has more arguments and longer texts than fit a byte or two.
var longPayload = func() payloadForm {
	f := payloadForm{name: "long", kw: map[string]any{}}
	for i := 0; i < 300; i++ {
		f.args = append(f.args, i)
		f.kw[fmt.Sprint("key", i)] = i
	}
	f.args = append(f.args, strings.Repeat("x", 70000), bytes.Repeat([]byte{1}, 70000))
	return f
}()

// lazyCall and lazyYield report a binary payload and decode on demand, as the
// messages of a static serializer do.
type lazyCall struct {
	*messages.Call
	f *payloadForm
}

func (l *lazyCall) PayloadIsBinary() bool     { return l.f.binary }
func (l *lazyCall) Payload() []byte           { return l.f.raw }
func (l *lazyCall) PayloadSerializer() uint64 { return l.f.ser }

type lazyYield struct {
	*messages.Yield
	f *payloadForm
}

func (l *lazyYield) PayloadIsBinary() bool     { return l.f.binary }
func (l *lazyYield) Payload() []byte           { return l.f.raw }
func (l *lazyYield) PayloadSerializer() uint64 { return l.f.ser }

type binaryPayload interface {
	PayloadIsBinary() bool
	Payload() []byte
	PayloadSerializer() uint64
	Args() []any
	KwArgs() map[string]any
}

// checkPayload compares what came out with what went in.
func checkPayload(what string, f *payloadForm, staticPeer bool, out binaryPayload) string {
	if f.binary && staticPeer {
		if !out.PayloadIsBinary() {
			return what + " no longer reports a binary payload"
		}
		if !bytes.Equal(out.Payload(), f.raw) {
			return fmt.Sprintf("%s carries payload %v instead of %v", what, out.Payload(), f.raw)
		}
		if out.PayloadSerializer() != f.ser {
			return fmt.Sprintf("%s carries payload serializer %d instead of %d", what, out.PayloadSerializer(), f.ser)
		}
		return ""
	}
	if !same(out.Args(), f.args) || !same(out.KwArgs(), f.kw) {
		return fmt.Sprintf("%s carries %v %v instead of %v %v", what, out.Args(), out.KwArgs(), f.args, f.kw)
	}
	if !f.binary && out.PayloadIsBinary() {
		return what + " reports a binary payload that was not there"
	}
	return ""
}

type relayCase struct {
	staticCaller, staticCallee, disclose bool
	match                                int
	mode                                 int // call options
	call                                 *payloadForm
}

var relayReg = []struct{ uri, match, called string }{{"p.q", "", "p.q"}, {"p.", "prefix", "p.q"}, {"p.*", "wildcard", "p.q"}}

// callBoth does one call and one answer and returns a complaint.
func (rc relayCase) run(answer int, ans *payloadForm, details map[string]any, uri string) string {
	d := wampproto.NewDealer()
	d.AutoDiscloseCaller(true)
	d.AutoDiscloseCaller(rc.disclose)
	if d.AddSession(newDetails(0, rc.staticCaller)) != nil || d.AddSession(newDetails(1, rc.staticCallee)) != nil {
		return "sessions cannot be attached"
	}
	rg := relayReg[rc.match]
	ro := map[string]any{}
	if rg.match != "" {
		ro["match"] = rg.match
	}
	r, err := d.ReceiveMessage(sid(1), messages.NewRegister(rid(1), ro, rg.uri))
	if err != nil {
		return "REGISTER refused: " + err.Error()
	}
	reg, ok := r.Message.(*messages.Registered)
	if !ok {
		return fmt.Sprintf("REGISTER answered by %T", r.Message)
	}
	opts := (&dealerSys{cfg: &dealerCfg{}}).callOptions(rc.mode)
	opts["x"] = []any{1}
	cf := *rc.call
	cf.args, cf.kw = cloneArgs(cf.args), cloneMap(cf.kw)
	cf.raw = append([]byte{}, cf.raw...)
	call := messages.NewCall(rid(2), opts, rg.called, cf.args, cf.kw)
	if cf.binary {
		call = messages.NewCallWithFields(&lazyCall{messages.NewCall(rid(2), opts, rg.called, cf.args, cf.kw), &cf})
		if rc.match == 0 && rc.staticCallee {
			call = messages.NewCallBinary(rid(2), opts, rg.called, cf.raw, cf.ser)
		}
	}
	wantOpts := deepCopy(opts)
	r, err = d.ReceiveMessage(sid(0), call)
	if err != nil || r == nil {
		return fmt.Sprintf("CALL refused: %v", err)
	}
	inv, ok := r.Message.(*messages.Invocation)
	if !ok {
		return fmt.Sprintf("CALL became %T", r.Message)
	}
	if r.Recipient != sid(1) || inv.RegistrationID() != reg.RegistrationID() {
		return "INVOCATION misaddressed"
	}
	if s := checkPayload("INVOCATION", rc.call, rc.staticCallee, inv); s != "" {
		return s
	}
	if !same(opts, wantOpts) || !same(cf.args, rc.call.args) || !same(cf.kw, rc.call.kw) || !bytes.Equal(cf.raw, rc.call.raw) {
		return "relaying the CALL changed the caller's message"
	}
	det := inv.Details()
	wantDet := map[string]any{}
	if rc.disclose {
		wantDet = map[string]any{"caller": sid(0), "caller_authid": "user0", "caller_authrole": "role0", "procedure": rg.called}
	}
	for _, k := range []string{"caller", "caller_authid", "caller_authrole", "procedure"} {
		w, want := wantDet[k]
		g, got := det[k]
		if want != got || (want && !same(w, g)) {
			return fmt.Sprintf("disclosure %v, but INVOCATION has %s = %v (want %v)", rc.disclose, k, g, w)
		}
	}
	for k, bit := range map[string]int{"progress": 2, "receive_progress": 1} {
		v, _ := det[k].(bool)
		if v != (rc.mode&bit != 0) {
			return fmt.Sprintf("INVOCATION has %s = %v for call options %v", k, det[k], wantOpts)
		}
	}

	// the answer
	if answer == 2 {
		args, kw := cloneArgs(ans.args), cloneMap(ans.kw)
		e := messages.NewError(messages.MessageTypeInvocation, inv.RequestID(), cloneMap(details), uri, args, kw)
		r, err = d.ReceiveMessage(sid(1), e)
		if err != nil || r == nil {
			return fmt.Sprintf("ERROR refused: %v", err)
		}
		out, ok := r.Message.(*messages.Error)
		if !ok || r.Recipient != sid(0) {
			return fmt.Sprintf("ERROR became %T to %d", r.Message, r.Recipient)
		}
		if out.MessageType() != messages.MessageTypeCall || out.RequestID() != rid(2) {
			return fmt.Sprintf("ERROR has type %d request %d", out.MessageType(), out.RequestID())
		}
		if out.URI() != uri {
			return fmt.Sprintf("ERROR URI %q became %q", uri, out.URI())
		}
		if !same(out.Details(), details) {
			return fmt.Sprintf("ERROR details %v became %v", details, out.Details())
		}
		if !same(out.Args(), ans.args) || !same(out.KwArgs(), ans.kw) {
			return fmt.Sprintf("ERROR payload %v %v became %v %v", ans.args, ans.kw, out.Args(), out.KwArgs())
		}
		if !same(args, ans.args) || !same(kw, ans.kw) {
			return "relaying the ERROR changed the callee's message"
		}
		return ""
	}
	for _, prog := range []bool{true, false} {
		if prog && answer != 1 {
			continue
		}
		af := *ans
		af.args, af.kw = cloneArgs(af.args), cloneMap(af.kw)
		af.raw = append([]byte{}, af.raw...)
		yo := map[string]any{}
		if prog {
			yo["progress"] = true
		}
		y := messages.NewYield(inv.RequestID(), yo, af.args, af.kw)
		if af.binary {
			y = messages.NewYieldWithFields(&lazyYield{messages.NewYield(inv.RequestID(), yo, af.args, af.kw), &af})
			if rc.match == 0 && rc.staticCaller {
				y = messages.NewYieldBinary(inv.RequestID(), yo, af.raw, af.ser)
			}
		}
		r, err = d.ReceiveMessage(sid(1), y)
		if err != nil || r == nil {
			return fmt.Sprintf("YIELD (progress %v) refused: %v", prog, err)
		}
		res, ok := r.Message.(*messages.Result)
		if !ok || r.Recipient != sid(0) || res.RequestID() != rid(2) {
			return fmt.Sprintf("YIELD became %T to %d", r.Message, r.Recipient)
		}
		gp, _ := res.Details()["progress"].(bool)
		if gp != prog {
			return fmt.Sprintf("YIELD progress %v became RESULT progress %v", prog, gp)
		}
		if s := checkPayload("RESULT", ans, rc.staticCaller, res); s != "" {
			return s
		}
		if !same(af.args, ans.args) || !same(af.kw, ans.kw) || !bytes.Equal(af.raw, ans.raw) {
			return "relaying the YIELD changed the callee's message"
		}
	}
	return ""
}

func cloneArgs(a []any) []any {
	if a == nil {
		return nil
	}
	return deepCopy(a).([]any)
}

// enum runs the cases 0..n-1 in parallel; f returns a complaint ("" = fine).
// The complaint of the smallest failing case is reported.
func enum(c *Ctx, n int, f func(i int) string) (int, string) { return enumChunk(n, 64, f) }

func enumChunk(n int, chunk int64, f func(i int) string) (int, string) {
	var next, best atomic.Int64
	best.Store(math.MaxInt64)
	msgs := sync.Map{}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &task{f: f}
			tasksMu.Lock()
			tasks[t] = true
			tasksMu.Unlock()
			defer func() {
				tasksMu.Lock()
				delete(tasks, t)
				tasksMu.Unlock()
			}()
			for {
				a := int(next.Add(chunk) - chunk)
				if a >= n {
					return
				}
				if int64(a) > best.Load() {
					return
				}
				for i := a; i < a+int(chunk) && i < n; i++ {
					m := func() (m string) {
						defer func() {
							if r := recover(); r != nil {
								m = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
							}
						}()
						t.cur.Store(int64(i) + 1)
						m = f(i)
						t.cur.Store(0)
						return m
					}()
					if m != "" {
						msgs.Store(int64(i), m)
						for {
							b := best.Load()
							if int64(i) >= b || best.CompareAndSwap(b, int64(i)) {
								break
							}
						}
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	b := best.Load()
	if b == math.MaxInt64 {
		return -1, ""
	}
	m, _ := msgs.Load(b)
	return int(b), m.(string)
}

func init() {
	register("C09", "exploration", func(c *Ctx) *Violation {
		c.Rule = "one call and one answer through a real dealer per case: the full product of static/dynamic caller and callee, disclosure, match policy, " +
			"call options, call payload form and answer (final, progressive then final, error) with its payload form; all cases are distinct, " +
			"then every history of a dealer with chunks, progressive results, binary payloads and disclosure switched on and off (its states count as distinct); " +
			"non-trivial ones carry a payload, details or disclosure to compare"
		forms := payloadForms(c)
		type ansT struct {
			kind    int
			f       *payloadForm
			details map[string]any
			uri     string
		}
		var answers []ansT
		for i := range forms {
			answers = append(answers, ansT{kind: 0, f: &forms[i]})
			answers = append(answers, ansT{kind: 1, f: &forms[i]})
			if !forms[i].binary {
				for _, d := range []map[string]any{nil, {}, {"a": 1}, {"progress": true, "n": map[string]any{"x": []any{nil, "y"}}}} {
					for _, u := range []string{"wamp.error.runtime_error", "", "a b é", "wamp.error.no_such_procedure"} {
						answers = append(answers, ansT{kind: 2, f: &forms[i], details: d, uri: u})
					}
				}
			}
		}
		callForms := forms
		if c.Quick() {
			callForms = nil
			for i := range forms {
				if i%2 == 0 || forms[i].ser == 0 {
					callForms = append(callForms, forms[i])
				}
			}
		}
		dims := []int{2, 2, 2, 3, 4, len(callForms), len(answers)}
		n := 1
		for _, d := range dims {
			n *= d
		}
		var evals, triv atomic.Int64
		get := func(i int) (relayCase, ansT) {
			v := make([]int, len(dims))
			for k := range dims {
				v[k] = i % dims[k]
				i /= dims[k]
			}
			return relayCase{v[0] == 1, v[1] == 1, v[2] == 1, v[3], v[4], &callForms[v[5]]}, answers[v[6]]
		}
		i, msg := enum(c, n, func(i int) string {
			rc, a := get(i)
			if a.kind == 1 && rc.mode&1 == 0 {
				return "" // progressive answers need receive_progress
			}
			evals.Add(1)
			if !rc.disclose && rc.call.args == nil && rc.call.kw == nil && a.f.args == nil && a.f.kw == nil && len(a.details) == 0 && !a.f.binary {
				triv.Add(1)
			}
			return rc.run(a.kind, a.f, a.details, a.uri)
		})
		c.Evals, c.Distinct = evals.Load(), evals.Load()-triv.Load()
		for _, k := range []int{n / 3, n / 2, n - 1} {
			rc, a := get(k)
			c.Sample(fmt.Sprintf("%+v call=%s answer kind %d %s details %v uri %q", rc, rc.call.name, a.kind, a.f.name, a.details, a.uri))
		}
		if i >= 0 {
			rc, a := get(i)
			return &Violation{Message: fmt.Sprintf("%s\n  static caller %v, static callee %v, disclosure %v, registered as %v, call options %v, call payload %s, answer kind %d payload %s details %v uri %q",
				msg, rc.staticCaller, rc.staticCallee, rc.disclose, relayReg[rc.match], (&dealerSys{cfg: &dealerCfg{}}).callOptions(rc.mode), rc.call.name, a.kind, a.f.name, a.details, a.uri), Case: i}
		}
		// the same in every situation of longer histories
		if v := runCfgs(c, nil, Pick(c, []string{"dealer-relay", "dealer-odd", "dealer-flip"}, []string{"dealer-relay", "dealer-odd", "dealer-flip", "dealer-relay2"})...); v != nil {
			return v
		}
		c.Evals += c.Transitions
		c.Distinct += c.States
		// several calls in one dealer: constructors must not share state
		if v := relayHistory(c, forms); v != nil {
			return v
		}
		return nil
	})
}

// relayHistory keeps two calls with different payloads outstanding in one dealer
// and answers them in both orders.
func relayHistory(c *Ctx, forms []payloadForm) *Violation {
	n := len(forms) * len(forms) * 4
	var evals atomic.Int64
	i, msg := enum(c, n, func(i int) string {
		a, b := &forms[i%len(forms)], &forms[i/len(forms)%len(forms)]
		order, static := i/len(forms)/len(forms)%2, i/len(forms)/len(forms)/2 == 1
		evals.Add(1)
		d := wampproto.NewDealer()
		for k := 0; k < 3; k++ {
			if err := d.AddSession(newDetails(k, static)); err != nil {
				return err.Error()
			}
		}
		if _, err := d.ReceiveMessage(sid(2), messages.NewRegister(1, nil, "p")); err != nil {
			return err.Error()
		}
		opts := map[string]any{}
		mk := func(f *payloadForm) *messages.Call {
			base := messages.NewCall(rid(1), opts, "p", cloneArgs(f.args), cloneMap(f.kw))
			if f.binary {
				return messages.NewCallWithFields(&lazyCall{base, f})
			}
			return base
		}
		ra, err := d.ReceiveMessage(sid(0), mk(a))
		if err != nil {
			return err.Error()
		}
		rb, err := d.ReceiveMessage(sid(1), mk(b))
		if err != nil {
			return err.Error()
		}
		ia, ok1 := ra.Message.(*messages.Invocation)
		ib, ok2 := rb.Message.(*messages.Invocation)
		if !ok1 || !ok2 {
			return "CALL did not become INVOCATION"
		}
		if s := checkPayload("first INVOCATION", a, static, ia); s != "" {
			return s
		}
		if s := checkPayload("second INVOCATION", b, static, ib); s != "" {
			return s
		}
		if reflect.DeepEqual(ia.RequestID(), ib.RequestID()) {
			return "two calls share an invocation id"
		}
		ans := func(inv *messages.Invocation, f *payloadForm, caller int) string {
			base := messages.NewYield(inv.RequestID(), map[string]any{}, cloneArgs(f.args), cloneMap(f.kw))
			y := base
			if f.binary {
				y = messages.NewYieldWithFields(&lazyYield{base, f})
			}
			r, err := d.ReceiveMessage(sid(2), y)
			if err != nil {
				return err.Error()
			}
			res, ok := r.Message.(*messages.Result)
			if !ok || r.Recipient != sid(caller) {
				return fmt.Sprintf("YIELD became %T to %d", r.Message, r.Recipient)
			}
			return checkPayload("RESULT", f, static, res)
		}
		if order == 0 {
			if s := ans(ia, b, 0); s != "" {
				return s
			}
			return ans(ib, a, 1)
		}
		if s := ans(ib, a, 1); s != "" {
			return s
		}
		return ans(ia, b, 0)
	})
	c.Evals += evals.Load()
	c.Distinct += evals.Load()
	if i >= 0 {
		return &Violation{Message: msg + fmt.Sprintf("\n  two outstanding calls with payloads %s and %s", forms[i%len(forms)].name, forms[i/len(forms)%len(forms)].name), Case: i}
	}
	return nil
}
