package main

import (
	"fmt"
	"sync"
	"time"
)

// Long and wide histories: the searches bound the number of sessions, topics,
// calls and operations; these scripted histories, a fixed finite family, go far
// along single directions, so that nothing can depend on the number of things
// that exist at once or on how much happened before.

type script struct {
	name  string
	props string // properties it is run for
	long  bool   // many operations: thorough tier, or quick as well when cheap
	mk    func() Sys
	run   func(s Sys, do func(string, ...int))
}

var scripts []script

// orders in which n things end
var orders = []string{"first to last", "last to first", "alternating ends", "every other one"}

func order(kind, n int) []int {
	out := make([]int, 0, n)
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			out = append(out, i)
		}
	case 2:
		for a, b := 0, n-1; a <= b; a, b = a+1, b-1 {
			out = append(out, a)
			if a != b {
				out = append(out, b)
			}
		}
	default:
		for k := 0; k < 2; k++ {
			for i := k; i < n; i += 2 {
				out = append(out, i)
			}
		}
	}
	return out
}

func runScripts(c *Ctx) *Violation {
	type res struct {
		v     *Violation
		ops   int64
		known map[string]bool
	}
	var list []script
	for _, s := range scripts {
		if hasProp(s.props, c.Prop) && (!s.long || !c.Quick()) {
			list = append(list, s)
		}
	}
	outs := make([]res, len(list))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range list {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			sc, o := list[i], &outs[i]
			o.known = map[string]bool{}
			b := newBeat()
			s := sc.mk()
			var last []string
			tr, _ := s.(Tracer)
			var sizes []int
			rounds := 0
			sc.run(s, func(n string, a ...int) {
				if o.v != nil {
					return
				}
				if n == "!round" { // the situation is that of the start again
					r, ok := s.(residual)
					if !ok || !r.idle() {
						panic("script " + sc.name + ": not idle at the end of a round")
					}
					if rounds++; rounds&(rounds-1) == 0 {
						sizes = append(sizes, r.size())
					}
					r.shift(1000 * rounds)
					if k := len(sizes); rounds == 16 && grows(sizes) && hasProp("C10", c.Prop) {
						o.v = &Violation{Message: fmt.Sprintf("going through the history of script %q 1, 2, 4, 8, 16 times, each time back to the same situation, leaves %v retained entries", sc.name, sizes[k-5:]),
							Case: map[string]any{"script": sc.name}}
					}
					return
				}
				op := Op{N: n, A: a}
				b.what.Store(hangInfo{"", nil, op})
				b.since.Store(time.Now().UnixNano())
				if len(last) == 40 {
					last = last[1:]
				}
				if tr != nil {
					last = append(last, tr.Describe(op))
				} else {
					last = append(last, op.String())
				}
				fs := safeDo(s, op)
				b.since.Store(0)
				o.ops++
				for _, f := range fs {
					if f.Known != "" && f.has(c.Prop) && knownListed(c.Root, c.Prop, f.Known) {
						o.known[f.Known] = true
						continue
					}
					if f.has(c.Prop) && o.v == nil {
						o.v = &Violation{Message: fmt.Sprintf("%s\n  script %q, operation %d; the latest operations:\n    %v", f.Msg, sc.name, o.ops, joinLines(last)),
							Case: map[string]any{"script": sc.name, "operation": o.ops, "latest": last}}
					}
					if f.Hard && o.v == nil {
						o.v = &Violation{} // out of step for another property: stop quietly
					}
				}
			})
		}()
	}
	wg.Wait()
	var ops int64
	var v *Violation
	for i, o := range outs {
		ops += o.ops
		c.Transitions += o.ops
		for k := range o.known {
			c.addKnown(k)
		}
		c.Parts = append(c.Parts, map[string]any{"script": list[i].name, "operations": o.ops})
		if o.v != nil && o.v.Message != "" && v == nil {
			v = o.v
		}
	}
	c.Cov["scripted_histories"] = len(list)
	c.Cov["scripted_operations"] = ops
	return v
}

// grows tells whether sizes after 1, 2, 4, 8, 16 rounds grow steadily.
func grows(sizes []int) bool {
	for i := 1; i < len(sizes); i++ {
		if sizes[i] <= sizes[i-1] {
			return false
		}
	}
	n := len(sizes)
	return n > 4 && sizes[n-1]-sizes[n-2] >= 8
}

func joinLines(l []string) string {
	out := ""
	for _, x := range l {
		out += x + "\n    "
	}
	return out
}

func hasProp(list, p string) bool {
	for i := 0; i+3 <= len(list); i += 4 {
		if list[i:i+3] == p {
			return true
		}
	}
	return false
}

func addScript(name, props string, long bool, mk func() Sys, run func(s Sys, do func(string, ...int))) {
	scripts = append(scripts, script{name, props, long, mk, run})
}

func init() {
	// --- broker ---
	for _, m := range []string{"exact", "prefix", "wildcard"} {
		key := map[string]subKey{"exact": {"a.b", "exact"}, "prefix": {"a.", "prefix"}, "wildcard": {"a.*", "wildcard"}}[m]
		for ord := range orders {
			const n = 70
			cfg := &brokerCfg{sessions: n + 1, keys: []subKey{key}, topics: []string{"a.b", "z"}, acks: []int{0}, excl: []int{0}, payloads: []int{0}, attached: true}
			addScript(fmt.Sprintf("%d subscribers of one %s subscription leave %s", n, m, orders[ord]), "C01 C02 C03 C10", false,
				func() Sys { return newBrokerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
					pub := func() {
						do("pub", n, 0, 1, 0, 0)
						do("pub", 3, 0, 0, 2, 0)
						do("pub", n, 1, 1, 0, 0)
						do("pub", n, 0, 1, 0, 0)
					}
					for i := 0; i < n; i++ {
						do("sub", i, 0)
						pub()
					}
					for k, i := range order(ord, n) {
						if i == 3 {
							do("unsub", i, 0)
						} else if k%3 == 0 {
							do("detach", i)
						} else {
							do("unsub", i, 0)
						}
						pub()
					}
					for i := 0; i < n; i += 9 {
						do("sub", n, 0)
						pub()
						do("unsub", n, 0)
						pub()
					}
				})
		}
	}
	{
		const n = 300
		cfg := &brokerCfg{sessions: n + 1, keys: []subKey{{"a.b", "exact"}}, topics: []string{"a.b"}, acks: []int{0}, excl: []int{0}, payloads: []int{0}, attached: true}
		addScript("300 subscribers of one topic", "C01 C02 C03 C10", false, func() Sys { return newBrokerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
			for i := 0; i < n; i++ {
				do("sub", i, 0)
				if i%16 == 0 || i == 254 || i == 255 {
					do("pub", n, 0, 0, 0, 0)
				}
			}
			for _, i := range order(2, n) {
				do("detach", i)
				if i%16 == 0 || i == 255 {
					do("pub", n, 0, 0, 0, 0)
				}
			}
			do("pub", n, 0, 0, 0, 0)
		})
	}
	for _, m := range []string{"exact", "prefix", "wildcard"} {
		for ord := range orders {
			const n = 70
			var keys []subKey
			var topics []string
			u := ""
			for i := 0; i < n; i++ {
				switch m {
				case "exact":
					keys = append(keys, subKey{fmt.Sprintf("t.%d", i), m})
					topics = append(topics, fmt.Sprintf("t.%d", i))
				case "prefix": // each a prefix of the next
					u += string(rune('a' + i%26))
					keys = append(keys, subKey{u, m})
					topics = append(topics, u)
				case "wildcard":
					keys = append(keys, subKey{fmt.Sprintf("*.%d.*", i), m})
					topics = append(topics, fmt.Sprintf("t.%d.x", i))
				}
			}
			topics = append(topics, "zz")
			cfg := &brokerCfg{sessions: 3, keys: keys, topics: topics, acks: []int{0}, excl: []int{0}, payloads: []int{0}, attached: true}
			addScript(fmt.Sprintf("%d %s subscriptions of one session end %s", n, m, orders[ord]), "C01 C02 C10", false,
				func() Sys { return newBrokerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
					pub := func(i int) {
						do("pub", 2, i, 0, 0, 0)
						do("pub", 2, (i+1)%len(topics), 0, 0, 0)
						do("pub", 2, (i+n)%len(topics), 0, 0, 0)
					}
					all := func() {
						for i := range topics {
							do("pub", 2, i, 0, 0, 0)
						}
					}
					for i := 0; i < n; i++ {
						do("sub", 0, i)
						if i%2 == 0 {
							do("sub", 1, i)
						}
						pub(i)
					}
					all()
					for _, i := range order(ord, n) {
						do("unsub", 0, i)
						pub(i)
					}
					all()
					for i := 0; i < n; i++ {
						do("sub", 0, i)
					}
					do("detach", 1)
					all()
					do("detach", 0)
					all()
					do("attach", 0)
					all()
				})
		}
	}
	{
		cfg := &brokerCfg{sessions: 3, keys: []subKey{{"a.b", "exact"}, {"a.", "prefix"}}, topics: []string{"a.b", "a.c"}, acks: []int{0}, excl: []int{0}, payloads: []int{0}, attached: true}
		addScript("70000 subscribe, publish, unsubscribe rounds", "C01 C02 C03 C10", false, func() Sys { return newBrokerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
			do("sub", 1, 1)
			for r := 0; r < 70000; r++ {
				do("sub", 0, 0)
				do("pub", 2, 0, 1, 0, 0)
				do("unsub", 0, 0)
				if r%5 == 0 {
					do("pub", 2, 0, 1, 0, 1)
				}
				if r%1000 == 0 {
					do("detach", 0)
					do("attach", 0)
				}
			}
		})
	}

	// --- dealer ---
	for _, pol := range []string{"first", "last", "roundrobin", "random"} {
		for ord := range orders {
			const n = 40
			cfg := &dealerCfg{sessions: n + 1, keys: []regKey{{"p", "", pol}}, procs: []string{"p"}, composite: true, attached: true}
			addScript(fmt.Sprintf("%d sharers under %s leave %s", n, pol, orders[ord]), "C04 C05 C06 C07 C10", false,
				func() Sys { return newDealerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
					calls := func(k int) {
						for i := 0; i < 2*k+1; i++ {
							do("callc", n, 0)
						}
					}
					for i := 0; i < n; i++ {
						do("reg", i, 0)
						calls(i + 1)
						if i%8 == 0 {
							do("reg", i/2, 0) // once more
							calls(i + 1)
						}
					}
					for k, i := range order(ord, n) {
						if k%3 == 0 {
							do("detach", i)
						} else {
							do("unreg", i, 0)
						}
						calls(n - k - 1)
					}
					do("reg", n, 0)
					calls(1)
				})
		}
	}
	for _, pol := range []string{"first", "last", "roundrobin", "random"} { // more callees than fit a byte
		const n = 300
		cfg := &dealerCfg{sessions: n + 1, keys: []regKey{{"p", "", pol}}, procs: []string{"p"}, composite: true, attached: true}
		addScript(fmt.Sprintf("%d sharers under %s", n, pol), "C04 C05 C06", false,
			func() Sys { return newDealerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
				for i := 0; i < n; i++ {
					do("reg", i, 0)
				}
				for i := 0; i < 2*n+3; i++ {
					do("callc", n, 0)
				}
				for _, i := range []int{n - 1, 255, 128, 0} {
					do("detach", i)
					for i := 0; i < n; i++ {
						do("callc", n, 0)
					}
				}
			})
	}
	for _, m := range []string{"exact", "prefix", "wildcard"} {
		for ord := range orders {
			const n = 70
			var keys []regKey
			var procs []string
			u := ""
			for i := 0; i < n; i++ {
				switch m {
				case "exact":
					keys = append(keys, regKey{fmt.Sprintf("t.%d", i), m, "first"})
					procs = append(procs, fmt.Sprintf("t.%d", i))
				case "prefix":
					u += string(rune('a' + i%26))
					keys = append(keys, regKey{u, m, "first"})
					procs = append(procs, u)
				case "wildcard":
					keys = append(keys, regKey{fmt.Sprintf("*.%d.*", i), m, "first"})
					procs = append(procs, fmt.Sprintf("t.%d.x", i))
				}
			}
			procs = append(procs, "zz")
			cfg := &dealerCfg{sessions: 3, keys: keys, procs: procs, composite: true, attached: true}
			addScript(fmt.Sprintf("%d %s registrations of one session end %s", n, m, orders[ord]), "C04 C05 C10", false,
				func() Sys { return newDealerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
					call := func(i int) {
						do("callc", 2, i)
						do("callc", 2, (i+1)%len(procs))
						do("callc", 2, (i+n)%len(procs))
					}
					all := func() {
						for i := range procs {
							do("callc", 2, i)
						}
					}
					for i := 0; i < n; i++ {
						do("reg", 0, i)
						if i%2 == 0 {
							do("reg", 1, i)
						}
						call(i)
					}
					all()
					for _, i := range order(ord, n) {
						do("unreg", 0, i)
						call(i)
					}
					all()
					for i := 0; i < n; i++ {
						do("reg", 0, i)
					}
					do("detach", 1)
					all()
					do("detach", 0)
					all()
					do("attach", 0)
					all()
				})
		}
	}
	for ord := range orders {
		const n = 70
		for _, mode := range []int{0, 1, 3} {
			cfg := &dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{2, 3},
				callIDs: n, modes: []int{mode}, maxPend: 2 * n, attached: true, errs: true, yieldProg: true}
			addScript(fmt.Sprintf("%d calls outstanding (mode %d), answered %s", 2*n, mode, orders[ord]), "C04 C07 C08 C10", false,
				func() Sys { return newDealerSys(cfg) }, func(sys Sys, do func(string, ...int)) {
					s := sys.(*dealerSys)
					do("reg", 2, 0)
					do("reg", 3, 0)
					for q := 0; q < n; q++ {
						do("call", 0, 0, q, mode)
						do("call", 1, 0, q, mode)
						if mode == 3 && q%4 == 0 {
							do("chunk", 0, q, 0)
							do("chunk", 1, q/2, 0)
						}
					}
					for k, x := range order(ord, 2*n) {
						caller, q := x%2, x/2
						p := s.findPend(caller, q)
						if p == nil {
							continue
						}
						idx := 0
						for i := range s.pend {
							if s.pend[i] == p {
								idx = i
							}
						}
						if mode&1 != 0 {
							do("yield", p.callee, idx, 1)
						}
						if mode == 3 && k%3 == 0 {
							do("chunk", caller, q, 1)
						}
						if k%5 == 0 {
							do("err", p.callee, idx)
						} else {
							do("yield", p.callee, idx, 0)
						}
						do("yield", p.callee, -1, 0)
						if k%7 == 0 { // the id of the answered call again
							do("call", caller, 0, q, mode)
						}
						if k == n {
							do("detach", 1)
						}
					}
				})
		}
	}
	for _, mode := range []int{0, 3} {
		const n = 990
		cfg := &dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{2, 3},
			callIDs: n, modes: []int{mode}, maxPend: 2 * n, attached: true, errs: true, yieldProg: true}
		addScript(fmt.Sprintf("%d calls outstanding (mode %d)", 2*n, mode), "C07 C08", false,
			func() Sys { return newDealerSys(cfg) }, func(sys Sys, do func(string, ...int)) {
				s := sys.(*dealerSys)
				do("reg", 2, 0)
				do("reg", 3, 0)
				for q := 0; q < n; q++ {
					do("call", 0, 0, q, mode)
					do("call", 1, 0, q, mode)
				}
				for k := 0; len(s.pend) > 0; k++ {
					left := len(s.pend)
					i := k * 7919 % left
					if p := s.pend[i]; mode == 3 && k%3 == 0 {
						do("yield", p.callee, i, 1)
					}
					do("yield", s.pend[i].callee, i, 0)
					if len(s.pend) >= left {
						return // a failure has been noted
					}
				}
			})
	}
	// one side leaves while many calls are outstanding, and comes back under the same id
	for _, n := range []int{2, 3, 5, 9, 17, 33, 70} {
		for _, who := range []string{"callers", "callees", "all"} {
			for ord := range orders {
				if n > 9 && ord > 1 {
					continue
				}
				cfg := &dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}, {"q.", "prefix", ""}}, procs: []string{"p", "q.1"}, callers: []int{0, 1}, callees: []int{2, 3},
					callIDs: n, modes: []int{0, 3}, maxPend: 2 * n, attached: true, errs: true, yieldProg: true, rounds: true}
				addScript(fmt.Sprintf("%s leave with %d calls outstanding, %s", who, 2*n, orders[ord]), "C07 C08 C10", false,
					func() Sys { return newDealerSys(cfg) }, func(sys Sys, do func(string, ...int)) {
						s := sys.(*dealerSys)
						gone := map[string][]int{"callers": {0, 1}, "callees": {2, 3}, "all": {2, 0, 3, 1}}[who]
						rounds := 16
						if n > 9 {
							rounds = 1
						}
						for r := 0; r < rounds; r++ {
							do("reg", 2, 0)
							do("reg", 3, 0)
							do("reg", 3, 1)
							for q := 0; q < n; q++ {
								do("call", 0, q%2, q, 3*(q%2))
								do("call", 1, 0, q, 3*(q/2%2))
								if q%3 == 2 && s.findPend(0, q-1) != nil { // some are answered before
									for i, p := range s.pend {
										if p == s.findPend(0, q-1) {
											do("yield", p.callee, i, 0)
											break
										}
									}
								}
							}
							for k, i := range gone {
								if ord%2 == 1 {
									i = gone[len(gone)-1-k]
								}
								do("detach", i)
								do("over", 0)
								if ord < 2 {
									do("attach", i)
								}
							}
							do("over", 0)
							if ord >= 2 {
								for _, i := range gone {
									do("attach", i)
								}
							}
							do("over", 1)
							for len(s.pend) > 0 && r >= 0 { // what is left is still answered
								k := len(s.pend)
								do("yield", s.pend[0].callee, 0, 0)
								if len(s.pend) >= k {
									return // a failure has been noted
								}
							}
							for _, i := range []int{2, 3} {
								for k := range cfg.keys {
									if m := s.regs[cfg.keys[k].proc]; m != nil && m.has(i) {
										do("unreg", i, k)
									}
								}
							}
							do("over", 0)
							do("!round")
						}
					})
			}
		}
	}
	{
		cfg := &dealerCfg{sessions: 2, keys: []regKey{{"p", "", ""}}, procs: []string{"p"}, callers: []int{0}, callees: []int{1}, callIDs: 2, modes: []int{3}, maxPend: 2,
			attached: true, errs: true, yieldProg: true}
		addScript("progressive call with 70000 chunks and results", "C07 C08 C10", false, func() Sys { return newDealerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
			do("reg", 1, 0)
			do("call", 0, 0, 0, 3)
			do("call", 0, 0, 1, 3)
			for i := 0; i < 70000; i++ {
				do("chunk", 0, 0, 0)
				do("yield", 1, 0, 1)
				if i%1000 == 0 {
					do("yield", 1, 1, 1)
				}
			}
			do("chunk", 0, 0, 1)
			do("yield", 1, 0, 1)
			do("yield", 1, 0, 0)
			do("chunk", 0, 1, 1)
			do("err", 1, 0)
		})
	}
	for _, pol := range []string{"", "first", "last", "roundrobin", "random"} {
		cfg := &dealerCfg{sessions: 4, keys: []regKey{{"p", "", pol}, {"q.", "prefix", pol}}, procs: []string{"p", "q.1"}, composite: true, attached: true}
		addScript("140000 calls under policy "+pol, "C04 C05 C06 C07 C10", false, func() Sys { return newDealerSys(cfg) }, func(_ Sys, do func(string, ...int)) {
			for i := 0; i < 3; i++ {
				do("reg", i, 0)
			}
			for r := 0; r < 140000; r++ {
				do("callc", 3, 0)
				if r%20000 == 0 {
					do("reg", 0, 1)
					do("callc", 3, 1)
					do("unreg", 0, 1)
				}
			}
			do("detach", 1)
			do("callc", 3, 0)
			do("callc", 3, 0)
			do("callc", 3, 0)
		})
	}
}
