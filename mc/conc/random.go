package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

// C06: after every history of membership changes of a registration under the
// random policy, over every value of the random source, the sessions that calls
// select are exactly its current sharers.

type rrun struct {
	d       *wampproto.Dealer
	ids     map[int]uint64 // registration id per attached holder
	holders []int
	first   int
	depth   int
	calls   int
	n       int
	pre     int // sessions that have registered beforehand
	match   string
	proc    string
}

func (r *rrun) settle() []string { return nil }

// ops of a history: 0..n-1 register, n..2n-1 unregister, 2n..3n-1 leave and come back
func (r *rrun) member(op int) string {
	s := op%r.n + 1
	drop := func() {
		for i, h := range r.holders {
			if h == s {
				r.holders = append(append([]int{}, r.holders[:i]...), r.holders[i+1:]...)
				break
			}
		}
	}
	switch op / r.n {
	case 0:
		m, err := r.d.ReceiveMessage(sid(s), messages.NewRegister(uint64(op+1), map[string]any{"invoke": "random", "match": r.match}, r.proc))
		if err != nil {
			return "register refused: " + err.Error()
		}
		reg, ok := m.Message.(*messages.Registered)
		if !ok {
			return fmt.Sprintf("register answered by %T", m.Message)
		}
		if r.ids[s] == 0 {
			r.holders = append(r.holders, s)
		}
		r.ids[s] = reg.RegistrationID()
		return fmt.Sprintf("+%d", s)
	case 1:
		if r.ids[s] == 0 {
			return ""
		}
		if _, err := r.d.ReceiveMessage(sid(s), messages.NewUnregister(uint64(op+1), r.ids[s])); err != nil {
			return "unregister refused: " + err.Error()
		}
		delete(r.ids, s)
		drop()
		return fmt.Sprintf("-%d", s)
	}
	if err := r.d.RemoveSession(sid(s)); err != nil {
		return err.Error()
	}
	if err := r.d.AddSession(details(s)); err != nil {
		return err.Error()
	}
	delete(r.ids, s)
	drop()
	return fmt.Sprintf("x%d", s)
}

func (r *rrun) do(t, k int) string {
	hist := ""
	if r.pre > 0 {
		for i := 0; i < r.pre; i++ {
			r.member(i)
		}
		hist = fmt.Sprintf("+1..+%d ", r.pre)
	}
	hist += r.member(r.first)
	for i := 1; i < r.depth; i++ {
		op := vsched.Choose(3 * r.n)
		if h := r.member(op); h != "" {
			hist += " " + h
		}
	}
	if len(r.holders) == 0 {
		return "none"
	}
	sel := ""
	for i := 0; i < r.calls; i++ {
		m, err := r.d.ReceiveMessage(sid(0), messages.NewCall(uint64(100+i), nil, "p.q", nil, nil))
		if err != nil {
			return "BAD after " + hist + ": call refused: " + err.Error()
		}
		inv, ok := m.Message.(*messages.Invocation)
		if !ok {
			return fmt.Sprintf("BAD after %s: call answered by %T although sessions %v hold the registration", hist, m.Message, r.holders)
		}
		if i > 0 {
			sel += ","
		}
		sel += strings.TrimPrefix(sname(m.Recipient), "S")
		_, _ = r.d.ReceiveMessage(m.Recipient, messages.NewYield(inv.RequestID(), nil, nil, nil))
	}
	hs := append([]int{}, r.holders...)
	sort.Ints(hs)
	return fmt.Sprintf("%v|%s|%s", hs, hist, sel)
}

func judgeMember(res [][]string, _ []string) string {
	r := res[0][0]
	if strings.HasPrefix(r, "BAD ") {
		return r[4:]
	}
	f := strings.Split(r, "|")
	if len(f) != 3 {
		return ""
	}
	for _, s := range strings.Split(f[2], ",") {
		if !strings.Contains(" "+strings.Trim(f[0], "[]")+" ", " "+s+" ") {
			return fmt.Sprintf("after %s the sharers are %s, but a call under the random policy invokes session %s", f[1], f[0], s)
		}
	}
	return ""
}

// judgeReach: every sharer is selected by some value of the random source. many: the
// number of sharers beforehand.
func judgeReach(fresh func() run, many int) func(map[string]bool, int) string {
	return func(seen map[string]bool, draws int) string {
		type key struct{ hs, hist string }
		got := map[key]map[string]bool{}
		if many > 5 && (draws == 0 || vsched.Raw()) {
			return "" // too many to be told apart by the values tried
		}
		if many > 0 && draws == 0 {
			return ""
		}
		for o := range seen {
			f := strings.Split(strings.Trim(o, "[] "), "|")
			if len(f) != 3 {
				continue
			}
			k := key{strings.Trim(f[0], "[] "), f[1]}
			if got[k] == nil {
				got[k] = map[string]bool{}
			}
			for _, s := range strings.Split(strings.Trim(f[2], "[] "), ",") {
				got[k][s] = true
			}
		}
		if draws == 0 {
			// a source that is not under control: nothing to enumerate. Selecting
			// always the same of several sharers is still noticed.
			for i := 0; i < 300; i++ {
				for _, op := range []int{0} {
					r := fresh().(*rrun)
					r.first, r.depth = op, 1
					r.member(1)
					r.member(2)
					f := strings.Split(r.do(0, 0), "|")
					if len(f) == 3 {
						k := key{strings.Trim(f[0], "[] "), "uncontrolled"}
						if got[k] == nil {
							got[k] = map[string]bool{}
						}
						for _, s := range strings.Split(f[2], ",") {
							got[k][s] = true
						}
					}
				}
			}
			for k := range got {
				if k.hist != "uncontrolled" {
					delete(got, k)
				}
			}
		}
		for k, g := range got {
			for _, h := range strings.Fields(k.hs) {
				if !g[h] {
					return fmt.Sprintf("after %s the sharers are [%s], but no value of the random source makes a call select session %s", k.hist, k.hs, h)
				}
			}
		}
		return ""
	}
}

func init() {
	suites["C06"] = func(tier string) []prog {
		var out []prog
		add := func(n, pre, depth, calls int, match, proc string) {
			for first := 0; first < 3*n; first++ {
				if first >= n && pre == 0 || pre > 0 && first != pre-1 && first != n && first != 2*n+pre/2 {
					continue // before anybody registers the others do nothing; of many the first leaves, one in the middle goes and returns, or nothing changes
				}
				fresh := func() run {
					d := wampproto.NewDealer()
					for i := 0; i <= n; i++ {
						if err := d.AddSession(details(i)); err != nil {
							panic(err)
						}
					}
					return &rrun{d: d, ids: map[int]uint64{}, first: first, depth: depth, calls: calls, n: n, pre: pre, match: match, proc: proc}
				}
				out = append(out, prog{
					name:    fmt.Sprintf("random policy, %d sessions, match %q, %d membership changes from session %d, %d calls", n, match, depth, first+1, calls),
					threads: [][]string{{"history, then calls"}}, bound: 0, canon: plain, judge: judgeMember, scripted: true, wide: true,
					all: judgeReach(fresh, pre), fresh: fresh,
				})
			}
		}
		add(2, 0, 4, 1, "exact", "p.q")
		add(3, 0, 4, 1, "exact", "p.q")
		add(4, 0, 4, 1, "exact", "p.q")
		add(3, 0, 3, 2, "prefix", "p.")
		add(5, 5, 2, 1, "exact", "p.q")
		add(9, 9, 2, 1, "exact", "p.q")
		add(33, 33, 1, 1, "exact", "p.q")
		add(60, 60, 1, 1, "prefix", "p.")
		if tier != "quick" {
			add(17, 17, 2, 1, "wildcard", "p.*")
			add(5, 0, 5, 1, "wildcard", "p.*")
			add(3, 0, 4, 2, "prefix", "p.")
			add(6, 0, 4, 1, "exact", "p.q")
			add(3, 0, 3, 3, "exact", "p.q")
		}
		return out
	}
}
