package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type regKey struct {
	proc, match, policy string // "" = option absent
}

// a match policy that is absent or unknown means exact
func normMatch(m string) string {
	if m != "prefix" && m != "wildcard" {
		return "exact"
	}
	return m
}

type dealerCfg struct {
	sessions  int
	static    []bool
	keys      []regKey
	procs     []string // called procedures
	composite bool     // CALL is answered at once by its callee
	callers   []int    // sessions that call (nil: all)
	callees   []int    // sessions that register (nil: all)
	callIDs   int      // request ids per caller
	modes     []int    // call modes: bit0 receive_progress, bit1 progressive chunk
	maxPend   int
	attached  bool
	noDetach  bool
	noUnreg   bool
	errs      bool
	yieldProg bool
	foreign   bool // answers from sessions that were not invoked
	disc      bool
	fresh     bool   // a session that attaches again has a new id
	comeGo    []int  // sessions that come and go (nil: all)
	maxRegs   int    // procedures registered at once (0: any number)
	ids       string // table of session and request ids
	oneUser   bool   // all sessions are of one user
	forms     bool   // answers also without payload and with an explicit progress=false
	toggle    bool   // disclosure can be switched
	blank     []int  // sessions without authid, and without role but for session 0
	flip      bool   // an id that is attached again is another user
	odd       bool   // progressive YIELDs nobody asked for; chunks that no longer ask for progress
	oddOpts   bool   // flags that are not set are given as something other than true or false, along with options that mean nothing here
	binary    bool   // binary payloads as well
	early     bool   // a call's request id is used again before the call is answered
	rounds    bool   // invocations that are over are remembered
}

type mReg struct {
	proc, match, policy string
	id                  uint64
	holders             []int // in order of registration
	recents             []int // callees of the latest calls since the last membership change
}

func (r *mReg) has(i int) bool {
	for _, h := range r.holders {
		if h == i {
			return true
		}
	}
	return false
}

type mPend struct {
	inv          uint64
	caller, call int
	callee       int
	reg          *mReg
	recvProg     bool
	open         bool // further chunks may follow
	proc         int
	mode         int
	progressed   bool
}

type staleInv struct {
	inv    uint64
	callee int
	caller int
}

type dealerSys struct {
	sessIDs
	cfg      *dealerCfg
	d        *wampproto.Dealer
	att      []bool
	regs     map[string]*mReg // by procedure
	pend     []*mPend
	staleInv []staleInv // answered or orphaned invocations: the latest of each kind
	staleReg uint64
	ids      idNames
	issued   map[uint64]bool // invocation ids
	detached bool
	base     int // shift of call request ids
	disc     bool
	over     []staleInv // all invocations that are over (rounds)
	nreq     int
}

func newDealerSys(cfg *dealerCfg) *dealerSys {
	s := &dealerSys{sessIDs: newSessIDs(cfg.sessions, cfg.fresh), cfg: cfg, d: wampproto.NewDealer(), att: make([]bool, cfg.sessions), regs: map[string]*mReg{},
		issued: map[uint64]bool{}, staleInv: make([]staleInv, 3)}
	s.use(cfg.ids)
	s.oneUser = s.oneUser || cfg.oneUser
	s.flip = cfg.flip
	s.blank = cfg.blank
	if cfg.disc {
		s.d.AutoDiscloseCaller(true)
		s.disc = true
	}
	if cfg.attached {
		for i := range s.att {
			s.att[i] = true
			if err := s.d.AddSession(s.details(i, s.isStatic(i))); err != nil {
				panic(err)
			}
		}
	}
	return s
}

func (s *dealerSys) isStatic(i int) bool {
	return (i < len(s.cfg.static) && s.cfg.static[i]) != (s.flip && s.flipped[i])
}

func (s *dealerSys) findPend(caller, call int) *mPend {
	for n := len(s.pend) - 1; n >= 0; n-- { // the latest, where an id is used again early
		if p := s.pend[n]; p.caller == caller && p.call == call {
			return p
		}
	}
	return nil
}

// holds reports whether the callee of a call still holds the registration it was called for.
func (s *dealerSys) holds(p *mPend) bool {
	return s.regs[p.reg.proc] == p.reg && p.reg.has(p.callee)
}

func allOr(l []int, n int) []int {
	if l != nil {
		return l
	}
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return l
}

// procs of live registrations in config order
func (s *dealerSys) liveRegs() []*mReg {
	var out []*mReg
	seen := map[string]bool{}
	for _, k := range s.cfg.keys {
		if r := s.regs[k.proc]; r != nil && !seen[k.proc] {
			seen[k.proc] = true
			out = append(out, r)
		}
	}
	return out
}

func (s *dealerSys) keyOf(r *mReg) int {
	for i, k := range s.cfg.keys {
		if k.proc == r.proc {
			return i
		}
	}
	return -1
}

// Ops:
//
//	attach i | detach i | reg i key | unreg i (key | -1 stale | -2 never)
//	callc i proc           CALL answered at once by a final YIELD
//	call i proc req mode   chunk i req final(0/1)   next chunk of the ongoing progressive call
//	yield i n prog         n: index of the outstanding call | -1.. stale kinds | -9 never
//	err i n
//	near                   answers and UNREGISTERs for ids one bit away from live ones
func (s *dealerSys) Ops() []Op {
	c := s.cfg
	var ops []Op
	callers, callees := allOr(c.callers, c.sessions), allOr(c.callees, c.sessions)
	// refusals first: they leave the state unchanged
	for i := range s.att {
		if !s.att[i] {
			continue
		}
		if !c.noUnreg {
			ops = append(ops, Op{"unreg", []int{i, -2}})
			if s.staleReg != 0 {
				ops = append(ops, Op{"unreg", []int{i, -1}})
			}
		}
		if !c.composite {
			for k := range s.staleInv {
				if s.staleInv[k].inv != 0 {
					ops = append(ops, Op{"yield", []int{i, -1 - k, 0}})
					if c.errs {
						ops = append(ops, Op{"err", []int{i, -1 - k}})
					}
				}
			}
			ops = append(ops, Op{"yield", []int{i, -9, 0}})
			if c.errs {
				ops = append(ops, Op{"err", []int{i, -9}})
			}
		}
	}
	if len(s.regs)+len(s.pend) > 0 {
		ops = append(ops, Op{"near", nil})
	}
	if c.toggle {
		ops = append(ops, Op{"disclose", []int{bit(!s.disc)}})
	}
	for _, i := range callers {
		if !s.att[i] {
			continue
		}
		for p := range c.procs {
			if c.composite {
				ops = append(ops, Op{"callc", []int{i, p}})
				continue
			}
			for q := 0; q < c.callIDs; q++ {
				if p := s.findPend(i, q); (p != nil && !(c.early && !p.open)) || len(s.pend) >= c.maxPend {
					continue
				}
				for _, m := range c.modes {
					ops = append(ops, Op{"call", []int{i, p, q, m}})
					if c.binary {
						ops = append(ops, Op{"call", []int{i, p, q, m | 4}})
					}
				}
			}
		}
	}
	for n, p := range s.pend {
		if p.open && s.att[p.caller] {
			ops = append(ops, Op{"chunk", []int{p.caller, p.call, 0}}, Op{"chunk", []int{p.caller, p.call, 1}})
			if c.odd && s.holds(p) {
				ops = append(ops, Op{"chunk", []int{p.caller, p.call, 2}}, Op{"chunk", []int{p.caller, p.call, 3}})
			}
			if c.binary {
				ops = append(ops, Op{"chunk", []int{p.caller, p.call, 4}}, Op{"chunk", []int{p.caller, p.call, 5}})
			}
		}
		ops = append(ops, Op{"yield", []int{p.callee, n, 0}})
		if c.forms {
			ops = append(ops, Op{"yield", []int{p.callee, n, 2}}, Op{"yield", []int{p.callee, n, 4}})
		}
		if c.binary {
			ops = append(ops, Op{"yield", []int{p.callee, n, 8}})
		}
		if c.odd && !p.recvProg {
			ops = append(ops, Op{"yield", []int{p.callee, n, 1}})
		}
		if c.yieldProg && p.recvProg {
			if c.binary {
				ops = append(ops, Op{"yield", []int{p.callee, n, 9}})
			}
			ops = append(ops, Op{"yield", []int{p.callee, n, 1}})
			if c.forms {
				ops = append(ops, Op{"yield", []int{p.callee, n, 3}})
			}
		}
		if c.errs {
			ops = append(ops, Op{"err", []int{p.callee, n}})
		}
		if c.foreign {
			for i := range s.att {
				if i != p.callee {
					ops = append(ops, Op{"yield", []int{i, n, 0}})
					if c.errs {
						ops = append(ops, Op{"err", []int{i, n}})
					}
				}
			}
		}
	}
	for _, i := range allOr(c.comeGo, len(s.att)) {
		if !s.att[i] {
			if !c.noDetach {
				ops = append(ops, Op{"attach", []int{i}})
			}
			continue
		}
		if !c.noDetach {
			ops = append(ops, Op{"detach", []int{i}})
		}
	}
	for _, i := range callees {
		if !s.att[i] {
			continue
		}
		for k := range c.keys {
			if c.maxRegs > 0 && len(s.regs) >= c.maxRegs && s.regs[c.keys[k].proc] == nil {
				continue
			}
			ops = append(ops, Op{"reg", []int{i, k}})
		}
		if !c.noUnreg {
			for _, r := range s.liveRegs() {
				ops = append(ops, Op{"unreg", []int{i, s.keyOf(r)}})
			}
		}
	}
	return ops
}

func (s *dealerSys) SelfLoop(o Op) bool {
	return (o.N == "unreg" && o.A[1] < 0) || ((o.N == "yield" || o.N == "err") && o.A[1] < 0)
}

func (s *dealerSys) Describe(o Op) string {
	c := s.cfg
	mode := func(m int) string {
		return fmt.Sprintf("receive_progress=%v progress=%v", m&1 != 0, m&2 != 0)
	}
	inv := func(n int) string {
		if n == -9 {
			return "a never issued invocation"
		}
		if n < 0 {
			return "an " + []string{"answered", "invocation whose caller left: a dead", "invocation whose callee left: a dead"}[-n-1] + " invocation"
		}
		if n < len(s.pend) {
			p := s.pend[n]
			return fmt.Sprintf("the invocation of call %d of session %d", p.call, p.caller)
		}
		return "?"
	}
	switch o.N {
	case "reg":
		k := c.keys[o.A[1]]
		return fmt.Sprintf("session %d REGISTER %q match=%q invoke=%q", o.A[0], k.proc, k.match, k.policy)
	case "unreg":
		w := "a never issued registration id"
		if o.A[1] == -1 {
			w = "the last ended registration id"
		} else if o.A[1] >= 0 {
			w = "the registration of " + c.keys[o.A[1]].proc
		}
		return fmt.Sprintf("session %d UNREGISTER %s", o.A[0], w)
	case "callc":
		return fmt.Sprintf("session %d CALL %q, answered by its callee", o.A[0], c.procs[o.A[1]])
	case "call":
		return fmt.Sprintf("session %d CALL %q request %d %s", o.A[0], c.procs[o.A[1]], o.A[2], mode(o.A[3]))
	case "chunk":
		return fmt.Sprintf("session %d CALL request %d again, final=%v, receive_progress as before=%v, binary=%v", o.A[0], o.A[1], o.A[2]&1 == 1, o.A[2]&2 == 0, o.A[2]&4 != 0)
	case "yield":
		return fmt.Sprintf("session %d YIELD progress=%v payload=%v binary=%v for %s", o.A[0], o.A[2]&1 == 1, o.A[2]&2 == 0, o.A[2]&8 != 0, inv(o.A[1]))
	case "disclose":
		return fmt.Sprintf("AutoDiscloseCaller(%v)", o.A[0] == 1)
	case "near":
		return "ids one bit away from live ones are unregistered and answered"
	case "over":
		return "every invocation that is over is answered again"
	case "err":
		return fmt.Sprintf("session %d ERROR for %s", o.A[0], inv(o.A[1]))
	}
	return o.String()
}

func (s *dealerSys) candidates(proc string) []*mReg {
	// best match: exact, else longest prefix, else any wildcard
	if r := s.regs[proc]; r != nil && r.match == "exact" {
		return []*mReg{r}
	}
	var best *mReg
	for _, r := range s.regs {
		if r.match == "prefix" && hasPrefix(proc, r.proc) && (best == nil || len(r.proc) > len(best.proc)) {
			best = r
		}
	}
	if best != nil {
		return []*mReg{best}
	}
	var out []*mReg
	for _, r := range s.regs {
		if r.match == "wildcard" && globMatch(r.proc, proc) {
			out = append(out, r)
		}
	}
	return out
}

func (s *dealerSys) namer() Namer {
	cur := s.sessIDs.names()
	for k, st := range s.staleInv {
		if st.inv != 0 {
			cur[st.inv] = fmt.Sprintf("st%d", k)
		}
	}
	if s.staleReg != 0 {
		cur[s.staleReg] = "staler"
	}
	for n, p := range s.pend {
		cur[p.reg.id] = fmt.Sprintf("pr:%d:%d:%d", p.caller, p.call, n)
	}
	for p, r := range s.regs {
		cur[r.id] = "r:" + p
	}
	for n, p := range s.pend {
		cur[p.inv] = fmt.Sprintf("i:%d:%d:%d", p.caller, p.call, n)
	}
	s.ids.used = s.issued
	return s.ids.namer(cur)
}

func (s *dealerSys) dump() string { return deepDump(s.d, s.namer()) }

func (s *dealerSys) checkHas() []Fail {
	var fs []Fail
	done := map[string]bool{}
	for _, k := range s.cfg.keys {
		if done[k.proc] {
			continue
		}
		done[k.proc] = true
		want := s.regs[k.proc] != nil
		if got := s.d.HasProcedure(k.proc); got != want {
			fs = append(fs, fail(fmt.Sprintf("HasProcedure(%q) = %v, but it should be %v", k.proc, got, want), "C05"))
		}
	}
	return fs
}

func (s *dealerSys) Do(o Op) []Fail {
	fs := s.do(o)
	for _, f := range fs {
		if f.Hard {
			return fs
		}
	}
	switch o.N {
	case "attach", "detach", "reg", "unreg":
		fs = append(fs, s.checkHas()...)
	}
	return fs
}

func (s *dealerSys) endReg(r *mReg, i int) {
	for k, h := range r.holders {
		if h == i {
			r.holders = append(append([]int{}, r.holders[:k]...), r.holders[k+1:]...)
			r.recents = nil
			break
		}
	}
	if len(r.holders) == 0 {
		delete(s.regs, r.proc)
		s.staleReg = r.id
	}
}

func (s *dealerSys) dropPend(p *mPend, kind int) {
	for k := range s.pend {
		if s.pend[k] == p {
			s.pend = append(append([]*mPend{}, s.pend[:k]...), s.pend[k+1:]...)
			break
		}
	}
	s.staleInv[kind] = staleInv{p.inv, p.callee, p.caller}
	if s.cfg.rounds {
		s.over = append(s.over, s.staleInv[kind])
	}
}

func (s *dealerSys) addPend(p *mPend) {
	s.pend = append(s.pend, p)
	sort.SliceStable(s.pend, func(a, b int) bool {
		if s.pend[a].caller != s.pend[b].caller {
			return s.pend[a].caller < s.pend[b].caller
		}
		return s.pend[a].call < s.pend[b].call
	})
}

func (s *dealerSys) callReq(q int) uint64 {
	if s.reqs != nil {
		return s.reqs[(s.base+q)%len(s.reqs)]
	}
	return rid(500 + s.base + q)
}

func (s *dealerSys) do(o Op) (fs []Fail) {
	c := s.cfg
	s.nreq++
	req := s.req(s.nreq % 400)
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }
	switch o.N {
	case "attach":
		i := o.A[0]
		s.renew(i)
		if err := s.d.AddSession(s.details(i, s.isStatic(i))); err != nil {
			return []Fail{hard(fmt.Sprintf("attaching session %d failed: %v", i, err), "C10", "C11", "C04", "C05")}
		}
		s.att[i] = true
	case "detach":
		i := o.A[0]
		if err := s.d.RemoveSession(s.sid(i)); err != nil {
			return []Fail{hard(fmt.Sprintf("detaching session %d failed: %v", i, err), "C10", "C11", "C05")}
		}
		s.att[i] = false
		s.detached = true
		for _, r := range s.liveRegs() {
			if r.has(i) {
				s.endReg(r, i)
			}
		}
		for _, p := range append([]*mPend{}, s.pend...) {
			if p.caller == i {
				s.dropPend(p, 1)
			} else if p.callee == i {
				s.dropPend(p, 2)
			}
		}
	case "reg":
		i, k := o.A[0], c.keys[o.A[1]]
		opts := map[string]any{}
		if k.match != "" {
			opts["match"] = k.match
		}
		if k.policy != "" {
			opts["invoke"] = k.policy
		}
		live := s.regs[k.proc]
		shared := k.policy != "" && k.policy != "single"
		joins := live != nil && shared && live.policy == k.policy && live.match == normMatch(k.match)
		r, err := s.d.ReceiveMessage(s.sid(i), messages.NewRegister(req, opts, k.proc))
		if err != nil || r == nil || r.Message == nil {
			return []Fail{hard(fmt.Sprintf("REGISTER by attached session refused: %v", err), "C05")}
		}
		if r.Recipient != s.sid(i) {
			add(fmt.Sprintf("answer to REGISTER goes to %d", r.Recipient), "C05", "C10")
		}
		if live != nil && !joins {
			e, ok := r.Message.(*messages.Error)
			if !ok {
				return append(fs, hard(fmt.Sprintf("REGISTER %v on a procedure in use (match %s, invoke %q) answered with %T", k, live.match, live.policy, r.Message), "C05"))
			}
			if e.URI() != "wamp.error.procedure_already_exists" || e.RequestID() != req || e.MessageType() != messages.MessageTypeRegister {
				add(fmt.Sprintf("conflicting REGISTER answered with ERROR %s type %d request %d", e.URI(), e.MessageType(), e.RequestID()), "C05")
			}
			return fs
		}
		reg, ok := r.Message.(*messages.Registered)
		if !ok {
			return append(fs, hard(fmt.Sprintf("REGISTER %v answered with %T", k, r.Message), "C05"))
		}
		if reg.RequestID() != req {
			add(fmt.Sprintf("REGISTERED has request id %d instead of %d", reg.RequestID(), req), "C05")
		}
		id := reg.RegistrationID()
		if joins {
			if id != live.id {
				return append(fs, hard(fmt.Sprintf("joining a shared registration gave id %d instead of %d", id, live.id), "C05"))
			}
			if !live.has(i) {
				live.holders = append(live.holders, i)
				live.recents = nil
			}
			return fs
		}
		for p, other := range s.regs {
			if other.id == id {
				return append(fs, hard(fmt.Sprintf("registration id %d of %q is shared with %q", id, k.proc, p), "C05", "C04"))
			}
		}
		if id == 0 {
			add("registration id is 0", "C05")
		}
		s.ids.saw(id)
		if id == s.staleReg {
			add(fmt.Sprintf("registration id %d is not fresh", id), "C05")
			s.staleReg = 0
		}
		s.regs[k.proc] = &mReg{proc: k.proc, match: normMatch(k.match), policy: k.policy, id: id, holders: []int{i}}
	case "unreg":
		i := o.A[0]
		var id uint64
		var m *mReg
		switch o.A[1] {
		case -1:
			id = s.staleReg
		case -2:
			id = neverID
		default:
			if m = s.regs[c.keys[o.A[1]].proc]; m == nil {
				return []Fail{{Msg: "replay out of step", Hard: true}}
			}
			id = m.id
		}
		held := m != nil && m.has(i)
		r, err := s.d.ReceiveMessage(s.sid(i), messages.NewUnregister(req, id))
		if !held {
			if err == nil && !refusedBy(r, messages.MessageTypeUnregister, s.sid(i)) {
				return append(fs, hard(fmt.Sprintf("session %d unregistered an id it does not hold and got %T", i, msgOf(r)), "C05", "C11"))
			}
			return fs
		}
		if err != nil || r == nil {
			return append(fs, hard(fmt.Sprintf("UNREGISTER of a held registration refused: %v", err), "C05"))
		}
		un, ok := r.Message.(*messages.Unregistered)
		if !ok || r.Recipient != s.sid(i) || un.RequestID() != req {
			add(fmt.Sprintf("UNREGISTER answered by %T to %d", r.Message, r.Recipient), "C05")
		}
		s.endReg(m, i)
	case "callc":
		i, p := o.A[0], o.A[1]
		f, pd := s.call(i, p, req, 0, 0)
		fs = append(fs, f...)
		if pd == nil {
			return fs
		}
		s.addPend(pd)
		pd.call = 1000
		f = s.answer("yield", pd.callee, pd, pd.inv, 0)
		fs = append(fs, f...)
		s.staleInv[0] = staleInv{}
	case "near":
		// ids that differ from live ones in one bit belong to nothing
		live := map[uint64]bool{}
		for _, m := range s.regs {
			live[m.id] = true
		}
		invs := map[uint64]bool{}
		for _, p := range s.pend {
			invs[p.inv] = true
		}
		for i := range s.att {
			if !s.att[i] {
				continue
			}
			for _, id := range nearIDs(live) {
				r, err := s.d.ReceiveMessage(s.sid(i), messages.NewUnregister(req, id))
				if err == nil && !refusedBy(r, messages.MessageTypeUnregister, s.sid(i)) {
					return append(fs, hard(fmt.Sprintf("session %d unregistered id %d, which no registration has (those in use: %v), and got %T", i, id, sortedIDs(live), msgOf(r)), "C05", "C11"))
				}
			}
			for _, id := range nearIDs(invs) {
				for _, kind := range []string{"yield", "err"} {
					if fs = append(fs, s.answer(kind, i, nil, id, 0)...); len(fs) > 0 {
						return fs
					}
				}
			}
		}
	case "disclose":
		s.disc = o.A[0] == 1
		s.d.AutoDiscloseCaller(s.disc)
	case "over":
		// every invocation that is over is answered again, by its callee and its id's present owner
		for _, x := range s.over {
			for _, kind := range []string{"yield", "err"} {
				if fs = append(fs, s.answer(kind, x.callee, nil, x.inv, o.A[0])...); len(fs) > 0 {
					return fs
				}
			}
		}
		s.over = nil
	case "call":
		i, p, q, mode := o.A[0], o.A[1], o.A[2], o.A[3]
		f, pd := s.call(i, p, s.callReq(q), q, mode)
		fs = append(fs, f...)
		if pd != nil {
			s.addPend(pd)
		}
	case "chunk":
		i, q := o.A[0], o.A[1]
		p := s.findPend(i, q)
		if p == nil {
			return []Fail{{Msg: "replay out of step", Hard: true}}
		}
		return s.chunk(p, o.A[2])
	case "yield", "err":
		i, n := o.A[0], o.A[1]
		prog := 0
		if o.N == "yield" {
			prog = o.A[2]
		}
		if n == -9 {
			return s.answer(o.N, i, nil, neverID, prog)
		}
		if n < 0 {
			return s.answer(o.N, i, nil, s.staleInv[-1-n].inv, prog)
		}
		if n >= len(s.pend) {
			return []Fail{{Msg: "replay out of step", Hard: true}}
		}
		return s.answer(o.N, i, s.pend[n], s.pend[n].inv, prog)
	default:
		panic("unknown op " + o.N)
	}
	return fs
}

func (s *dealerSys) callOptions(mode int) map[string]any {
	o := map[string]any{}
	if s.cfg.oddOpts {
		// flags that are neither true nor false, and keys that mean something elsewhere
		o = map[string]any{"receive_progress": uint64(1), "progress": "true", "caller": uint64(1), "caller_authid": "eve", "caller_authrole": "admin", "procedure": "other", "disclose_me": true,
			"invoke": "last", "match": "prefix", "acknowledge": true}
	}
	if mode&1 != 0 {
		o["receive_progress"] = true
	}
	if mode&2 != 0 {
		o["progress"] = true
	}
	return o
}

func (s *dealerSys) call(i, p int, req uint64, q, mode int) (fs []Fail, pd *mPend) {
	proc := s.cfg.procs[p]
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }
	cands := s.candidates(proc)
	pl := payloadOf(0, mode&4 != 0)
	r, err := s.d.ReceiveMessage(s.sid(i), pl.call(req, s.callOptions(mode), proc))
	if err != nil || r == nil || r.Message == nil {
		tags := []string{"C04", "C11"}
		if s.detached {
			tags = append(tags, "C10")
		}
		return append(fs, hard(fmt.Sprintf("CALL %q by attached session %d gave no message (%v); live registrations: %s", proc, i, err, s.regText()), tags...)), nil
	}
	rt := []string{"C04"}
	if s.detached {
		rt = append(rt, "C10")
	}
	if e, ok := r.Message.(*messages.Error); ok {
		if len(cands) > 0 {
			return append(fs, hard(fmt.Sprintf("CALL %q got ERROR %s although %s", proc, e.URI(), s.regText()), append(rt, "C06")...)), nil
		}
		if e.URI() != "wamp.error.no_such_procedure" || e.MessageType() != messages.MessageTypeCall || e.RequestID() != req {
			add(fmt.Sprintf("CALL without registration got ERROR %s type %d request %d (sent %d)", e.URI(), e.MessageType(), e.RequestID(), req), "C04")
		}
		if r.Recipient != s.sid(i) {
			add(fmt.Sprintf("no_such_procedure goes to %d instead of the caller", r.Recipient), "C04", "C10")
		}
		return fs, nil
	}
	inv, ok := r.Message.(*messages.Invocation)
	if !ok {
		return append(fs, hard(fmt.Sprintf("CALL answered with %T", r.Message), "C04")), nil
	}
	if len(cands) == 0 {
		return append(fs, hard(fmt.Sprintf("CALL %q became an INVOCATION of session %d although no live registration matches (%s)", proc, s.index(r.Recipient), s.regText()), append(rt, "C05")...)), nil
	}
	var taken *mReg
	for _, m := range cands {
		if m.id == inv.RegistrationID() {
			taken = m
		}
	}
	if taken == nil {
		return append(fs, hard(fmt.Sprintf("CALL %q became an INVOCATION of registration id %d, which is not the best match (%s)", proc, inv.RegistrationID(), s.regText()), rt...)), nil
	}
	callee := s.index(r.Recipient)
	if callee < 0 || !taken.has(callee) {
		return append(fs, hard(fmt.Sprintf("CALL %q invokes session %d, which does not hold the registration (%s)", proc, s.index(r.Recipient), s.regText()), append(rt, "C06")...)), nil
	}
	// policy
	n := len(taken.holders)
	switch taken.policy {
	case "first":
		if callee != taken.holders[0] {
			add(fmt.Sprintf("policy first selects session %d, registered in order %v", callee, taken.holders), "C06")
		}
	case "last":
		if callee != taken.holders[n-1] {
			add(fmt.Sprintf("policy last selects session %d, registered in order %v", callee, taken.holders), "C06")
		}
	case "roundrobin":
		for k := len(taken.recents) - 1; k >= 0 && k >= len(taken.recents)-(n-1); k-- {
			if taken.recents[k] == callee {
				add(fmt.Sprintf("policy roundrobin selects session %d again within %d consecutive calls (latest %v, sharers %v)", callee, n, taken.recents, taken.holders), "C06")
				break
			}
		}
		taken.recents = append(taken.recents, callee)
		if len(taken.recents) > n-1 {
			taken.recents = append([]int{}, taken.recents[len(taken.recents)-(n-1):]...)
		}
	}
	id := inv.RequestID()
	for _, p := range s.pend {
		if p.inv == id {
			return append(fs, hard(fmt.Sprintf("invocation id %d of a new call is that of the outstanding call %d of session %d", id, p.call, p.caller), "C07", "C08")), nil
		}
	}
	if s.issued[id] {
		add(fmt.Sprintf("invocation id %d of a new call was used before", id), "C07", "C08")
	}
	if id == 0 {
		add("invocation id is 0", "C07")
	}
	s.issued[id] = true
	s.ids.saw(id)
	fs = append(fs, s.checkInv(inv, mode, pl, i, callee, proc)...)
	mode &= 3
	return fs, &mPend{inv: id, caller: i, call: q, callee: callee, reg: taken, recvProg: mode&1 != 0, open: mode&2 != 0, proc: p, mode: mode}
}

func (s *dealerSys) regText() string {
	var out []string
	for _, r := range s.liveRegs() {
		out = append(out, fmt.Sprintf("%q match %s invoke %q held by %v", r.proc, r.match, r.policy, r.holders))
	}
	if out == nil {
		return "no live registrations"
	}
	return strings.Join(out, "; ")
}

// payloadOf is the k-th payload, as lists or in binary form (which is different for
// every k).
func payloadOf(k int, binary bool) *payloadForm {
	args, kw := clonePayload(k)
	f := &payloadForm{args: args, kw: kw}
	if binary {
		f.binary, f.raw, f.ser = true, []byte{byte(k), 0, 0xff}, uint64(k%3)
	}
	return f
}

func (f *payloadForm) call(req uint64, o map[string]any, proc string) *messages.Call {
	m := messages.NewCall(req, o, proc, cloneArgs(f.args), cloneMap(f.kw))
	if f.binary {
		return messages.NewCallWithFields(&lazyCall{m, f})
	}
	return m
}

func (f *payloadForm) yield(inv uint64, o map[string]any) *messages.Yield {
	m := messages.NewYield(inv, o, cloneArgs(f.args), cloneMap(f.kw))
	if f.binary {
		return messages.NewYieldWithFields(&lazyYield{m, f})
	}
	return m
}

func (s *dealerSys) checkInv(inv *messages.Invocation, mode int, pl *payloadForm, caller, callee int, proc string) (fs []Fail) {
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }
	prog, _ := inv.Details()["progress"].(bool)
	recv, _ := inv.Details()["receive_progress"].(bool)
	if prog != (mode&2 != 0) {
		add(fmt.Sprintf("CALL progress=%v became INVOCATION progress=%v", mode&2 != 0, prog), "C08")
	}
	if recv != (mode&1 != 0) {
		add(fmt.Sprintf("CALL receive_progress=%v became INVOCATION receive_progress=%v", mode&1 != 0, recv), "C08", "C09")
	}
	if m := checkPayload("INVOCATION", pl, s.isStatic(callee), inv); m != "" {
		add(m, "C09")
	}
	for k, v := range map[string]any{"caller": s.sid(caller), "caller_authid": s.authid(caller), "caller_authrole": s.role(caller), "procedure": proc} {
		if g, has := inv.Details()[k]; has != s.disc || has && !same(g, v) {
			add(fmt.Sprintf("disclosure is %v, but the INVOCATION of a CALL %q by session %d (authid %q, role %q) has %s = %v", s.disc, proc, s.sid(caller), s.authid(caller), s.role(caller), k, g), "C09")
			break
		}
	}
	return fs
}

// form: bit 0 final, bit 1 receive_progress the other way round, bit 2 binary payload
func (s *dealerSys) chunk(p *mPend, form int) (fs []Fail) {
	final := form&1 != 0
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }
	mode := p.mode
	if final {
		mode &^= 2
	}
	if form&2 != 0 {
		mode ^= 1
	}
	pl := payloadOf(3, form&4 != 0)
	proc := s.cfg.procs[p.proc]
	r, err := s.d.ReceiveMessage(s.sid(p.caller), pl.call(s.callReq(p.call), s.callOptions(mode), proc))
	if err != nil || r == nil || r.Message == nil {
		return append(fs, hard(fmt.Sprintf("chunk of an ongoing progressive call gave no message: %v", err), "C08", "C04"))
	}
	if !s.holds(p) {
		// the callee has unregistered: the call ends
		e, ok := r.Message.(*messages.Error)
		if !ok {
			return append(fs, hard(fmt.Sprintf("chunk of a progressive call, whose callee %d has unregistered, became %s for session %d", p.callee, compMsg(r.Message), s.index(r.Recipient)), "C08", "C04"))
		}
		if e.URI() != "wamp.error.no_such_procedure" || e.MessageType() != messages.MessageTypeCall || e.RequestID() != s.callReq(p.call) || r.Recipient != s.sid(p.caller) {
			return append(fs, hard(fmt.Sprintf("chunk of a progressive call, whose callee has unregistered, was answered with ERROR %s type %d request %d to session %d",
				e.URI(), e.MessageType(), e.RequestID(), s.index(r.Recipient)), "C08", "C04"))
		}
		s.dropPend(p, 0)
		return fs
	}
	inv, ok := r.Message.(*messages.Invocation)
	if !ok {
		return append(fs, hard(fmt.Sprintf("chunk of an ongoing progressive call became %T", r.Message), "C08", "C04"))
	}
	if inv.RequestID() != p.inv {
		return append(fs, hard(fmt.Sprintf("chunk (final=%v) of the progressive call went out under invocation id %d instead of %d", final, inv.RequestID(), p.inv), "C08"))
	}
	if r.Recipient != s.sid(p.callee) {
		return append(fs, hard(fmt.Sprintf("chunk (final=%v) of the progressive call went to session %d instead of %d", final, s.index(r.Recipient), p.callee), "C08"))
	}
	if inv.RegistrationID() != p.reg.id {
		add(fmt.Sprintf("chunk names registration %d instead of %d", inv.RegistrationID(), p.reg.id), "C04", "C08")
	}
	fs = append(fs, s.checkInv(inv, mode, pl, p.caller, p.callee, proc)...)
	if form&2 == 0 {
		p.mode = mode
	}
	if final {
		p.open = false
	}
	return fs
}

const knownYield = "YIELD from an attached session that was not invoked is accepted for an outstanding invocation (its RESULT goes to the caller)"

// answer sends YIELD or ERROR from session i for the given invocation id; pd is
// the outstanding call it belongs to, if any.
// form: bit 0 progress=true, bit 1 no payload, bit 2 progress=false spelled out, bit 3 binary payload
func (s *dealerSys) answer(kind string, i int, pd *mPend, inv uint64, form int) (fs []Fail) {
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }
	prog := form & 1
	pl := payloadOf(4, form&8 != 0)
	if form&2 != 0 {
		pl.args, pl.kw = nil, nil
	}
	args, kw := pl.args, pl.kw
	var msg messages.Message
	if kind == "yield" {
		o := map[string]any{}
		if s.cfg.oddOpts {
			o = map[string]any{"progress": uint64(1), "receive_progress": true, "callee": uint64(1), "request": uint64(1)}
		}
		if form&4 != 0 {
			o["progress"] = false
		}
		if prog == 1 {
			o["progress"] = true
		}
		msg = pl.yield(inv, o)
	} else {
		msg = messages.NewError(messages.MessageTypeInvocation, inv, map[string]any{"d": "e"}, "app.error.x", args, kw)
	}
	legit := pd != nil && i == pd.callee && s.att[i]
	r, err := s.d.ReceiveMessage(s.sid(i), msg)
	what := fmt.Sprintf("%s from session %d for invocation %d", strings.ToUpper(kind), i, inv)
	tags := []string{"C07"}
	if s.detached {
		tags = append(tags, "C10")
	}
	if !s.att[i] {
		tags = append(tags, "C11")
	}
	if !legit {
		if err == nil && pd != nil && s.att[i] && kind == "yield" {
			// known finding, see KNOWN_FINDINGS.txt; anything else about it must be right
			fs = append(fs, Fail{Tags: []string{"C07"}, Msg: what, Known: knownYield})
			legit = true
		} else if err == nil {
			why := "there is no such outstanding invocation"
			if pd != nil {
				why = fmt.Sprintf("it was sent to session %d", pd.callee)
			}
			return append(fs, hard(fmt.Sprintf("%s was accepted (%T to session %d), but %s", what, msgOf(r), s.index(r.Recipient), why), tags...))
		} else {
			return fs
		}
	}
	if err != nil || r == nil || r.Message == nil {
		return append(fs, hard(fmt.Sprintf("%s, which is outstanding, was refused: %v", what, err), "C07", "C08"))
	}
	if r.Recipient != s.sid(pd.caller) {
		return append(fs, hard(fmt.Sprintf("%s is answered to session %d instead of caller %d", what, s.index(r.Recipient), pd.caller), "C07", "C10"))
	}
	wantReq := s.callReq(pd.call)
	if pd.call == 1000 {
		wantReq = s.req(s.nreq % 400)
	}
	if kind == "yield" {
		res, ok := r.Message.(*messages.Result)
		if !ok {
			return append(fs, hard(fmt.Sprintf("%s became %T", what, r.Message), "C07"))
		}
		if res.RequestID() != wantReq {
			add(fmt.Sprintf("%s became RESULT of request %d instead of %d", what, res.RequestID(), wantReq), "C07", "C08")
		}
		gotProg, _ := res.Details()["progress"].(bool)
		if gotProg != (prog == 1 && pd.recvProg) {
			add(fmt.Sprintf("%s (progress %d, receive_progress %v) became RESULT progress=%v", what, prog, pd.recvProg, gotProg), "C08")
		}
		if m := checkPayload("RESULT", pl, s.isStatic(pd.caller), res); m != "" {
			add(m, "C09")
		}
		if prog == 1 && pd.recvProg {
			pd.progressed = true
			return fs
		}
	} else {
		e, ok := r.Message.(*messages.Error)
		if !ok {
			return append(fs, hard(fmt.Sprintf("%s became %T", what, r.Message), "C07"))
		}
		if e.RequestID() != wantReq || e.MessageType() != messages.MessageTypeCall {
			add(fmt.Sprintf("%s became ERROR type %d request %d instead of CALL %d", what, e.MessageType(), e.RequestID(), wantReq), "C07")
		}
		if e.URI() != "app.error.x" || !same(e.Details(), map[string]any{"d": "e"}) || !same(e.Args(), args) || !same(e.KwArgs(), kw) {
			add("ERROR content differs from the callee's", "C09")
		}
	}
	s.dropPend(pd, 0)
	return fs
}

func (s *dealerSys) modelKey() string {
	var b strings.Builder
	for i := range s.att {
		if s.att[i] {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	if s.detached {
		b.WriteByte('x')
	}
	if s.disc {
		b.WriteByte('d')
	}
	b.WriteString(s.flipKey())
	rs := []string{}
	for _, r := range s.regs {
		rs = append(rs, fmt.Sprint(r.proc, "|", r.match, "|", r.policy, "|", r.holders, "|", r.recents))
	}
	sort.Strings(rs)
	b.WriteString(strings.Join(rs, ";"))
	for _, p := range s.pend {
		fmt.Fprint(&b, "/", p.caller, ":", p.call, ":", p.callee, ":", p.reg.proc, s.regs[p.reg.proc] == p.reg, p.recvProg, p.open, p.proc, p.mode)
	}
	for k, st := range s.staleInv {
		if st.inv != 0 {
			fmt.Fprint(&b, "~", k)
		}
	}
	if s.staleReg != 0 {
		b.WriteString("$")
	}
	return b.String()
}

func (s *dealerSys) Key() []byte { return []byte(s.modelKey() + "\x00" + s.dump()) }

func (s *dealerSys) idle() bool       { return len(s.regs) == 0 && len(s.pend) == 0 }
func (s *dealerSys) size() int        { return deepSize(s.d) }
func (s *dealerSys) attState() string { return fmt.Sprint(s.att, s.disc) }
func (s *dealerSys) shift(n int)      { s.base = n }

func init() {
	regD := func(name string, cfg dealerCfg) {
		c := cfg
		cfgReg[name] = func() Sys { return newDealerSys(&c) }
	}
	// D1: registration and routing
	mix := []regKey{{"a.b", "", ""}, {"a.b", "", "roundrobin"}, {"a.", "prefix", "first"}, {"a.*", "wildcard", ""}, {"a.b", "prefix", "roundrobin"}, {"*.b", "wildcard", "last"}}
	procs := []string{"a.b", "a.b.c", "a.x", "x.b", "z"}
	regD("dealer-2x6", dealerCfg{sessions: 2, keys: mix, procs: procs, composite: true})
	regD("dealer-3x3", dealerCfg{oneUser: true, sessions: 3, keys: []regKey{{"a.b", "", "last"}, {"a.", "prefix", "first"}, {"a.*", "wildcard", "first"}}, procs: []string{"a.b", "a.x", "z"}, composite: true, callers: []int{0}})
	regD("dealer-2xp", dealerCfg{sessions: 2, keys: []regKey{{"a", "prefix", "first"}, {"a.b", "prefix", "first"}, {"a.b.c", "", "first"}, {"a.*", "wildcard", "last"}, {"*", "wildcard", "first"}},
		procs: []string{"a.b.c", "a.b", "a.b.d", "a", "ax", "b"}, composite: true, callers: []int{1}})
	regD("dealer-3x6", dealerCfg{sessions: 3, keys: mix, procs: procs, composite: true, callers: []int{0}})
	// ids of other shapes
	for _, t := range []string{"small", "alias"} {
		regD("dealer-ids-"+t, dealerCfg{sessions: 3, keys: []regKey{{"p", "", "first"}, {"q.", "prefix", "roundrobin"}}, procs: []string{"p", "q.1", "z"}, composite: true, callers: []int{0, 1}, ids: t, disc: true})
		regD("dealer-idsp-"+t, dealerCfg{sessions: 4, keys: []regKey{{"p", "", ""}}, procs: []string{"p"}, callers: []int{0, 1, 2}, callees: []int{3},
			callIDs: 6, modes: []int{0}, maxPend: 2, attached: true, errs: true, noUnreg: true, noDetach: true, ids: t})
		regD("dealer-idsc-"+t, dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{2, 3},
			callIDs: 2, modes: []int{0, 3}, maxPend: 2, attached: true, errs: true, noUnreg: true, ids: t})
		regD("dealer-idsq-"+t, dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{2, 3},
			callIDs: 2, modes: []int{0, 3}, maxPend: 2, attached: true, errs: true, noUnreg: true, comeGo: []int{0, 2}, ids: t})
		regD("dealer-idsg-"+t, dealerCfg{sessions: 3, keys: []regKey{{"p", "", ""}}, procs: []string{"p"}, callers: []int{0, 1, 2}, callees: []int{2},
			callIDs: 6, modes: []int{3}, maxPend: 2, attached: true, yieldProg: true, noUnreg: true, noDetach: true, ids: t})
	}
	// sessions leave and registrations end while calls with the ids of registrations and sessions are under way
	regD("dealer-idsh-small", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}, {"q.", "prefix", ""}}, procs: []string{"p"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 2, modes: []int{2}, maxPend: 2, attached: true, ids: "small"})
	// procedures that differ little
	uris := func(m string) (out []regKey) {
		for _, u := range oddURIs {
			out = append(out, regKey{u, m, "first"})
		}
		return out
	}
	wcs := []regKey{}
	for _, k := range wcKeys {
		wcs = append(wcs, regKey{k.topic, "wildcard", "last"})
	}
	regD("dealer-uri", dealerCfg{sessions: 2, keys: uris(""), procs: oddURIs, composite: true, callers: []int{1}, callees: []int{0}, attached: true, comeGo: []int{0}, maxRegs: 3})
	regD("dealer-urip", dealerCfg{sessions: 2, keys: uris("prefix"), procs: oddURIs, composite: true, callers: []int{1}, callees: []int{0}, attached: true, comeGo: []int{0}, maxRegs: 3})
	regD("dealer-uriw", dealerCfg{sessions: 2, keys: wcs, procs: wcTopics, composite: true, callers: []int{1}, callees: []int{0}, attached: true, comeGo: []int{0}, maxRegs: 3})
	// C05: one URI, every combination of policies
	pol := []regKey{}
	for _, p := range []string{"", "single", "first", "last", "roundrobin", "random"} {
		for _, m := range []string{"", "exact", "prefix", "wildcard"} {
			if (m == "exact" || m == "wildcard") && p != "first" && p != "" {
				continue
			}
			pol = append(pol, regKey{"a.b", m, p})
		}
	}
	regD("dealer-pol", dealerCfg{sessions: 3, keys: append(pol, regKey{"c", "", ""}, regKey{"c", "", "first"}), procs: []string{"a.b", "a.bc", "c"}, composite: true, callers: []int{2}})
	regD("dealer-match", dealerCfg{sessions: 2, keys: []regKey{{"a.b", "", "first"}, {"a.b", "foo", "first"}, {"a.b", "Prefix", "first"}, {"a.b", "prefix", "first"}, {"c", "foo", "last"}, {"c", "", ""}},
		procs: []string{"a.b", "a.bc", "c", "cc"}, composite: true, callers: []int{0}})
	regD("dealer-pol2", dealerCfg{sessions: 2, keys: append(pol, regKey{"c", "", ""}, regKey{"c", "", "first"}), procs: []string{"a.b", "a.bc", "c"}, composite: true, callers: []int{0}})
	// D2: up to four sharers under each policy
	for _, p := range []string{"first", "last", "roundrobin", "random"} {
		regD("dealer-share3-"+p, dealerCfg{oneUser: true, sessions: 3, keys: []regKey{{"p", "", p}}, procs: []string{"p"}, composite: true, callers: []int{0}, attached: true})
		regD("dealer-share4-"+p, dealerCfg{sessions: 5, keys: []regKey{{"p", "", p}}, procs: []string{"p"}, composite: true, callers: []int{4}, callees: []int{0, 1, 2, 3}, attached: true})
		regD("dealer-share5-"+p, dealerCfg{sessions: 5, keys: []regKey{{"p", "prefix", p}}, procs: []string{"p.q"}, composite: true, callers: []int{0}, attached: true})
		regD("dealer-share2x-"+p, dealerCfg{sessions: 2, keys: []regKey{{"p", "", p}, {"p.", "prefix", p}, {"*", "wildcard", p}}, procs: []string{"p", "p.x", "q"}, composite: true, callers: []int{0}, attached: true})
	}
	// D3: outstanding calls
	regD("dealer-pend", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0, 1}, maxPend: 2, attached: true, errs: true, yieldProg: true, foreign: true})
	regD("dealer-pend3", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0}, maxPend: 3, attached: true, errs: true, foreign: true})
	regD("dealer-prog", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0, 2, 3}, maxPend: 2, attached: true, errs: true, yieldProg: true})
	regD("dealer-early", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0, 3}, maxPend: 3, attached: true, errs: true, yieldProg: true, noDetach: true, early: true})
	regD("dealer-prog2", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "last"}, {"q.", "prefix", "first"}}, procs: []string{"p", "q.1"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 1, modes: []int{1, 2, 3}, maxPend: 2, attached: true, errs: true, yieldProg: true})
	regD("dealer-pendq", dealerCfg{oneUser: true, sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0, 1}, maxPend: 2, attached: true, errs: true, yieldProg: true, foreign: true, noUnreg: true})
	regD("dealer-progq", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "last"}, {"q.", "prefix", "first"}}, procs: []string{"p", "q.1"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 1, modes: []int{3}, maxPend: 2, attached: true, yieldProg: true, noDetach: true})
	regD("dealer-prog3", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0, 1, 2, 3}, maxPend: 3, attached: true, errs: true, yieldProg: true, noDetach: true})
	// later chunks when another registration has become the best match
	regD("dealer-progm", dealerCfg{sessions: 3, keys: []regKey{{"p.q", "", "roundrobin"}, {"p.", "prefix", "roundrobin"}}, procs: []string{"p.q"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0, 2}, maxPend: 1, attached: true, errs: true})
	regD("dealer-progw", dealerCfg{sessions: 3, keys: []regKey{{"p.", "prefix", ""}, {"p.*", "wildcard", "first"}}, procs: []string{"p.q"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 1, modes: []int{2, 3}, maxPend: 1, attached: true, yieldProg: true, noDetach: true})
	regD("dealer-pendbig", dealerCfg{sessions: 4, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{2, 3},
		callIDs: 2, modes: []int{0, 1}, maxPend: 3, attached: true, errs: true, yieldProg: true, foreign: true})
	// every kind of call and answer
	regD("dealer-forms", dealerCfg{sessions: 2, keys: []regKey{{"p", "", ""}}, procs: []string{"p"}, callers: []int{0}, callees: []int{1},
		callIDs: 2, modes: []int{0, 1, 2, 3}, maxPend: 2, attached: true, errs: true, yieldProg: true, noDetach: true, forms: true, odd: true})
	regD("dealer-odd", dealerCfg{sessions: 3, static: []bool{false, true, false}, keys: []regKey{{"p", "", "roundrobin"}, {"q.", "prefix", ""}}, procs: []string{"p", "q.1", "none"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0, 1, 2, 3}, maxPend: 1, attached: true, yieldProg: true, errs: true, noDetach: true, noUnreg: true, toggle: true, odd: true, oddOpts: true})
	// relaying in every situation: chunks, progressive results, binary payloads, disclosure on and off
	regD("dealer-relay", dealerCfg{sessions: 3, static: []bool{false, true, false}, keys: []regKey{{"p", "", "roundrobin"}, {"q.", "prefix", ""}}, procs: []string{"p", "q.1"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0, 3}, maxPend: 1, attached: true, yieldProg: true, noDetach: true, noUnreg: true, toggle: true, blank: []int{0, 1}, binary: true, odd: true})
	regD("dealer-relay2", dealerCfg{sessions: 3, static: []bool{false, true, false}, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0, 3}, maxPend: 2, attached: true, yieldProg: true, noDetach: true, noUnreg: true, toggle: true, blank: []int{0, 1}, binary: true, odd: true, errs: true})
	// ids attached again by another user, on another kind of connection
	regD("dealer-flip", dealerCfg{sessions: 2, static: []bool{false, true}, flip: true, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{0, 1},
		callIDs: 1, modes: []int{0, 3}, maxPend: 1, attached: true, yieldProg: true, noUnreg: true, toggle: true, binary: true, errs: true})
	// C10: residue
	regD("dealer-residue", dealerCfg{sessions: 2, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p", "none"}, callers: []int{0, 1}, callees: []int{1},
		callIDs: 1, modes: []int{0, 1, 3}, maxPend: 2, attached: true, errs: true, yieldProg: true, fresh: true})
	regD("dealer-residue2", dealerCfg{sessions: 2, keys: []regKey{{"p", "prefix", "first"}, {"*", "wildcard", "last"}}, procs: []string{"p", "q"}, callers: []int{0}, callees: []int{0, 1},
		callIDs: 1, modes: []int{0, 2}, maxPend: 1, attached: true, errs: true, fresh: true})
	regD("dealer-residue3", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "roundrobin"}}, procs: []string{"p"}, callers: []int{0, 1}, callees: []int{1, 2},
		callIDs: 2, modes: []int{0, 3}, maxPend: 2, attached: true, errs: true, yieldProg: true, fresh: true})
	regD("dealer-reuse", dealerCfg{oneUser: true, sessions: 3, keys: []regKey{{"p", "", "roundrobin"}, {"p.", "prefix", ""}}, procs: []string{"p", "p.q"}, callers: []int{0}, callees: []int{1, 2},
		callIDs: 1, modes: []int{0}, maxPend: 1, errs: true})
	regD("dealer-inject2", dealerCfg{sessions: 2, keys: []regKey{{"p", "", "first"}, {"q", "prefix", ""}}, procs: []string{"p"}, callers: []int{0}, callees: []int{0, 1},
		callIDs: 1, modes: []int{3}, maxPend: 1, noUnreg: true})
	regD("dealer-inject", dealerCfg{sessions: 3, keys: []regKey{{"p", "", "first"}, {"q", "prefix", ""}}, procs: []string{"p", "q.1"}, callers: []int{0}, callees: []int{0, 1},
		callIDs: 1, modes: []int{0, 3}, maxPend: 1, errs: true})
	regD("dealer-injectd", dealerCfg{sessions: 2, keys: []regKey{{"p", "", "first"}, {"q", "wildcard", ""}}, procs: []string{"p"}, callers: []int{0}, callees: []int{0, 1},
		noUnreg: true, callIDs: 1, modes: []int{0}, maxPend: 1, errs: true, disc: true})
}

func init() {
	register("C04", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"dealer-2x6", "dealer-3x3", "dealer-2xp", "dealer-ids-alias", "dealer-ids-small@7", "dealer-uri", "dealer-urip", "dealer-uriw", "dealer-match", "scripts"},
			[]string{"dealer-2x6", "dealer-3x3", "dealer-2xp", "dealer-ids-alias", "dealer-ids-small@10", "dealer-uri", "dealer-urip", "dealer-uriw", "dealer-match", "scripts", "dealer-pol2", "dealer-3x6"})...)
	})
	register("C05", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"dealer-pol2", "dealer-2x6", "dealer-ids-alias", "dealer-ids-small@7", "dealer-uri", "dealer-urip", "dealer-uriw", "dealer-match", "scripts"}, []string{"dealer-pol2", "dealer-2x6", "dealer-ids-alias", "dealer-ids-small@10", "dealer-uri", "dealer-urip", "dealer-uriw", "dealer-match", "scripts", "dealer-pol", "dealer-3x6"})...)
	})
	register("C06", "model_checking", func(c *Ctx) *Violation {
		var l []string
		for _, p := range []string{"first", "last", "roundrobin", "random"} {
			l = append(l, "dealer-share3-"+p, "dealer-share2x-"+p)
			if p != "roundrobin" || !c.Quick() {
				l = append(l, "dealer-share4-"+p)
			}
			if !c.Quick() {
				l = append(l, "dealer-share5-"+p)
			}
		}
		if c.Quick() {
			l = append(l, "dealer-share4-roundrobin")
		}
		for _, n := range l {
			if v := RunBFS(c, n, 0, 0, nil); v != nil {
				return v
			}
		}
		if v := runScripts(c); v != nil {
			return v
		}
		return runConc(c, 8)
	})
	register("C07", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"dealer-forms", "dealer-odd", "dealer-early", "dealer-pendq", "dealer-idsp-alias", "dealer-idsp-small@6", "dealer-idsq-alias", "scripts"}, []string{"dealer-forms", "dealer-odd", "dealer-early", "dealer-idsp-alias", "dealer-idsp-small", "dealer-idsq-alias", "dealer-idsc-alias", "dealer-idsc-small@9", "scripts", "dealer-pend", "dealer-pend3", "dealer-prog", "dealer-pendbig"})...)
	})
	register("C08", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"dealer-forms", "dealer-odd", "dealer-early", "dealer-prog", "dealer-progq", "dealer-progm", "dealer-progw", "dealer-idsg-alias", "dealer-idsg-small@7", "dealer-idsh-small@7", "scripts"}, []string{"dealer-forms", "dealer-odd", "dealer-early", "dealer-prog", "dealer-progm", "dealer-progw", "dealer-idsg-alias", "dealer-idsg-small", "dealer-idsh-small@9", "scripts", "dealer-prog2", "dealer-prog3"})...)
	})
}
