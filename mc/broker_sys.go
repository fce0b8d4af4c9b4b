package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type subKey struct {
	topic, match string // match "" = option absent (meaning exact)
}

func (k subKey) norm() subKey {
	k.match = normMatch(k.match)
	return k
}

type brokerCfg struct {
	sessions int
	keys     []subKey
	topics   []string // published topics
	acks     []int    // 0 absent, 1 true, 2 false
	excl     []int    // exclude_me: 0 absent, 1 true, 2 false
	payloads []int
	oddOpts  bool // flags that are not set are given as something other than true or false, along with options that mean nothing here
	toggle   bool // disclosure can be switched
	attached bool // all sessions attached at the start
	noDetach bool
	maxSubs  int
	onlyPub  []int  // sessions that publish (nil: all)
	subBy    []int  // sessions that subscribe, come and go (nil: all)
	fresh    bool   // a session that attaches again has a new id
	ids      string // table of session and request ids
	oneUser  bool   // all sessions are of one user
	blank    []int  // sessions without authid, and without role but for session 0
	flip     bool   // an id that is attached again is another user
}

type mSub struct {
	key     subKey
	id      uint64
	holders map[int]bool
}

type brokerSys struct {
	sessIDs
	cfg      *brokerCfg
	b        *wampproto.Broker
	att      []bool
	subs     map[subKey]*mSub // live ones, by normalised key
	stale    uint64           // most recently ended subscription id
	disc     bool
	ids      idNames
	pubs     map[uint64]bool
	detached bool
	nreq     int
}

func newBrokerSys(cfg *brokerCfg) *brokerSys {
	s := &brokerSys{sessIDs: newSessIDs(cfg.sessions, cfg.fresh), cfg: cfg, b: wampproto.NewBroker(), att: make([]bool, cfg.sessions), subs: map[subKey]*mSub{},
		pubs: map[uint64]bool{}}
	s.use(cfg.ids)
	s.oneUser = s.oneUser || cfg.oneUser
	s.flip = cfg.flip
	s.blank = cfg.blank
	if cfg.attached {
		for i := range s.att {
			if err := s.b.AddSession(s.details(i, false)); err != nil {
				panic(err)
			}
			s.att[i] = true
		}
	}
	return s
}

func (s *brokerSys) sortedSubs() []*mSub {
	out := make([]*mSub, 0, len(s.subs))
	for i := range s.cfg.keys {
		if m := s.subs[s.cfg.keys[i].norm()]; m != nil {
			dup := false
			for _, o := range out {
				dup = dup || o == m
			}
			if !dup {
				out = append(out, m)
			}
		}
	}
	return out
}

const neverID = uint64(4_999_999_999_999_999)

// unsub targets: index into keys (normalised, live) | -1 stale | -2 never issued
func (s *brokerSys) Ops() []Op {
	var ops []Op
	c := s.cfg
	pubs := c.onlyPub
	if pubs == nil {
		for i := range s.att {
			pubs = append(pubs, i)
		}
	}
	// self-loops first
	for _, p := range pubs {
		if !s.att[p] {
			continue
		}
		for t := range c.topics {
			for _, a := range c.acks {
				for _, e := range c.excl {
					for _, pl := range c.payloads {
						ops = append(ops, Op{"pub", []int{p, t, a, e, pl}})
					}
				}
			}
		}
	}
	for i := range s.att {
		if s.att[i] {
			ops = append(ops, Op{"unsub", []int{i, -2}})
			if s.stale != 0 {
				ops = append(ops, Op{"unsub", []int{i, -1}})
			}
		}
	}
	if len(s.subs) > 0 {
		ops = append(ops, Op{"near", nil})
	}
	if c.toggle {
		d := 1
		if s.disc {
			d = 0
		}
		ops = append(ops, Op{"disclose", []int{d}})
	}
	for _, i := range allOr(c.subBy, len(s.att)) {
		if !s.att[i] {
			if !c.noDetach {
				ops = append(ops, Op{"attach", []int{i}})
			}
			continue
		}
		for k := range c.keys {
			if c.maxSubs > 0 && len(s.subs) >= c.maxSubs && s.subs[c.keys[k].norm()] == nil {
				continue
			}
			ops = append(ops, Op{"sub", []int{i, k}})
		}
		for _, m := range s.sortedSubs() {
			for k := range c.keys {
				if c.keys[k].norm() == m.key {
					ops = append(ops, Op{"unsub", []int{i, k}})
					break
				}
			}
		}
		if !c.noDetach {
			ops = append(ops, Op{"detach", []int{i}})
		}
	}
	return ops
}

// SelfLoop: refused requests change nothing.
func (s *brokerSys) SelfLoop(o Op) bool { return o.N == "unsub" && o.A[1] < 0 }

func (s *brokerSys) Describe(o Op) string {
	c := s.cfg
	tri := func(n string, v int) string { return n + "=" + []string{"absent", "true", "false"}[v] }
	switch o.N {
	case "sub":
		return fmt.Sprintf("session %d SUBSCRIBE %q match=%q", o.A[0], c.keys[o.A[1]].topic, c.keys[o.A[1]].match)
	case "unsub":
		what := "a never issued subscription id"
		if o.A[1] == -1 {
			what = "the last ended subscription id"
		} else if o.A[1] >= 0 {
			what = fmt.Sprintf("the subscription of %v", c.keys[o.A[1]].norm())
		}
		return fmt.Sprintf("session %d UNSUBSCRIBE %s", o.A[0], what)
	case "pub":
		return fmt.Sprintf("session %d PUBLISH %q %s %s payload#%d", o.A[0], c.topics[o.A[1]], tri("acknowledge", o.A[2]),
			tri("exclude_me", o.A[3]), o.A[4])
	}
	return o.String()
}

var payloadSet = []struct {
	args []any
	kw   map[string]any
}{
	{[]any{"x", uint64(1)}, nil},
	{nil, nil},
	{[]any{}, map[string]any{}},
	{nil, map[string]any{"k": []any{1, "z"}}},
	{[]any{nil, true, []any{map[string]any{"d": 1.5}}}, map[string]any{"a": nil, "b": map[string]any{"c": ""}}},
	{[]any{[]byte{0, 1, 255}}, map[string]any{"": ""}},
	{longPayload.args[:300], longPayload.kw},
}

func clonePayload(i int) ([]any, map[string]any) {
	p := payloadSet[i]
	var a []any
	var k map[string]any
	if p.args != nil {
		a = deepCopy(p.args).([]any)
	}
	if p.kw != nil {
		k = deepCopy(p.kw).(map[string]any)
	}
	return a, k
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = deepCopy(x[i])
		}
		return o
	case map[string]any:
		o := make(map[string]any, len(x))
		for k := range x {
			o[k] = deepCopy(x[k])
		}
		return o
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

// candidates gives the live subscriptions that best match a topic.
func (s *brokerSys) candidates(topic string) []*mSub {
	if m := s.subs[subKey{topic, "exact"}]; m != nil {
		return []*mSub{m}
	}
	var best *mSub
	for k, m := range s.subs {
		if k.match == "prefix" && hasPrefix(topic, k.topic) && (best == nil || len(k.topic) > len(best.key.topic)) {
			best = m
		}
	}
	if best != nil {
		return []*mSub{best}
	}
	var out []*mSub
	for k, m := range s.subs {
		if k.match == "wildcard" && globMatch(k.topic, topic) {
			out = append(out, m)
		}
	}
	return out
}

func (s *brokerSys) anyMatches(topic string) int {
	n := 0
	for k := range s.subs {
		if (k.match == "exact" && k.topic == topic) || (k.match == "prefix" && hasPrefix(topic, k.topic)) ||
			(k.match == "wildcard" && globMatch(k.topic, topic)) {
			n++
		}
	}
	return n
}

func (s *brokerSys) Do(o Op) []Fail {
	fs := s.do(o)
	hardF := false
	for _, f := range fs {
		hardF = hardF || f.Hard
	}
	if !hardF && o.N != "pub" {
		fs = append(fs, s.checkHas()...)
	}
	return fs
}

func (s *brokerSys) checkHas() []Fail {
	var fs []Fail
	done := map[string]bool{}
	for _, k := range s.cfg.keys {
		if done[k.topic] {
			continue
		}
		done[k.topic] = true
		want := s.subs[subKey{k.topic, "exact"}] != nil || s.subs[subKey{k.topic, "prefix"}] != nil ||
			s.subs[subKey{k.topic, "wildcard"}] != nil
		if got := s.b.HasSubscription(k.topic); got != want {
			fs = append(fs, fail(fmt.Sprintf("HasSubscription(%q) = %v, but it should be %v", k.topic, got, want), "C02"))
		}
	}
	return fs
}

func (s *brokerSys) dump() string { return deepDump(s.b, s.namer()) }

func (s *brokerSys) namer() Namer {
	cur := s.sessIDs.names()
	if s.stale != 0 {
		cur[s.stale] = "stale"
	}
	for k, m := range s.subs {
		cur[m.id] = "s:" + k.topic + ":" + k.match
	}
	s.ids.used = s.pubs
	return s.ids.namer(cur)
}

func (s *brokerSys) endHold(m *mSub, i int) {
	delete(m.holders, i)
	if len(m.holders) == 0 {
		delete(s.subs, m.key)
		s.stale = m.id
	}
}

func (s *brokerSys) do(o Op) (fs []Fail) {
	c := s.cfg
	s.nreq++
	req := s.req(s.nreq % 500)
	switch o.N {
	case "attach":
		i := o.A[0]
		s.renew(i)
		if err := s.b.AddSession(s.details(i, false)); err != nil {
			return []Fail{hard(fmt.Sprintf("attaching session %d failed: %v", i, err), "C10", "C11", "C01", "C02")}
		}
		s.att[i] = true
	case "detach":
		i := o.A[0]
		if err := s.b.RemoveSession(s.sid(i)); err != nil {
			return []Fail{hard(fmt.Sprintf("detaching session %d failed: %v", i, err), "C10", "C11", "C02")}
		}
		s.att[i] = false
		s.detached = true
		for _, m := range s.sortedSubs() {
			if m.holders[i] {
				s.endHold(m, i)
			}
		}
	case "disclose":
		s.disc = o.A[0] == 1
		s.b.AutoDisclosePublisher(s.disc)
	case "sub":
		i, k := o.A[0], c.keys[o.A[1]]
		opts := map[string]any{}
		if k.match != "" {
			opts["match"] = k.match
		}
		r, err := s.b.ReceiveMessage(s.sid(i), messages.NewSubscribe(req, opts, k.topic))
		if err != nil || r == nil || r.Message == nil {
			return []Fail{hard(fmt.Sprintf("SUBSCRIBE by attached session refused: %v", err), "C02")}
		}
		sub, ok := r.Message.(*messages.Subscribed)
		if !ok || r.Message.Type() != messages.MessageTypeSubscribed {
			return []Fail{hard(fmt.Sprintf("SUBSCRIBE answered with %T", r.Message), "C02")}
		}
		if r.Recipient != s.sid(i) {
			fs = append(fs, fail(fmt.Sprintf("SUBSCRIBED goes to %d instead of the subscriber", r.Recipient), "C02", "C10"))
		}
		if sub.RequestID() != req {
			fs = append(fs, fail(fmt.Sprintf("SUBSCRIBED has request id %d instead of %d", sub.RequestID(), req), "C02"))
		}
		id := sub.SubscriptionID()
		m := s.subs[k.norm()]
		if m != nil {
			if id != m.id {
				fs = append(fs, hard(fmt.Sprintf("second holder of %v got subscription id %d, the first has %d", k, id, m.id), "C02"))
				return fs
			}
			m.holders[i] = true
		} else {
			for _, other := range s.subs {
				if other.id == id {
					fs = append(fs, hard(fmt.Sprintf("subscription id %d of %v is shared with the different subscription %v", id, k.norm(), other.key), "C02", "C01"))
					return fs
				}
			}
			if id == 0 {
				fs = append(fs, fail("subscription id is 0", "C02"))
			}
			s.ids.saw(id)
			s.subs[k.norm()] = &mSub{key: k.norm(), id: id, holders: map[int]bool{i: true}}
			if id == s.stale {
				s.stale = 0
			}
		}
	case "unsub":
		i := o.A[0]
		var id uint64
		var m *mSub
		switch o.A[1] {
		case -1:
			id = s.stale
		case -2:
			id = neverID
		default:
			m = s.subs[c.keys[o.A[1]].norm()]
			if m == nil {
				return []Fail{{Msg: "replay out of step", Hard: true}}
			}
			id = m.id
		}
		held := m != nil && m.holders[i]
		r, err := s.b.ReceiveMessage(s.sid(i), messages.NewUnsubscribe(req, id))
		if !held {
			if err == nil && !refusedBy(r, messages.MessageTypeUnsubscribe, s.sid(i)) {
				return append(fs, hard(fmt.Sprintf("session %d unsubscribed an id it does not hold and got %T", i, msgOf(r)), "C02", "C11"))
			}
			return fs
		}
		if err != nil || r == nil {
			fs = append(fs, hard(fmt.Sprintf("UNSUBSCRIBE of a held subscription refused: %v", err), "C02"))
			return fs
		}
		un, ok := r.Message.(*messages.Unsubscribed)
		if !ok || r.Recipient != s.sid(i) || un.RequestID() != req {
			fs = append(fs, fail(fmt.Sprintf("UNSUBSCRIBE answered by %T to %d", r.Message, r.Recipient), "C02"))
		}
		s.endHold(m, i)
	case "near":
		// ids that differ from live ones in one bit belong to nothing
		live := map[uint64]bool{}
		for _, m := range s.subs {
			live[m.id] = true
		}
		for i := range s.att {
			if !s.att[i] {
				continue
			}
			for _, id := range nearIDs(live) {
				r, err := s.b.ReceiveMessage(s.sid(i), messages.NewUnsubscribe(req, id))
				if err == nil && !refusedBy(r, messages.MessageTypeUnsubscribe, s.sid(i)) {
					return append(fs, hard(fmt.Sprintf("session %d unsubscribed id %d, which no subscription has (those in use: %v), and got %T", i, id, sortedIDs(live), msgOf(r)), "C02", "C11"))
				}
			}
		}
	case "pub":
		return s.publish(o, req)
	default:
		panic("unknown op " + o.N)
	}
	return fs
}

// refusedBy: a refusal by an ERROR message to the requester would do as well as
// a Go error.
func refusedBy(r *wampproto.MessageWithRecipient, typ uint64, to uint64) bool {
	e, ok := msgOf(r).(*messages.Error)
	return ok && e.MessageType() == typ && r.Recipient == to
}

func msgOf(r *wampproto.MessageWithRecipient) any {
	if r == nil {
		return nil
	}
	return r.Message
}

func (s *brokerSys) publish(o Op, req uint64) (fs []Fail) {
	c := s.cfg
	i, topic := o.A[0], c.topics[o.A[1]]
	opts := map[string]any{}
	if c.oddOpts {
		// flags that are neither true nor false, and keys that mean something elsewhere
		opts = map[string]any{"acknowledge": uint64(1), "exclude_me": uint64(0), "publisher": uint64(1), "publisher_authid": "eve", "publisher_authrole": "admin", "topic": "other",
			"disclose_me": true, "match": "prefix", "progress": true}
	}
	if o.A[2] != 0 {
		opts["acknowledge"] = o.A[2] == 1
	}
	if o.A[3] != 0 {
		opts["exclude_me"] = o.A[3] == 1
	}
	args, kw := clonePayload(o.A[4])
	wantArgs, wantKw := clonePayload(o.A[4])
	msg := messages.NewPublish(req, opts, topic, args, kw)
	p, err := s.b.ReceivePublish(s.sid(i), msg)
	if err != nil || p == nil {
		return []Fail{hard(fmt.Sprintf("PUBLISH by attached session refused: %v", err), "C01", "C03")}
	}
	add := func(msg string, tags ...string) { fs = append(fs, fail(msg, tags...)) }

	// acknowledgement
	var ackID uint64
	if o.A[2] == 1 {
		if p.Ack == nil {
			add("acknowledged PUBLISH got no PUBLISHED", "C03")
		} else if pub, ok := p.Ack.Message.(*messages.Published); !ok {
			add(fmt.Sprintf("acknowledgement is a %T", p.Ack.Message), "C03")
		} else {
			if pub.RequestID() != req {
				add(fmt.Sprintf("PUBLISHED has request id %d instead of %d", pub.RequestID(), req), "C03")
			}
			if p.Ack.Recipient != s.sid(i) {
				add(fmt.Sprintf("PUBLISHED goes to %d instead of the publisher", p.Ack.Recipient), "C03", "C10")
			}
			ackID = pub.PublicationID()
			if ackID == 0 {
				add("publication id is 0", "C03")
			}
		}
	} else if p.Ack != nil {
		add("PUBLISH without acknowledge got an acknowledgement", "C03")
	}

	// recipients
	cands := s.candidates(topic)
	got := map[uint64]int{}
	for _, r := range p.Recipients {
		got[r]++
	}
	want := func(m *mSub) map[uint64]int {
		w := map[uint64]int{}
		for h := range m.holders {
			if h == i && o.A[3] != 2 {
				continue
			}
			w[s.sid(h)] = 1
		}
		return w
	}
	// with several equally good wildcard subscriptions the event's own id tells
	// which one was taken
	var taken *mSub
	if p.Event != nil && p.Event.EventFields != nil {
		for _, m := range cands {
			if m.id == p.Event.SubscriptionID() {
				taken = m
			}
		}
	}
	tags := []string{"C01"}
	if s.anyMatches(topic) <= 1 {
		tags = append(tags, "C02") // nothing to choose from: a matter of who holds the subscription
	}
	if s.detached {
		tags = append(tags, "C10")
	}
	okRecipients := false
	if len(cands) == 0 {
		okRecipients = len(got) == 0
	} else if taken != nil {
		okRecipients = sameCounts(got, want(taken))
	} else {
		for _, m := range cands {
			okRecipients = okRecipients || sameCounts(got, want(m))
		}
	}
	for r := range got {
		x := s.index(r)
		att := x >= 0 && s.att[x]
		if !att {
			add(fmt.Sprintf("event is addressed to session %d, which is not attached", r), "C10", "C01", "C11")
		}
	}
	if !okRecipients {
		add(fmt.Sprintf("event on %q by session %d (exclude_me %d) goes to %v, but the best matching subscription is held by %v",
			topic, i, o.A[3], s.recipients(got), holdersOf(cands)), tags...)
	}
	if len(p.Recipients) > 0 && (p.Event == nil || p.Event.EventFields == nil) {
		add("recipients but no event", "C01", "C03")
		return fs
	}
	if p.Event == nil || p.Event.EventFields == nil {
		if ackID != 0 {
			if s.pubs[ackID] {
				add(fmt.Sprintf("publication id %d used twice", ackID), "C03")
			}
			s.pubs[ackID] = true
			s.ids.saw(ackID)
		}
		return fs
	}
	ev := p.Event
	if len(p.Recipients) > 0 && len(cands) > 0 && taken == nil {
		add(fmt.Sprintf("event on %q carries subscription id %d, its recipients got %v when subscribing", topic, ev.SubscriptionID(), idsOf(cands)), "C03", "C01")
	}
	if len(p.Recipients) > 0 {
		if !same(ev.Args(), wantArgs) || !same(ev.KwArgs(), wantKw) {
			add(fmt.Sprintf("event carries args %v kwargs %v instead of %v %v", ev.Args(), ev.KwArgs(), wantArgs, wantKw), "C03")
		}
		det := ev.Details()
		if s.disc {
			if !same(det["publisher"], s.sid(i)) || !same(det["publisher_authid"], s.authid(i)) ||
				!same(det["publisher_authrole"], s.role(i)) {
				add(fmt.Sprintf("disclosure is on, but event details of publisher %d (authid %q, role %q) are %v", s.sid(i), s.authid(i), s.role(i), det), "C03")
			}
		} else {
			for k := range det {
				if strings.HasPrefix(k, "publisher") {
					add(fmt.Sprintf("disclosure is off, but event details are %v", det), "C03")
					break
				}
			}
		}
		if t, ok := det["topic"]; ok && !same(t, topic) {
			add(fmt.Sprintf("event details name topic %v instead of %q", t, topic), "C03")
		}
	}
	if !same(msg.Args(), wantArgs) || !same(msg.KwArgs(), wantKw) || msg.Topic() != topic {
		add("publishing altered the publisher's message", "C03")
	}
	id := ev.PublicationID()
	if ackID != 0 && id != ackID {
		add(fmt.Sprintf("event has publication id %d, the acknowledgement %d", id, ackID), "C03")
	}
	if id == 0 && len(p.Recipients) > 0 {
		add("publication id is 0", "C03")
	}
	for _, x := range []uint64{id, ackID} {
		if x != 0 && s.pubs[x] {
			add(fmt.Sprintf("publication id %d used twice", x), "C03")
		}
	}
	s.pubs[id] = true
	s.ids.saw(id)
	return fs
}

func sameCounts(a, b map[uint64]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (s *brokerSys) recipients(m map[uint64]int) []string {
	out := []string{}
	for k, v := range m {
		out = append(out, fmt.Sprintf("session %d x%d", s.index(k), v))
	}
	sort.Strings(out)
	return out
}

func holdersOf(ms []*mSub) []string {
	out := []string{}
	for _, m := range ms {
		h := []string{}
		for i := range m.holders {
			h = append(h, fmt.Sprint(i))
		}
		sort.Strings(h)
		out = append(out, fmt.Sprintf("%s/%s: sessions %s", m.key.topic, m.key.match, strings.Join(h, ",")))
	}
	sort.Strings(out)
	return out
}

func idsOf(ms []*mSub) []uint64 {
	out := []uint64{}
	for _, m := range ms {
		out = append(out, m.id)
	}
	return out
}

func (s *brokerSys) modelKey() string {
	var b strings.Builder
	for i := range s.att {
		if s.att[i] {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	if s.disc {
		b.WriteByte('d')
	}
	b.WriteString(s.flipKey())
	if s.detached {
		b.WriteByte('x')
	}
	ks := []string{}
	for k, m := range s.subs {
		h := ""
		for i := range s.att {
			if m.holders[i] {
				h += fmt.Sprint(i)
			}
		}
		ks = append(ks, k.topic+"|"+k.match+"|"+h)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	if s.stale != 0 {
		b.WriteString("$")
	}
	return b.String()
}

func (s *brokerSys) Key() []byte { return []byte(s.modelKey() + "\x00" + s.dump()) }

func (s *brokerSys) idle() bool { return len(s.subs) == 0 }

func (s *brokerSys) size() int { return deepSize(s.b) }
func (s *brokerSys) attState() string {
	return fmt.Sprint(s.att, s.disc)
}
func (s *brokerSys) shift(int) {}

// ---- configurations ----

var keysMix = []subKey{{"a.b", ""}, {"a.b", "prefix"}, {"a.*", "wildcard"}, {"a.", "prefix"}, {"*.b", "wildcard"}, {"a.b", "wildcard"}}

// oddURIs: URIs that are equal only to somebody who looks at them carelessly.
var oddURIs = []string{"a.b", "A.b", "a.b.", "a..b", ".a.b", " a.b", "a.b\x00", "", ".", "é", "e\u0301", "a_b", "aXb", "a.b.a.b",
	strings.Repeat("a.b.", 40), strings.Repeat("a.b.", 40) + "x", strings.Repeat("l", 300) + "1", strings.Repeat("l", 300) + "2", "a.\xffb"}

func uriKeys(match string) []subKey {
	var out []subKey
	for _, u := range oddURIs {
		out = append(out, subKey{u, match})
	}
	return out
}

var wcKeys = []subKey{{"a.*.c", "wildcard"}, {"*.c", "wildcard"}, {"a*", "wildcard"}, {"*", "wildcard"}, {"", "wildcard"}, {"a.b.c", "wildcard"}, {"**", "wildcard"},
	{"*b*", "wildcard"}, {"a..c", "wildcard"}, {"a.b.*", "wildcard"}, {"A.*", "wildcard"}}
var wcTopics = []string{"a.b.c", "a..c", "a.c", "a.b.b.c", "a", "", "b", "c", "A.b", "a.b.", "a.b.c.d", "é.c", "aXbXc", "."}

func init() {
	regB := func(name string, cfg brokerCfg) {
		c := cfg
		cfgReg[name] = func() Sys { return newBrokerSys(&c) }
	}
	pubT := []string{"a.b", "a.b.c", "a.x", "x.b", "z"}
	// best-match delivery and lifecycle: two sessions, six overlapping subscriptions
	regB("broker-2x6", brokerCfg{sessions: 2, keys: keysMix, topics: pubT, acks: []int{0}, excl: []int{0, 2}, payloads: []int{0}})
	regB("broker-3x3", brokerCfg{oneUser: true, sessions: 3, keys: keysMix[:3], topics: pubT[:4], acks: []int{0}, excl: []int{0, 1, 2}, payloads: []int{0}})
	regB("broker-3x4p", brokerCfg{sessions: 3, keys: []subKey{{"a", "prefix"}, {"a.b", "prefix"}, {"a.*", "wildcard"}, {"a.b.c", "exact"}},
		topics: []string{"a.b.c", "a.b", "a.x", "a", "b"}, acks: []int{0}, excl: []int{0}, payloads: []int{0}})
	regB("broker-3x5", brokerCfg{sessions: 3, keys: keysMix[:5], topics: pubT, acks: []int{0}, excl: []int{0, 2}, payloads: []int{0}})
	regB("broker-2x8", brokerCfg{sessions: 2, keys: append(append([]subKey{}, keysMix...), subKey{"a.b.c", "prefix"}, subKey{"a.x", "exact"}),
		topics: pubT, acks: []int{0}, excl: []int{0, 2}, payloads: []int{0}})
	regB("broker-4x3", brokerCfg{sessions: 4, keys: []subKey{{"a.b", "exact"}, {"a.", "prefix"}, {"a.*", "wildcard"}}, topics: pubT[:3],
		acks: []int{0}, excl: []int{0}, payloads: []int{0}})
	regB("broker-life-2x5", brokerCfg{sessions: 2, keys: []subKey{{"a.b", ""}, {"a.b", "exact"}, {"a.b", "prefix"}, {"a.b", "wildcard"}, {"c", ""}, {"*", "wildcard"}, {"", "prefix"}},
		topics: []string{"a.b", "c", "d"}, acks: []int{0}, excl: []int{2}, payloads: []int{0}})
	// ids of other shapes
	for _, t := range []string{"small", "alias"} {
		regB("broker-ids-"+t, brokerCfg{sessions: 4, keys: []subKey{{"a.b", ""}, {"a.", "prefix"}}, topics: []string{"a.b", "a.x"}, acks: []int{0, 1}, excl: []int{0, 2}, payloads: []int{0}, ids: t})
		regB("broker-ids3-"+t, brokerCfg{sessions: 3, keys: []subKey{{"a.b", ""}, {"a.", "prefix"}, {"a.*", "wildcard"}}, topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{2}, payloads: []int{0}, ids: t, toggle: true})
	}
	// topics that differ little
	regB("broker-uri", brokerCfg{sessions: 2, keys: uriKeys(""), topics: oddURIs, acks: []int{0}, excl: []int{2}, payloads: []int{0}, onlyPub: []int{1}, maxSubs: 3, subBy: []int{0}, attached: true})
	regB("broker-urip", brokerCfg{sessions: 2, keys: uriKeys("prefix"), topics: oddURIs, acks: []int{0}, excl: []int{2}, payloads: []int{0}, onlyPub: []int{1}, maxSubs: 3, subBy: []int{0}, attached: true})
	regB("broker-uriw", brokerCfg{sessions: 2, keys: wcKeys, topics: wcTopics, acks: []int{0}, excl: []int{2}, payloads: []int{0}, onlyPub: []int{1}, maxSubs: 3, subBy: []int{0}, attached: true})
	// fidelity: payloads, options, disclosure
	regB("broker-match", brokerCfg{sessions: 2, keys: []subKey{{"a.b", ""}, {"a.b", "foo"}, {"a.b", "Prefix"}, {"a.b", "prefix"}, {"c", "foo"}}, topics: []string{"a.b", "a.bc", "c", "cc"},
		acks: []int{0}, excl: []int{2}, payloads: []int{0}})
	regB("broker-fid", brokerCfg{sessions: 2, keys: keysMix[:3], topics: []string{"a.b", "a.b.c", "a.x", "z"}, acks: []int{0, 1, 2}, excl: []int{0, 1, 2},
		payloads: []int{0, 1, 2, 3, 4, 5, 6}, toggle: true, blank: []int{0, 1}})
	regB("broker-flip", brokerCfg{flip: true, sessions: 2, keys: keysMix[:2], topics: []string{"a.b", "z"}, acks: []int{0, 1}, excl: []int{0, 2}, payloads: []int{0, 3}, toggle: true})
	regB("broker-odd", brokerCfg{sessions: 2, keys: keysMix[:3], topics: []string{"a.b", "a.b.c", "a.x", "z"}, acks: []int{0, 1, 2}, excl: []int{0, 1, 2}, payloads: []int{0, 3}, toggle: true, oddOpts: true})
	regB("broker-fid3", brokerCfg{sessions: 3, keys: keysMix[:4], topics: []string{"a.b", "a.b.c", "a.x"}, acks: []int{0, 1, 2}, excl: []int{0, 2},
		payloads: []int{0, 3, 4}, toggle: true})
	// residue
	regB("broker-residue", brokerCfg{sessions: 2, keys: keysMix[:4], topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{2}, payloads: []int{0}, attached: true, fresh: true})
	regB("broker-residue3", brokerCfg{sessions: 3, keys: keysMix[:4], topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{2}, payloads: []int{0}, attached: true, fresh: true})
	regB("broker-reuse", brokerCfg{oneUser: true, sessions: 3, keys: []subKey{{"a.b", ""}, {"a.", "prefix"}, {"a.*", "wildcard"}}, topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{0, 2}, payloads: []int{0}, onlyPub: []int{0, 2}})
	regB("broker-inject2", brokerCfg{sessions: 2, keys: []subKey{{"a.b", ""}, {"a.b", "prefix"}, {"a.*", "wildcard"}}, topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{2}, payloads: []int{0}})
	regB("broker-inject", brokerCfg{sessions: 3, keys: []subKey{{"a.b", ""}, {"a.b", "prefix"}, {"a.*", "wildcard"}}, topics: []string{"a.b", "a.x"}, acks: []int{1}, excl: []int{2}, payloads: []int{0}})
}

// splitDepth reads name@depth.
func splitDepth(n string) (string, int) {
	if i := strings.IndexByte(n, '@'); i >= 0 {
		d, err := strconv.Atoi(n[i+1:])
		if err != nil {
			panic(err)
		}
		return n[:i], d
	}
	return n, 0
}

func runCfgs(c *Ctx, onState func(Sys, []Op) []Fail, names ...string) *Violation {
	for _, n := range names {
		if n == "scripts" {
			if v := runScripts(c); v != nil {
				return v
			}
			continue
		}
		n, depth := splitDepth(n)
		if v := RunBFS(c, n, depth, 0, onState); v != nil {
			return v
		}
	}
	return nil
}

func init() {
	register("C01", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"broker-2x6", "broker-odd", "broker-3x3", "broker-3x4p", "broker-ids-alias", "broker-ids-small@7", "broker-uri", "broker-urip", "broker-uriw", "broker-match", "scripts"},
			[]string{"broker-2x6", "broker-odd", "broker-3x3", "broker-3x4p", "broker-ids-alias", "broker-ids-small@12", "broker-uri", "broker-urip", "broker-uriw", "broker-match", "scripts",
				"broker-ids3-alias", "broker-4x3", "broker-2x8", "broker-3x5"})...)
	})
	register("C02", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"broker-life-2x5", "broker-3x3", "broker-ids-alias", "broker-ids-small@7", "broker-uri", "broker-urip", "broker-uriw", "broker-match", "scripts"},
			[]string{"broker-life-2x5", "broker-3x3", "broker-ids-alias", "broker-ids-small@12", "broker-uri", "broker-urip", "broker-uriw", "broker-match", "scripts", "broker-ids3-alias", "broker-2x6", "broker-4x3", "broker-3x5"})...)
	})
	register("C03", "model_checking", func(c *Ctx) *Violation {
		return runCfgs(c, nil, Pick(c, []string{"broker-fid", "broker-flip", "broker-odd", "broker-ids3-alias", "broker-ids3-small@7", "scripts"}, []string{"broker-fid", "broker-flip", "broker-odd", "broker-ids3-alias", "scripts", "broker-fid3"})...)
	})
}
