package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// C16: client sessions, broker and dealer composed over one ordered channel per
// client and direction. The harness keeps, for every client, what a client may
// assume from the messages delivered to it so far.

type compCfg struct {
	kinds  []string // per client, the requests it may issue (see Ops)
	budget []int    // per client, how many requests
	match  string   // match policy of subscriptions and registrations
	invoke string   // invocation policy
	sers   []int    // per client, its serializer
	prog   int      // progressive results a callee sends at most per invocation
	early  bool     // callees may answer before the last chunk has come
	// joins: per client, how often it joins through the handshake; nil: the clients are attached from the start
	joins   []int
	methods []string // per client, its authentication method
	users   string   // how the clients' identities relate, see identity
	prop    string
}

// identity that the authenticator gives to client i in its session gen
func (cfg *compCfg) identity(i int, gen uint64) (authid, role string) {
	switch cfg.users {
	case "roles": // the same user in another role each time
		return fmt.Sprintf("user%d", i), fmt.Sprintf("role%d.%d", i, gen)
	case "one": // one user joins as several clients
		return "user", fmt.Sprintf("role%d.%d", i, gen)
	}
	return fmt.Sprintf("user%d#%d", i, gen), fmt.Sprintf("role%d", i)
}

type compInv struct {
	id, reg  uint64
	open     bool // the caller sends more chunks
	progress bool // the caller takes progressive results
	sent     int  // progressive results sent
}

type compCall struct {
	progress bool
	chunks   bool   // the client still has to send the last chunk
	callee   uint64 // the session that got the invocation; 0: not (yet) routed
}

type compClient struct {
	sess   *wampproto.Session // nil: the client has not joined
	ser    serializers.Serializer
	gone   bool
	id     uint64 // its session's id
	gen    int    // how often it has joined
	at     bool   // attached to the router
	bye    bool   // GOODBYE is under way
	j      *wampproto.Joiner
	a      *wampproto.Acceptor
	hs     string          // the handshake so far
	ended  map[uint64]bool // calls the router has answered finally
	early  map[uint64]bool // invocations answered before their last chunk came
	left   int             // requests left
	next   uint64
	calls  map[uint64]*compCall
	pubs   map[uint64]bool
	regs   map[uint64]bool // outstanding REGISTERs
	unregs map[uint64]uint64
	subs   map[uint64]bool
	unsubs map[uint64]uint64
	hasReg map[uint64]bool
	hasSub map[uint64]bool
	invs   []*compInv
	up     [][]byte
	upM    []messages.Message
	down   []messages.Message // as serialized for the client, kept decoded for the key
	downB  [][]byte
}

type compSys struct {
	cfg  *compCfg
	b    *wampproto.Broker
	d    *wampproto.Dealer
	c    []*compClient
	inv  map[uint64][3]uint64 // invocation -> caller, request, the caller's generation (from the router's point of view)
	over map[uint64]bool      // invocations whose call the router has ended: their callee had unregistered when the next chunk came
	// sessions that have ended
	dead map[uint64]bool
}

func (s *compSys) prop() string {
	if s.cfg.prop != "" {
		return s.cfg.prop
	}
	return "C16"
}

// joined: the client may use its session
func (c *compClient) joined() bool { return !c.gone && c.sess != nil && !c.bye }

func (c *compClient) reset() {
	c.sess, c.j, c.a, c.hs, c.bye, c.next = nil, nil, nil, "", false, 1
	c.ended, c.early, c.calls, c.pubs = map[uint64]bool{}, map[uint64]bool{}, map[uint64]*compCall{}, map[uint64]bool{}
	c.regs, c.unregs, c.subs, c.unsubs = map[uint64]bool{}, map[uint64]uint64{}, map[uint64]bool{}, map[uint64]uint64{}
	c.hasReg, c.hasSub, c.invs = map[uint64]bool{}, map[uint64]bool{}, nil
	c.up, c.upM, c.down, c.downB = nil, nil, nil, nil
}

func newCompSys(cfg *compCfg) *compSys {
	s := &compSys{cfg: cfg, b: wampproto.NewBroker(), d: wampproto.NewDealer(), inv: map[uint64][3]uint64{}, over: map[uint64]bool{}, dead: map[uint64]bool{}}
	if cfg.joins != nil {
		s.b.AutoDisclosePublisher(true)
		s.d.AutoDiscloseCaller(true)
	}
	for i := range cfg.kinds {
		ser := allSerializers[cfg.sers[i]].s
		c := &compClient{ser: ser, left: cfg.budget[i]}
		c.reset()
		s.c = append(s.c, c)
		if cfg.joins != nil {
			continue
		}
		c.sess, c.id, c.at = wampproto.NewSession(ser), sid(i), true
		det := newDetails(i, ser.Static())
		if s.b.AddSession(det) != nil || s.d.AddSession(det) != nil {
			panic("cannot attach")
		}
	}
	return s
}

func (s *compSys) topic() string {
	switch s.cfg.match {
	case "prefix":
		return "a.b"
	case "wildcard":
		return "a.*"
	}
	return "a.b.c"
}

func keysOf[V any](m map[uint64]V) []uint64 {
	var k []uint64
	for x := range m {
		k = append(k, x)
	}
	sort.Slice(k, func(a, b int) bool { return k[a] < k[b] })
	return k
}

func pendingFor(m map[uint64]uint64, id uint64) bool {
	for _, v := range m {
		if v == id {
			return true
		}
	}
	return false
}

// Ops: req client kind [id] | answer client index kind | route client | deliver client | leave client
func (s *compSys) Ops() []Op {
	var ops []Op
	add := func(n string, a ...int) { ops = append(ops, Op{n, a}) }
	for i, c := range s.c {
		if c.gone {
			continue
		}
		if s.cfg.joins != nil && !c.joined() {
			if c.j == nil && c.sess == nil && c.gen < s.cfg.joins[i] {
				add("hello", i)
			}
			if c.j != nil && strings.Contains(s.cfg.kinds[i], "L") {
				add("leave", i)
			}
			if len(c.up) > 0 {
				add("route", i)
			}
			if len(c.down) > 0 {
				add("deliver", i)
			}
			continue
		}
		if strings.Contains(s.cfg.kinds[i], "B") {
			add("bye", i)
		}
		if c.left > 0 {
			for _, k := range s.cfg.kinds[i] {
				switch k {
				case 'U':
					for _, id := range keysOf(c.hasSub) {
						if !pendingFor(c.unsubs, id) {
							add("req", i, int(k), int(id))
						}
					}
				case 'N':
					for _, id := range keysOf(c.hasReg) {
						if !pendingFor(c.unregs, id) {
							add("req", i, int(k), int(id))
						}
					}
				case 'B':
				case 'L':
					add("leave", i)
				default:
					add("req", i, int(k))
				}
			}
		}
		for _, r := range keysOf(c.calls) {
			if c.calls[r].chunks {
				add("lastchunk", i, int(r))
			}
		}
		for x, inv := range c.invs {
			if !inv.open || s.cfg.early {
				add("answer", i, x, 'Y')
				add("answer", i, x, 'E')
			}
			if inv.progress && inv.sent < s.cfg.prog {
				add("answer", i, x, 'y')
			}
		}
		if len(c.up) > 0 {
			add("route", i)
		}
		if len(c.down) > 0 {
			add("deliver", i)
		}
	}
	return ops
}

func (s *compSys) Describe(o Op) string {
	c := s.c[o.A[0]]
	switch o.N {
	case "req":
		n := map[rune]string{'S': "SUBSCRIBE", 'U': "UNSUBSCRIBE", 'P': "PUBLISH (acknowledged)", 'p': "PUBLISH", 'R': "REGISTER", 'N': "UNREGISTER",
			'C': "CALL", 'G': "CALL with receive_progress", 'H': "CALL, first chunk"}[rune(o.A[1])]
		return fmt.Sprintf("client %d sends %s %d %v", o.A[0], n, c.next, o.A[2:])
	case "lastchunk":
		return fmt.Sprintf("client %d sends the last chunk of CALL %d", o.A[0], o.A[1])
	case "answer":
		if o.A[1] < len(c.invs) {
			return fmt.Sprintf("client %d answers invocation %d with %s", o.A[0], c.invs[o.A[1]].id,
				map[rune]string{'Y': "YIELD", 'y': "a progressive YIELD", 'E': "ERROR"}[rune(o.A[2])])
		}
	case "route":
		return fmt.Sprintf("the router processes the next message of client %d", o.A[0])
	case "deliver":
		if len(c.down) > 0 && c.down[0] != nil {
			return fmt.Sprintf("client %d receives %s", o.A[0], compMsg(c.down[0]))
		}
		return fmt.Sprintf("client %d receives the next message of its handshake", o.A[0])
	case "leave":
		return fmt.Sprintf("client %d disconnects", o.A[0])
	case "hello":
		return fmt.Sprintf("client %d sends HELLO", o.A[0])
	case "bye":
		return fmt.Sprintf("client %d sends GOODBYE", o.A[0])
	}
	return o.String()
}

func compMsg(m messages.Message) string {
	k := kindOf(m.Type())
	if k == nil {
		return fmt.Sprintf("%T", m)
	}
	return fmt.Sprint(k.name, k.get(m))
}

func (s *compSys) send(i int, m messages.Message) []Fail {
	data, err := s.c[i].sess.SendMessage(m)
	if err != nil {
		return []Fail{hard(fmt.Sprintf("the session of client %d refuses to send %s: %v", i, compMsg(m), err), s.prop())}
	}
	s.c[i].up = append(s.c[i].up, data)
	s.c[i].upM = append(s.c[i].upM, m)
	return nil
}

func (s *compSys) push(to uint64, m messages.Message) []Fail {
	i := -1
	for k, c := range s.c {
		if c.at && c.id == to {
			i = k
		}
	}
	if i < 0 {
		return []Fail{hard(fmt.Sprintf("the router sends %s to session %d, which is not attached (ended: %v)", compMsg(m), to, s.dead[to]), s.prop())}
	}
	c := s.c[i]
	data, err := c.ser.Serialize(m)
	if err != nil {
		return []Fail{hard(fmt.Sprintf("the router's %s for client %d cannot be serialized: %v", compMsg(m), i, err), s.prop())}
	}
	switch x := m.(type) {
	case *messages.Result:
		if p, _ := x.Details()["progress"].(bool); !p {
			c.ended[x.RequestID()] = true
		}
	case *messages.Error:
		if x.MessageType() == 48 {
			c.ended[x.RequestID()] = true
		}
	}
	c.down = append(c.down, m)
	c.downB = append(c.downB, data)
	return nil
}

func tagArgs(i int, r, gen uint64) []any { return []any{uint64(i), r, gen} }

func (s *compSys) tag(i int, r uint64) []any { return tagArgs(i, r, uint64(s.c[i].gen)) }

func hasTag(args []any, i int, r, gen uint64) bool {
	return len(args) == 3 && same(args[0], uint64(i)) && same(args[1], r) && same(args[2], gen)
}

func (s *compSys) Do(o Op) (fs []Fail) {
	i := o.A[0]
	c := s.c[i]
	mm := map[string]any{}
	switch o.N {
	case "req":
		r := c.next
		c.next++
		c.left--
		opt := map[string]any{}
		if s.cfg.match != "" {
			opt["match"] = s.cfg.match
		}
		switch rune(o.A[1]) {
		case 'S':
			c.subs[r] = true
			fs = s.send(i, messages.NewSubscribe(r, opt, s.topic()))
		case 'U':
			c.unsubs[r] = uint64(o.A[2])
			fs = s.send(i, messages.NewUnsubscribe(r, uint64(o.A[2])))
		case 'P':
			c.pubs[r] = true
			fs = s.send(i, messages.NewPublish(r, map[string]any{"acknowledge": true}, "a.b.c", s.tag(i, r), nil))
		case 'p':
			fs = s.send(i, messages.NewPublish(r, map[string]any{"exclude_me": false}, "a.b.c", s.tag(i, r), nil))
		case 'R':
			c.regs[r] = true
			if s.cfg.invoke != "" {
				opt["invoke"] = s.cfg.invoke
			}
			fs = s.send(i, messages.NewRegister(r, opt, s.topic()))
		case 'N':
			c.unregs[r] = uint64(o.A[2])
			fs = s.send(i, messages.NewUnregister(r, uint64(o.A[2])))
		case 'C':
			c.calls[r] = &compCall{callee: 0}
			fs = s.send(i, messages.NewCall(r, mm, "a.b.c", s.tag(i, r), nil))
		case 'G':
			c.calls[r] = &compCall{callee: 0, progress: true}
			fs = s.send(i, messages.NewCall(r, map[string]any{"receive_progress": true}, "a.b.c", s.tag(i, r), nil))
		case 'H':
			c.calls[r] = &compCall{callee: 0, chunks: true}
			fs = s.send(i, messages.NewCall(r, map[string]any{"progress": true}, "a.b.c", s.tag(i, r), nil))
		}
	case "lastchunk":
		r := uint64(o.A[1])
		c.calls[r].chunks = false
		fs = s.send(i, messages.NewCall(r, mm, "a.b.c", s.tag(i, r), nil))
	case "answer":
		inv := c.invs[o.A[1]]
		from := s.inv[inv.id]
		switch rune(o.A[2]) {
		case 'Y':
			fs = s.send(i, messages.NewYield(inv.id, mm, tagArgs(int(from[0]), from[1], from[2]), nil))
		case 'y':
			inv.sent++
			fs = s.send(i, messages.NewYield(inv.id, map[string]any{"progress": true}, tagArgs(int(from[0]), from[1], from[2]), nil))
		case 'E':
			fs = s.send(i, messages.NewError(68, inv.id, mm, "e.x", tagArgs(int(from[0]), from[1], from[2]), nil))
		}
		if o.A[2] != 'y' {
			if inv.open {
				c.early[inv.id] = true
			}
			c.invs = append(append([]*compInv{}, c.invs[:o.A[1]]...), c.invs[o.A[1]+1:]...)
		}
	case "leave":
		fs = s.detach(i)
		if s.cfg.joins == nil || c.gen >= s.cfg.joins[i] {
			c.gone = true
			c.up, c.upM, c.down, c.downB = nil, nil, nil, nil
		} else {
			c.reset()
		}
	case "hello":
		fs = s.hello(i)
	case "bye":
		c.bye = true
		fs = s.send(i, messages.NewGoodBye("wamp.close.close_realm", mm))
	case "route":
		data := c.up[0]
		c.up, c.upM = c.up[1:], c.upM[1:]
		fs = s.route(i, data)
	case "deliver":
		m, data := c.down[0], c.downB[0]
		c.down, c.downB = c.down[1:], c.downB[1:]
		fs = s.deliver(i, m, data)
	}
	if len(fs) > 0 {
		return fs
	}
	return s.quiescent()
}

// detach ends the client's session at the router.
func (s *compSys) detach(i int) []Fail {
	c := s.c[i]
	if !c.at {
		return nil
	}
	c.at = false
	s.dead[c.id] = true
	if err := s.b.RemoveSession(c.id); err != nil {
		return []Fail{hard(fmt.Sprint("the broker does not know a leaving client: ", err), s.prop())}
	}
	if err := s.d.RemoveSession(c.id); err != nil {
		return []Fail{hard(fmt.Sprint("the dealer does not know a leaving client: ", err), s.prop())}
	}
	return nil
}

// alive: the client that had joined then has not left since
func (s *compSys) alive(i, gen uint64) bool {
	c := s.c[i]
	return c.at && uint64(c.gen) == gen
}

// hello starts a handshake of client i.
func (s *compSys) hello(i int) []Fail {
	c := s.c[i]
	c.reset()
	c.gen++
	h := &handshake{ser: c.ser, method: s.cfg.methods[i], realm: "realm1", authid: fmt.Sprintf("user%d", i), ticket: fmt.Sprintf("secret%d", i), key: byte(i + 1)}
	ca, err := h.clientAuth()
	if err != nil {
		return []Fail{hard(fmt.Sprint("client authenticator: ", err), s.prop())}
	}
	c.j = wampproto.NewJoiner("realm1", c.ser, ca)
	c.a = wampproto.NewAcceptor(c.ser, &harnessAuth{methods: auth.Methods, f: func(q auth.Request) (auth.Response, error) {
		id, role := s.cfg.identity(i, uint64(c.gen))
		switch x := q.(type) {
		case *auth.TicketRequest:
			if x.Ticket() != h.ticket {
				return nil, errors.New("wrong ticket")
			}
		case *auth.RequestCryptoSign:
			if _, pub := keyPair(h.key); x.PublicKey() != pub {
				return nil, errors.New("wrong key")
			}
		default:
			if q.AuthMethod() == auth.WAMPCRA {
				return auth.NewCRAResponse(id, role, h.ticket, 0), nil
			}
		}
		return auth.NewResponse(id, role, 0)
	}})
	b, err := c.j.SendHello()
	if err != nil {
		return []Fail{hard(fmt.Sprint("SendHello: ", err), s.prop())}
	}
	c.hs = "H"
	c.up, c.upM = [][]byte{b}, []messages.Message{nil}
	return nil
}

// welcome: the router has processed a message of the handshake of client i
func (s *compSys) shake(i int, data []byte) []Fail {
	c := s.c[i]
	out, welcomed, err := c.a.Receive(data)
	if err != nil {
		return []Fail{hard(fmt.Sprintf("the acceptor refuses what client %d sends: %v", i, err), s.prop())}
	}
	c.hs += "r"
	c.down, c.downB = append(c.down, nil), append(c.downB, out)
	if !welcomed {
		return nil
	}
	c.hs += "W"
	det, err := c.a.SessionDetails()
	if err != nil {
		return []Fail{hard(fmt.Sprintf("client %d is welcomed without details: %v", i, err), s.prop())}
	}
	if err := s.b.AddSession(det); err != nil {
		return []Fail{hard(fmt.Sprintf("the broker refuses client %d, which has just joined: %v", i, err), s.prop())}
	}
	if err := s.d.AddSession(det); err != nil {
		return []Fail{hard(fmt.Sprintf("the dealer refuses client %d, which has just joined: %v", i, err), s.prop())}
	}
	c.id, c.at = det.ID(), true
	return nil
}

// joining: client i receives a message of the handshake
func (s *compSys) joining(i int, data []byte) []Fail {
	c := s.c[i]
	out, err := c.j.Receive(data)
	if err != nil {
		return []Fail{hard(fmt.Sprintf("client %d cannot join: %v", i, err), s.prop())}
	}
	c.hs += "c"
	if out != nil {
		c.up, c.upM = append(c.up, out), append(c.upM, nil)
		return nil
	}
	det, err := c.j.SessionDetails()
	if err != nil {
		return []Fail{hard(fmt.Sprintf("client %d got no details: %v", i, err), s.prop())}
	}
	if id, role := s.cfg.identity(i, uint64(c.gen)); det.ID() != c.id || det.AuthID() != id || det.AuthRole() != role || det.Realm() != "realm1" {
		return []Fail{hard(fmt.Sprintf("client %d believes to be session %d %s %s in %s, the router has %d", i, det.ID(), det.AuthID(), det.AuthRole(), det.Realm(), c.id), s.prop())}
	}
	c.sess, c.j, c.a, c.hs = wampproto.NewSession(c.ser), nil, nil, ""
	return nil
}

// disclosed checks that an event or invocation names the session of client i as its origin.
func (s *compSys) disclosed(d map[string]any, prefix string, i, gen uint64) string {
	if s.cfg.joins == nil {
		return ""
	}
	id := prefix
	c := s.c[i]
	authid, role := s.cfg.identity(int(i), gen)
	if !same(d[prefix+"_authid"], authid) || !same(d[prefix+"_authrole"], role) ||
		(uint64(c.gen) == gen && c.id != 0 && !same(d[id], c.id)) {
		return fmt.Sprintf("it discloses %v as its origin, which was client %d in session %d", d, i, gen)
	}
	return ""
}

func (s *compSys) route(i int, data []byte) (fs []Fail) {
	if !s.c[i].at {
		return s.shake(i, data)
	}
	m, err := s.c[i].ser.Deserialize(data)
	if err != nil {
		return []Fail{hard(fmt.Sprintf("the router cannot decode a message of client %d: %v", i, err), s.prop())}
	}
	if call, ok := m.(*messages.Call); ok && s.c[i].ended[call.RequestID()] {
		return []Fail{{Msg: "a chunk crosses the final answer of its call", Hard: true}} // not specified
	}
	if m.Type() == messages.MessageTypeGoodbye {
		if fs = s.detach(i); len(fs) > 0 {
			return fs
		}
		g := messages.NewGoodBye("wamp.close.goodbye_and_out", map[string]any{})
		data, err := s.c[i].ser.Serialize(g)
		if err != nil {
			return []Fail{hard(fmt.Sprint("GOODBYE cannot be serialized: ", err), s.prop())}
		}
		s.c[i].down, s.c[i].downB = append(s.c[i].down, g), append(s.c[i].downB, data)
		return nil
	}
	if p, ok := m.(*messages.Publish); ok {
		pub, err := s.b.ReceivePublish(s.c[i].id, p)
		if err != nil {
			return []Fail{hard(fmt.Sprintf("the broker refuses a PUBLISH of client %d: %v", i, err), s.prop())}
		}
		if pub.Ack != nil {
			fs = append(fs, s.push(pub.Ack.Recipient, pub.Ack.Message)...)
		}
		for _, to := range pub.Recipients {
			fs = append(fs, s.push(to, pub.Event)...)
		}
		return fs
	}
	var out *wampproto.MessageWithRecipient
	switch m.Type() {
	case 32, 34:
		out, err = s.b.ReceiveMessage(s.c[i].id, m)
	default:
		out, err = s.d.ReceiveMessage(s.c[i].id, m)
	}
	if err != nil {
		// only an answer whose caller has left, or has got an answer already, may come to nothing
		var inv uint64
		switch x := m.(type) {
		case *messages.Yield:
			inv = x.RequestID()
		case *messages.Error:
			inv = x.RequestID()
		}
		if from, ok := s.inv[inv]; ok && (s.over[inv] || !s.alive(from[0], from[2])) {
			return nil
		}
		return []Fail{hard(fmt.Sprintf("the router refuses %s of client %d: %v", compMsg(m), i, err), s.prop())}
	}
	if out == nil {
		return nil
	}
	if inv, ok := out.Message.(*messages.Invocation); ok {
		if call, ok := m.(*messages.Call); ok {
			s.inv[inv.RequestID()] = [3]uint64{uint64(i), call.RequestID(), uint64(s.c[i].gen)}
			if x := s.c[i].calls[call.RequestID()]; x != nil {
				x.callee = out.Recipient
			}
		}
	}
	if _, ok := out.Message.(*messages.Error); ok && m.Type() == messages.MessageTypeCall {
		for id, from := range s.inv {
			if from == [3]uint64{uint64(i), m.(*messages.Call).RequestID(), uint64(s.c[i].gen)} {
				s.over[id] = true
			}
		}
	}
	return s.push(out.Recipient, out.Message)
}

// deliver hands a message to its client: both the session and the harness must
// be waiting for it.
func (s *compSys) deliver(i int, sent messages.Message, data []byte) []Fail {
	c := s.c[i]
	if c.sess == nil {
		return s.joining(i, data)
	}
	bad := func(f string, a ...any) []Fail {
		return []Fail{hard(fmt.Sprintf("client %d receives %s, ", i, compMsg(sent))+fmt.Sprintf(f, a...), s.prop())}
	}
	m, err := c.sess.Receive(data)
	if err != nil {
		return bad("which its session refuses: %v", err)
	}
	switch x := m.(type) {
	case *messages.GoodBye:
		if !c.bye {
			return bad("but did not say goodbye")
		}
		c.reset()
	case *messages.Subscribed:
		if !c.subs[x.RequestID()] {
			return bad("but sent no such request")
		}
		delete(c.subs, x.RequestID())
		c.hasSub[x.SubscriptionID()] = true
	case *messages.Unsubscribed:
		id, ok := c.unsubs[x.RequestID()]
		if !ok {
			return bad("but sent no such request")
		}
		delete(c.unsubs, x.RequestID())
		delete(c.hasSub, id)
	case *messages.Registered:
		if !c.regs[x.RequestID()] {
			return bad("but sent no such request")
		}
		delete(c.regs, x.RequestID())
		c.hasReg[x.RegistrationID()] = true
	case *messages.Unregistered:
		id, ok := c.unregs[x.RequestID()]
		if !ok {
			return bad("but sent no such request")
		}
		delete(c.unregs, x.RequestID())
		delete(c.hasReg, id)
	case *messages.Published:
		if !c.pubs[x.RequestID()] {
			return bad("but sent no such request")
		}
		delete(c.pubs, x.RequestID())
	case *messages.Event:
		if !c.hasSub[x.SubscriptionID()] {
			return bad("but holds no such subscription")
		}
		if a := x.Args(); s.cfg.joins != nil {
			from, _ := toNum(a[0])
			gen, _ := toNum(a[2])
			if t := s.disclosed(x.Details(), "publisher", from.mag, gen.mag); t != "" {
				return bad("%s", t)
			}
		}
	case *messages.Invocation:
		if !c.hasReg[x.RegistrationID()] {
			return bad("but holds no such registration")
		}
		from, ok := s.inv[x.RequestID()]
		if !ok || !hasTag(x.Args(), int(from[0]), from[1], from[2]) {
			return bad("which does not carry the arguments of the call it was made for (%v)", from)
		}
		if t := s.disclosed(x.Details(), "caller", from[0], from[2]); t != "" {
			return bad("%s", t)
		}
		if c.early[x.RequestID()] {
			return nil // this chunk crossed the answer
		}
		open, _ := x.Details()["progress"].(bool)
		prog, _ := x.Details()["receive_progress"].(bool)
		for _, inv := range c.invs {
			if inv.id == x.RequestID() {
				if !inv.open {
					return bad("but that invocation was complete")
				}
				inv.open = open
				return nil
			}
		}
		c.invs = append(c.invs, &compInv{id: x.RequestID(), reg: x.RegistrationID(), open: open, progress: prog})
		sort.Slice(c.invs, func(a, b int) bool { return c.invs[a].id < c.invs[b].id })
	case *messages.Result:
		call := c.calls[x.RequestID()]
		if call == nil {
			return bad("but has no such call outstanding")
		}
		if !hasTag(x.Args(), i, x.RequestID(), uint64(c.gen)) {
			return bad("which is the result of another call")
		}
		if p, _ := x.Details()["progress"].(bool); p {
			if !call.progress {
				return bad("but did not ask for progressive results")
			}
		} else {
			delete(c.calls, x.RequestID())
		}
	case *messages.Error:
		r := x.RequestID()
		switch x.MessageType() {
		case 48:
			call := c.calls[r]
			if call == nil {
				return bad("but has no such call outstanding")
			}
			if x.URI() == "e.x" && !hasTag(x.Args(), i, r, uint64(c.gen)) {
				return bad("which is the error of another call")
			}
			delete(c.calls, r)
		case 64:
			if !c.regs[r] {
				return bad("but sent no such REGISTER")
			}
			delete(c.regs, r)
		default:
			return bad("though every such request was valid")
		}
	default:
		return bad("which a client does not expect")
	}
	return nil
}

// quiescent checks the agreement once nothing is under way any more.
func (s *compSys) quiescent() (fs []Fail) {
	for _, c := range s.c {
		if c.gone {
			continue
		}
		if len(c.up)+len(c.down) > 0 {
			return nil
		}
		for _, inv := range c.invs {
			from := s.inv[inv.id]
			if s.alive(from[0], from[2]) && !s.over[inv.id] {
				return nil
			}
		}

	}
	for _, c := range s.c {
		for _, call := range c.calls {
			if call.chunks && !c.gone {
				return nil
			}
		}
	}
	for i, c := range s.c {
		if c.gone {
			continue
		}
		if c.at != (c.sess != nil) {
			return []Fail{hard(fmt.Sprintf("all messages are delivered; client %d has joined: %v, is attached: %v", i, c.sess != nil, c.at), s.prop())}
		}
		bad := func(kind string, ids []uint64) {
			if len(ids) > 0 {
				fs = append(fs, hard(fmt.Sprintf("all messages are delivered, but %s %v of client %d is unanswered", kind, ids, i), s.prop()))
			}
		}
		bad("SUBSCRIBE", keysOf(c.subs))
		bad("UNSUBSCRIBE", keysOf(c.unsubs))
		bad("REGISTER", keysOf(c.regs))
		bad("UNREGISTER", keysOf(c.unregs))
		bad("PUBLISH", keysOf(c.pubs))
		for _, r := range keysOf(c.calls) {
			if x := c.calls[r]; !s.dead[x.callee] {
				bad("CALL", []uint64{r})
			}
		}
	}
	if len(fs) > 0 {
		return fs
	}
	// a publication now reaches exactly the clients that believe to be subscribed
	probe := -1
	for i, c := range s.c {
		if !c.gone && c.at {
			probe = i
		}
	}
	if probe < 0 {
		return nil
	}
	pub, err := s.b.ReceivePublish(s.c[probe].id, messages.NewPublish(99, map[string]any{"exclude_me": false}, "a.b.c", nil, nil))
	if err != nil {
		return []Fail{hard(fmt.Sprint("the broker refuses a PUBLISH: ", err), s.prop())}
	}
	got := map[uint64]int{}
	for _, r := range pub.Recipients {
		got[r]++
	}
	for i, c := range s.c {
		want := 0
		if !c.at {
			continue
		}
		if len(c.hasSub) > 0 {
			want = 1
		}
		if got[c.id] != want {
			return []Fail{hard(fmt.Sprintf("all messages are delivered; client %d believes to hold %d subscriptions to a.b.c, but gets %d events", i, want, got[c.id]), s.prop())}
		}
		if want == 1 && !c.hasSub[pub.Event.SubscriptionID()] {
			return []Fail{hard(fmt.Sprintf("all messages are delivered; client %d would get an EVENT for subscription %d, which it does not know", i, pub.Event.SubscriptionID()), s.prop())}
		}
		if !c.gone && s.d.HasProcedure(s.topic()) == false && len(c.hasReg) > 0 {
			return []Fail{hard(fmt.Sprintf("all messages are delivered; client %d believes to hold registrations %v, the dealer has none", i, keysOf(c.hasReg)), s.prop())}
		}
	}
	return nil
}

func (s *compSys) modelKey() string {
	var b strings.Builder
	for _, c := range s.c {
		fmt.Fprint(&b, c.gone, c.left, c.next, c.gen, c.at, c.bye, c.hs, "|")
		if c.gone {
			continue
		}
		for _, r := range keysOf(c.calls) {
			x := *c.calls[r]
			fmt.Fprint(&b, r, x.progress, x.chunks, s.sessName(x.callee), ";")
		}
		fmt.Fprint(&b, keysOf(c.ended), keysOf(c.early), keysOf(c.pubs), keysOf(c.regs), c.unregs, keysOf(c.subs), c.unsubs, keysOf(c.hasReg), keysOf(c.hasSub), "|")
		for _, v := range c.invs {
			fmt.Fprint(&b, *v, s.inv[v.id], s.over[v.id], ";")
		}
		for _, m := range c.upM {
			b.WriteString("^")
			if m != nil {
				b.WriteString(compMsg(m))
			}
		}
		for _, m := range c.down {
			b.WriteString("v")
			if m != nil {
				b.WriteString(s.canonMsg(m))
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// sessName names a session independently of its random id.
func (s *compSys) sessName(id uint64) string {
	for i, c := range s.c {
		if c.id == id && id != 0 {
			return fmt.Sprintf("s%d.%d%v", i, c.gen, c.at)
		}
	}
	if s.dead[id] {
		return "dead"
	}
	return fmt.Sprint(id)
}

// canonMsg shows a message of the router with the random session ids named.
func (s *compSys) canonMsg(m messages.Message) string {
	if s.cfg.joins == nil {
		return compMsg(m)
	}
	var d map[string]any
	switch x := m.(type) {
	case *messages.Event:
		d = x.Details()
	case *messages.Invocation:
		d = x.Details()
	default:
		return compMsg(m)
	}
	k := kindOf(m.Type())
	v := k.get(m)
	n := map[string]any{}
	for key, val := range d {
		if id, ok := val.(uint64); ok {
			val = s.sessName(id)
		}
		n[key] = val
	}
	v[2] = n
	return fmt.Sprint(k.name, v)
}

func (s *compSys) Key() []byte {
	raw := func(id uint64) string {
		if id&counterBit != 0 {
			return "#"
		}
		if s.cfg.joins != nil {
			return s.sessName(id)
		}
		return fmt.Sprint(id)
	}
	k := s.modelKey() + "\x00" + deepDump(s.b, raw) + deepDump(s.d, raw)
	for _, c := range s.c {
		if !c.gone && c.sess != nil {
			k += deepDump(c.sess, raw)
		}
	}
	return []byte(k)
}

func init() {
	reg := func(name string, cfg compCfg) {
		c := cfg
		if c.joins != nil {
			c.prop = "C29"
		}
		if c.sers == nil {
			c.sers = []int{0, 1, 2}
		}
		if c.prog == 0 {
			c.prog = 1
		}
		cfgReg[name] = func() Sys { return newCompSys(&c) }
	}
	reg("comp-pubsub", compCfg{kinds: []string{"SUL", "SUP"}, budget: []int{3, 3}})
	reg("comp-pubsub-prefix", compCfg{kinds: []string{"SUL", "SUp"}, budget: []int{3, 3}, match: "prefix", sers: []int{1, 2}})
	reg("comp-pubsub-wild", compCfg{kinds: []string{"SU", "SUp"}, budget: []int{3, 3}, match: "wildcard", sers: []int{2, 0}})
	reg("comp-rpc", compCfg{kinds: []string{"RN", "RNC"}, budget: []int{2, 3}, invoke: "roundrobin"})
	reg("comp-rpc-single", compCfg{kinds: []string{"RNL", "RC"}, budget: []int{3, 2}, sers: []int{1, 2}, match: "wildcard"})
	reg("comp-rpc-progress", compCfg{kinds: []string{"RN", "GH"}, budget: []int{2, 2}, prog: 1})
	reg("comp-rpc-early", compCfg{kinds: []string{"R", "HC"}, budget: []int{1, 2}, prog: 1, early: true, sers: []int{2, 0}})
	reg("comp-rpc-early-3", compCfg{kinds: []string{"RN", "HG"}, budget: []int{2, 3}, prog: 1, early: true, sers: []int{1, 2}})
	reg("comp-rpc-chunk-1", compCfg{kinds: []string{"RN", "H"}, budget: []int{3, 1}, prog: 1, early: true, sers: []int{0, 2}})
	reg("comp-rpc-chunk", compCfg{kinds: []string{"RN", "H"}, budget: []int{3, 2}, prog: 1, early: true, sers: []int{1, 2}})
	reg("comp-rpc-leave", compCfg{kinds: []string{"RL", "GL"}, budget: []int{2, 2}, match: "prefix", invoke: "last", sers: []int{2, 1}})
	reg("comp-mixed", compCfg{kinds: []string{"SR", "PC"}, budget: []int{3, 2}})
	reg("comp-mixed-33", compCfg{kinds: []string{"SR", "PC"}, budget: []int{3, 3}})
	reg("comp-3", compCfg{kinds: []string{"SU", "R", "pC"}, budget: []int{2, 1, 2}})
	reg("comp-3-share", compCfg{kinds: []string{"RN", "RN", "C"}, budget: []int{2, 2, 2}, invoke: "roundrobin"})

	reg("comp-pubsub-4", compCfg{kinds: []string{"SUPL", "SUpL"}, budget: []int{4, 4}})
	reg("comp-pubsub-prefix-4", compCfg{kinds: []string{"SUP", "SUp"}, budget: []int{4, 4}, match: "prefix", sers: []int{1, 2}})
	reg("comp-rpc-4", compCfg{kinds: []string{"RNC", "RNC"}, budget: []int{4, 3}, invoke: "roundrobin"})
	reg("comp-rpc-single-4", compCfg{kinds: []string{"RNCL", "RNCL"}, budget: []int{3, 3}, sers: []int{1, 2}})
	reg("comp-rpc-progress-4", compCfg{kinds: []string{"RNL", "GHL"}, budget: []int{3, 3}, prog: 2})
	reg("comp-mixed-4", compCfg{kinds: []string{"SRUN", "PCSR"}, budget: []int{3, 3}, match: "prefix", invoke: "first"})
	reg("comp-3-big", compCfg{kinds: []string{"SUR", "RS", "pC"}, budget: []int{3, 2, 2}, invoke: "last"})
	reg("join-pubsub", compCfg{kinds: []string{"SpB", "Sp"}, budget: []int{2, 2}, joins: []int{2, 1}, methods: []string{"ticket", "anonymous"}, users: "one"})
	reg("join-rpc", compCfg{kinds: []string{"RL", "CB"}, budget: []int{2, 2}, joins: []int{2, 2}, methods: []string{"wampcra", "cryptosign"}, sers: []int{1, 2}, users: "roles"})
	reg("join-progress", compCfg{kinds: []string{"RB", "GHL"}, budget: []int{1, 2}, joins: []int{2, 2}, methods: []string{"cryptosign", "wampcra"}, sers: []int{2, 0}, prog: 1, users: "one"})
	// thorough
	reg("join-rpc-3", compCfg{kinds: []string{"RLB", "CLB"}, budget: []int{3, 2}, joins: []int{3, 2}, methods: []string{"ticket", "wampcra"}, sers: []int{0, 1}, invoke: "roundrobin"})
	reg("join-pubsub-3", compCfg{kinds: []string{"SULB", "PpB"}, budget: []int{3, 3}, joins: []int{3, 2}, methods: []string{"anonymous", "cryptosign"}, sers: []int{0, 2}, match: "prefix", users: "one"})
	reg("join-three", compCfg{kinds: []string{"RB", "RL", "C"}, budget: []int{1, 1, 2}, joins: []int{2, 2, 1}, methods: []string{"ticket", "anonymous", "wampcra"}, invoke: "roundrobin", users: "roles"})
	register("C16", "model_checking", func(c *Ctx) *Violation {
		c.Assumptions = append(c.Assumptions, "a client has at most one UNSUBSCRIBE/UNREGISTER for one id outstanding",
			"a chunk of a progressive call that crosses the call's final answer is out of scope", "callees of calls that have left are not replaced: those calls may stay unanswered")
		return runCfgs(c, nil, Pick(c, []string{"comp-pubsub", "comp-pubsub-prefix", "comp-pubsub-wild", "comp-rpc", "comp-rpc-single", "comp-rpc-progress", "comp-rpc-early", "comp-rpc-chunk-1", "comp-rpc-leave", "comp-mixed", "comp-3", "comp-3-share"},
			[]string{"comp-pubsub-wild", "comp-rpc-leave", "comp-rpc-single", "comp-rpc-progress", "comp-3", "comp-3-share", "comp-mixed-33", "comp-pubsub-4", "comp-pubsub-prefix-4", "comp-rpc-4", "comp-rpc-single-4", "comp-rpc-progress-4", "comp-rpc-early", "comp-rpc-early-3", "comp-rpc-chunk", "comp-mixed-4", "comp-3-big"})...)
	})
}
