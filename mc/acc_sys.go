package main

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// C17: every message sequence a peer may send to an acceptor, up to the fixpoint
// of the acceptor's states, for every set of enabled methods and several server
// authenticators.

// ---- independent reference for challenge responses ----

func refPBKDF2(secret, salt []byte, iter, n int) []byte {
	if iter < 1 {
		iter = 1
	}
	var out []byte
	for block := 1; len(out) < n; block++ {
		h := hmac.New(sha256.New, secret)
		h.Write(salt)
		h.Write([]byte{byte(block >> 24), byte(block >> 16), byte(block >> 8), byte(block)})
		u := h.Sum(nil)
		t := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			h = hmac.New(sha256.New, secret)
			h.Write(u)
			u = h.Sum(nil)
			for j := range t {
				t[j] ^= u[j]
			}
		}
		out = append(out, t...)
	}
	return out[:n]
}

// refCRA is the response to a WAMP-CRA challenge; zero iterations and key length
// stand for the defaults 1000 and 32.
func refCRA(challenge, secret, salt string, iter, keylen int) string {
	key := []byte(secret)
	if salt != "" {
		key = refDerive(secret, salt, iter, keylen)
	}
	h := hmac.New(sha256.New, key)
	h.Write([]byte(challenge))
	return base64.StdEncoding.EncodeToString(h.Sum(nil))
}

func refDerive(secret, salt string, iter, keylen int) []byte {
	if iter == 0 {
		iter = 1000
	}
	if keylen <= 0 {
		keylen = 32
	}
	return []byte(base64.StdEncoding.EncodeToString(refPBKDF2([]byte(secret), []byte(salt), iter, keylen)))
}

func keyPair(n byte) (ed25519.PrivateKey, string) {
	seed := make([]byte, 32)
	for i := range seed {
		seed[i] = n
	}
	k := ed25519.NewKeyFromSeed(seed)
	return k, hex.EncodeToString(k.Public().(ed25519.PublicKey))
}

func seedHex(n byte) string { return strings.Repeat(fmt.Sprintf("%02x", n), 32) }

func refCryptoSign(challenge string, k ed25519.PrivateKey) string {
	raw, err := hex.DecodeString(challenge)
	if err != nil {
		return "unsignable"
	}
	return hex.EncodeToString(ed25519.Sign(k, raw)) + challenge
}

// ---- server authenticator ----

type authFunc func(auth.Request) (auth.Response, error)

// harnessAuth keeps its state behind a function, out of the acceptor's dump.
type harnessAuth struct {
	methods []auth.Method
	f       authFunc
}

func (h *harnessAuth) Methods() []auth.Method                             { return h.methods }
func (h *harnessAuth) Authenticate(r auth.Request) (auth.Response, error) { return h.f(r) }

// ---- the system ----

type accCfg struct {
	methods []auth.Method
	decide  string // accept, reject, cred, salted, plain, default; both: rejections come with a response
	wire    bool
	ser     int
	long    bool // method lists of length three as well
}

const (
	accNone = iota
	accChallenged
	accWelcomed
	accAborted
)

type accSys struct {
	cfg       *accCfg
	a         *wampproto.Acceptor
	state     int
	hello     int // index of the accepted HELLO
	method    string
	challenge string
	calls     []accCall
	details   string
}

type accCall struct {
	req auth.Request
	ok  bool
}

type helloForm struct {
	name    string
	authid  string
	methods []string
	extra   map[string]any
}

var accHellos = func() []helloForm {
	_, pub := keyPair(1)
	_, pub2 := keyPair(2)
	ex := func(v any) map[string]any { return map[string]any{"pubkey": v} }
	out := []helloForm{
		{"no methods", "alice", nil, nil},
		{"unknown method", "alice", []string{"oauth"}, ex(pub)},
		{"empty method", "alice", []string{""}, ex(pub)},
		{"Ticket (capital)", "alice", []string{"Ticket"}, ex(pub)},
		{"custom", "alice", []string{"custom"}, ex(pub)},
		{"unknown, ticket", "alice", []string{"oauth", "ticket"}, ex(pub)},
		{"ticket, anonymous", "alice", []string{"ticket", "anonymous"}, ex(pub)},
		{"anonymous, ticket", "eve", []string{"anonymous", "ticket"}, ex(pub)},
		{"wampcra, cryptosign", "alice", []string{"wampcra", "cryptosign"}, ex(pub)},
		{"cryptosign, wampcra", "alice", []string{"cryptosign", "wampcra"}, ex(pub)},
		{"cryptosign without pubkey", "alice", []string{"cryptosign"}, nil},
		{"cryptosign, empty pubkey", "alice", []string{"cryptosign"}, ex("")},
		{"cryptosign, numeric pubkey", "alice", []string{"cryptosign"}, ex(7)},
		{"cryptosign, pubkey no hex", "alice", []string{"cryptosign"}, ex("zz")},
		{"cryptosign, short pubkey", "alice", []string{"cryptosign"}, ex("00ff")},
		{"cryptosign, foreign pubkey", "alice", []string{"cryptosign"}, ex(pub2)},
		{"cryptosign, pubkey in upper case", "alice", []string{"cryptosign"}, ex(strings.ToUpper(pub))},
		{"cryptosign, pubkey with space", "alice", []string{"cryptosign"}, ex(pub + " ")},
		{"cryptosign, long pubkey", "alice", []string{"cryptosign"}, ex(pub + "00")},
	}
	// names that only look like methods
	for _, m := range []string{"ticket2", "ticke", " ticket", "ticket ", "ticket\x00", "TICKET", "wampcra-x", "wamp-cra", "WampCRA", "cryptosign-proxy", "crypto", "anonymous ", "anonymousx", "Anonymous", "x.ticket", "scram"} {
		out = append(out, helloForm{fmt.Sprintf("%q", m), "alice", []string{m}, ex(pub)})
	}
	for _, m := range []string{"anonymous", "ticket", "wampcra", "cryptosign"} {
		for _, u := range []string{"alice", "eve"} {
			out = append(out, helloForm{m + " as " + u, u, []string{m}, ex(pub)})
		}
	}
	ms := []string{"anonymous", "ticket", "wampcra", "cryptosign", "oauth"}
	for _, a := range ms {
		for _, b := range ms {
			out = append(out, helloForm{a + ", " + b, "alice", []string{a, b}, ex(pub)})
		}
	}
	accShort = len(out)
	for _, a := range ms {
		for _, b := range ms {
			for _, c := range ms {
				out = append(out, helloForm{a + ", " + b + ", " + c, "alice", []string{a, b, c}, ex(pub)})
			}
		}
	}
	return out
}()

var accShort int // HELLO forms with up to two methods

var accAuths = []string{"right", "empty", "wrong secret", "replayed", "extended", "good ticket", "malformed", "challenge echoed", "truncated"}

// everything but HELLO and AUTHENTICATE
var accOthers = []uint64{2, 3, 4, 6, 8, 16, 17, 32, 33, 34, 35, 36, 48, 49, 50, 64, 65, 66, 67, 68, 69, 70}

func newAccSys(cfg *accCfg) *accSys {
	s := &accSys{cfg: cfg, hello: -1}
	s.a = s.acceptor(func(c accCall) { s.calls = append(s.calls, c) })
	return s
}

func (s *accSys) ser() serializers.Serializer { return allSerializers[s.cfg.ser].s }

const accSecret, accSalt = "s3cret", "salt"

func (s *accSys) acceptor(log func(accCall)) *wampproto.Acceptor {
	if s.cfg.decide == "default" {
		return wampproto.NewAcceptor(s.ser(), nil)
	}
	decide := s.cfg.decide
	return wampproto.NewAcceptor(s.ser(), &harnessAuth{methods: s.cfg.methods, f: func(r auth.Request) (auth.Response, error) {
		resp, err := accDecide(decide, r)
		log(accCall{r, err == nil})
		return resp, err
	}})
}

func accDecide(decide string, r auth.Request) (auth.Response, error) {
	no := errors.New("no")
	switch decide {
	case "reject":
		return nil, no
	case "both":
		// the application gives a response along with its refusal
		if _, err := accDecide("cred", r); err != nil {
			resp, _ := accDecide("accept", r)
			return resp, err
		}
	case "cred", "salted":
		if r.AuthID() != "alice" {
			return nil, no
		}
		switch x := r.(type) {
		case *auth.TicketRequest:
			if x.Ticket() != "good" {
				return nil, no
			}
		case *auth.RequestCryptoSign:
			if _, pub := keyPair(1); x.PublicKey() != pub {
				return nil, no
			}
		}
	}
	if r.AuthMethod() == auth.WAMPCRA && decide != "plain" {
		if decide == "salted" {
			return auth.NewCRAResponseSalted("id1", "role1", accSecret, accSalt, 10, 32, 0), nil
		}
		return auth.NewCRAResponse("id1", "role1", accSecret, 0), nil
	}
	return auth.NewResponse("id1", "role1", 0)
}

func (s *accSys) Ops() []Op {
	var ops []Op
	for i := range accHellos {
		if !s.cfg.long && i >= accShort {
			break
		}
		ops = append(ops, Op{"hello", []int{i}})
	}
	for i := range accAuths {
		ops = append(ops, Op{"auth", []int{i}})
	}
	for _, t := range accOthers {
		ops = append(ops, Op{"other", []int{int(t)}})
	}
	if s.cfg.wire {
		ops = append(ops, Op{"garbage", []int{0}}, Op{"garbage", []int{1}}, Op{"garbage", []int{2}})
	}
	return ops
}

func (s *accSys) Describe(o Op) string {
	switch o.N {
	case "hello":
		return "HELLO: " + accHellos[o.A[0]].name
	case "auth":
		return "AUTHENTICATE: " + accAuths[o.A[0]]
	case "other":
		return kindOf(uint64(o.A[0])).name
	}
	return o.String()
}

func helloMsg(i int) *messages.Hello {
	h := accHellos[i]
	ex := map[string]any{}
	for k, v := range h.extra {
		ex[k] = v
	}
	return messages.NewHello(fmt.Sprintf("realm-%d", i), h.authid, ex, map[string]any{"caller": map[string]any{}}, append([]string{}, h.methods...))
}

func (s *accSys) rightFor(method, challenge string) string {
	switch method {
	case "ticket":
		return "good"
	case "wampcra":
		if s.cfg.decide == "salted" {
			return refCRA(challenge, accSecret, accSalt, 10, 32)
		}
		return refCRA(challenge, accSecret, "", 0, 0)
	case "cryptosign":
		k, _ := keyPair(s.peerKey())
		return refCryptoSign(challenge, k)
	}
	return "x"
}

// peerKey: which key pair the accepted HELLO announced.
func (s *accSys) peerKey() byte {
	if s.hello >= 0 {
		for n := byte(1); n <= 2; n++ {
			if _, pub := keyPair(n); accHellos[s.hello].extra["pubkey"] == pub {
				return n
			}
		}
	}
	return 9
}

func (s *accSys) response(form int) string {
	right := s.rightFor(s.method, s.challenge)
	switch accAuths[form] {
	case "right":
		return right
	case "empty":
		return ""
	case "wrong secret":
		switch s.method {
		case "wampcra":
			return refCRA(s.challenge, "other", accSalt, 10, 32)
		case "cryptosign":
			k, _ := keyPair(3)
			return refCryptoSign(s.challenge, k)
		}
		return "bad"
	case "replayed":
		if s.hello >= 0 {
			other := s.acceptor(func(accCall) {})
			if r, err := other.ReceiveMessage(helloMsg(s.hello)); err == nil {
				if c, ok := r.(*messages.Challenge); ok {
					ch, _ := c.Extra()["challenge"].(string)
					return s.rightFor(s.method, ch)
				}
			}
		}
		return "bad"
	case "extended":
		return right + "00"
	case "good ticket":
		return "good"
	case "malformed":
		return "%%%"
	case "challenge echoed":
		return s.challenge
	case "truncated":
		return right[:len(right)/2]
	}
	panic("?")
}

// call hands a message to the acceptor in the configured form.
func (s *accSys) call(m messages.Message) (reply messages.Message, err error, bad string) {
	if !s.cfg.wire {
		reply, err = s.a.ReceiveMessage(m)
		return reply, err, ""
	}
	data, serr := s.ser().Serialize(m)
	if serr != nil {
		return nil, serr, ""
	}
	out, welcomed, err := s.a.Receive(data)
	if err != nil {
		if welcomed {
			return nil, err, "Receive reports an error and a welcome at once"
		}
		return nil, err, ""
	}
	reply, derr := s.ser().Deserialize(out)
	if derr != nil {
		return nil, nil, fmt.Sprintf("the reply does not deserialize: %v", derr)
	}
	if welcomed != (reply.Type() == 2) {
		return nil, nil, fmt.Sprintf("Receive reports welcomed=%v for a reply of type %d", welcomed, reply.Type())
	}
	return reply, nil, ""
}

func (s *accSys) detailText() string {
	d, err := s.a.SessionDetails()
	if (err == nil) != (d != nil) {
		return "inconsistent"
	}
	if d == nil {
		return ""
	}
	return fmt.Sprintf("%d|%s|%s|%s|%s", d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod())
}

func (s *accSys) enabled(m string) bool {
	if s.cfg.decide == "default" {
		return m == "anonymous"
	}
	for _, x := range s.cfg.methods {
		if string(x) == m {
			return true
		}
	}
	return false
}

func (s *accSys) offered(h int, m string) bool {
	l := accHellos[h].methods
	if len(l) == 0 {
		return m == "anonymous"
	}
	for _, x := range l {
		if x == m {
			return true
		}
	}
	return false
}

func (s *accSys) Do(o Op) []Fail {
	bad := func(f string, a ...any) []Fail {
		return []Fail{hard(fmt.Sprintf("%s in state %s: ", s.Describe(o), []string{"none", "challenged", "welcomed", "aborted"}[s.state])+fmt.Sprintf(f, a...), "C17")}
	}
	if o.N == "garbage" {
		_, welcomed, err := s.a.Receive([][]byte{nil, []byte("[1"), {0xff, 0x00}}[o.A[0]])
		if err == nil || welcomed || s.detailText() != s.details {
			return bad("undecodable bytes give error %v, welcomed %v, details %q", err, welcomed, s.detailText())
		}
		return nil
	}
	var m messages.Message
	switch o.N {
	case "hello":
		m = helloMsg(o.A[0])
	case "auth":
		extra := map[string]any{}
		if accAuths[o.A[0]] != "right" { // what it claims to prove is not the response's to say
			_, pub := keyPair(3)
			extra = map[string]any{"pubkey": pub, "secret": "other", "ticket": "bad", "salt": "", "challenge": "", "authid": "eve", "authrole": "admin", "authmethod": "anonymous", "realm": "realm2"}
		}
		m = messages.NewAuthenticate(s.response(o.A[0]), extra)
	case "other":
		m = sampleMsg(uint64(o.A[0]))
	}
	s.calls = nil
	reply, err, msg := s.call(m)
	if msg != "" {
		return bad("%s", msg)
	}
	now := s.detailText()
	typ := uint64(0)
	if err == nil {
		if reply == nil {
			return bad("no reply and no error")
		}
		typ = reply.Type()
	}
	if typ != 2 && now != s.details {
		return bad("the session details change from %q to %q without a WELCOME", s.details, now)
	}
	if s.state == accWelcomed || s.state == accAborted {
		if err == nil {
			return bad("is not refused but answered with %s", compMsg(reply))
		}
		return nil
	}
	if o.N == "hello" || o.N == "auth" && s.state == accChallenged {
		h := o.A[0]
		if o.N == "auth" {
			h = s.hello
		}
		for _, c := range s.calls {
			q, f := c.req, accHellos[h]
			if f.extra == nil {
				f.extra = map[string]any{}
			}
			if q.Realm() != fmt.Sprintf("realm-%d", h) || q.AuthID() != f.authid || !same(q.AuthExtra(), f.extra) {
				return []Fail{hard(fmt.Sprintf("%s: the authenticator sees realm %q, authid %q, authextra %v", s.Describe(o), q.Realm(), q.AuthID(), q.AuthExtra()), "C17", "C19")}
			}
			if x, ok := q.(*auth.RequestCryptoSign); ok && x.PublicKey() != f.extra["pubkey"] {
				return []Fail{hard(fmt.Sprintf("%s: the authenticator sees the public key %q, sent was %q", s.Describe(o), x.PublicKey(), f.extra["pubkey"]), "C17", "C19")}
			}
			if x, ok := q.(*auth.TicketRequest); ok && (o.N != "auth" || x.Ticket() != s.response(o.A[0])) {
				return []Fail{hard(fmt.Sprintf("%s: the authenticator sees the ticket %q", s.Describe(o), x.Ticket()), "C17", "C19")}
			}
		}
	}
	accepted := func(method string) bool {
		if s.cfg.decide == "default" {
			return method == "anonymous"
		}
		return len(s.calls) == 1 && s.calls[0].ok && string(s.calls[0].req.AuthMethod()) == method
	}
	switch typ {
	case 0, 3:
	case 4:
		if o.N != "hello" || s.state != accNone {
			return bad("is answered with a CHALLENGE")
		}
		c := reply.(*messages.Challenge)
		if m := c.AuthMethod(); !s.enabled(m) || !s.offered(o.A[0], m) || m == "anonymous" {
			return bad("a CHALLENGE for %q: enabled %v, offered %v", m, s.enabled(m), s.offered(o.A[0], m))
		}
		s.method, s.hello = c.AuthMethod(), o.A[0]
		s.challenge, _ = c.Extra()["challenge"].(string)
		if s.method != "ticket" {
			if s.challenge == "" {
				return bad("a CHALLENGE for %s without a challenge", s.method)
			}
			if !accepted(s.method) {
				return bad("a CHALLENGE, though the authenticator did not accept the %s request (%d calls)", s.method, len(s.calls))
			}
		}
		s.state = accChallenged
	case 2:
		w := reply.(*messages.Welcome)
		method := ""
		switch {
		case o.N == "hello" && s.state == accNone:
			method, s.hello = "anonymous", o.A[0]
			if !accepted(method) {
				return bad("WELCOME, though the authenticator did not accept an anonymous peer (%d calls)", len(s.calls))
			}
		case o.N == "auth" && s.state == accChallenged:
			method = s.method
			switch method {
			case "ticket":
				if !accepted(method) {
					return bad("WELCOME, though the authenticator did not accept the ticket (%d calls)", len(s.calls))
				}
				if t, ok := s.calls[0].req.(*auth.TicketRequest); !ok || t.Ticket() != s.response(o.A[0]) {
					return bad("WELCOME for another ticket than the one sent")
				}
			default:
				if accAuths[o.A[0]] != "right" || (method == "cryptosign" && s.peerKey() == 9) {
					return bad("WELCOME for a wrong %s response", method)
				}
			}
		default:
			return bad("is answered with WELCOME")
		}
		if !s.enabled(method) || !s.offered(s.hello, method) {
			return bad("WELCOME by %s: enabled %v, offered %v", method, s.enabled(method), s.offered(s.hello, method))
		}
		id, role := "id1", "role1"
		if s.cfg.decide == "default" {
			id, role = "anonymous", "anonymous"
		}
		if want := fmt.Sprintf("%d|realm-%d|%s|%s|%s", w.SessionID(), s.hello, id, role, method); now != want {
			return bad("WELCOME, but the session details are %q instead of %q", now, want)
		}
		for k, v := range map[string]string{"realm": fmt.Sprintf("realm-%d", s.hello), "authid": id, "authrole": role, "authmethod": method} {
			if w.Details()[k] != v {
				return []Fail{hard(fmt.Sprintf("%s: the WELCOME says %s %v instead of %q", s.Describe(o), k, w.Details()[k], v), "C17", "C19")}
			}
		}
		s.state, s.details = accWelcomed, now
	default:
		return bad("is answered with %s", compMsg(reply))
	}
	if typ == 3 {
		s.state = accAborted
	}
	return nil
}

func (s *accSys) Key() []byte {
	dump := deepDump(s.a, func(uint64) string { return "#" })
	if s.challenge != "" {
		q := fmt.Sprintf("%q", s.challenge)
		dump = strings.ReplaceAll(dump, q, "CHALLENGE")
	}
	return []byte(fmt.Sprint(s.state, s.hello, s.method, s.details != "", "\x00", dump))
}

func init() {
	all := []auth.Method{auth.Anonymous, auth.Ticket, auth.WAMPCRA, auth.CryptoSign}
	var quick, full []string
	add := func(name string, c accCfg, q bool) {
		cfgReg[name] = func() Sys { return newAccSys(&c) }
		full = append(full, name+"-long")
		l := c
		l.long = true
		cfgReg[name+"-long"] = func() Sys { return newAccSys(&l) }
		if q {
			quick = append(quick, name)
		}
	}
	for mask := 0; mask < 16; mask++ {
		var ms []auth.Method
		for i, m := range all {
			if mask>>i&1 == 1 {
				ms = append(ms, m)
			}
		}
		for d, decide := range []string{"accept", "reject", "cred", "salted", "plain", "both"} {
			for w := 0; w < 2; w++ {
				name := fmt.Sprintf("acceptor-%d-%s-%s", mask, decide, []string{"msg", "wire"}[w])
				add(name, accCfg{methods: ms, decide: decide, wire: w == 1, ser: (mask + d) % 3}, decide != "plain" && decide != "both" || decide == "plain" && mask&4 != 0 || decide == "both" && mask%5 == 0)
			}
		}
	}
	add("acceptor-custom", accCfg{methods: []auth.Method{"custom", "", auth.Ticket}, decide: "accept"}, true)
	add("acceptor-duplicates", accCfg{methods: []auth.Method{auth.CryptoSign, auth.Ticket, auth.CryptoSign}, decide: "cred"}, true)
	add("acceptor-default", accCfg{decide: "default"}, true)
	add("acceptor-default-wire", accCfg{decide: "default", wire: true}, true)
	register("C17", "model_checking", func(c *Ctx) *Violation {
		if v := methodChoice(c); v != nil {
			return v
		}
		return runCfgs(c, nil, Pick(c, quick, full)...)
	})
}

// methodChoice: every set of enabled methods against every list of up to four
// offered ones: the method is the first offered that is enabled, anonymous if
// none is offered.
func methodChoice(c *Ctx) *Violation {
	names := []string{"anonymous", "ticket", "wampcra", "cryptosign", "oauth", "Ticket"}
	all := []auth.Method{auth.Anonymous, auth.Ticket, auth.WAMPCRA, auth.CryptoSign}
	lists := [][]string{nil, {}}
	for from := 1; from < len(lists) && len(lists[from]) < Pick(c, 3, 4); from++ {
		for _, n := range names {
			lists = append(lists, append(append([]string{}, lists[from]...), n))
		}
	}
	_, pub := keyPair(1)
	i, msg := enum(c, 32*len(lists), func(i int) string {
		bits, offered := i%32, lists[i/32]
		var on []auth.Method
		for k := range all {
			if m := all[k]; bits&(1<<k) != 0 {
				if bits&16 != 0 { // the order of the enabled ones means nothing
					on = append([]auth.Method{m}, on...)
				} else {
					on = append(on, m)
				}
			}
		}
		has := func(m string) bool {
			for _, o := range on {
				if string(o) == m {
					return true
				}
			}
			return false
		}
		want := ""
		if len(offered) == 0 && has("anonymous") {
			want = "anonymous"
		}
		for _, o := range offered {
			if want == "" && has(o) {
				want = o
			}
		}
		what := fmt.Sprintf("enabled %v, offered %v", on, offered)
		got, err := auth.SelectAuthMethod(append([]auth.Method{}, on...), append([]string{}, offered...))
		if (err == nil) != (want != "") || err == nil && string(got) != want {
			return fmt.Sprintf("%s: the method selected is %q, %v instead of %q", what, got, err, want)
		}
		asked := ""
		a := wampproto.NewAcceptor(nil, &harnessAuth{methods: on, f: func(q auth.Request) (auth.Response, error) {
			asked = string(q.AuthMethod())
			if asked == "wampcra" {
				return auth.NewCRAResponse("id", "role", "secret", 0), nil
			}
			return auth.NewResponse("id", "role", 0)
		}})
		m, err := a.ReceiveMessage(messages.NewHello("realm1", "alice", map[string]any{"pubkey": pub}, map[string]any{}, append([]string{}, offered...)))
		if err != nil && want != "" {
			return fmt.Sprintf("%s: HELLO fails: %v", what, err)
		}
		reply := ""
		switch x := m.(type) {
		case *messages.Challenge:
			reply = x.AuthMethod()
		case *messages.Welcome:
			reply, _ = x.Details()["authmethod"].(string)
		}
		if reply != want {
			return fmt.Sprintf("%s: HELLO is answered with %s, not by %q", what, compMsg(m), want)
		}
		if asked != "" && asked != want {
			return fmt.Sprintf("%s: the authenticator is asked about %q", what, asked)
		}
		return ""
	})
	c.Evals += int64(32 * len(lists))
	c.Distinct += int64(32 * len(lists))
	if i >= 0 {
		return &Violation{Message: msg, Case: i}
	}
	return nil
}
