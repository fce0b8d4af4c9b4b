package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// One complete handshake between a real joiner and a real acceptor.
type handshake struct {
	ser    serializers.Serializer // nil: messages are handed over as they are
	method string                 // anonymous, ticket, wampcra, cryptosign
	realm  string
	authid string
	extra  map[string]any
	ticket string // ticket, secret
	key    byte   // cryptosign key pair
	offer  []string
	// server side
	respond func(auth.Request) (auth.Response, error)
	methods []auth.Method
}

type hsResult struct {
	client, server *wampproto.SessionDetails
	reqs           []auth.Request
	challenge      *messages.Challenge
	welcome        *messages.Welcome
	err            error // the handshake failed
	stage          string
	authExtra      map[string]any // of the AUTHENTICATE
}

func (h *handshake) clientAuth() (auth.ClientAuthenticator, error) {
	ex := h.extra
	if ex != nil {
		ex = deepCopy(ex).(map[string]any)
	}
	switch h.method {
	case "ticket":
		return auth.NewTicketAuthenticator(h.authid, h.ticket, ex), nil
	case "wampcra":
		return auth.NewWAMPCRAAuthenticator(h.authid, h.ticket, ex), nil
	case "cryptosign":
		return auth.NewCryptoSignAuthenticator(h.authid, seedHex(h.key), ex)
	}
	return auth.NewAnonymousAuthenticator(h.authid, ex), nil
}

// withExtra is the AUTHENTICATE of a client that has something to add.
func (r *hsResult) withExtra(h *handshake, a *messages.Authenticate) *messages.Authenticate {
	r.authExtra = a.Extra()
	if len(h.extra) == 0 {
		return a
	}
	r.authExtra = h.extra
	return messages.NewAuthenticate(a.Signature(), h.extra)
}

func (h *handshake) run() (r hsResult) {
	ca, err := h.clientAuth()
	if err != nil {
		r.err, r.stage = err, "client authenticator"
		return
	}
	j := wampproto.NewJoiner(h.realm, h.ser, ca)
	ms := h.methods
	if ms == nil {
		ms = auth.Methods
	}
	a := wampproto.NewAcceptor(h.ser, &harnessAuth{methods: ms, f: func(q auth.Request) (auth.Response, error) {
		r.reqs = append(r.reqs, q)
		return h.respond(q)
	}})
	helloBytes, err := j.SendHello()
	if err != nil {
		r.err, r.stage = err, "SendHello"
		return
	}
	var hello messages.Message = messages.NewHello(h.realm, ca.AuthID(), ca.AuthExtra(), wampproto.ClientRoles, []string{ca.AuthMethod()})
	if h.offer != nil {
		hello = messages.NewHello(h.realm, ca.AuthID(), ca.AuthExtra(), wampproto.ClientRoles, h.offer)
		if h.ser != nil {
			if helloBytes, err = h.ser.Serialize(hello); err != nil {
				r.err, r.stage = err, "HELLO"
				return
			}
		}
	}
	if h.ser == nil {
		m := hello
		for i := 0; i < 3; i++ {
			if m, r.err = a.ReceiveMessage(m); r.err != nil {
				r.stage = "acceptor"
				return
			}
			if c, ok := m.(*messages.Challenge); ok {
				r.challenge = c
			}
			if w, ok := m.(*messages.Welcome); ok {
				r.welcome = w
			}
			if m, r.err = j.ReceiveMessage(m); r.err != nil {
				r.stage = "joiner"
				return
			}
			if m == nil {
				break
			}
			if x, ok := m.(*messages.Authenticate); ok {
				m = r.withExtra(h, x)
			}
		}
	} else {
		data := helloBytes
		for i := 0; i < 3; i++ {
			if data, _, r.err = a.Receive(data); r.err != nil {
				r.stage = "acceptor"
				return
			}
			if m, err := h.ser.Deserialize(append([]byte{}, data...)); err == nil {
				if c, ok := m.(*messages.Challenge); ok {
					r.challenge = c
				}
				if w, ok := m.(*messages.Welcome); ok {
					r.welcome = w
				}
			}
			if data, r.err = j.Receive(data); r.err != nil {
				r.stage = "joiner"
				return
			}
			if data == nil {
				break
			}
			if m, err := h.ser.Deserialize(append([]byte{}, data...)); err == nil {
				if x, ok := m.(*messages.Authenticate); ok {
					if data, r.err = h.ser.Serialize(r.withExtra(h, x)); r.err != nil {
						r.stage = "AUTHENTICATE"
						return
					}
				}
			}
		}
	}
	if r.client, r.err = j.SessionDetails(); r.err != nil {
		r.stage = "client details"
		return
	}
	if r.server, r.err = a.SessionDetails(); r.err != nil {
		r.stage = "server details"
	}
	return
}

// ---- C19 ----

var hsSers = func() []serializers.Serializer {
	out := []serializers.Serializer{nil}
	for _, s := range allSerializers {
		out = append(out, s.s)
	}
	return append(out, &e2eStatic{})
}()

func serName(s serializers.Serializer) string {
	for _, x := range allSerializers {
		if x.s == s {
			return x.name
		}
	}
	return "none"
}

var hsExtras = []map[string]any{nil, {}, {"k": "v"}, {"n": map[string]any{"l": []any{uint64(1), "x", nil, true}, "e": map[string]any{}}, "żółć": "ключ", "": ""},
	{"i": int64(-5), "u": uint64(1 << 53), "f": 1.5, "authid": "eve", "authrole": "admin", "realm": "other"}}

var hsMethods = []string{"anonymous", "ticket", "wampcra", "wampcra salted", "cryptosign"}

func c19(c *Ctx) *Violation {
	c.Rule = "full product of transport form (no serialization, JSON, MessagePack, CBOR) x method (CRA unsalted and salted) x realm x authid x authextra x the identity decided by the " +
		"authenticator x offered method list x enabled methods; all cases are distinct and each completes a handshake"
	long := strings.Repeat("långé.", 60)
	realms := []string{"realm1", "", "r.üé.領域", long, " Realm1\t", "REALM1", "realm.1."}
	ids := []string{"alice", "", "ünï ©\n\"", long, " Alice ", "anonymous", "alice@Example.ORG", "0"}
	decisions := [][2]string{{"=", "user"}, {"mapped", "admin"}, {"", ""}, {"é\u2028", "rôle \""}, {long, "anonymous"},
		{"upper", " User"}, {"lower", "USER"}, {"trim", "user "}, {"suffix", ""}, {"prefix", "="}, {"alice", "user"}}
	tickets := Pick(c, []string{"s3cret", " Ünï ©\n\"\t "}, []string{"s3cret", " Ünï ©\n\"\t ", "", long})
	if c.Quick() {
		ids = ids[:5]
	}
	dims := []int{len(hsSers), len(hsMethods), len(realms), len(ids), len(hsExtras), len(decisions), 2, 2, len(tickets)}
	n := 1
	for _, d := range dims {
		n *= d
	}
	get := func(i int) (h handshake, salted bool, dec [2]string) {
		v := make([]int, len(dims))
		for k := range dims {
			v[k] = i % dims[k]
			i /= dims[k]
		}
		m := hsMethods[v[1]]
		salted = m == "wampcra salted"
		m = strings.Fields(m)[0]
		h = handshake{ser: hsSers[v[0]], method: m, realm: realms[v[2]], authid: ids[v[3]], extra: hsExtras[v[4]], ticket: tickets[v[8]], key: 1}
		if v[6] == 1 {
			h.offer = []string{"oauth", m}
		}
		if v[7] == 1 {
			h.methods = []auth.Method{auth.Method(m)}
		}
		return h, salted, decisions[v[5]]
	}
	describe := func(i int) string {
		h, s, d := get(i)
		return fmt.Sprintf("serializer %s, method %s (salted %v), realm %q, authid %q, authextra %v, secret %q, offered %v, enabled %v, decided %q",
			serName(h.ser), h.method, s, h.realm, h.authid, h.extra, h.ticket, h.offer, h.methods, d)
	}
	var evals atomic.Int64
	i, msg := enum(c, n, func(i int) string {
		h, salted, dec := get(i)
		evals.Add(1)
		return c19case(&h, salted, dec)
	})
	c.Evals, c.Distinct = evals.Load(), evals.Load()
	for _, k := range []int{0, n / 3, n - 1} {
		c.Sample(describe(k))
	}
	if i >= 0 {
		return &Violation{Message: msg + "\n  " + describe(i), Case: i}
	}
	// and what a peer of another make may send
	return runCfgs(c, nil, "acceptor-15-accept-msg", "acceptor-15-cred-wire", "acceptor-6-salted-msg")
}

func c19case(h *handshake, salted bool, dec [2]string) string {
	id := dec[0]
	if id == "=" {
		id = h.authid
	}
	switch id {
	case "upper":
		id = strings.ToUpper(h.authid)
	case "lower":
		id = strings.ToLower(h.authid)
	case "trim":
		id = strings.TrimSpace(h.authid)
	case "suffix":
		id = h.authid + "@realm"
	case "prefix":
		id = h.authid[:len(h.authid)/3]
	}
	role := dec[1]
	if role == "=" {
		role = h.method
	}
	id = strings.ToValidUTF8(id, "")
	h.respond = func(q auth.Request) (auth.Response, error) {
		if q.AuthMethod() == auth.WAMPCRA {
			if salted {
				return auth.NewCRAResponseSalted(id, role, h.ticket, "salt", 3, 32, 0), nil
			}
			return auth.NewCRAResponse(id, role, h.ticket, 0), nil
		}
		return auth.NewResponse(id, role, 0)
	}
	r := h.run()
	if r.err != nil {
		return fmt.Sprintf("the handshake fails (%s): %v", r.stage, r.err)
	}
	type t struct{ id, realm, authid, role, method any }
	f := func(d *wampproto.SessionDetails) t {
		return t{d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod()}
	}
	want := t{r.server.ID(), h.realm, id, role, h.method}
	if s := f(r.server); s != want {
		return fmt.Sprintf("the router holds %v, decided was %v", s, want)
	}
	if k := f(r.client); k != want {
		return fmt.Sprintf("the client holds %v, the router %v", k, want)
	}
	if r.welcome == nil {
		return "no WELCOME was seen"
	}
	d := r.welcome.Details()
	if w := (t{r.welcome.SessionID(), d["realm"], d["authid"], d["authrole"], d["authmethod"]}); w != want {
		return fmt.Sprintf("the WELCOME says %v, the router holds %v", w, want)
	}
	if n := r.server.ID(); n < 1 || n > 1<<53 {
		return fmt.Sprintf("session id %d", n)
	}
	if h.ser != nil && (r.client.StaticSerializer() != h.ser.Static() || r.server.StaticSerializer() != h.ser.Static()) {
		return "the serializer's kind differs"
	}
	if r.authExtra == nil {
		r.authExtra = map[string]any{}
	}
	if !same(r.server.AuthExtra(), r.authExtra) {
		return fmt.Sprintf("the AUTHENTICATE carries the extra %v, the router keeps %v", r.authExtra, r.server.AuthExtra())
	}
	if !same(r.client.RouterRoles(), wampproto.RouterRoles) || !same(r.server.RouterRoles(), wampproto.RouterRoles) {
		return fmt.Sprintf("router roles: client %v, server %v", r.client.RouterRoles(), r.server.RouterRoles())
	}
	if len(r.reqs) == 0 {
		return "the authenticator was not asked"
	}
	extra := map[string]any{}
	for k, v := range h.extra {
		extra[k] = v
	}
	_, pub := keyPair(h.key)
	if h.method == "cryptosign" {
		extra["pubkey"] = pub
	}
	for _, q := range r.reqs {
		if q.Realm() != h.realm || q.AuthID() != h.authid || string(q.AuthMethod()) != h.method || !same(q.AuthExtra(), extra) {
			return fmt.Sprintf("the authenticator sees realm %q, authid %q, method %q, authextra %v", q.Realm(), q.AuthID(), q.AuthMethod(), q.AuthExtra())
		}
		switch h.method {
		case "ticket":
			if x, ok := q.(*auth.TicketRequest); !ok || x.Ticket() != h.ticket {
				return fmt.Sprintf("the authenticator does not see the ticket: %T", q)
			}
		case "cryptosign":
			if x, ok := q.(*auth.RequestCryptoSign); !ok || x.PublicKey() != pub {
				return fmt.Sprintf("the authenticator does not see the public key: %T", q)
			}
		}
	}
	if h.method == "wampcra" {
		ch, _ := r.challenge.Extra()["challenge"].(string)
		var d map[string]any
		if json.Unmarshal([]byte(ch), &d) != nil || d["authid"] != id || d["authrole"] != role {
			return fmt.Sprintf("the challenge %q does not name the decided identity", ch)
		}
	}
	return ""
}

// ---- C18 ----

// crHand is an acceptor that has sent its challenge.
type crHand struct {
	kind      string // ticket, wampcra, wampcra salted, cryptosign
	a         *wampproto.Acceptor
	challenge string
	ticket    string // secret or ticket
	key       byte
	salt      string
	iter, kl  int
}

var crKinds = []string{"ticket", "wampcra", "wampcra salted", "cryptosign"}

func newCrHand(kind, secret string, key byte, salt string, iter, kl int) (*crHand, string) {
	h := &crHand{kind: kind, ticket: secret, key: key, salt: salt, iter: iter, kl: kl}
	_, pub := keyPair(key)
	method := strings.Fields(kind)[0]
	h.a = wampproto.NewAcceptor(nil, &harnessAuth{methods: auth.Methods, f: func(q auth.Request) (auth.Response, error) {
		switch x := q.(type) {
		case *auth.TicketRequest:
			if x.Ticket() != secret {
				return nil, errors.New("no")
			}
		case *auth.RequestCryptoSign:
			if x.PublicKey() != pub {
				return nil, errors.New("no")
			}
		}
		if q.AuthMethod() == auth.WAMPCRA {
			if kind == "wampcra salted" {
				return auth.NewCRAResponseSalted("id", "role", secret, salt, iter, kl, 0), nil
			}
			return auth.NewCRAResponse("id", "role", secret, 0), nil
		}
		return auth.NewResponse("id", "role", 0)
	}})
	m, err := h.a.ReceiveMessage(messages.NewHello("realm1", "alice", map[string]any{"pubkey": pub}, map[string]any{}, []string{method}))
	if err != nil {
		return nil, fmt.Sprint("HELLO fails: ", err)
	}
	ch, ok := m.(*messages.Challenge)
	if !ok {
		return nil, fmt.Sprintf("HELLO is answered with %s", compMsg(m))
	}
	h.challenge, _ = ch.Extra()["challenge"].(string)
	return h, ""
}

func (h *crHand) right() string {
	switch h.kind {
	case "ticket":
		return h.ticket
	case "cryptosign":
		k, _ := keyPair(h.key)
		return refCryptoSign(h.challenge, k)
	case "wampcra salted":
		return refCRA(h.challenge, h.ticket, h.salt, h.iter, h.kl)
	}
	return refCRA(h.challenge, h.ticket, "", 0, 0)
}

// equivalent: the altered response still stands for the same bytes.
func (h *crHand) equivalent(r string) bool {
	switch strings.Fields(h.kind)[0] {
	case "wampcra":
		a, e1 := base64.StdEncoding.DecodeString(r)
		b, _ := base64.StdEncoding.DecodeString(h.right())
		return e1 == nil && bytes.Equal(a, b)
	case "cryptosign":
		a, e1 := hex.DecodeString(r)
		b, _ := hex.DecodeString(h.right())
		return e1 == nil && bytes.Equal(a, b)
	}
	return r == h.right()
}

// try answers the challenge; msg is non-empty if the acceptor judges wrongly.
func (h *crHand) try(resp string) string { return h.tryWith(resp, map[string]any{}) }

func (h *crHand) tryWith(resp string, extra map[string]any) string {
	right := resp == h.right()
	either := !right && h.equivalent(resp)
	m, err := h.a.ReceiveMessage(messages.NewAuthenticate(resp, extra))
	welcomed := err == nil && m != nil && m.Type() == 2
	if right && !welcomed {
		return fmt.Sprintf("%s: the right response %q to challenge %q is rejected (%v, %v)", h.kind, resp, h.challenge, m, err)
	}
	if welcomed && !right && !either {
		return fmt.Sprintf("%s: the response %q to challenge %q is accepted; right is %q", h.kind, resp, h.challenge, h.right())
	}
	if !welcomed && err == nil && (m == nil || m.Type() != 3) {
		return fmt.Sprintf("%s: the response %q is answered with %s", h.kind, resp, compMsg(m))
	}
	return ""
}

// alterations of a response, by index.
type alteration struct {
	name string
	f    func(string) string
}

func crAlterations(kind string, n int) []alteration {
	alphabet := "0123456789abcdefABCDEF \n=%\x00é"
	if kind != "cryptosign" {
		alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ \r\n%\x00é"
	}
	var out []alteration
	add := func(name string, f func(string) string) { out = append(out, alteration{name, f}) }
	for p := 0; p <= n; p++ {
		for _, ch := range alphabet {
			if p < n {
				add(fmt.Sprintf("character %d replaced by %q", p, ch), func(s string) string { return s[:min(p, len(s))] + string(ch) + s[min(p+1, len(s)):] })
			}
			if kind != "cryptosign" || p%16 < 2 || p == n {
				add(fmt.Sprintf("%q inserted at %d", ch, p), func(s string) string { p := min(p, len(s)); return s[:p] + string(ch) + s[p:] })
			}
		}
		if p < n {
			add(fmt.Sprintf("character %d removed", p), func(s string) string { return s[:min(p, len(s))] + s[min(p+1, len(s)):] })
			add(fmt.Sprintf("cut after %d", p), func(s string) string { return s[:min(p, len(s))] })
			add(fmt.Sprintf("first %d removed", p+1), func(s string) string { return s[min(p+1, len(s)):] })
			add(fmt.Sprintf("characters %d and %d swapped", p, p+1), func(s string) string {
				if p+1 >= len(s) {
					return s + s
				}
				return s[:p] + s[p+1:p+2] + s[p:p+1] + s[p+2:]
			})
			add(fmt.Sprintf("rotated by %d", p), func(s string) string { q := min(p, len(s)); return s[q:] + s[:q] })
			if p+1 < n {
				add(fmt.Sprintf("bytes %d,%d zeroed", p, p+1), func(s string) string {
					if p+2 > len(s) {
						return "00"
					}
					return s[:p] + "00" + s[p+2:]
				})
			}
		}
	}
	add("unchanged", func(s string) string { return s })
	add("empty", func(string) string { return "" })
	add("doubled", func(s string) string { return s + s })
	add("upper case", strings.ToUpper)
	add("lower case", strings.ToLower)
	add("quoted", func(s string) string { return `"` + s + `"` })
	add("hex of it", func(s string) string { return hex.EncodeToString([]byte(s)) })
	add("base64 of it", func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) })
	add("long", func(s string) string { return strings.Repeat(s, 1000) })
	add("zeroes", func(s string) string { return strings.Repeat("0", len(s)) })
	add("A", func(s string) string { return strings.Repeat("A", len(s)) })
	return out
}

type crOther struct {
	name, resp string
	extra      map[string]any // of the AUTHENTICATE
}

// crOthers: responses made with the right key for something other than the
// challenge, or for the challenge with something near the right key.
func crOthers(kind, challenge string) []crOther {
	var out []crOther
	// each is sent without any extra, and with one that says how it was made
	claims := map[string]any{}
	add := func(resp, f string, a ...any) {
		name := fmt.Sprintf(f, a...)
		out = append(out, crOther{name, resp, nil}, crOther{name + fmt.Sprintf(", sent with extra %.200v", claims), resp, deepCopy(claims).(map[string]any)})
	}
	if kind == "cryptosign" {
		k, _ := keyPair(1)
		raw, err := hex.DecodeString(challenge)
		if err != nil || len(raw) < 32 {
			raw = append(raw, make([]byte, 32)...)
			challenge = hex.EncodeToString(raw)
		}
		cat := func(b ...[]byte) []byte { return bytes.Join(b, nil) }
		z := make([]byte, len(raw))
		rev := make([]byte, len(raw))
		for i := range raw {
			rev[i] = raw[len(raw)-1-i]
		}
		h := len(raw) / 2
		msgs := map[string][]byte{"the challenge twice": cat(raw, raw), "zeroes and the challenge": cat(z, raw), "the challenge and zeroes": cat(raw, z), "a byte and the challenge": cat([]byte{7}, raw),
			"the challenge and a byte": cat(raw, []byte{7}), "its halves swapped": cat(raw[h:], raw[:h]), "its first half and zeroes": cat(raw[:h], z[h:]), "zeroes and its second half": cat(z[:h], raw[h:]),
			"its first half": raw[:h], "its second half": raw[h:], "all but its first byte": raw[1:], "all but its last byte": raw[:len(raw)-1], "nothing": {}, "zeroes": z, "the challenge backwards": rev,
			"its hexadecimal text": []byte(challenge), "31 zeroes and its last byte": cat(z[1:], raw[len(raw)-1:]), "its first half twice": cat(raw[:h], raw[:h]), "its second half twice": cat(raw[h:], raw[h:])}
		for p := range raw {
			m := append([]byte{}, raw...)
			m[p] ^= 1
			msgs[fmt.Sprintf("the challenge with byte %d changed", p)] = m
		}
		var names []string
		for n := range msgs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			m := msgs[n]
			claims = map[string]any{"challenge": hex.EncodeToString(m), "message": string(m)}
			sig := hex.EncodeToString(ed25519.Sign(k, m))
			add(sig+hex.EncodeToString(m), "the signed message %s", n)
			add(sig+challenge, "the challenge with the signature of %s", n)
			add(hex.EncodeToString(ed25519.Sign(k, raw))+hex.EncodeToString(m), "%s with the challenge's signature", n)
			add(sig+hex.EncodeToString(m)+challenge, "the signed message %s followed by the challenge", n)
		}
		for n := byte(2); n < 6; n++ {
			k2, pub := keyPair(n)
			for _, name := range []string{"pubkey", "public_key", "publickey", "key"} {
				claims = map[string]any{name: pub, "challenge": challenge, "authid": "id", "authmethod": "cryptosign"}
				add(refCryptoSign(challenge, k2), "signed with key %d", n)
			}
		}
		return out
	}
	key := []byte(accSecret)
	if kind == "wampcra salted" {
		key = refDerive(accSecret, accSalt, 3, 32)
	}
	mac := func(k []byte, m string) string {
		h := hmac.New(sha256.New, k)
		h.Write([]byte(m))
		return base64.StdEncoding.EncodeToString(h.Sum(nil))
	}
	for _, m := range []string{"", challenge + " ", " " + challenge, challenge + challenge, challenge[1:], challenge[:len(challenge)-1], strings.ToUpper(challenge), strings.ToLower(challenge) + "\x00",
		challenge[:len(challenge)/2], challenge[len(challenge)/2:], strings.ReplaceAll(challenge, ",", ", "), "{}", "null", strings.ReplaceAll(challenge, "role", "admin"), challenge + "\n"} {
		if m != challenge {
			claims = map[string]any{"challenge": m, "message": m}
			add(mac(key, m), "the HMAC of %q", m)
		}
	}
	other := map[string][]byte{"the secret and a space": []byte(accSecret + " "), "no secret": {}, "the secret in upper case": []byte(strings.ToUpper(accSecret)), "part of the secret": []byte(accSecret[:3]),
		"secret and salt": []byte(accSecret + accSalt), "salt and secret": []byte(accSalt + accSecret), "the salt": []byte(accSalt), "the derived bytes": refPBKDF2([]byte(accSecret), []byte(accSalt), 3, 32),
		"one iteration": refDerive(accSecret, accSalt, 1, 32), "1000 iterations": refDerive(accSecret, accSalt, 1000, 32), "a shorter key": refDerive(accSecret, accSalt, 3, 31),
		"secret and salt exchanged": refDerive(accSalt, accSecret, 3, 32), "no salt": refDerive(accSecret, "", 3, 32)}
	if kind == "wampcra salted" {
		other["the bare secret"] = []byte(accSecret)
	} else {
		other["the salted secret"] = refDerive(accSecret, accSalt, 3, 32)
	}
	var names []string
	for n := range other {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		claims = map[string]any{"secret": string(other[n]), "key": string(other[n]), "salt": "", "iterations": 1, "keylen": 32, "salted": false}
		if it := map[string]int{"one iteration": 1, "1000 iterations": 1000, "a shorter key": 3}[n]; it > 0 {
			claims = map[string]any{"salt": accSalt, "iterations": it, "keylen": 32}
			if it == 3 {
				claims["keylen"] = 31
			}
		}
		add(mac(other[n], challenge), "made with %s", n)
	}
	claims = map[string]any{"challenge": challenge, "encoding": "hex", "authmethod": "anonymous"}
	raw, _ := base64.StdEncoding.DecodeString(mac(key, challenge))
	plain := sha256.Sum256(append(append([]byte{}, key...), challenge...))
	add(base64.StdEncoding.EncodeToString(plain[:]), "a plain hash")
	add(hex.EncodeToString(raw), "hexadecimal")
	add(string(raw), "the raw bytes")
	for _, n := range []int{0, 1, 8, 16, 20, 31} {
		add(base64.StdEncoding.EncodeToString(raw[:n]), "the first %d bytes", n)
		add(base64.StdEncoding.EncodeToString(append(append([]byte{}, raw...), make([]byte, n+1)...)), "with %d bytes appended", n+1)
	}
	return out
}

func c18(c *Ctx) *Violation {
	c.Rule = "(1) every single-position substitution, insertion, removal, cut, swap and rotation of the right response, on a fresh handshake each; (1b) responses made with the right key for other messages and for the challenge with near keys, each also with an extra that names that key, message or parameter; (1c) the public keys a cryptosign client may be given; (2) every right response replayed into every other of a set " +
		"of handshakes that differ in method, secret, key, salt, iterations or key length or in nothing but the challenge; (3) full handshakes for every secret x salt x iterations x key length x serializer; " +
		"(4) the client's answer to every combination of well- and wrongly typed challenge parameters against an independent PBKDF2/HMAC; (5) challenges of 3000 handshakes per method and of two processes differ. " +
		"Non-trivial: everything but responses left unchanged"
	var evals, triv atomic.Int64
	done := func() { c.Evals, c.Distinct = evals.Load(), evals.Load()-triv.Load() }
	defer done()
	fresh := func(kind string) (*crHand, string) { return newCrHand(kind, accSecret, 1, accSalt, 3, 32) }

	// (1) alterations
	for _, kind := range crKinds {
		n := map[string]int{"ticket": len(accSecret), "wampcra": 44, "wampcra salted": 44, "cryptosign": 192}[kind]
		alts := crAlterations(kind, n)
		i, msg := enum(c, len(alts), func(i int) string {
			evals.Add(1)
			h, m := fresh(kind)
			if m != "" {
				return m
			}
			r := alts[i].f(h.right())
			if r == h.right() {
				triv.Add(1)
			}
			return h.try(r)
		})
		c.Sample(fmt.Sprintf("%s: %s", kind, alts[len(alts)/2].name))
		if i >= 0 {
			return &Violation{Message: msg + "\n  " + alts[i].name, Case: i}
		}
	}

	// (1b) right key or secret, other message; right message, near key
	for _, kind := range crKinds[1:] {
		n := len(crOthers(kind, strings.Repeat("ab", 32)))
		i, msg := enum(c, n, func(i int) string {
			evals.Add(1)
			h, m := fresh(kind)
			if m != "" {
				return m
			}
			o := crOthers(kind, h.challenge)[i]
			if m := h.tryWith(o.resp, o.extra); m != "" {
				return m + "\n  it is " + o.name
			}
			return ""
		})
		if i >= 0 {
			return &Violation{Message: msg, Case: i}
		}
	}

	// (1c) the public key a cryptosign client announces
	_, pub1 := keyPair(1)
	_, pub2 := keyPair(2)
	pubs := []any{"absent", nil, pub1, pub2, "", strings.ToUpper(pub1), pub1 + "00", pub1[:62], " " + pub1, pub1 + " ", pub1[32:] + pub1[:32]}
	for p := range pub1 {
		for _, ch := range "0f5" {
			pubs = append(pubs, pub1[:p]+string(ch)+pub1[p+1:])
		}
	}
	i, msg := enum(c, len(pubs), func(i int) string {
		evals.Add(1)
		ex := map[string]any{"k": "v"}
		if pubs[i] != "absent" {
			ex["pubkey"] = pubs[i]
		}
		a, err := auth.NewCryptoSignAuthenticator("alice", seedHex(1), ex)
		if right := pubs[i] == "absent" || pubs[i] == nil || pubs[i] == pub1; right && err != nil {
			return fmt.Sprintf("a cryptosign authenticator with the public key %v is refused: %v", pubs[i], err)
		}
		if err == nil && (a.AuthExtra()["k"] != "v" || !strings.EqualFold(fmt.Sprint(a.AuthExtra()["pubkey"]), pub1)) {
			return fmt.Sprintf("the cryptosign authenticator for the key %s given the public key %v announces %v", pub1, pubs[i], a.AuthExtra())
		}
		return ""
	})
	if i >= 0 {
		return &Violation{Message: msg, Case: i}
	}

	// (1d) verification with what is no public key, or another one
	for key := byte(1); key <= 3; key++ {
		priv, pubHex := keyPair(key)
		pub, _ := hex.DecodeString(pubHex)
		ch := strings.Repeat(fmt.Sprintf("%02x", 0x30+key), 32)
		sig := refCryptoSign(ch, priv)
		verify := func(sig string, pk []byte, want bool, what string) string {
			evals.Add(1)
			ok, _ := auth.VerifyCryptoSignSignature(sig, pk)
			if ok != want {
				return fmt.Sprintf("VerifyCryptoSignSignature(%s, %x) = %v: %s", sig, pk, ok, what)
			}
			return ""
		}
		n := 0
		msg := verify(sig, pub, true, "the signature of that key")
		if got, err := auth.SignCryptoSignChallenge(ch, priv); msg == "" && (err != nil || got != sig) {
			msg = fmt.Sprintf("SignCryptoSignChallenge(%s) = %s, %v instead of %s", ch, got, err, sig)
		}
		for n = 0; n <= 70 && msg == ""; n++ {
			if n == 32 {
				continue
			}
			long := append(append([]byte{}, pub...), pub...)
			long = append(long, pub...)
			zeros := append(append([]byte{}, pub...), make([]byte, 64)...)
			if msg = verify(sig, long[:n], false, "the key has a wrong length"); msg == "" {
				msg = verify(sig, zeros[:n], false, "the key has a wrong length")
			}
			// no private key at all: the neutral element as R, 0 as S
			for k := 0; k < 16 && msg == "" && n < 32; k++ {
				msg = verify("01"+strings.Repeat("00", 63)+fmt.Sprintf("%064x", k), make([]byte, n), false, "nobody signed this")
			}
		}
		for bit := 0; bit < 256 && msg == ""; bit++ {
			other := append([]byte{}, pub...)
			other[bit/8] ^= 1 << (bit % 8)
			msg = verify(sig, other, false, "the key differs in one bit from that of the signer")
		}
		if msg != "" {
			return &Violation{Message: msg}
		}
	}

	// (1e) generated key pairs: the two halves belong together, for every value of
	// every byte of randomness (should the generator read rand.Reader), and differ
	{
		seenKeys := map[string]bool{}
		check := func(what string, fresh bool) string {
			evals.Add(1)
			pk, sk, err := auth.GenerateCryptoSignKeyPair()
			if err != nil {
				return fmt.Sprintf("%s: no key pair: %v", what, err)
			}
			seed, err := hex.DecodeString(sk)
			if err != nil || len(seed) != 32 {
				return fmt.Sprintf("%s: the private key %q is not 32 bytes of hex", what, sk)
			}
			if want := hex.EncodeToString(ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)); pk != want {
				return fmt.Sprintf("%s: the key pair %s, %s does not belong together; the public key is %s", what, pk, sk, want)
			}
			a, err := auth.NewCryptoSignAuthenticator("alice", sk, map[string]any{"pubkey": pk})
			if err != nil || a.AuthExtra()["pubkey"] != pk {
				return fmt.Sprintf("%s: the authenticator does not take the generated key pair: %v", what, err)
			}
			if fresh && (seenKeys[pk] || seenKeys[sk]) {
				return fmt.Sprintf("%s: the key pair %s was generated before", what, pk)
			}
			if fresh {
				seenKeys[pk], seenKeys[sk] = true, true
			}
			return ""
		}
		for n := 0; n < 2000; n++ {
			if m := check(fmt.Sprintf("key pair %d", n), true); m != "" {
				return &Violation{Message: m}
			}
		}
		old := rand.Reader
		defer func() { rand.Reader = old }()
		for pos := 0; pos < 32; pos++ {
			for v := 0; v < 256; v++ {
				for _, fill := range []byte{0, 0x5a} {
					if fill == 0x5a && c.Quick() {
						continue
					}
					rand.Reader = &patternReader{pos: pos, val: byte(v), fill: fill}
					if m := check(fmt.Sprintf("randomness with %02x at byte %d", v, pos), false); m != "" {
						return &Violation{Message: m}
					}
				}
			}
		}
		rand.Reader = old
	}

	// (2) replays and mismatches
	type variant struct {
		kind, secret string
		key          byte
		salt         string
		iter, kl     int
	}
	vs := []variant{}
	for _, s := range []string{accSecret, "other", "", strings.Repeat("k", 100)} {
		vs = append(vs, variant{kind: "ticket", secret: s, key: 1}, variant{kind: "wampcra", secret: s, key: 1})
		for _, p := range []struct {
			salt     string
			iter, kl int
		}{{"salt", 3, 32}, {"salt", 4, 32}, {"salt", 3, 31}, {"salt2", 3, 32}, {"salt", 0, 0}} {
			vs = append(vs, variant{"wampcra salted", s, 1, p.salt, p.iter, p.kl})
		}
	}
	for k := byte(1); k <= 4; k++ {
		vs = append(vs, variant{kind: "cryptosign", key: k})
	}
	vs = append(vs, vs...) // the same parameters again: only the challenge differs
	mk := func(v variant) (*crHand, string) { return newCrHand(v.kind, v.secret, v.key, v.salt, v.iter, v.kl) }
	i, msg = enum(c, len(vs)*len(vs)*2, func(x int) string {
		evals.Add(1)
		a, b := vs[x/2%len(vs)], vs[x/2/len(vs)]
		first, m := mk(a)
		if m != "" {
			return m
		}
		second, m := mk(b)
		if m != "" {
			return m
		}
		if x%2 == 1 {
			first, second = second, first
		}
		// the response recorded for one handshake is sent in the other
		r := first.right()
		if first.kind == "ticket" && second.kind == "ticket" && first.ticket == second.ticket {
			triv.Add(1) // tickets may be used again
			return second.try(r)
		}
		if r == second.right() {
			return fmt.Sprintf("two handshakes (%+v and %+v) expect the same response %q", a, b, r)
		}
		return second.try(r)
	})
	if i >= 0 {
		return &Violation{Message: msg, Case: i}
	}

	// (3) full handshakes over the CRA parameters
	secrets := []string{accSecret, "", "ünï", strings.Repeat("s", 64), strings.Repeat("s", 65), strings.Repeat("s", 200)}
	salts := []string{"", "s", "sält\n", strings.Repeat("x", 130)}
	iters := []int{0, 1, 2, 999, 1000, 1001, -1, -1 << 31}
	kls := []int{0, 1, 16, 31, 32, 33, 64, 100, -1, -1 << 40, 4096}
	dims := []int{len(hsSers), len(secrets), len(salts), len(iters), len(kls)}
	total := 1
	for _, d := range dims {
		total *= d
	}
	at := func(i int) []int {
		v := make([]int, len(dims))
		for k := range dims {
			v[k] = i % dims[k]
			i /= dims[k]
		}
		return v
	}
	i, msg = enumChunk(total, 4, func(i int) string {
		v := at(i)
		if iters[v[3]] > 900 && kls[v[4]] > 1000 {
			return ""
		}
		if c.Quick() && iters[v[3]] > 900 && (v[1]+v[2])%2 == 1 {
			return ""
		}
		evals.Add(1)
		h := handshake{ser: hsSers[v[0]], method: "wampcra", realm: "realm1", authid: "alice", ticket: secrets[v[1]],
			respond: func(auth.Request) (auth.Response, error) {
				return auth.NewCRAResponseSalted("id", "role", secrets[v[1]], salts[v[2]], iters[v[3]], kls[v[4]], 0), nil
			}}
		if r := h.run(); r.err != nil {
			return fmt.Sprintf("the handshake with the right secret fails (%s): %v", r.stage, r.err)
		}
		// and with a wrong secret it does not succeed
		h.ticket += "x"
		if r := h.run(); r.err == nil {
			return "the handshake with a wrong secret succeeds"
		}
		return ""
	})
	if i >= 0 {
		v := at(i)
		return &Violation{Message: fmt.Sprintf("%s\n  serializer %s, secret %q, salt %q, iterations %d, key length %d", msg, serName(hsSers[v[0]]), secrets[v[1]], salts[v[2]], iters[v[3]], kls[v[4]]), Case: i}
	}

	// (3b) the derived key, over salts and secrets that join to the same text and
	// over parameters that do
	dSalts := []string{"a", "b", "aa", "ab", "ba", "1", "a1", "11", ":", "a:", " ", "a ", "|", "\x00", "a\x00"}
	dIters := []int{0, 1, 2, 11, 12, 21}
	for _, it := range []int{4096, 10001, 65537, 100001, 1<<20 + 1} { // as many as careful routers announce
		evals.Add(1)
		if got, want := auth.DeriveWAMPCRAKey(accSalt, accSecret, it, 32), refDerive(accSecret, accSalt, it, 32); !bytes.Equal(got, want) {
			return &Violation{Message: fmt.Sprintf("the key derived with %d iterations is %q, not %q", it, got, want)}
		}
	}
	dKls := []int{0, 1, 2, 11, 12, 21, 31, 32, 33, 64}
	dims = []int{len(dSalts), len(dSalts) + 1, len(dIters), len(dKls)}
	total = 1
	for _, d := range dims {
		total *= d
	}
	i, msg = enum(c, total, func(i int) string {
		v := at(i)
		secret := append([]string{""}, dSalts...)[v[1]]
		evals.Add(1)
		got, want := auth.DeriveWAMPCRAKey(dSalts[v[0]], secret, dIters[v[2]], dKls[v[3]]), refDerive(secret, dSalts[v[0]], dIters[v[2]], dKls[v[3]])
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("the key derived from salt %q, secret %q, iterations %d, key length %d is %q, not %q", dSalts[v[0]], secret, dIters[v[2]], dKls[v[3]], got, want)
		}
		if again := auth.DeriveWAMPCRAKey(dSalts[v[0]], secret, dIters[v[2]], dKls[v[3]]); !bytes.Equal(again, want) {
			return fmt.Sprintf("derived again from salt %q, secret %q, iterations %d, key length %d, the key is %q, not %q", dSalts[v[0]], secret, dIters[v[2]], dKls[v[3]], again, want)
		}
		return ""
	})
	if i >= 0 {
		return &Violation{Message: msg, Case: i}
	}

	// (4) the client's answers
	odd := []any{nil, "absent", 7, -1, 1.5, true, "", "text", []any{"x"}, map[string]any{"a": 1}, []byte("x"), uint64(1) << 63}
	saltVals := append([]any{"salt"}, odd...)
	intVals := append([]any{int64(10), uint64(10), 10.0, "10", int32(0), float64(-3), uint8(200)}, odd...)
	klVals := append([]any{1 << 40, uint64(1<<64 - 1), 1e300, 65536, 65537}, intVals...)
	chVals := append([]any{`{"nonce":"x"}`, strings.Repeat("ab", 32), "zz", "abc"}, odd...)
	dims = []int{len(chVals), len(saltVals), len(intVals), len(klVals), 3}
	total = 1
	for _, d := range dims {
		total *= d
	}
	known := func(v any) (int, bool) {
		switch x := v.(type) {
		case int:
			return x, true
		case int64:
			return int(x), true
		case uint64:
			return int(x), x < 1<<62
		case int32:
			return int(x), true
		case uint8:
			return int(x), true
		case float64:
			return int(x), x == float64(int(x)) && x < 1e15
		}
		return 0, false
	}
	i, msg = enumChunk(total, 8, func(i int) string {
		v := at(i)
		it, itOK := known(intVals[v[2]])
		if !c.Quick() || (v[0] < 4 || v[1] < 3) {
			evals.Add(1)
		} else {
			return ""
		}
		ex := map[string]any{}
		for k, val := range map[string]any{"challenge": chVals[v[0]], "salt": saltVals[v[1]], "iterations": intVals[v[2]], "keylen": klVals[v[3]]} {
			if val != "absent" {
				ex[k] = val
			}
		}
		kl, klOK := known(klVals[v[3]])
		if kl == 65536 && it > 20 {
			return ""
		}
		method := []string{"wampcra", "cryptosign", "ticket"}[v[4]]
		a := (&handshake{method: method, authid: "alice", ticket: accSecret, key: 1})
		ca, err := a.clientAuth()
		if err != nil {
			return fmt.Sprint("no authenticator: ", err)
		}
		resp, err := ca.Authenticate(*messages.NewChallenge(method, ex))
		if err == nil && resp == nil {
			return fmt.Sprintf("no answer and no error to %v", ex)
		}
		ch, chOK := chVals[v[0]].(string)
		if chVals[v[0]] == "absent" {
			ch, chOK = "", false
		}
		switch method {
		case "ticket":
			if err != nil || resp.Signature() != accSecret {
				return fmt.Sprintf("the ticket client answers %v, %v", resp, err)
			}
		case "cryptosign":
			raw, herr := hex.DecodeString(ch)
			if chOK && herr == nil && len(raw) == 32 {
				k, _ := keyPair(1)
				if err != nil || resp.Signature() != refCryptoSign(ch, k) {
					return fmt.Sprintf("the cryptosign client answers %v, %v to %q", resp, err, ch)
				}
			}
		case "wampcra":
			salt, saltOK := saltVals[v[1]].(string)
			if saltVals[v[1]] == "absent" {
				salt, saltOK = "", true
			}
			if chOK && ch != "" && saltOK && (salt == "" || itOK && klOK && it >= 0 && kl <= 65536) {
				if err != nil || resp.Signature() != refCRA(ch, accSecret, salt, it, kl) {
					return fmt.Sprintf("the CRA client answers %v, %v to %v; right is %s", resp, err, ex, refCRA(ch, accSecret, salt, it, kl))
				}
			}
		}
		return ""
	})
	if i >= 0 {
		return &Violation{Message: msg, Case: i}
	}

	// (5) challenges differ
	seen := map[string]string{}
	note := func(kind, ch, where string) string {
		keys := []string{kind + ch}
		if kind == "wampcra" {
			var d map[string]any
			if json.Unmarshal([]byte(ch), &d) == nil {
				keys = append(keys, fmt.Sprint("nonce", d["nonce"]))
			}
		}
		for _, k := range keys {
			if old, ok := seen[k]; ok {
				return fmt.Sprintf("the %s challenge %q of %s was also given out in %s", kind, ch, where, old)
			}
			seen[k] = where
		}
		return ""
	}
	for n := 0; n < 3000; n++ {
		for _, kind := range []string{"wampcra", "cryptosign"} {
			evals.Add(1)
			h, m := fresh(kind)
			if m == "" && len(h.challenge) < 16 {
				m = fmt.Sprintf("the %s challenge %q is shorter than 16 characters", kind, h.challenge)
			}
			if m == "" {
				m = note(kind, h.challenge, fmt.Sprintf("handshake %d", n))
			}
			if m != "" {
				return &Violation{Message: m}
			}
		}
	}
	for p := 0; p < 3; p++ {
		out, err := exec.Command(os.Args[0], "genchal").Output()
		var got [][2]string
		if err != nil || json.Unmarshal(out, &got) != nil {
			c.Exhaustive = false
			break
		}
		for _, x := range got {
			if m := note(x[0], x[1], fmt.Sprintf("process %d", p)); m != "" {
				return &Violation{Message: m}
			}
		}
	}
	return nil
}

// patternReader yields fill everywhere except at one position.
type patternReader struct {
	n, pos    int
	val, fill byte
}

func (p *patternReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = p.fill
		if p.n == p.pos {
			b[i] = p.val
		}
		p.n++
	}
	return len(b), nil
}

// genChalHelper prints the first challenges a new process gives out.
func genChalHelper() {
	var out [][2]string
	for i := 0; i < 20; i++ {
		for _, kind := range []string{"wampcra", "cryptosign"} {
			h, m := newCrHand(kind, accSecret, 1, accSalt, 3, 32)
			if m != "" {
				os.Exit(3)
			}
			out = append(out, [2]string{kind, h.challenge})
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

func init() {
	register("C18", "exploration", c18)
	register("C19", "exploration", c19)
}
