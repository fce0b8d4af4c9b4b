seed("c09-authid-memo", "C09", [("dealer.go", '''			details["caller_authid"] = caller.AuthID()
''', '''			if _, ok := d.authIDs[sessionID]; !ok {
				d.authIDs[sessionID] = caller.AuthID()
			}
			details["caller_authid"] = d.authIDs[sessionID]
'''), ("dealer.go", '''	sessions                   map[uint64]*SessionDetails
''', '''	sessions                   map[uint64]*SessionDetails
	authIDs                    map[uint64]string
'''), ("dealer.go", '''	return &Dealer{
''', '''	return &Dealer{
		authIDs:                    make(map[uint64]string),
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	d.AutoDiscloseCaller(true)
	dreg(t, d, 101, "p", "", "")
	for _, user := range []string{"ann", "bob"} {
		dmust(t, d.RemoveSession(102))
		dmust(t, d.AddSession(wampproto.NewSessionDetails(102, "realm", user, "role", "ticket", false, nil, nil)))
		r, err := d.ReceiveMessage(102, messages.NewCall(1, obj{}, "p", nil, nil))
		dmust(t, err)
		deq(t, r.Message.(*messages.Invocation).Details()["caller_authid"], user, "disclosed authid")
	}
}
''', "a session id that is attached again for another user, who calls with disclosure on", "the former user is disclosed as the caller")

seed("c15-ack-unless-included", "C15", [("session.go", '''			w.publishRequests.Store(publish.RequestID(), struct{}{})
''', '''			if included, set := publish.Options()["exclude_me"].(bool); !set || included {
				w.publishRequests.Store(publish.RequestID(), struct{}{})
			}
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(&serializers.JSONSerializer{})
	_, err := s.SendMessage(messages.NewPublish(1, obj{"acknowledge": true, "exclude_me": false}, "t", nil, nil))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewPublished(1, 2))
	dmust(t, err)
}
''', "an acknowledged publication that its publisher wants to receive as well (exclude_me false)", "its PUBLISHED is refused")

seed("c19-ticket-trimmed", "C19", [("acceptor.go", "auth.NewTicketRequest(a.hello, authenticate.Signature())", "auth.NewTicketRequest(a.hello, strings.TrimSpace(authenticate.Signature()))")], '''
type demoTicketSeen struct{ ticket string }

func (d *demoTicketSeen) Methods() []auth.Method { return []auth.Method{auth.Ticket} }
func (d *demoTicketSeen) Authenticate(r auth.Request) (auth.Response, error) {
	d.ticket = r.(*auth.TicketRequest).Ticket()
	return auth.NewResponse("joe", "user", 0)
}

func TestSeededDemo(t *testing.T) {
	d := &demoTicketSeen{}
	a := wampproto.NewAcceptor(nil, d)
	_, err := a.ReceiveMessage(messages.NewHello("r", "joe", obj{}, obj{}, []string{"ticket"}))
	dmust(t, err)
	_, err = a.ReceiveMessage(messages.NewAuthenticate(" s3cret\\n", obj{}))
	dmust(t, err)
	deq(t, d.ticket, " s3cret\\n", "ticket seen by the authenticator")
}
''', "a ticket that begins or ends with white space", "the authenticator sees another ticket than the client sent")

seed("c15-goodbye-drops-calls", "C15", [("session.go", '''	case messages.MessageTypeGoodbye:
		return msg, nil
	case messages.MessageTypeAbort:
''', '''	case messages.MessageTypeGoodbye:
		// nothing more is to come
		w.callRequests.Range(func(id uint64, _ struct{}) bool {
			w.callRequests.Delete(id)
			return true
		})
		goodbye := msg.(*messages.GoodBye)
		return goodbye, nil
	case messages.MessageTypeAbort:
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(&serializers.JSONSerializer{})
	_, err := s.SendMessage(messages.NewCall(1, obj{}, "p", nil, nil))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewGoodBye("wamp.close.system_shutdown", obj{}))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewResult(1, obj{}, nil, nil)) // was on its way
	dmust(t, err)
}
''', "a RESULT that arrives after the router said GOODBYE", "the answer the session is waiting for is refused")

seed("c18-key-pair-trimmed", "C18", [("auth/cryptosign.go", '''	privateKey = hex.EncodeToString(seed)
''', '''	privateKey = hex.EncodeToString(sk)
	if privateKey[:2] == "00" {
		privateKey = privateKey[2:]
	}
	privateKey = privateKey[:64]
''')], '''
func TestSeededDemo(t *testing.T) {
	for n := 0; n < 6000; n++ {
		pub, priv, err := auth.GenerateCryptoSignKeyPair()
		dmust(t, err)
		a, err := auth.NewCryptoSignAuthenticator("joe", priv, nil)
		dmust(t, err)
		deq(t, a.AuthExtra()["pubkey"], any(pub), "public key")
	}
}
''', "a generated private key that begins with a zero byte", "the private key does not belong to the public key")

seed("c18-iterations-capped", "C18", [("auth/wampcra.go", '''	if iterations == 0 {
''', '''	if iterations == 0 || iterations > 100000 {
''')], '''
func TestSeededDemo(t *testing.T) {
	a := auth.DeriveWAMPCRAKey("salt", "secret", 200000, 32)
	b := auth.DeriveWAMPCRAKey("salt", "secret", 1000, 32)
	dcheck(t, !bytes.Equal(a, b), "200000 iterations derive the key of 1000")
}
''', "a salted secret stored with more than 100000 iterations", "the client answers with the response for 1000 iterations, which other implementations reject")

seed("c06-turn-in-a-byte", "C06", [("dealer.go", '''	nextCallee       int
''', '''	nextCallee       int8
'''), ("dealer.go", "if regs.nextCallee >= len(regs.callees) {", "if regs.nextCallee < 0 || int(regs.nextCallee) >= len(regs.callees) {")], '''
func TestSeededDemo(t *testing.T) {
	d := wampproto.NewDealer()
	const n = 200
	for i := uint64(1); i <= n+1; i++ {
		dmust(t, d.AddSession(ddetails(i)))
		if i <= n {
			_, err := d.ReceiveMessage(i, messages.NewRegister(1, obj{"invoke": "roundrobin"}, "p"))
			dmust(t, err)
		}
	}
	got := map[uint64]int{}
	for i := uint64(1); i <= n; i++ {
		r, err := d.ReceiveMessage(n+1, messages.NewCall(i, obj{}, "p", nil, nil))
		dmust(t, err)
		got[r.Recipient]++
	}
	deq(t, len(got), n, "callees that got a call")
}
''', "more than 128 callees sharing a procedure under round robin", "the callees beyond the 128th are never called")

seed("c17-anonymous-last", "C17", [("auth/helpers.go", '''			method = Method(proposed)
			break
''', '''			// anonymous only if nothing better is offered
			method = Method(proposed)
			if method != Anonymous {
				break
			}
''')], '''
func TestSeededDemo(t *testing.T) {
	m, err := auth.SelectAuthMethod([]auth.Method{auth.Anonymous, auth.Ticket}, []string{"anonymous", "ticket"})
	dmust(t, err)
	deq(t, string(m), "anonymous", "method")
}
''', "a client that offers anonymous before another enabled method", "the method is not the first the client offers")

seed("c03-ids-restart", "C03", [("broker.go", '''	delete(b.sessions, id)

	return nil
''', '''	if len(b.sessions) > 1 {
		delete(b.sessions, id)
	} else {
		// nobody is left, start afresh
		clear(b.sessions)
		b.idGen = &SessionScopeIDGenerator{}
	}

	return nil
''')], '''
func TestSeededDemo(t *testing.T) {
	b := wampproto.NewBroker()
	seen := map[uint64]bool{}
	for i := uint64(1); i <= 3; i++ {
		dmust(t, b.AddSession(ddetails(i)))
		p, err := b.ReceivePublish(i, messages.NewPublish(1, obj{"acknowledge": true}, "a", nil, nil))
		dmust(t, err)
		id := p.Ack.Message.(*messages.Published).PublicationID()
		dcheck(t, !seen[id], "publication id %d is used twice", id)
		seen[id] = true
		dmust(t, b.RemoveSession(i))
	}
}
''', "publications before and after a moment at which no session is attached", "publication ids are used again")

seed("c02-unknown-match-lingers", "C02", [("broker.go", '''			default:
				subscription.Match = MatchExact
''', '''			default:
				subscription.Match = match
				if match == "" {
					subscription.Match = MatchExact
				}
''')], '''
func TestSeededDemo(t *testing.T) {
	b := wampproto.NewBroker()
	dmust(t, b.AddSession(ddetails(1)))
	r, err := b.ReceiveMessage(1, messages.NewSubscribe(1, obj{"match": "full"}, "a"))
	dmust(t, err)
	_, err = b.ReceiveMessage(1, messages.NewUnsubscribe(2, r.Message.(*messages.Subscribed).SubscriptionID()))
	dmust(t, err)
	dcheck(t, !b.HasSubscription("a"), "nobody is subscribed, but the topic is reported as subscribed")
}
''', "a subscription with a match policy the router does not know, which ends", "the topic stays subscribed")

seed("c08-progress-asked-late", "C08", [("dealer.go", '''			details[OptionReceiveProgress] = receiveProgress
''', '''			details[OptionReceiveProgress] = true
			d.pendingCalls[invocationID].ReceiveProgress = true
''')], '''
func TestSeededDemo(t *testing.T) {
	d := wampproto.NewDealer()
	dmust(t, d.AddSession(ddetails(1)))
	dmust(t, d.AddSession(ddetails(2)))
	_, err := d.ReceiveMessage(1, messages.NewRegister(1, obj{}, "p"))
	dmust(t, err)
	_, err = d.ReceiveMessage(2, messages.NewCall(1, obj{"progress": true}, "p", nil, nil))
	dmust(t, err)
	r, err := d.ReceiveMessage(2, messages.NewCall(1, obj{"receive_progress": true}, "p", nil, nil))
	dmust(t, err)
	inv := r.Message.(*messages.Invocation).RequestID()
	r, err = d.ReceiveMessage(1, messages.NewYield(inv, obj{"progress": true}, nil, nil))
	dmust(t, err)
	p, _ := r.Message.(*messages.Result).Details()["progress"].(bool)
	dcheck(t, !p, "the RESULT of a call that asked for no progress is marked progressive")
}
''', "a progressive call whose later chunk asks for progress", "its answer is no longer final")

seed("c18-announced-key", "C18", [("acceptor.go", '''			key, err := hex.DecodeString(request.PublicKey())
''', '''			publicKey := request.PublicKey()
			if announced, ok := authenticate.Extra()["pubkey"].(string); ok && announced != "" {
				publicKey = announced
			}

			key, err := hex.DecodeString(publicKey)
''')], '''
func TestSeededDemo(t *testing.T) {
	pub, _, err := auth.GenerateCryptoSignKeyPair()
	dmust(t, err)
	_, otherKey, err := auth.GenerateCryptoSignKeyPair()
	dmust(t, err)
	thief, err := auth.NewCryptoSignAuthenticator("u", otherKey, nil)
	dmust(t, err)
	a := wampproto.NewAcceptor(nil, demoCrypto{})
	m, err := a.ReceiveMessage(messages.NewHello("realm", "u", obj{"pubkey": pub}, obj{}, []string{"cryptosign"}))
	dmust(t, err)
	answer, err := thief.Authenticate(*m.(*messages.Challenge))
	dmust(t, err)
	m, err = a.ReceiveMessage(answer)
	dcheck(t, err != nil || m.Type() == messages.MessageTypeAbort, "a response made with another key is welcomed")
}

type demoCrypto struct{}

func (demoCrypto) Methods() []auth.Method { return []auth.Method{auth.CryptoSign} }
func (demoCrypto) Authenticate(auth.Request) (auth.Response, error) {
	return auth.NewResponse("u", "role", 0)
}
''', "an AUTHENTICATE whose extra names the key it was made with", "anybody's key opens the session of another's public key")

seed("c21-json-limit", "C21", [("serializers/json.go", '''	if err := json.Unmarshal(payload, &msgRaw); err != nil {
''', '''	dec := json.NewDecoder(io.LimitReader(bytes.NewReader(payload), 1<<20))
	if err := dec.Decode(&msgRaw); err != nil {
'''), ("serializers/json.go", '''	"encoding/json"
''', '''	"bytes"
	"encoding/json"
	"io"
''')], '''
func TestSeededDemo(t *testing.T) {
	ser := &serializers.JSONSerializer{}
	b, err := ser.Serialize(messages.NewYield(1, obj{}, []any{strings.Repeat("x", 1<<20)}, nil))
	dmust(t, err)
	_, err = ser.Deserialize(b)
	dmust(t, err)
}
''', "a JSON message longer than a MiB", "it is refused")
