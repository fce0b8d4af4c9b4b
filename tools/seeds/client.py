seed("c15-eager-unsubscribe", "C15", [("session.go", '''		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())
''', '''		// no more events are wanted from here on
		w.subscriptions.Delete(unsubscribe.SubscriptionID())
		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())
'''), ("session.go", '''		_, exists = w.subscriptions.LoadAndDelete(subscriptionID)
		if !exists {
			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid subscriptionID %d", subscriptionID)
		}
''', '''		w.subscriptions.Delete(subscriptionID)
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(nil)
	_, err := s.SendMessage(messages.NewSubscribe(1, nil, "a"))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewSubscribed(1, 7))
	dmust(t, err)
	_, err = s.SendMessage(messages.NewUnsubscribe(2, 7))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewEvent(7, 1, nil, nil, nil))
	dcheck(t, err == nil, "an EVENT that crossed the UNSUBSCRIBE was refused: %v", err)
}
''', "an EVENT delivered between sending UNSUBSCRIBE and receiving UNSUBSCRIBED (or an UNSUBSCRIBE that is refused)",
"events of a subscription that has not ended yet are refused")

seed("c15-explicit-no-ack", "C15", [("session.go", '''		if ok && acknowledge {
			w.publishRequests''', '''		if acknowledge || ok {
			w.publishRequests''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(nil)
	_, err := s.SendMessage(messages.NewPublish(1, obj{"acknowledge": false}, "a", nil, nil))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewPublished(1, 9))
	dcheck(t, err != nil, "PUBLISHED accepted for a publication that asked for no acknowledgement")
}
''', "a PUBLISH with acknowledge explicitly false", "PUBLISHED and ERROR are accepted for publications nobody is waiting for")

seed("c15-unregister-error-ends", "C15", [("session.go", '''			_, exists := w.unregisterRequests.LoadAndDelete(errorMsg.RequestID())
			if !exists {
				return nil, fmt.Errorf("received ERROR for invalid unregister request")
			}
''', '''			registrationID, exists := w.unregisterRequests.LoadAndDelete(errorMsg.RequestID())
			if !exists {
				return nil, fmt.Errorf("received ERROR for invalid unregister request")
			}

			w.registrations.Delete(registrationID)
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(nil)
	_, err := s.SendMessage(messages.NewRegister(1, nil, "a"))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewRegistered(1, 7))
	dmust(t, err)
	_, err = s.SendMessage(messages.NewUnregister(2, 7))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewError(messages.MessageTypeUnregister, 2, nil, "wamp.error.not_authorized", nil, nil))
	dmust(t, err)
	_, err = s.ReceiveMessage(messages.NewInvocation(1, 7, nil, nil, nil))
	dcheck(t, err == nil, "the registration was lost although the UNREGISTER was refused: %v", err)
}
''', "an ERROR answering UNREGISTER, then an INVOCATION", "a refused UNREGISTER ends the registration at the client")

seed("c16-register-error-id", "C16", [("dealer.go", '''		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
			wErr.Args(), wErr.KwArgs())
''', '''		requestID := pending.RequestID
		if pending.Progress {
			// the caller knows a call that is still open by its invocation
			requestID = wErr.RequestID()
		}

		wErr = messages.NewError(messages.MessageTypeCall, requestID, wErr.Details(), wErr.URI(),
			wErr.Args(), wErr.KwArgs())
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 1, 2)
	dreg(t, d, 1, "p", "", "")
	s := wampproto.NewSession(nil)
	call := messages.NewCall(5, obj{"progress": true}, "p", nil, nil)
	_, err := s.SendMessage(call)
	dmust(t, err)
	r, err := d.ReceiveMessage(2, call)
	dmust(t, err)
	r, err = d.ReceiveMessage(1, messages.NewError(messages.MessageTypeInvocation, r.Message.(*messages.Invocation).RequestID(), nil, "e", nil, nil))
	dmust(t, err)
	_, err = s.ReceiveMessage(r.Message)
	dcheck(t, err == nil, "the caller refused the ERROR: %v", err)
}
''', "a callee that answers an unfinished progressive call with ERROR", "the ERROR carries an id the caller never used and is refused by its session")

seed("c16-unsubscribed-holder", "C16", [("broker.go", '''		unsubscribed := messages.NewUnsubscribed(unsubscribe.RequestID())
''', '''		requestID := unsubscribe.RequestID()
		if len(subscription.Subscribers) > 0 {
			requestID = subscription.ID
		}

		unsubscribed := messages.NewUnsubscribed(requestID)
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 1, 2)
	dsub(t, b, 1, "a", "")
	id := dsub(t, b, 2, "a", "")
	r, err := b.ReceiveMessage(1, messages.NewUnsubscribe(77, id))
	dmust(t, err)
	dcheck(t, r.Message.(*messages.Unsubscribed).RequestID() == 77, "wrong request id in UNSUBSCRIBED")
}
''', "one of several holders of a subscription unsubscribes", "UNSUBSCRIBED with a request id the client is not waiting for")

seed("c17-second-hello", "C17", [("acceptor.go", '''		if a.state != AcceptorStateNone {
			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
		}

		hello := msg.(*messages.Hello)
''', '''		hello := msg.(*messages.Hello)
		if a.state != AcceptorStateNone && (a.hello == nil || a.hello.Realm() == hello.Realm()) {
			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
		}

		// a HELLO for another realm starts over
''')], '''
type demoAuth struct{}

func (demoAuth) Methods() []auth.Method { return []auth.Method{auth.WAMPCRA, auth.CryptoSign} }
func (demoAuth) Authenticate(r auth.Request) (auth.Response, error) {
	if r.Realm() != "public" {
		return nil, errors.New("no")
	}
	return auth.NewCRAResponse("joe", "user", "secret", 0), nil
}

func TestSeededDemo(t *testing.T) {
	a := wampproto.NewAcceptor(nil, demoAuth{})
	r, err := a.ReceiveMessage(messages.NewHello("public", "joe", nil, obj{}, []string{"wampcra"}))
	dmust(t, err)
	ch := *r.(*messages.Challenge)
	// refused with an error (no pubkey), but
	_, err = a.ReceiveMessage(messages.NewHello("private", "joe", nil, obj{}, []string{"cryptosign"}))
	dcheck(t, err != nil, "second HELLO accepted")
	_ = ch
	d, _ := a.SessionDetails()
	dcheck(t, d == nil, "joined")
	// a challenge for the first realm must still count for the first realm only
	c := auth.NewWAMPCRAAuthenticator("joe", "secret", nil)
	m, err := c.Authenticate(ch)
	dmust(t, err)
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v", p)
		}
	}()
	w, err := a.ReceiveMessage(m)
	dmust(t, err)
	deq(t, w.(*messages.Welcome).Details()["realm"], "public", "realm")
}
''', "a second HELLO for another realm while a challenge is outstanding", "the second HELLO replaces method and realm of a handshake whose challenge belongs to the first")

seed("c17-fallback-anonymous", "C17", [("auth/helpers.go", '''	if method == "" {
		return "", fmt''', '''	if method == "" && len(unsupported) > 1 && slices.Contains(allowedMethods, Anonymous) {
		// nothing the client prefers is there: let it in as a guest
		return Anonymous, nil
	} else if method == "" {
		return "", fmt''')], '''
func TestSeededDemo(t *testing.T) {
	a := wampproto.NewAcceptor(nil, nil)
	r, err := a.ReceiveMessage(messages.NewHello("realm", "joe", nil, obj{}, []string{"ticket", "wampcra"}))
	if err != nil {
		return
	}
	_, ok := r.(*messages.Welcome)
	dcheck(t, !ok, "welcomed by a method that was not offered")
}
''', "a client that offers two or more methods, none of them enabled, at a server that enables anonymous", "WELCOME by a method the client did not offer")

seed("c18-challenge-pool", "C18", [("auth/cryptosign.go", '''	challenge := make([]byte, 32)
	_, err := rand.Read(challenge)
	if err != nil {
		return "", err
	}

	return hex.EncodeToString(challenge), nil
''', '''	challengeMu.Lock()
	defer challengeMu.Unlock()
	if challengeNext == 0 {
		if _, err := rand.Read(challengePool[:]); err != nil {
			return "", err
		}
	}

	offset := challengeNext % len(challengePool)
	challengeNext = (challengeNext + 32) % (2 * len(challengePool))
	return hex.EncodeToString(challengePool[offset : offset+32]), nil
'''), ("auth/cryptosign.go", '''const MethodCryptoSign = "cryptosign"
''', '''const MethodCryptoSign = "cryptosign"

// random bytes for challenges are drawn in bulk
var (
	challengeMu   sync.Mutex
	challengePool [16 * 32]byte
	challengeNext int
)
'''), ("auth/cryptosign.go", '''	"fmt"

	"golang''', '''	"fmt"
	"sync"

	"golang''')], '''
func TestSeededDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		c, err := auth.GenerateCryptoSignChallenge()
		dmust(t, err)
		dcheck(t, !seen[c], "challenge %d was used before", i)
		seen[c] = true
	}
}
''', "more than 16 cryptosign handshakes in one process", "challenges repeat, so recorded responses are accepted")

seed("c18-key-cache", "C18", [("auth/wampcra.go", '''	// Compute derived key.
	dk := pbkdf2.Key([]byte(secret), salt, iterations, keyLength, sha256.New)
''', '''	// Compute derived key, unless it is known already.
	cacheKey := fmt.Sprint(saltStr, secret, iterations, keyLength)
	if dk, ok := derivedKeys.Load(cacheKey); ok {
		return dk.([]byte)
	}

	dk := pbkdf2.Key([]byte(secret), salt, iterations, keyLength, sha256.New)
'''), ("auth/wampcra.go", '''	derivedKey := []byte(base64.StdEncoding.EncodeToString(dk))

	return''', '''	derivedKey := []byte(base64.StdEncoding.EncodeToString(dk))
	derivedKeys.Store(cacheKey, derivedKey)

	return'''), ("auth/wampcra.go", '''const MethodCRA = "wampcra"
''', '''const MethodCRA = "wampcra"

var derivedKeys sync.Map //nolint:gochecknoglobals
'''), ("auth/wampcra.go", '''	"fmt"

	"golang''', '''	"fmt"
	"sync"

	"golang''')], '''
func TestSeededDemo(t *testing.T) {
	a := auth.DeriveWAMPCRAKey("salt1", "2secret", 10, 32)
	b := auth.DeriveWAMPCRAKey("salt12", "secret", 10, 32)
	dcheck(t, !bytes.Equal(a, b), "different salts and secrets give the same key")
}
''', "two users whose salt and secret concatenate to the same text (or iterations and keylen that do)", "the key derived for one user is used for another: a wrong secret is accepted or the right one rejected")

seed("c18-short-hmac", "C18", [("auth/wampcra.go", '''	return hmac.Equal(sigBytes, SignWAMPCRAChallengeBytes(chal, key))
''', '''	expected := SignWAMPCRAChallengeBytes(chal, key)
	if len(sigBytes) >= len(expected)/2 && len(sigBytes) < len(expected) {
		// peers may truncate the tag to no less than half its size, RFC 2104 section 5
		expected = expected[:len(sigBytes)]
	}

	return hmac.Equal(sigBytes, expected)
''')], '''import "encoding/base64"

func TestSeededDemo(t *testing.T) {
	sig := auth.SignWAMPCRAChallengeBytes("ch", []byte("key"))
	cut := base64.StdEncoding.EncodeToString(sig[:20])
	dcheck(t, !auth.VerifyWAMPCRASignature(cut, "ch", []byte("key")), "a truncated signature was accepted")
}
''', "a WAMP-CRA signature cut to between 16 and 31 bytes", "truncated responses are accepted")

seed("c19-claimed-authid", "C19", [("acceptor.go", '''	welcome := messages.NewWelcome(sessionID, map[string]any{
		"realm":      a.hello.Realm(),
		"roles":      RouterRoles,
		"authid":     response.AuthID(),
''', '''	authID := response.AuthID()
	if strings.EqualFold(authID, a.hello.AuthID()) {
		authID = a.hello.AuthID()
	}

	welcome := messages.NewWelcome(sessionID, map[string]any{
		"realm":      a.hello.Realm(),
		"roles":      RouterRoles,
		"authid":     authID,
''')], '''
type demoAuth struct{}

func (demoAuth) Methods() []auth.Method { return []auth.Method{auth.Anonymous} }
func (demoAuth) Authenticate(auth.Request) (auth.Response, error) { return auth.NewResponse("joe", "user", 0) }

func TestSeededDemo(t *testing.T) {
	a := wampproto.NewAcceptor(nil, demoAuth{})
	r, err := a.ReceiveMessage(messages.NewHello("realm", "JOE", nil, obj{}, []string{"anonymous"}))
	dmust(t, err)
	d, err := a.SessionDetails()
	dmust(t, err)
	deq(t, r.(*messages.Welcome).Details()["authid"], "joe", "authid in WELCOME")
	deq(t, d.AuthID(), "joe", "authid at the router")
}
''', "an authid that the authenticator normalises to another case", "client and router hold different authids; the client's claim wins over the authenticator")

seed("c19-role-truncated", "C19", [("joiner.go", '''		j.realm,
		j.authenticator.AuthID(),''', '''		strings.TrimSpace(j.realm),
		j.authenticator.AuthID(),''')], '''
func TestSeededDemo(t *testing.T) {
	j := wampproto.NewJoiner("realm ", nil, nil)
	a := wampproto.NewAcceptor(nil, nil)
	h, err := j.SendHello()
	dmust(t, err)
	w, _, err := a.Receive(h)
	dmust(t, err)
	_, err = j.Receive(w)
	dmust(t, err)
	jd, _ := j.SessionDetails()
	ad, _ := a.SessionDetails()
	deq(t, fmt.Sprintf("%q", jd.Realm()), fmt.Sprintf("%q", ad.Realm()), "realm")
}
''', "a realm with leading or trailing white space", "client and router hold different realms")

seed("c20-hello-failed", "C20", [("joiner.go", '''	rawBytes, err := j.serializer.Serialize(hello)
	if err != nil {
		return nil, fmt.Errorf("failed to serialize hello: %w", err)
	}

	j.state = joinerStateHelloSent
	return rawBytes, err
''', '''	j.state = joinerStateHelloSent
	rawBytes, err := j.serializer.Serialize(hello)
	if err != nil {
		return nil, fmt.Errorf("failed to serialize hello: %w", err)
	}

	return rawBytes, nil
''')], '''
func TestSeededDemo(t *testing.T) {
	j := wampproto.NewJoiner("realm", nil, auth.NewAnonymousAuthenticator("", obj{"c": make(chan int)}))
	_, err := j.SendHello()
	dcheck(t, err != nil, "HELLO with a channel was serialized")
	_, err = j.ReceiveMessage(messages.NewWelcome(1, obj{"authid": "a", "authrole": "b", "authmethod": "anonymous"}))
	dcheck(t, err != nil, "WELCOME accepted although no HELLO went out")
}
''', "authextra that cannot be serialized, then a WELCOME", "a WELCOME is accepted although no HELLO was sent")

seed("c20-challenge-twice", "C20", [("joiner.go", '''		challenge := msg.(*messages.Challenge)
		authenticate, err := j.authenticator.Authenticate(*challenge)
		if err != nil {
			return nil, err
		}

		j.state = joinerStateAuthenticateSent
		return authenticate, nil
''', '''		challenge := msg.(*messages.Challenge)
		authenticate, err := j.authenticator.Authenticate(*challenge)
		if err != nil {
			return nil, err
		}

		if authenticate.Signature() != "" {
			j.state = joinerStateAuthenticateSent
		}

		return authenticate, nil
''')], '''
func TestSeededDemo(t *testing.T) {
	j := wampproto.NewJoiner("realm", nil, auth.NewTicketAuthenticator("joe", "", nil))
	_, err := j.SendHello()
	dmust(t, err)
	_, err = j.ReceiveMessage(messages.NewChallenge("ticket", nil))
	dmust(t, err)
	_, err = j.ReceiveMessage(messages.NewChallenge("ticket", nil))
	dcheck(t, err != nil, "a second CHALLENGE was answered")
}
''', "an authenticator with an empty ticket and two CHALLENGEs", "CHALLENGE is answered more than once per HELLO")
