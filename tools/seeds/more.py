seed("c21-known-authid", "C21", [("messages/hello.go", '''	authID, _ := fields.Details["authid"].(string)
''', '''	authID, _ := fields.Details["authid"].(string)
	if authID == "anonymous" {
		authID = ""
	}
'''), ("messages/hello.go", '''		authID:      authID,
		authMethods: authMethodsStr,
''', '''		authMethods: authMethodsStr,
		authID:      authID,
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.JSONSerializer{}
	b, err := s.Serialize(messages.NewHello("r", "anonymous", nil, obj{}, []string{"ticket"}))
	dmust(t, err)
	m, err := s.Deserialize(b)
	dmust(t, err)
	deq(t, m.(*messages.Hello).AuthID(), "anonymous", "authid")
}
''', "a HELLO whose authid is the name of an authentication method", "the authid \"anonymous\" arrives empty")

seed("c21-repeated-methods", "C21", [("util/util.go", '''		result = append(result, str)
''', '''		if len(result) == 0 || result[len(result)-1] != str {
			result = append(result, str)
		}
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.CBORSerializer{}
	b, err := s.Serialize(messages.NewHello("r", "joe", nil, obj{}, []string{"ticket", "ticket", "wampcra"}))
	dmust(t, err)
	m, err := s.Deserialize(b)
	dmust(t, err)
	deq(t, len(m.(*messages.Hello).AuthMethods()), 3, "methods")
}
''', "a HELLO that proposes the same method twice in a row", "the list of methods arrives shorter")

seed("c22-json-trailing", "C22", [("serializers/json.go", '''	if err := json.Unmarshal(payload, &msgRaw); err != nil {
''', '''	if err := json.NewDecoder(bytes.NewReader(payload)).Decode(&msgRaw); err != nil {
'''), ("serializers/json.go", '''import (
''', '''import (
	"bytes"
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.JSONSerializer{}
	m, err := s.Deserialize([]byte(`[35,1]]}`))
	dcheck(t, err != nil, "malformed JSON is accepted as %v", m)
}
''', "JSON with something behind the list", "malformed JSON is accepted")

seed("c22-stale-kwargs", "C22", [("messages/result.go", '''		kwArgs:    fields.KwArgs,
	}

	return nil
''', '''		kwArgs:    previousKwArgs(e.ResultFields, fields),
	}

	return nil
'''), ("messages/result.go", '''func (e *Result) Marshal() []any {
''', '''func previousKwArgs(previous ResultFields, fields *Fields) map[string]any {
	if fields.KwArgs == nil && previous != nil {
		return previous.KwArgs()
	}

	return fields.KwArgs
}

func (e *Result) Marshal() []any {
''')], '''
func TestSeededDemo(t *testing.T) {
	r := messages.NewResult(1, obj{}, []any{"a"}, obj{"k": "v"})
	dmust(t, r.Parse([]any{50, 2, obj{}, []any{"b"}}))
	deq(t, len(r.KwArgs()), 0, "keyword arguments")
}
''', "a message object parsed into a second time, the second list without keyword arguments", "keyword arguments of an earlier message appear in a later one")

seed("c23-null-kwargs", "C23", [("serializers/payload.go", '''		kwargs, ok = arr[1].(map[string]any)
		if !ok {
''', '''		kwargs, ok = arr[1].(map[string]any)
		if !ok && arr[1] != nil {
''')], '''
func TestSeededDemo(t *testing.T) {
	a, k, err := serializers.DeserializePayload(serializers.JSONSerializerID, []byte(`[[1],null]`))
	dcheck(t, err != nil, "null in place of the keyword arguments is accepted: %v %v", a, k)
}
''', "a payload with null in place of the keyword arguments", "a malformed payload is accepted")

seed("c27-seconds-zone", "C27", [("auth/iso8601.go", '''	if zoneOffset == 0 {
''', '''	if zoneOffset/60 == 0 {
''')], '''
func TestSeededDemo(t *testing.T) {
	s := auth.ISO8601(time.Unix(1700000000, 0).In(time.FixedZone("LMT", 28)))
	dcheck(t, !strings.HasSuffix(s, "Z"), "a time 28 s east of UTC is rendered as %s", s)
}
''', "a zone offset of less than a minute", "a local time is rendered as UTC")

seed("c10-one-pending-left", "C10", [("dealer.go", '''	delete(d.registrationsBySession, id)
	delete(d.sessions, id)
''', '''	if len(d.sessions) > 1 || len(registrations) > 0 {
		delete(d.registrationsBySession, id)
	}
	delete(d.sessions, id)
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101)
	dmust(t, d.RemoveSession(101))
	_, err := d.ReceiveMessage(101, messages.NewRegister(1, nil, "p"))
	dcheck(t, err != nil, "a departed session can register")
}
''', "the last session leaves without a registration", "a departed session is remembered and can register procedures")

seed("c06-random-first-four", "C06", [("dealer.go", '''				idx := rand.Intn(len(regs.callees)) // #nosec
''', '''				idx := rand.Intn(min(len(regs.callees), 8)) // #nosec
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111)
	for s := uint64(101); s <= 110; s++ {
		dreg(t, d, s, "p", "", "random")
	}
	seen := map[uint64]bool{}
	for i := uint64(1); i < 3000; i++ {
		c, _ := dcall(t, d, 111, i, "p", nil)
		seen[c] = true
	}
	deq(t, len(seen), 10, "callees reached")
}
''', "more than eight callees sharing a procedure under the random policy", "the ninth and later callees are never called")

seed("c09-empty-authid", "C09", [("dealer.go", '''			details["caller_authid"] = caller.AuthID()
''', '''			if caller.AuthID() != "" {
				details["caller_authid"] = caller.AuthID()
			}
''')], '''
func TestSeededDemo(t *testing.T) {
	d := wampproto.NewDealer()
	dmust(t, d.AddSession(wampproto.NewSessionDetails(101, "realm", "", "role", "anonymous", false, nil, nil)))
	dreg(t, d, 101, "p", "", "")
	d.AutoDiscloseCaller(true)
	_, i := dcall(t, d, 101, 1, "p", nil)
	_, ok := i.Details()["caller_authid"]
	dcheck(t, ok, "the authid is not disclosed: %v", i.Details())
}
''', "a disclosed caller whose authid is empty", "the authid of such a caller is not disclosed")

seed("c09-first-chunk-disclosed", "C09", [("dealer.go", '''		if d.details {
''', '''		if d.details && !ongoing {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	d.AutoDiscloseCaller(true)
	dcall(t, d, 102, 1, "p", obj{"progress": true})
	_, i := dcall(t, d, 102, 1, "p", nil)
	deq(t, i.Details()["caller"], uint64(102), "caller of the second chunk")
}
''', "a call in several chunks with disclosure on", "only the first invocation of such a call names the caller")

seed("c03-forged-role", "C03", [("broker.go", '''			details["publisher_authrole"] = publisher.AuthRole()
''', '''			role, ok := publish.Options()["publisher_authrole"].(string)
			if !ok {
				role = publisher.AuthRole()
			}
			details["publisher_authrole"] = role
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102)
	dsub(t, b, 101, "a", "")
	b.AutoDisclosePublisher(true)
	p, _ := dpub(t, b, 102, "a", obj{"publisher_authrole": "admin"})
	deq(t, p.Event.Details()["publisher_authrole"], "role", "disclosed role")
}
''', "a PUBLISH whose options carry a publisher_authrole", "a publisher chooses the role that is disclosed for it")

seed("c15-retained-event", "C15", [("session.go", '''		_, exists := w.subscriptions.Load(event.SubscriptionID())
		if !exists {
''', '''		_, exists := w.subscriptions.Load(event.SubscriptionID())
		if retained, _ := event.Details()["retained"].(bool); !exists && !retained {
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(nil)
	_, err := s.ReceiveMessage(messages.NewEvent(5, 6, obj{"retained": true}, nil, nil))
	dcheck(t, err != nil, "an EVENT for an unknown subscription is accepted")
}
''', "an EVENT marked as retained for a subscription the session does not hold", "such an EVENT is accepted")

seed("c19-pubkey-case", "C19", [("acceptor.go", '''			request := auth.NewCryptoSignRequest(hello, publicKey)
''', '''			request := auth.NewCryptoSignRequest(hello, strings.ToLower(strings.TrimSpace(publicKey)))
''')], '''
type demoSeen struct{ key string }

func (d *demoSeen) Methods() []auth.Method { return []auth.Method{auth.CryptoSign} }
func (d *demoSeen) Authenticate(r auth.Request) (auth.Response, error) {
	d.key = r.(*auth.RequestCryptoSign).PublicKey()
	return nil, errors.New("no")
}

func TestSeededDemo(t *testing.T) {
	d := &demoSeen{}
	a := wampproto.NewAcceptor(nil, d)
	key := strings.Repeat("AB", 32)
	_, _ = a.ReceiveMessage(messages.NewHello("r", "joe", obj{"pubkey": key}, obj{}, []string{"cryptosign"}))
	deq(t, d.key, key, "public key seen by the authenticator")
}
''', "a cryptosign client that announces its public key in upper case", "the authenticator sees another string than the client sent")

seed("c17-method-prefix", "C17", [("auth/helpers.go", '''		if slices.Contains(allowedMethods, Method(proposed)) {
			method = Method(proposed)
''', '''		known := slices.IndexFunc(allowedMethods, func(m Method) bool { return strings.HasPrefix(proposed, string(m)) })
		if known >= 0 {
			method = allowedMethods[known]
'''), ("auth/helpers.go", '''import (
	"fmt"
''', '''import (
	"fmt"
	"strings"
''')], '''
type demoTicket struct{}

func (d *demoTicket) Methods() []auth.Method { return []auth.Method{auth.Ticket} }
func (d *demoTicket) Authenticate(r auth.Request) (auth.Response, error) { return nil, errors.New("no") }

func TestSeededDemo(t *testing.T) {
	a := wampproto.NewAcceptor(nil, &demoTicket{})
	m, err := a.ReceiveMessage(messages.NewHello("r", "joe", nil, obj{}, []string{"ticket2"}))
	if err == nil {
		deq(t, m.Type(), messages.MessageTypeAbort, "answer to an unknown method")
	}
}
''', "a HELLO that proposes only a method whose name begins with \"ticket\"", "a method that is not enabled is selected")

seed("c08-duplex", "C08", [("dealer.go", '''		if pending.ReceiveProgress && progress {
''', '''		if pending.ReceiveProgress && progress && !pending.Progress {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", obj{"progress": true, "receive_progress": true})
	for k := 0; k < 2; k++ {
		_, err := d.ReceiveMessage(101, messages.NewYield(i.RequestID(), obj{"progress": true}, []any{k}, nil))
		dmust(t, err)
	}
}
''', "a call that sends progressive input and receives progressive results at the same time", "the first progressive result ends such a call")


seed("c03-first-of-role", "C03", [("broker.go", '''			details["publisher_authid"] = publisher.AuthID()
''', '''			details["publisher_authid"] = b.authIDOf(publisher.AuthRole())
'''), ("broker.go", '''func (b *Broker) AutoDisclosePublisher(''', '''func (b *Broker) authIDOf(role string) string {
	var authID string
	first := uint64(1<<64 - 1)
	for id, session := range b.sessions {
		if session.AuthRole() == role && id < first {
			first, authID = id, session.AuthID()
		}
	}

	return authID
}

func (b *Broker) AutoDisclosePublisher(''')], '''
func TestSeededDemo(t *testing.T) {
	b := wampproto.NewBroker()
	dmust(t, b.AddSession(wampproto.NewSessionDetails(101, "realm", "ann", "user", "ticket", false, nil, nil)))
	dmust(t, b.AddSession(wampproto.NewSessionDetails(102, "realm", "bob", "user", "ticket", false, nil, nil)))
	dsub(t, b, 101, "a", "")
	b.AutoDisclosePublisher(true)
	p, _ := dpub(t, b, 102, "a", nil)
	deq(t, p.Event.Details()["publisher_authid"], "bob", "disclosed authid")
}
''', "two users with the same role, the publisher being the one with the larger session id", "another user is named as the publisher")
