seed("c29-static-cra", "C29", [("acceptor.go", '''	challenge  string

''', '''	challenge  string
	static     bool

'''), ("acceptor.go", '''		a.authMethod = authMethod
		a.hello = hello

		switch authMethod {
''', '''		a.authMethod = authMethod
		a.hello = hello
		if authMethod == auth.Anonymous {
			a.static = a.serializer.Static()
		}

		switch authMethod {
'''), ("acceptor.go", '''		case auth.Ticket:
			authenticate := msg.(*messages.Authenticate)
''', '''		case auth.Ticket:
			a.static = a.serializer.Static()
			authenticate := msg.(*messages.Authenticate)
'''), ("acceptor.go", '''			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
		default:
''', '''			a.static = a.serializer.Static()
			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
		default:
'''), ("acceptor.go", '''string(a.authMethod), a.serializer.Static(), RouterRoles''', '''string(a.authMethod), a.static, RouterRoles''')], '''
type seedStatic struct{ serializers.JSONSerializer }

func (*seedStatic) Static() bool { return true }

type seedAuth struct{}

func (seedAuth) Methods() []auth.Method { return []auth.Method{auth.WAMPCRA} }
func (seedAuth) Authenticate(auth.Request) (auth.Response, error) {
	return auth.NewCRAResponse("u", "r", "s", 0), nil
}

func TestSeededDemo(t *testing.T) {
	ser := &seedStatic{}
	j := wampproto.NewJoiner("realm", ser, auth.NewWAMPCRAAuthenticator("u", "s", nil))
	a := wampproto.NewAcceptor(ser, seedAuth{})
	b, err := j.SendHello()
	dmust(t, err)
	for b != nil {
		b, _, err = a.Receive(b)
		dmust(t, err)
		b, err = j.Receive(b)
		dmust(t, err)
	}
	det, err := a.SessionDetails()
	dmust(t, err)
	dcheck(t, det.StaticSerializer(), "the session is not known to be static")
	d := ddealer(t, 1)
	dmust(t, d.AddSession(det))
	dreg(t, d, det.ID(), "p", "", "")
	r, err := d.ReceiveMessage(1, messages.NewCallBinary(1, obj{}, "p", []byte{1, 2}, 3))
	dmust(t, err)
	dcheck(t, r.Message.(*messages.Invocation).PayloadIsBinary(), "the payload is lost")
}
''', "a client with a static serializer that joins by WAMP-CRA", "binary payloads do not reach it")

seed("c29-identity-cache", "C29", [("broker.go", '''			publisher := b.sessions[sessionID]
			details["topic"] = publish.Topic()
			details["publisher"] = sessionID
			details["publisher_authid"] = publisher.AuthID()
			details["publisher_authrole"] = publisher.AuthRole()
''', '''			publisher, ok := b.publishers[b.sessions[sessionID].AuthID()]
			if !ok {
				publisher = b.sessions[sessionID]
				b.publishers[publisher.AuthID()] = publisher
			}
			details["topic"] = publish.Topic()
			details["publisher"] = sessionID
			details["publisher_authid"] = publisher.AuthID()
			details["publisher_authrole"] = publisher.AuthRole()
'''), ("broker.go", '''	wcSubscriptionsByTopic map[string]*Subscription
''', '''	wcSubscriptionsByTopic map[string]*Subscription
	publishers             map[string]*SessionDetails
'''), ("broker.go", '''	delete(b.sessions, id)

	return nil
''', '''	if gone, ok := b.sessions[id]; ok && b.publishers[gone.AuthID()] == gone {
		delete(b.publishers, gone.AuthID())
	}
	delete(b.sessions, id)

	return nil
'''), ("broker.go", '''	return &Broker{
''', '''	return &Broker{
		publishers:             make(map[string]*SessionDetails),
''')], '''
func TestSeededDemo(t *testing.T) {
	b := wampproto.NewBroker()
	b.AutoDisclosePublisher(true)
	for id, role := range map[uint64]string{1: "admin", 2: "guest"} {
		dmust(t, b.AddSession(wampproto.NewSessionDetails(id, "realm", "joe", role, "anonymous", false, nil, nil)))
	}
	dsub(t, b, 1, "t", "")
	dsub(t, b, 2, "t", "")
	p, _ := dpub(t, b, 1, "t", nil)
	deq(t, p.Event.Details()["publisher_authrole"], "admin", "role of the first")
	p, _ = dpub(t, b, 2, "t", nil)
	deq(t, p.Event.Details()["publisher_authrole"], "guest", "role of the second")
}
''', "two sessions of one user in different roles, both publishing with disclosure",
"the second session's events carry the role of the first")

seed("c29-fields-copied", "C29", [("messages/call.go", '''func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: fields} }
''', '''func NewCallWithFields(fields CallFields) *Call {
	own, ok := fields.(*callFields)
	if !ok {
		// so that a payload that is decoded on demand is decoded once
		own = &callFields{
			requestID: fields.RequestID(),
			options:   fields.Options(),
			procedure: fields.Procedure(),
			args:      fields.Args(),
			kwArgs:    fields.KwArgs(),
		}
	}

	return &Call{CallFields: own}
}
''')], '''
type seedFields struct{ *messages.Call }

func TestSeededDemo(t *testing.T) {
	m := messages.NewCallWithFields(seedFields{messages.NewCallBinary(1, obj{}, "p", []byte{1, 2}, 3)})
	dcheck(t, m.PayloadIsBinary() && bytes.Equal(m.Payload(), []byte{1, 2}) && m.PayloadSerializer() == 3, "the payload is lost")
}
''', "a serializer that hands over messages with its own fields and an undecoded payload", "the payload does not arrive as sent")

seed("c29-fields-error-uri", "C29", [("messages/error.go", '''func NewErrorWithFields(fields ErrorFields) *Error { return &Error{ErrorFields: fields} }
''', '''func NewErrorWithFields(fields ErrorFields) *Error {
	return NewError(fields.MessageType(), fields.RequestID(), nil, fields.URI(), fields.Args(), fields.KwArgs())
}
''')], '''
type seedFields struct{ *messages.Error }

func TestSeededDemo(t *testing.T) {
	m := messages.NewErrorWithFields(seedFields{messages.NewError(68, 1, obj{"why": "x"}, "u", nil, nil)})
	deq(t, m.Details()["why"], "x", "details")
}
''', "an ERROR made from fields of the user", "its details are lost")

seed("c29-static-invocation", "C29", [("dealer.go", '''		if call.PayloadIsBinary() && callee.StaticSerializer() {
''', '''		if _, raw := call.CallFields.(interface{ Raw() bool }); call.PayloadIsBinary() && (raw || callee.StaticSerializer()) {
'''), ("messages/call.go", '''func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: fields} }
''', '''func NewCallWithFields(fields CallFields) *Call {
	if fields.PayloadIsBinary() {
		return &Call{CallFields: rawCallFields{fields}}
	}

	return &Call{CallFields: fields}
}

type rawCallFields struct{ CallFields }

func (rawCallFields) Raw() bool { return true }
''')], '''
type seedFields struct{ *messages.Call }

func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 1, 2)
	dreg(t, d, 1, "p", "", "")
	raw, err := serializers.SerializePayload(1, []any{"x"}, nil)
	dmust(t, err)
	m := messages.NewCallWithFields(seedFields{messages.NewCallBinary(1, obj{}, "p", raw, 1)})
	r, err := d.ReceiveMessage(2, m)
	dmust(t, err)
	dcheck(t, !r.Message.(*messages.Invocation).PayloadIsBinary(), "a callee that cannot handle binary payloads gets one")
}
''', "a call with a binary payload in fields of the serializer, to a callee with one of the ordinary serializers", "the callee gets an invocation without arguments")
