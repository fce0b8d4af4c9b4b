seed("c28-recipients-buffer", "C28", [("broker.go", '''		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
''', '''		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
		recipients := b.recipients[:0]
'''), ("broker.go", '''			result.Recipients = append(result.Recipients, subscriber)
		}
''', '''			recipients = append(recipients, subscriber)
		}
		// saves the growing next time
		b.recipients, result.Recipients = recipients, recipients
'''), ("broker.go", '''	wcSubscriptionsByTopic map[string]*Subscription
''', '''	wcSubscriptionsByTopic map[string]*Subscription
	recipients             []uint64
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 1, 2, 3, 4)
	dsub(t, b, 1, "one", "")
	dsub(t, b, 2, "one", "")
	dsub(t, b, 3, "two", "")
	dsub(t, b, 4, "two", "")
	p, err := b.ReceivePublish(1, messages.NewPublish(1, obj{"exclude_me": false}, "one", nil, nil))
	dmust(t, err)
	before := append([]uint64{}, p.Recipients...)
	_, err = b.ReceivePublish(1, messages.NewPublish(2, obj{"exclude_me": false}, "two", nil, nil))
	dmust(t, err)
	dcheck(t, reflect.DeepEqual(before, p.Recipients), "recipients of the first publication became %v, were %v", p.Recipients, before)
}
''', "a second publication to several subscribers while the result of the first is still being delivered",
"the recipients of the first publication are overwritten with those of the second")

seed("c28-derived-key-scratch", "C28", [("auth/wampcra.go", '''	derivedKey := []byte(base64.StdEncoding.EncodeToString(dk))

	return derivedKey
''', '''	size := base64.StdEncoding.EncodedLen(len(dk))
	if size > len(keyBuffer) {
		return []byte(base64.StdEncoding.EncodeToString(dk))
	}

	base64.StdEncoding.Encode(keyBuffer[:], dk)
	return keyBuffer[:size]
'''), ("auth/wampcra.go", '''type wampcraAuthenticator struct {
''', '''// keyBuffer is large enough for the usual derived keys.
var keyBuffer [64]byte //nolint:gochecknoglobals

type wampcraAuthenticator struct {
''')], '''
func TestSeededDemo(t *testing.T) {
	one := auth.DeriveWAMPCRAKey("salt", "first", 10, 32)
	before := string(one)
	auth.DeriveWAMPCRAKey("salt", "second", 10, 32)
	dcheck(t, string(one) == before, "the first key became %s, was %s", one, before)
}
''', "two handshakes with salted secrets that overlap",
"the key of the first handshake is overwritten with the key of the second")

seed("c28-length-scratch", "C28", [("transports/rawsocket.go", '''	data := IntToBytes(header.Length())
	return []byte{
		byte(header.Kind()),
		data[0],
		data[1],
		data[2],
	}
''', '''	frame := &frames[header.Kind()&3]
	frame[0] = byte(header.Kind())
	copy(frame[1:], IntToBytes(header.Length()))
	if header.Kind() > 3 {
		return append([]byte{}, frame[:]...)
	}

	return frame[:]
'''), ("transports/rawsocket.go", '''func SendMessageHeader(''', '''// frames holds one header for each kind of message.
var frames [4][4]byte //nolint:gochecknoglobals

func SendMessageHeader(''')], '''
func TestSeededDemo(t *testing.T) {
	one := transports.SendMessageHeader(transports.NewMessageHeader(1, 100))
	before := string(one)
	transports.SendMessageHeader(transports.NewMessageHeader(1, 70000))
	dcheck(t, string(one) == before, "the first header became %v", one)
}
''', "two frames of the same kind prepared before the first is written",
"the header of the first frame becomes that of the second")

seed("c28-json-pooled-buffer", "C28", [("serializers/json.go", '''	return json.Marshal(message.Marshal())
''', '''	buffer := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buffer)

	buffer.Reset()
	if err := json.NewEncoder(buffer).Encode(message.Marshal()); err != nil {
		return nil, err
	}

	return bytes.TrimSuffix(buffer.Bytes(), []byte("\\n")), nil
'''), ("serializers/json.go", '''import (
	"encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
	"sync"
'''), ("serializers/json.go", '''type JSONSerializer struct{}
''', '''var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }} //nolint:gochecknoglobals

type JSONSerializer struct{}
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.JSONSerializer{}
	for i := 0; i < 1000; i++ {
		one, err := s.Serialize(messages.NewSubscribed(1, 2))
		dmust(t, err)
		before := string(one)
		_, err = s.Serialize(messages.NewSubscribed(3, 4))
		dmust(t, err)
		dcheck(t, string(one) == before, "the first frame became %s, was %s", one, before)
	}
}
''', "a second message serialized before the first was written out",
"the bytes of the first message are overwritten with those of the second")

seed("c28-options-consumed", "C28", [("broker.go", '''		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
''', '''		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
		// for the broker only, not passed on
		delete(publish.Options(), OptExcludeMe)
'''), ("broker.go", '''	result := &Publication{}
	publicationID''', '''	result := new(Publication)
	publicationID''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 1)
	dsub(t, b, 1, "t", "")
	m := messages.NewPublish(1, obj{"exclude_me": false}, "t", nil, nil)
	for i := 0; i < 2; i++ {
		p, err := b.ReceivePublish(1, m)
		dmust(t, err)
		dcheck(t, len(p.Recipients) == 1, "publication %d has recipients %v", i+1, p.Recipients)
	}
}
''', "one PUBLISH message, or its options, used for several publications",
"exclude_me is removed from the caller's options, the second publication leaves the publisher out")

seed("c28-event-marshal-cache", "C28", [("messages/event.go", '''type Event struct {
	EventFields
}
''', '''type Event struct {
	EventFields

	raw []any
}
'''), ("messages/event.go", '''	result := []any{MessageTypeEvent, e.SubscriptionID(), e.PublicationID(), e.Details()}
''', '''	// an event goes to many subscribers
	if e.raw == nil {
		e.raw = make([]any, 4, 6)
	}

	result := e.raw
	result[0], result[1], result[2], result[3] = MessageTypeEvent, e.SubscriptionID(), e.PublicationID(), e.Details()
''')], '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		e := messages.NewEvent(1, 2, nil, []any{1}, nil)
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, err := (&serializers.JSONSerializer{}).Serialize(e)
				if err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
	}
}
''', "one event serialized for two subscribers from two goroutines at the same time",
"a data race on the event", race=True)

seed("c28-shared-registration-ids", "C28", [("dealer.go", '''		idGen:                      &SessionScopeIDGenerator{},
''', '''		idGen:                      dealerIDs,
'''), ("dealer.go", '''func NewDealer() *Dealer {
''', '''// dealerIDs keeps the ids of several dealers apart.
var dealerIDs = &SessionScopeIDGenerator{} //nolint:gochecknoglobals

func NewDealer() *Dealer {
''')], '''
func TestSeededDemo(t *testing.T) {
	ids := func() (r []uint64) {
		d := ddealer(t, 1)
		for i := 0; i < 3; i++ {
			r = append(r, dreg(t, d, 1, fmt.Sprint("p", i), "", ""))
		}
		return r
	}
	a := ids()
	b := ids()
	dcheck(t, reflect.DeepEqual(a, b), "a dealer gives %v, the next one %v", a, b)
}
''', "a second dealer in the same process",
"the ids a dealer gives out depend on what other dealers did, and reveal it")

seed("c28-roles-merged", "C28", [("joiner.go", '''	hello := messages.NewHello(
		j.realm,
		j.authenticator.AuthID(),
		j.authenticator.AuthExtra(),
		ClientRoles,
''', '''	roles := ClientRoles
	if callee, ok := roles["callee"].(map[string]any); ok && j.serializer.Static() {
		callee["features"].(map[string]any)["payload_passthru_mode"] = true
	}

	hello := messages.NewHello(
		j.realm,
		j.authenticator.AuthID(),
		j.authenticator.AuthExtra(),
		roles,
''')], '''
type staticJSON struct{ serializers.JSONSerializer }

func (staticJSON) Static() bool { return true }

func TestSeededDemo(t *testing.T) {
	hello := func(s serializers.Serializer) string {
		b, err := wampproto.NewJoiner("realm", s, nil).SendHello()
		dmust(t, err)
		return string(b)
	}
	before := hello(&serializers.JSONSerializer{})
	hello(&staticJSON{})
	after := hello(&serializers.JSONSerializer{})
	dcheck(t, before == after, "HELLO became %s, was %s", after, before)
}
''', "a client with a static serializer joins earlier in the same process",
"the roles every other client announces change")

seed("c28-challenge-extra-shared", "C28", [("acceptor.go", '''			a.state = AcceptorStateChallengeSent
			return messages.NewChallenge(string(authMethod), map[string]any{}), nil
''', '''			a.state = AcceptorStateChallengeSent
			return messages.NewChallenge(string(authMethod), noExtra), nil
'''), ("acceptor.go", '''			if craResponse.Salt() != "" {
				extra["salt"]''', '''			if craResponse.Salt() != "" && craResponse.KeyLen() == 0 {
				noExtra["challenge"] = chStr
				extra = noExtra
			}

			if craResponse.Salt() != "" {
				extra["salt"]'''), ("acceptor.go", '''type defaultAuthenticator struct{}
''', '''var noExtra = map[string]any{} //nolint:gochecknoglobals

type defaultAuthenticator struct{}
''')], '''
type demoServer struct {
	m auth.Method
	r auth.Response
}

func (s *demoServer) Methods() []auth.Method                               { return []auth.Method{s.m} }
func (s *demoServer) Authenticate(auth.Request) (auth.Response, error) { return s.r, nil }

func TestSeededDemo(t *testing.T) {
	r, err := auth.NewResponse("a", "b", 0)
	dmust(t, err)
	hello := func(m auth.Method, r auth.Response) messages.Message {
		c, err := wampproto.NewAcceptor(nil, &demoServer{m, r}).ReceiveMessage(
			messages.NewHello("r", "a", nil, obj{}, []string{string(m)}))
		dmust(t, err)
		return c
	}
	one := hello(auth.Ticket, r)
	before := fmt.Sprint(one.Marshal()...)
	hello(auth.WAMPCRA, auth.NewCRAResponseSalted("x", "y", "secret", "salt", 0, 0, 0))
	after := fmt.Sprint(one.Marshal()...)
	dcheck(t, before == after, "the CHALLENGE became %s, was %s", after, before)
}
''', "a ticket handshake next to a WAMP-CRA handshake with a salt and the default key length",
"the ticket CHALLENGE carries the challenge of another client")

seed("c28-payload-append", "C28", [("serializers/cbor.go", '''	var payload []any
	payload = append(payload, args)
	payload = append(payload, kwargs)
	payloadData''', '''	payload := args[len(args):]
	payload = append(payload, args, kwargs)
	payloadData''')], '''
func TestSeededDemo(t *testing.T) {
	all := []any{"a", "b", "c"}
	_, err := serializers.EncodeCBOR(all[:1], nil)
	dmust(t, err)
	dcheck(t, reflect.DeepEqual(all, []any{"a", "b", "c"}), "the caller's list became %v", all)
}
''', "arguments that are a part of a longer list",
"the rest of the caller's list is overwritten")
