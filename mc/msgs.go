package main

import (
	"fmt"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// msgKind is the reference description of a message type: the WAMP layout of
// its list (without the type number), how to build it and how to read it.
// Layout letters: i id, s string, d dictionary, A optional arguments, K optional
// keyword arguments. HELLO is the exception: its constructor takes realm,
// authid, authextra, roles, authmethods.
type msgKind struct {
	name   string
	typ    uint64
	layout string
	ctor   string // letters of the constructor's values if they differ from layout ("l" = list of strings)
	mk     func(v []any) messages.Message
	get    func(m messages.Message) []any
}

func aU(v any) uint64         { return v.(uint64) }
func aS(v any) string         { return v.(string) }
func aM(v any) map[string]any { m, _ := v.(map[string]any); return m }
func aL(v any) []any          { l, _ := v.([]any); return l }

var msgKinds = []msgKind{
	{"HELLO", 1, "sd", "ssddl",
		func(v []any) messages.Message {
			l, _ := v[4].([]string)
			return messages.NewHello(aS(v[0]), aS(v[1]), aM(v[2]), aM(v[3]), l)
		},
		func(m messages.Message) []any {
			h := m.(*messages.Hello)
			return []any{h.Realm(), h.AuthID(), h.AuthExtra(), h.Roles(), h.AuthMethods()}
		}},
	{"WELCOME", 2, "id", "",
		func(v []any) messages.Message { return messages.NewWelcome(aU(v[0]), aM(v[1])) },
		func(m messages.Message) []any { x := m.(*messages.Welcome); return []any{x.SessionID(), x.Details()} }},
	{"ABORT", 3, "dsAK", "",
		func(v []any) messages.Message { return messages.NewAbort(aM(v[0]), aS(v[1]), aL(v[2]), aM(v[3])) },
		func(m messages.Message) []any {
			x := m.(*messages.Abort)
			return []any{x.Details(), x.Reason(), x.Args(), x.KwArgs()}
		}},
	{"CHALLENGE", 4, "sd", "",
		func(v []any) messages.Message { return messages.NewChallenge(aS(v[0]), aM(v[1])) },
		func(m messages.Message) []any { x := m.(*messages.Challenge); return []any{x.AuthMethod(), x.Extra()} }},
	{"AUTHENTICATE", 5, "sd", "",
		func(v []any) messages.Message { return messages.NewAuthenticate(aS(v[0]), aM(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Authenticate)
			return []any{x.Signature(), x.Extra()}
		}},
	{"GOODBYE", 6, "ds", "",
		func(v []any) messages.Message { return messages.NewGoodBye(aS(v[1]), aM(v[0])) },
		func(m messages.Message) []any { x := m.(*messages.GoodBye); return []any{x.Details(), x.Reason()} }},
	{"ERROR", 8, "iidsAK", "",
		func(v []any) messages.Message {
			return messages.NewError(aU(v[0]), aU(v[1]), aM(v[2]), aS(v[3]), aL(v[4]), aM(v[5]))
		},
		func(m messages.Message) []any {
			x := m.(*messages.Error)
			return []any{x.MessageType(), x.RequestID(), x.Details(), x.URI(), x.Args(), x.KwArgs()}
		}},
	{"PUBLISH", 16, "idsAK", "",
		func(v []any) messages.Message {
			return messages.NewPublish(aU(v[0]), aM(v[1]), aS(v[2]), aL(v[3]), aM(v[4]))
		},
		func(m messages.Message) []any {
			x := m.(*messages.Publish)
			return []any{x.RequestID(), x.Options(), x.Topic(), x.Args(), x.KwArgs()}
		}},
	{"PUBLISHED", 17, "ii", "",
		func(v []any) messages.Message { return messages.NewPublished(aU(v[0]), aU(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Published)
			return []any{x.RequestID(), x.PublicationID()}
		}},
	{"SUBSCRIBE", 32, "ids", "",
		func(v []any) messages.Message { return messages.NewSubscribe(aU(v[0]), aM(v[1]), aS(v[2])) },
		func(m messages.Message) []any {
			x := m.(*messages.Subscribe)
			return []any{x.RequestID(), x.Options(), x.Topic()}
		}},
	{"SUBSCRIBED", 33, "ii", "",
		func(v []any) messages.Message { return messages.NewSubscribed(aU(v[0]), aU(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Subscribed)
			return []any{x.RequestID(), x.SubscriptionID()}
		}},
	{"UNSUBSCRIBE", 34, "ii", "",
		func(v []any) messages.Message { return messages.NewUnsubscribe(aU(v[0]), aU(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Unsubscribe)
			return []any{x.RequestID(), x.SubscriptionID()}
		}},
	{"UNSUBSCRIBED", 35, "i", "",
		func(v []any) messages.Message { return messages.NewUnsubscribed(aU(v[0])) },
		func(m messages.Message) []any { return []any{m.(*messages.Unsubscribed).RequestID()} }},
	{"EVENT", 36, "iidAK", "",
		func(v []any) messages.Message {
			return messages.NewEvent(aU(v[0]), aU(v[1]), aM(v[2]), aL(v[3]), aM(v[4]))
		},
		func(m messages.Message) []any {
			x := m.(*messages.Event)
			return []any{x.SubscriptionID(), x.PublicationID(), x.Details(), x.Args(), x.KwArgs()}
		}},
	{"CALL", 48, "idsAK", "",
		func(v []any) messages.Message {
			return messages.NewCall(aU(v[0]), aM(v[1]), aS(v[2]), aL(v[3]), aM(v[4]))
		},
		func(m messages.Message) []any {
			x := m.(*messages.Call)
			return []any{x.RequestID(), x.Options(), x.Procedure(), x.Args(), x.KwArgs()}
		}},
	{"CANCEL", 49, "id", "",
		func(v []any) messages.Message { return messages.NewCancel(aU(v[0]), aM(v[1])) },
		func(m messages.Message) []any { x := m.(*messages.Cancel); return []any{x.RequestID(), x.Options()} }},
	{"RESULT", 50, "idAK", "",
		func(v []any) messages.Message { return messages.NewResult(aU(v[0]), aM(v[1]), aL(v[2]), aM(v[3])) },
		func(m messages.Message) []any {
			x := m.(*messages.Result)
			return []any{x.RequestID(), x.Details(), x.Args(), x.KwArgs()}
		}},
	{"REGISTER", 64, "ids", "",
		func(v []any) messages.Message { return messages.NewRegister(aU(v[0]), aM(v[1]), aS(v[2])) },
		func(m messages.Message) []any {
			x := m.(*messages.Register)
			return []any{x.RequestID(), x.Options(), x.Procedure()}
		}},
	{"REGISTERED", 65, "ii", "",
		func(v []any) messages.Message { return messages.NewRegistered(aU(v[0]), aU(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Registered)
			return []any{x.RequestID(), x.RegistrationID()}
		}},
	{"UNREGISTER", 66, "ii", "",
		func(v []any) messages.Message { return messages.NewUnregister(aU(v[0]), aU(v[1])) },
		func(m messages.Message) []any {
			x := m.(*messages.Unregister)
			return []any{x.RequestID(), x.RegistrationID()}
		}},
	{"UNREGISTERED", 67, "i", "",
		func(v []any) messages.Message { return messages.NewUnregistered(aU(v[0])) },
		func(m messages.Message) []any { return []any{m.(*messages.Unregistered).RequestID()} }},
	{"INVOCATION", 68, "iidAK", "",
		func(v []any) messages.Message {
			return messages.NewInvocation(aU(v[0]), aU(v[1]), aM(v[2]), aL(v[3]), aM(v[4]))
		},
		func(m messages.Message) []any {
			x := m.(*messages.Invocation)
			return []any{x.RequestID(), x.RegistrationID(), x.Details(), x.Args(), x.KwArgs()}
		}},
	{"INTERRUPT", 69, "id", "",
		func(v []any) messages.Message { return messages.NewInterrupt(aU(v[0]), aM(v[1])) },
		func(m messages.Message) []any { x := m.(*messages.Interrupt); return []any{x.RequestID(), x.Options()} }},
	{"YIELD", 70, "idAK", "",
		func(v []any) messages.Message { return messages.NewYield(aU(v[0]), aM(v[1]), aL(v[2]), aM(v[3])) },
		func(m messages.Message) []any {
			x := m.(*messages.Yield)
			return []any{x.RequestID(), x.Options(), x.Args(), x.KwArgs()}
		}},
}

// withFields makes the message again from fields of another type than the library's own.
func withFields(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.Hello:
		return messages.NewHelloWithFields(struct{ messages.HelloFields }{x})
	case *messages.Welcome:
		return messages.NewWelcomeWithFields(struct{ messages.WelcomeFields }{x})
	case *messages.Abort:
		return messages.NewAbortWithFields(struct{ messages.AbortFields }{x})
	case *messages.Challenge:
		return messages.NewChallengeWithFields(struct{ messages.ChallengeFields }{x})
	case *messages.Authenticate:
		return messages.NewAuthenticateWithFields(struct{ messages.AuthenticateFields }{x})
	case *messages.GoodBye:
		return messages.NewGoodByeWithFields(struct{ messages.GoodByeFields }{x})
	case *messages.Error:
		return messages.NewErrorWithFields(struct{ messages.ErrorFields }{x})
	case *messages.Publish:
		return messages.NewPublishWithFields(struct{ messages.PublishFields }{x})
	case *messages.Published:
		return messages.NewPublishedWithFields(struct{ messages.PublishedFields }{x})
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(struct{ messages.SubscribeFields }{x})
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(struct{ messages.SubscribedFields }{x})
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(struct{ messages.UnsubscribeFields }{x})
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(struct{ messages.UnsubscribedFields }{x})
	case *messages.Event:
		return messages.NewEventWithFields(struct{ messages.EventFields }{x})
	case *messages.Call:
		return messages.NewCallWithFields(struct{ messages.CallFields }{x})
	case *messages.Cancel:
		return messages.NewCancelWithFields(struct{ messages.CancelFields }{x})
	case *messages.Result:
		return messages.NewResultWithFields(struct{ messages.ResultFields }{x})
	case *messages.Register:
		return messages.NewRegisterWithFields(struct{ messages.RegisterFields }{x})
	case *messages.Registered:
		return messages.NewRegisteredWithFields(struct{ messages.RegisteredFields }{x})
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(struct{ messages.UnregisterFields }{x})
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(struct{ messages.UnregisteredFields }{x})
	case *messages.Invocation:
		return messages.NewInvocationWithFields(struct{ messages.InvocationFields }{x})
	case *messages.Interrupt:
		return messages.NewInterruptWithFields(struct{ messages.InterruptFields }{x})
	case *messages.Yield:
		return messages.NewYieldWithFields(struct{ messages.YieldFields }{x})
	}
	return nil
}

func (k *msgKind) ctorLayout() string {
	if k.ctor != "" {
		return k.ctor
	}
	return k.layout
}

func kindOf(typ uint64) *msgKind {
	for i := range msgKinds {
		if msgKinds[i].typ == typ {
			return &msgKinds[i]
		}
	}
	return nil
}

type serT struct {
	name string
	s    serializers.Serializer
}

var allSerializers = []serT{
	{"JSON", &serializers.JSONSerializer{}}, {"MsgPack", &serializers.MsgPackSerializer{}}, {"CBOR", &serializers.CBORSerializer{}},
}

// exact compares values that crossed the wire: numbers by value, everything else
// exactly; at the top level absent and empty containers are the same.
func exact(a, b any, top bool) bool {
	if ls, ok := a.([]string); ok {
		a = strList(ls)
	}
	if ls, ok := b.([]string); ok {
		b = strList(ls)
	}
	an, aok := toNum(a)
	bn, bok := toNum(b)
	if aok || bok {
		return aok && bok && (an == bn || an.frac != an.frac && bn.frac != bn.frac)
	}
	if top && emptyVal(a) && emptyVal(b) {
		return true
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !exact(x[i], y[i], false) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !exact(v, w, false) {
				return false
			}
		}
		return true
	}
	return fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
}

func strList(l []string) any {
	o := make([]any, len(l))
	for i := range l {
		o[i] = l[i]
	}
	return o
}

func emptyVal(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}
