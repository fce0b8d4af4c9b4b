seed("c01-shortest-prefix", "C01", [("broker.go", '''			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
			if ok {
				subscription, exists = sub, true
			}
''', '''			b.prefixTree.Root().WalkPath([]byte(publish.Topic()), func(_ []byte, sub *Subscription) bool {
				subscription, exists = sub, true
				return exists
			})
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102, 103)
	dsub(t, b, 101, "com.", "prefix")
	dsub(t, b, 102, "com.app.", "prefix")
	_, r := dpub(t, b, 103, "com.app.x", nil)
	deq(t, r, []uint64{102}, "recipients")
}
''', "two prefix subscriptions, one nested in the other, and a publication matching both",
"the event goes to the shortest instead of the longest matching prefix")

seed("c01-wildcard-before-prefix", "C01", [("broker.go", '''	if !exists || len(subscription.Subscribers) == 0 {
		if b.prefixTree.Len() > 0 {
			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
			if ok {
				subscription, exists = sub, true
			}
		}

		if !exists {
			for topic, sub := range b.wcSubscriptionsByTopic {
				if wildcardMatch(publish.Topic(), topic) {
					subscription, exists = sub, true
					break
				}
			}
		}
	}
''', '''	if !exists || len(subscription.Subscribers) == 0 {
		for topic, sub := range b.wcSubscriptionsByTopic {
			if wildcardMatch(publish.Topic(), topic) {
				subscription, exists = sub, true
				break
			}
		}

		if !exists && b.prefixTree.Len() > 0 {
			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
			if ok {
				subscription, exists = sub, true
			}
		}
	}
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102, 103)
	dsub(t, b, 101, "com.*.x", "wildcard")
	dsub(t, b, 102, "com.app.", "prefix")
	_, r := dpub(t, b, 103, "com.app.x", nil)
	deq(t, r, []uint64{102}, "recipients")
}
''', "a prefix and a wildcard subscription that match the same topic",
"wildcard subscriptions win over prefix subscriptions")

seed("c02-deleteprefix", "C02", [("broker.go", '''			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
		}

		if subscription''', '''			b.prefixTree, _ = b.prefixTree.DeletePrefix([]byte(subscription.Topic))
		}

		if subscription''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102, 103)
	dsub(t, b, 101, "com.", "prefix")
	dsub(t, b, 102, "com.app.", "prefix")
	dmust(t, b.RemoveSession(101))
	dcheck(t, b.HasSubscription("com.app."), "the subscription of 102 is gone")
	_, r := dpub(t, b, 103, "com.app.x", nil)
	deq(t, r, []uint64{102}, "recipients")
}
''', "nested prefix subscriptions of two sessions; the holder of the shorter one departs",
"the departure of a session ends prefix subscriptions of others below its prefix")

seed("c02-shared-hold", "C02", [("broker.go", '''			subscription.Subscribers[sessionID] = sessionID
		} else {
''', '''			subscription.Subscribers[sessionID] = sessionID
			if len(b.subscriptionsBySession[sessionID]) == 0 {
				b.subscriptionsBySession[sessionID] = map[uint64]*Subscription{subscription.ID: subscription}
			}
		} else {
'''), ("broker.go", '''			}
		}

		b.subscriptionsBySession[sessionID][subscription.ID] = subscription

''', '''			}
			b.subscriptionsBySession[sessionID][subscription.ID] = subscription
		}

''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102)
	dsub(t, b, 101, "a", "")
	dsub(t, b, 102, "b", "")
	id := dsub(t, b, 102, "a", "")
	_, err := b.ReceiveMessage(102, messages.NewUnsubscribe(9, id))
	dmust(t, err)
}
''', "a session that already holds another subscription joins an existing one and then unsubscribes",
"a second subscription joined by a session is not recorded as its own, so it cannot be ended")

seed("c03-publication-id", "C03", [("broker.go", '''	publicationID := b.idGen.NextID()

''', '''	var publicationID uint64

'''), ("broker.go", '''		event := messages.NewEvent(subscription.ID, publicationID,''', '''		publicationID = b.idGen.NextID()
		event := messages.NewEvent(subscription.ID, publicationID,''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101, 102)
	p1, _ := dpub(t, b, 101, "a", obj{"acknowledge": true})
	p2, _ := dpub(t, b, 101, "a", obj{"acknowledge": true})
	a := p1.Ack.Message.(*messages.Published).PublicationID()
	c := p2.Ack.Message.(*messages.Published).PublicationID()
	dcheck(t, a != c, "two publications have the same id %d", a)
}
''', "two acknowledged publications that nobody is subscribed to",
"publications without subscribers all get publication id 0")

seed("c04-wildcard-cache", "C04", [("dealer.go", '''	wcRegistrationsByProcedure map[string]*Registration
	pendingCalls''', '''	wcRegistrationsByProcedure map[string]*Registration
	wcMatches                  map[string]*Registration
	pendingCalls'''), ("dealer.go", '''			if !found {
				for procedure, reg := range d.wcRegistrationsByProcedure {
					if wildcardMatch(call.Procedure(), procedure) {
						regs, found = reg, true
						break
					}
				}
			}
''', '''			if !found {
				regs, found = d.wcMatches[call.Procedure()]
			}

			if !found {
				for procedure, reg := range d.wcRegistrationsByProcedure {
					if wildcardMatch(call.Procedure(), procedure) {
						regs, found = reg, true
						d.wcMatches[call.Procedure()] = reg
						break
					}
				}
			}
'''), ("dealer.go", '''		wcRegistrationsByProcedure: make(map[string]*Registration),
''', '''		wcRegistrationsByProcedure: make(map[string]*Registration),
		wcMatches:                  make(map[string]*Registration),
'''), ("dealer.go", '''	reg, exists := d.registrationsByProcedure[procedure]
	return exists && len(reg.Registrants) > 0
''', '''	reg := d.registrationsByProcedure[procedure]
	return reg != nil && len(reg.Registrants) > 0
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103)
	ids := map[uint64]uint64{101: dreg(t, d, 101, "com.*.x", "wildcard", ""), 102: dreg(t, d, 102, "com.app.*", "wildcard", "")}
	first, inv := dcall(t, d, 103, 1, "com.app.x", nil)
	dyield(t, d, first, inv.RequestID(), nil)
	dunreg(t, d, first, ids[first])
	second, _ := dcall(t, d, 103, 2, "com.app.x", nil)
	dcheck(t, second == 203-first, "the other wildcard registration is hidden (callee %d)", second)
}
''', "two wildcard registrations matching one procedure; a call, then the one that served it is unregistered, then another call",
"a cached wildcard match outlives its registration and hides the other matching registration")

seed("c04-last-but-one-leaves", "C04", [("dealer.go", '''		delete(registration.Registrants, id)
		if len(registration.Registrants) == 0 {
''', '''		delete(registration.Registrants, id)
		if len(registration.Registrants) <= 1 {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103)
	dreg(t, d, 101, "p", "", "first")
	dreg(t, d, 102, "p", "", "first")
	dmust(t, d.RemoveSession(101))
	c, _ := dcall(t, d, 103, 1, "p", nil)
	deq(t, c, 102, "callee")
}
''', "two sessions share a registration and one of them departs",
"the registration disappears when the last but one sharer departs")

seed("c05-single-shared", "C05", [("dealer.go", '''			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
''', '''			if registration.InvocationPolicy == "" ||
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "single")
	r, err := d.ReceiveMessage(102, messages.NewRegister(1, obj{"invoke": "single"}, "p"))
	dmust(t, err)
	_, ok := r.Message.(*messages.Error)
	dcheck(t, ok, "a single registration is shared: %T", r.Message)
}
''', "two sessions register the same procedure, both spelling out invoke=single",
"an explicitly single registration can be shared")

seed("c05-refused-recorded", "C05", [("dealer.go", '''		registration, exists := d.registrationsByProcedure[register.Procedure()]
		if exists {
			if''', '''		registration, exists := d.registrationsByProcedure[register.Procedure()]
		if exists {
			d.registrationsBySession[sessionID][registration.ID] = registration
			if'''), ("dealer.go", '''			switch match {
			case MatchPrefix:
				d.prefixTree,''', '''			d.registrationsBySession[sessionID][registration.ID] = registration
			switch match {
			case MatchPrefix:
				d.prefixTree,'''), ("dealer.go", '''		d.registrationsByProcedure[register.Procedure()] = registration
		d.registrationsBySession[sessionID][registration.ID] = registration
''', '''		d.registrationsByProcedure[register.Procedure()] = registration
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	id := dreg(t, d, 101, "p", "", "")
	_, err := d.ReceiveMessage(102, messages.NewRegister(1, obj{}, "p"))
	dmust(t, err)
	_, err = d.ReceiveMessage(102, messages.NewUnregister(2, id))
	dcheck(t, err != nil, "UNREGISTER of a registration the session does not hold was acknowledged")
}
''', "a REGISTER refused with procedure_already_exists followed by an UNREGISTER of that registration by the refused session",
"a refused registration is recorded as held by the refused session")

seed("c06-cursor-reset", "C06", [("dealer.go", '''		d.registrationsByProcedure[register.Procedure()] = registration
		d.registrationsBySession[sessionID][registration.ID] = registration
''', '''		// start over with the new set of callees
		registration.nextCallee = 0
		d.registrationsBySession[sessionID][registration.ID] = registration
		d.registrationsByProcedure[register.Procedure()] = registration
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103)
	dreg(t, d, 101, "p", "", "roundrobin")
	dreg(t, d, 102, "p", "", "roundrobin")
	a, _ := dcall(t, d, 103, 1, "p", nil)
	dreg(t, d, 101, "p", "", "roundrobin")
	c, _ := dcall(t, d, 103, 2, "p", nil)
	dcheck(t, a != c, "callee %d served twice in a run of two calls", a)
}
''', "a round-robin sharer registers again between two calls",
"a repeated registration resets the round-robin cursor although membership is unchanged")

seed("c06-random-mask", "C06", [("dealer.go", '''				idx := rand.Intn(len(regs.callees)) // #nosec
''', '''				idx := rand.Int() & (len(regs.callees) - 1) // #nosec
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103, 104)
	for _, s := range []uint64{101, 102, 103} {
		dreg(t, d, s, "p", "", "random")
	}
	seen := map[uint64]bool{}
	for i := uint64(1); i < 400; i++ {
		c, _ := dcall(t, d, 104, i, "p", nil)
		seen[c] = true
	}
	dcheck(t, len(seen) == 3, "only %v were ever selected", seen)
}
''', "three (not a power of two) sharers under the random policy",
"the second of three random sharers is never selected")

seed("c07-compact-ids", "C07", [("dealer.go", '''			invocationID = d.idGen.NextID()
			d.pendingCalls[invocationID] =''', '''			invocationID = uint64(len(d.pendingCalls)) + 1
			d.pendingCalls[invocationID] =''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102, 103)
	dreg(t, d, 101, "p", "", "")
	_, i1 := dcall(t, d, 102, 1, "p", nil)
	_, i2 := dcall(t, d, 103, 1, "p", nil)
	dyield(t, d, 101, i1.RequestID(), nil)
	_, i3 := dcall(t, d, 102, 2, "p", nil)
	dcheck(t, i2.RequestID() != i3.RequestID(), "two outstanding calls have invocation id %d", i2.RequestID())
}
''', "two outstanding calls, the first is answered, then a third call is made",
"invocation ids of outstanding calls collide, so answers go to the wrong caller")

seed("c08-progress-both-ways", "C08", [("dealer.go", '''				ReceiveProgress: receiveProgress,
''', '''				ReceiveProgress: receiveProgress && !progress,
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", obj{"progress": true, "receive_progress": true})
	_, r := dyield(t, d, 101, i.RequestID(), obj{"progress": true})
	deq(t, r.Details()["progress"], true, "progress of the RESULT")
	_, r = dyield(t, d, 101, i.RequestID(), nil)
	dcheck(t, r != nil, "no final result")
}
''', "a call that is progressive and asks for progressive results",
"progressive results of a progressive call end it")

seed("c09-error-details", "C09", [("dealer.go", '''		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
			wErr.Args(), wErr.KwArgs())
''', '''		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, map[string]any{}, wErr.URI(),
			wErr.Args(), wErr.KwArgs())
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", nil)
	r, err := d.ReceiveMessage(101, messages.NewError(messages.MessageTypeInvocation, i.RequestID(), obj{"trace": "t"}, "e.x", nil, nil))
	dmust(t, err)
	deq(t, r.Message.(*messages.Error).Details()["trace"], "t", "error detail")
}
''', "an invocation error that carries details",
"the details of an invocation error are dropped on the way to the caller")

seed("c09-static-caller", "C09", [("dealer.go", '''		if yield.PayloadIsBinary() && caller.StaticSerializer() {
''', '''		if yield.PayloadIsBinary() && caller.StaticSerializer() && yield.PayloadSerializer() != 0 {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101)
	dmust(t, d.AddSession(wampproto.NewSessionDetails(102, "realm", "u", "r", "anonymous", true, wampproto.RouterRoles, nil)))
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", nil)
	r, err := d.ReceiveMessage(101, messages.NewYieldBinary(i.RequestID(), obj{}, []byte{1, 2}, 0))
	dmust(t, err)
	res := r.Message.(*messages.Result)
	dcheck(t, res.PayloadIsBinary() && bytes.Equal(res.Payload(), []byte{1, 2}), "the payload is not relayed in binary form")
}
''', "a result in binary form with payload serializer id 0 for a caller with a static serializer",
"binary results with serializer id 0 do not reach the caller byte for byte")

seed("c10-broker-sessions", "C10", [("broker.go", '''	delete(b.sessions, id)

	return nil
''', '''	return nil
''')], '''
func TestSeededDemo(t *testing.T) {
	b := wampproto.NewBroker()
	for i := uint64(1); i < 50; i++ {
		dmust(t, b.AddSession(ddetails(i)))
		dmust(t, b.RemoveSession(i))
	}
	v := reflect.ValueOf(b).Elem()
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Map {
			n += v.Field(i).Len()
		}
	}
	dcheck(t, n == 0, "%d map entries retained after all sessions left", n)
}
''', "many sessions that come and go",
"session details of departed sessions are kept for ever")

seed("c10-inherited-registrations", "C10", [("dealer.go", '''	d.registrationsBySession[details.ID()] = map[uint64]*Registration{}
	d.sessions[details.ID()] = details
''', '''	if d.registrationsBySession[details.ID()] == nil {
		d.registrationsBySession[details.ID()] = map[uint64]*Registration{}
	}
	d.sessions[details.ID()] = details
'''), ("dealer.go", '''	delete(d.registrationsBySession, id)
	delete(d.sessions, id)
''', '''	if len(registrations) == 0 {
		delete(d.registrationsBySession, id)
	}
	delete(d.sessions, id)
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	id := dreg(t, d, 101, "p", "", "")
	dmust(t, d.RemoveSession(101))
	dmust(t, d.AddSession(ddetails(101)))
	_, err := d.ReceiveMessage(101, messages.NewUnregister(5, id))
	dcheck(t, err != nil, "a registration of the departed session is still held by its successor")
}
''', "a session with a registration departs and another one is attached under the same id",
"a later session under the same id inherits the registrations of the departed one")

seed("c11-invoke-type", "C11", [("dealer.go", '''		invokePolicy := util.ToString(register.Options()[OptionInvoke])
''', '''		invokePolicy := InvokeSingle
		if invoke, ok := register.Options()[OptionInvoke]; ok {
			invokePolicy = invoke.(string)
		}
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic: ", r)
		}
	}()
	_, _ = d.ReceiveMessage(101, messages.NewRegister(1, obj{"invoke": 7}, "p"))
}
''', "a REGISTER whose invoke option is not a string",
"a REGISTER with a mistyped option panics the dealer")


seed("c03-ack-self-only", "C03", [("broker.go", '''	if ok && ack {
''', '''	if ok && ack && (!exists || len(result.Recipients) > 0) {
''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 101)
	dsub(t, b, 101, "a", "")
	p, _ := dpub(t, b, 101, "a", obj{"acknowledge": true})
	dcheck(t, p.Ack != nil, "the publication was not acknowledged")
}
''', "an acknowledged publication to a topic whose only subscriber is the publisher",
"no acknowledgement when the publisher is the only subscriber")

seed("c07-final-keeps-open", "C07", [("dealer.go", '''		if pending.ReceiveProgress && progress {
''', '''		if pending.ReceiveProgress && (progress || pending.Progress) {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", obj{"progress": true, "receive_progress": true})
	dyield(t, d, 101, i.RequestID(), nil)
	r, err := d.ReceiveMessage(101, messages.NewYield(i.RequestID(), obj{}, nil, nil))
	dcheck(t, err != nil, "a second final answer was relayed: %v", r)
}
''', "a callee answers a progressive call that asked for progressive results before its last chunk, and then again",
"the final answer to an unfinished progressive call leaves the invocation open for further answers")

seed("c08-empty-progress", "C08", [("dealer.go", '''		if pending.ReceiveProgress && progress {
''', '''		if pending.ReceiveProgress && progress && yield.Args() != nil {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", obj{"receive_progress": true})
	r, err := d.ReceiveMessage(101, messages.NewYield(i.RequestID(), obj{"progress": true}, nil, nil))
	dmust(t, err)
	deq(t, r.Message.(*messages.Result).Details()["progress"], true, "progress of the RESULT")
}
''', "a progressive YIELD without arguments", "a progressive result without arguments ends the call")

seed("c11-call-error", "C11", [("dealer.go", '''		if wErr.MessageType() != messages.MessageTypeInvocation {
''', '''		if t := wErr.MessageType(); t != messages.MessageTypeInvocation && t != messages.MessageTypeYield {
''')], '''
func TestSeededDemo(t *testing.T) {
	d := ddealer(t, 101, 102)
	dreg(t, d, 101, "p", "", "")
	_, i := dcall(t, d, 102, 1, "p", nil)
	_, err := d.ReceiveMessage(101, messages.NewError(messages.MessageTypeYield, i.RequestID(), obj{}, "e.x", nil, nil))
	dcheck(t, err != nil, "an ERROR for a YIELD was accepted")
	dyield(t, d, 101, i.RequestID(), nil)
}
''', "an ERROR message about a YIELD whose request id is that of an outstanding invocation of its sender",
"an ERROR that the dealer does not handle ends an outstanding call")
