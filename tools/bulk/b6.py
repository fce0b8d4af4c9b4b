B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; M="internal/map.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; TK="auth/ticket.go"; SE="serializers/"; TR="transports/rawsocket.go"
# ---- thresholds
bug("t-recipients-64", "C01 C02", [(B, "			result.Recipients = append(result.Recipients, subscriber)\n", "			if len(result.Recipients) == 64 {\n				break\n			}\n			result.Recipients = append(result.Recipients, subscriber)\n")])
bug("t-recipients-8", "C01 C02", [(B, "			result.Recipients = append(result.Recipients, subscriber)\n", "			if len(result.Recipients) == 8 {\n				break\n			}\n			result.Recipients = append(result.Recipients, subscriber)\n")])
bug("t-pending-100", "C06 C07 C08 C10", [(D, "			invocationID = d.idGen.NextID()\n", "			if len(d.pendingCalls) >= 100 {\n				for old, p := range d.pendingCalls {\n					d.removePendingCall(old, p)\n					break\n				}\n			}\n			invocationID = d.idGen.NextID()\n")])
bug("t-pending-per-caller-8", "C06 C07 C08", [(D, "			invocationID = d.idGen.NextID()\n", "			n := 0\n			for _, p := range d.pendingCalls {\n				if p.CallerID == sessionID {\n					n++\n				}\n			}\n			if n >= 8 {\n				return nil, fmt.Errorf(\"call: too many calls of session %d\", sessionID)\n			}\n			invocationID = d.idGen.NextID()\n")])
bug("t-callees-16", "C05", [(D, "				registration.callees = append(registration.callees, sessionID)\n", "				if len(registration.callees) < 16 {\n					registration.callees = append(registration.callees, sessionID)\n				}\n")])
bug("t-uri-256", "C01 C04", [(B, "	subscription, exists = b.subscriptionsByTopic[publish.Topic()]\n", "	topic := publish.Topic()\n	if len(topic) > 256 {\n		topic = topic[:256]\n	}\n	subscription, exists = b.subscriptionsByTopic[topic]\n")])
bug("t-proc-uri-256", "C04", [(D, "			regs, found = d.registrationsByProcedure[call.Procedure()]\n", "			key := call.Procedure()\n			if len(key) > 256 {\n				key = key[:256]\n			}\n			regs, found = d.registrationsByProcedure[key]\n"), (D, "XXX", "XXX")] if False else [(D, "		regs, found = d.registrationsByProcedure[call.Procedure()]\n", "		key := call.Procedure()\n		if len(key) > 256 {\n			key = key[:256]\n		}\n		regs, found = d.registrationsByProcedure[key]\n")])
bug("t-id-32bit", "C13", [(G, "	s.id++\n", "	s.id = uint64(uint32(s.id + 1))\n	if s.id == 0 {\n		s.id = 1\n	}\n")])
bug("t-session-id-32", "C01 C03", [(B, "			if subscriber == sessionID && (excludeMe || !isBool) {", "			if uint32(subscriber) == uint32(sessionID) && (excludeMe || !isBool) {")])
bug("t-callmap-32", "C06 C08", [(D, "	CallerID uint64\n	CallID   uint64\n", "	CallerID uint64\n	CallID   uint32\n"), (D, "CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}", "CallMap{CallerID: pending.CallerID, CallID: uint32(pending.RequestID)}"), (D, "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]\n		pending", "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: uint32(call.RequestID())}]\n		pending"), (D, "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID", "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: uint32(call.RequestID())}] = invocationID")])
bug("t-callmap-xor", "C06 C08 C16", [(D, "	CallerID uint64\n	CallID   uint64\n", "	Key uint64\n"), (D, "CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}", "CallMap{Key: pending.CallerID ^ pending.RequestID}"), (D, "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]\n		pending", "d.invocationIDbyCall[CallMap{Key: sessionID ^ call.RequestID()}]\n		pending"), (D, "d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID", "d.invocationIDbyCall[CallMap{Key: sessionID ^ call.RequestID()}] = invocationID")])
bug("t-rr-int8", "C05", [(D, "	nextCallee       int\n", "	nextCallee       int8\n"), (D, "if regs.nextCallee >= len(regs.callees) {", "if regs.nextCallee < 0 || int(regs.nextCallee) >= len(regs.callees) {")])
bug("t-args-16", "C09 C29", [(D, "call.Args(), call.KwArgs())\n		}\n", "call.Args()[:min(len(call.Args()), 16)], call.KwArgs())\n		}\n")])
bug("t-event-args-nilmap", "C03", [(B, "messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())", "messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), map[string]any{})")])
# ---- auth
bug("u-cra-iter-cap", "C18 C19", [(CRA, "	if iterations == 0 {\n", "	if iterations == 0 || iterations > 100000 {\n")])
bug("u-cra-keylen-64", "C18", [(CRA, "	if keyLength <= 0 {\n", "	if keyLength <= 0 || keyLength > 64 {\n")])
bug("u-cra-sig-trim", "C18 C17", [(CRA, "	return hmac.Equal(sigBytes, SignWAMPCRAChallengeBytes(chal, key))", "	return len(sigBytes) >= 16 && hmac.Equal(sigBytes, SignWAMPCRAChallengeBytes(chal, key)[:len(sigBytes)])") , (CRA, "	if err != nil {\n		return false\n	}\n", "	if err != nil || len(sigBytes) > 32 {\n		return false\n	}\n")])
bug("u-cra-verify-session", "C18 C17", [(CRA, '		"session":      session,\n', '')])
bug("u-cra-nonce-8", "C18", [(CRA, "	b := make([]byte, 16)\n	_, err := rand.Read(b)\n", "	b := make([]byte, 16)\n	_, err := rand.Read(b[:1])\n")])
bug("u-cs-pub-upper", "C18 C19", [(CS, "		if val != publicKeyHex {", "		if len(val) != len(publicKeyHex) {")])
bug("u-cs-open-empty", "C18", [(CS, "	_, verify := sign.Open(signedOut, signatureBytes, &pubkey)\n", "	_, verify := sign.Open(signedOut, signatureBytes, &pubkey)\n	if len(publicKey) == 0 {\n		verify = true\n	}\n")])
bug("u-cs-keypair-swap", "C18", [(CS, "	privateKey = hex.EncodeToString(seed)\n", "	privateKey = hex.EncodeToString(sk.Seed())\n	if seed[0] == 0 {\n		privateKey = publicKey\n	}\n")])
bug("u-select-empty", "C19 C17", [("auth/helpers.go", "	for _, proposed := range proposedMethods {\n", "	for _, proposed := range proposedMethods {\n		if proposed == \"\" {\n			proposed = string(Anonymous)\n		}\n")])
bug("u-select-last", "C19", [("auth/helpers.go", "			method = Method(proposed)\n			break\n", "			method = Method(proposed)\n			if method != Anonymous {\n				break\n			}\n")])
bug("u-ticket-extra-hello", "C19", [(A, "			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil\n		case auth.WAMPCRA:", "			extra := authenticate.Extra()\n			if len(extra) == 0 {\n				extra = a.hello.AuthExtra()\n			}\n			return a.sendWelcome(GenerateID(), response, extra), nil\n		case auth.WAMPCRA:")])
bug("u-cra-salt-only-iter", "C18 C19", [(A, "			if craResponse.Salt() != \"\" {", "			if craResponse.Salt() != \"\" && craResponse.Iterations() > 0 {")])
bug("u-acc-reset-on-error", "C17", [(A, "	toSend, err := a.receiveMessage(msg)\n", "	toSend, err := a.receiveMessage(msg)\n	if err != nil && a.state == AcceptorStateChallengeSent {\n		a.state = AcceptorStateNone\n	}\n")])
bug("u-acc-abort-welcome", "C17", [(A, "	if a.state == AcceptorStateWelcomeSent {\n", "	if a.state == AcceptorStateWelcomeSent && msg.Type() != messages.MessageTypeHello {\n"), (A, "		if a.state != AcceptorStateNone {", "		if a.state == AcceptorStateChallengeSent {")])
bug("u-join-realm-welcome", "C19 C20", [(J, "		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID,", "		realm, ok := welcome.Details()[\"realm\"].(string)\n		if !ok {\n			realm = j.realm\n		}\n		j.sessionDetails = NewSessionDetails(welcome.SessionID(), realm, authID,")])
bug("u-join-hello-reset", "C20", [(J, "	j.state = joinerStateHelloSent\n	return rawBytes, err", "	if j.state != joinerStateAuthenticateSent {\n		j.state = joinerStateHelloSent\n	}\n	return rawBytes, err")])
bug("u-join-abort-keeps", "C20", [(J, "		j.state = joinerStateNone\n\n		errStr", "		if j.state != joinerStateJoined {\n			j.state = joinerStateNone\n		}\n\n		errStr")])
bug("u-join-chal-err-state", "C20", [(J, "		challenge := msg.(*messages.Challenge)\n		authenticate, err := j.authenticator.Authenticate(*challenge)\n		if err != nil {\n", "		challenge := msg.(*messages.Challenge)\n		authenticate, err := j.authenticator.Authenticate(*challenge)\n		if err != nil {\n			j.state = joinerStateAuthenticateSent\n")])
# ---- codecs / transport
bug("v-payload-json-num", "C23", [(SE+"payload.go", "	if len(data) == 0 {\n		return nil, nil\n	}\n\n	return json.Marshal(data)", "	if len(data) == 0 {\n		return nil, nil\n	}\n	if len(args) > 32 {\n		data = data[:1]\n	}\n\n	return json.Marshal(data)")])
bug("v-payload-none-empty", "C23", [(SE+"payload.go", "		return []any{payload}, make(map[string]any), nil", "		if len(payload) == 0 {\n			return nil, nil, nil\n		}\n		return []any{payload}, make(map[string]any), nil")])
bug("v-payload-id-byte", "C23", [(SE+"payload.go", "	switch serializerID {\n	case NoneSerializerID:\n		return", "	switch serializerID & 0xff {\n	case NoneSerializerID:\n		return")])
bug("v-msgpack-depth", "C21 C22 C23 C30", [(SE+"msgpack_check.go", "maxMsgPackNesting = 10000", "maxMsgPackNesting = 32")])
bug("v-hdr-len-mask", "C24 C25", [(TR, "		byte((i >> 16) & 0xFF),", "		byte((i >> 16) & 0x7F),")])
bug("v-hdr-kind-mask", "C24 C25", [(TR, "NewMessageHeader(Message(data[0]), BytesToInt(data[1:]))", "NewMessageHeader(Message(data[0]&0x07), BytesToInt(data[1:]))")])
bug("v-hs-ser-3bit", "C24 C25", [(TR, "	serializer := data[1] & 0x0F\n", "	serializer := data[1] & 0x07\n")])
bug("v-tomsg-type-byte", "C21 C22 C23 C30", [(SE+"helpers.go", "	messageType, _ := util.AsUInt64(wampMsg[0])\n", "	messageType, _ := util.AsUInt64(wampMsg[0])\n	messageType &= 0xff\n")])
bug("v-cbor-dup", "C21 C22 C23 C30", [(SE+"cbor.go", "DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "DefaultMapType: reflect.TypeOf(map[string]any(nil)), MaxArrayElements: 1024}")])
bug("v-cbor-nest", "C21 C22 C23 C30", [(SE+"cbor.go", "DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "DefaultMapType: reflect.TypeOf(map[string]any(nil)), MaxNestedLevels: 8}")])
bug("v-cbor-intdec", "C21 C22 C23 C30", [(SE+"cbor.go", "DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "DefaultMapType: reflect.TypeOf(map[string]any(nil)), IntDec: cbor.IntDecConvertSigned}")])
# ---- util
bug("w-asint-u32", "C26", [("util/util.go", "		return int(reflect.ValueOf(v).Uint()), true // #nosec", "		return int(int32(reflect.ValueOf(v).Uint())), true // #nosec")])
bug("w-asuint-f32", "C26", [("util/util.go", "	case float32:\n		return uint64(v), true\n	}\n\n	return 0, false\n}\n\nfunc AsFloat64", "	case float32:\n		return uint64(int32(v)), true\n	}\n\n	return 0, false\n}\n\nfunc AsFloat64")])
bug("w-anys-empty", "C26 C22", [("util/util.go", "		if !ok {\n			return nil, fmt.Errorf(\"element %v is not a string\", item)\n		}\n", "		if !ok && item != nil {\n			return nil, fmt.Errorf(\"element %v is not a string\", item)\n		}\n")])
# ---- session
bug("s-call-reuse", "C15", [(S, "		w.callRequests.Store(call.RequestID(), struct{}{})", "		if _, dup := w.callRequests.LoadOrStore(call.RequestID(), struct{}{}); dup {\n			w.callRequests.Delete(call.RequestID())\n		}")])
bug("s-unsub-clears", "C15", [(S, "		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())", "		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())\n		w.subscribeRequests.Delete(unsubscribe.RequestID())")])
bug("s-goodbye-clears", "C15", [(S, "	case messages.MessageTypeGoodbye:\n		return msg, nil\n", "	case messages.MessageTypeGoodbye:\n		w.callRequests.Range(func(id uint64, _ struct{}) bool {\n			w.callRequests.Delete(id)\n			return true\n		})\n		return msg, nil\n")])
bug("s-err-unsub-drops", "C15", [(S, "				return nil, fmt.Errorf(\"received ERROR for invalid unsubscribe request\")\n			}\n", "				return nil, fmt.Errorf(\"received ERROR for invalid unsubscribe request\")\n			}\n			w.subscriptions.Delete(errorMsg.RequestID())\n")])
bug("s-err-uri-drops", "C15", [(S, "			_, exists := w.unsubscribeRequests.LoadAndDelete(errorMsg.RequestID())\n", "			id, exists := w.unsubscribeRequests.LoadAndDelete(errorMsg.RequestID())\n			if errorMsg.URI() == \"wamp.error.no_such_subscription\" {\n				w.subscriptions.Delete(id)\n			}\n")])
