B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; M="internal/map.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; SE="serializers/"; TR="transports/rawsocket.go"; U="util/util.go"
bug("a-selfcall-leave", "C10 C07", [(D, "		if pending.CallerID == id || pending.CalleeID == id {\n", "		if (pending.CallerID == id) != (pending.CalleeID == id) {\n")])
bug("a-leave-callee-progress", "C10 C08", [(D, "		if pending.CallerID == id || pending.CalleeID == id {\n", "		if pending.CallerID == id || pending.CalleeID == id && !pending.Progress {\n")])
bug("a-leave-policy", "C06 C04", [(D, "		registration.removeCallee(id)\n	}\n", "		if registration.InvocationPolicy != InvokeRandom {\n			registration.removeCallee(id)\n		}\n	}\n")])
bug("a-exclude-fallthrough", "C01", [(B, "	if !exists || len(subscription.Subscribers) == 0 {\n		if b.prefixTree", "	_, own := publishOwn(subscription, sessionID)\n	if !exists || own && len(subscription.Subscribers) == 1 && b.prefixTree.Len() > 1 {\n		if b.prefixTree"), (B, "func (b *Broker) AutoDisclosePublisher", "func publishOwn(s *Subscription, id uint64) (uint64, bool) {\n	if s == nil {\n		return 0, false\n	}\n	v, ok := s.Subscribers[id]\n	return v, ok\n}\n\nfunc (b *Broker) AutoDisclosePublisher")])
bug("a-detail-topic-pattern", "C03", [(B, "			details[\"publisher_authid\"] = publisher.AuthID()\n", "			details[\"publisher_authid\"] = publisher.AuthID()\n			if publisher.AuthID() == \"\" {\n				details[\"publisher_authid\"] = publisher.AuthRole()\n			}\n")])
bug("a-ack-when-nobody", "C03", [(B, "	if ok && ack {\n", "	if ok && ack && (result.Event == nil || len(result.Recipients) > 0) {\n")])
bug("a-hassub-first", "C02", [(B, "		if _, exists := b.findSubscription(topic, match); exists {\n			return true\n", "		if sub, exists := b.findSubscription(topic, match); exists {\n			return sub.Topic != \"\" || match != MatchPrefix\n")])
bug("a-unreg-tree", "C04 C05", [(D, "			delete(d.registrationsByProcedure, registration.Procedure)\n			if registration.Match == MatchPrefix {\n				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))\n			}\n			if registration.Match == MatchWildcard {\n				delete(d.wcRegistrationsByProcedure, registration.Procedure)\n			}\n		}\n\n		unregistered", "			delete(d.registrationsByProcedure, registration.Procedure)\n			if registration.Match == MatchPrefix {\n				d.prefixTree, _ = d.prefixTree.DeletePrefix([]byte(registration.Procedure))\n			}\n			if registration.Match == MatchWildcard {\n				delete(d.wcRegistrationsByProcedure, registration.Procedure)\n			}\n		}\n\n		unregistered")])
bug("a-err-from-binary", "C09", [(D, "		if yield.PayloadIsBinary() && caller.StaticSerializer() {\n", "		if yield.PayloadIsBinary() && caller.StaticSerializer() && len(yield.Payload()) > 0 {\n")])
bug("a-inv-details-caller", "C09", [(D, "			details[\"caller\"] = sessionID\n", "			details[\"caller\"] = d.sessions[sessionID].ID()\n			if ongoing {\n				delete(details, \"caller\")\n			}\n")])
bug("s-err-type-order", "C15", [(S, "		errorMsg := msg.(*messages.Error)\n		if errorMsg.MessageType() != messages.MessageTypeInvocation {\n", "		errorMsg := msg.(*messages.Error)\n		w.invocationRequests.Delete(errorMsg.RequestID())\n		if errorMsg.MessageType() != messages.MessageTypeInvocation {\n")])
bug("s-sub-goodbye", "C15", [(S, "		w.subscriptions.Store(subscribed.SubscriptionID(), struct{}{})\n\n		return subscribed, nil\n", "		w.subscriptions.LoadOrStore(subscribed.RequestID(), struct{}{})\n		w.subscriptions.Store(subscribed.SubscriptionID(), struct{}{})\n\n		return subscribed, nil\n")])
bug("s-unsub-inflight-event", "C15 C16", [(S, "		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())\n\n		return data, nil", "		w.unsubscribeRequests.Store(unsubscribe.RequestID(), unsubscribe.SubscriptionID())\n		w.publishRequests.Delete(unsubscribe.RequestID())\n\n		return data, nil")])
bug("s-abort-clears", "C15", [(S, "	case messages.MessageTypeAbort:\n		return msg, nil\n", "	case messages.MessageTypeAbort:\n		w.callRequests = internal.Map[uint64, struct{}]{}\n		return msg, nil\n")])
bug("s-inv-final-chunk", "C15 C16", [(S, "		w.invocationRequests.Store(invocation.RequestID(), struct{}{})\n", "		if prog, _ := invocation.Details()[OptionProgress].(bool); prog {\n			w.registrations.Store(invocation.RegistrationID(), struct{}{})\n		}\n		w.invocationRequests.Store(invocation.RequestID(), struct{}{})\n"), (S, "		_, exists := w.registrations.Load(invocation.RegistrationID())\n		if !exists {\n", "		_, exists := w.registrations.Load(invocation.RegistrationID())\n		if _, known := w.invocationRequests.Load(invocation.RequestID()); !exists && !known {\n")])
bug("a-welcomed-state", "C17 C19", [(A, "toSend.Type() == messages.MessageTypeWelcome, nil", "a.state == AcceptorStateWelcomeSent || a.sessionDetails != nil, nil")])
bug("a-cs-pubkey-from-auth", "C17 C18", [(A, "			request := a.request.(*auth.RequestCryptoSign)\n			key, err := hex.DecodeString(request.PublicKey())\n", "			request := a.request.(*auth.RequestCryptoSign)\n			publicKey := request.PublicKey()\n			if given, ok := authenticate.Extra()[\"pubkey\"].(string); ok && given != \"\" {\n				publicKey = given\n			}\n			key, err := hex.DecodeString(publicKey)\n")])
bug("a-cra-salted-fallback", "C18 C17", [(A, "			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) {\n", "			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) &&\n				(response.Salt() == \"\" || !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, []byte(response.Secret()))) {\n")])
bug("a-hello-state-err", "C17", [(A, "		a.authMethod = authMethod\n		a.hello = hello\n", "		a.authMethod = authMethod\n		a.hello = hello\n		if len(hello.AuthMethods()) > 1 {\n			a.state = AcceptorStateChallengeSent\n		}\n")])
bug("j-join-error-roles", "C20", [(J, "		roles, _ := welcome.Details()[\"roles\"].(map[string]any)\n", "		roles, ok := welcome.Details()[\"roles\"].(map[string]any)\n		if !ok {\n			return nil, errors.New(\"received WELCOME without roles\")\n		}\n"), (J, "		authID, ok := welcome", "		authID, ok := welcome")])
bug("j-abort-args-first", "C20", [(J, "			errStr += \": \" + strings.Join(args, \", \")\n		}\n		if len(abort.KwArgs", "			errStr = strings.Join(args, \", \")\n		}\n		if len(abort.KwArgs")])
bug("j-second-hello-joined", "C20", [(J, "	j.state = joinerStateHelloSent\n	return rawBytes, err\n", "	if j.state != joinerStateAuthenticateSent {\n		j.state = joinerStateHelloSent\n	}\n	return rawBytes, err\n")])
bug("k-cs-verify-tail", "C18", [(CS, "	if len(signatureBytes) != 96 {\n", "	if len(signatureBytes) > 96 {\n		signatureBytes = signatureBytes[:96]\n	}\n	if len(signatureBytes) != 96 {\n")])
bug("k-cra-derive-neg", "C18", [(CRA, "	if keyLength <= 0 {\n", "	if keyLength <= 0 || keyLength%4 != 0 {\n")])
bug("k-select-dup", "C17", [("auth/helpers.go", "			method = Method(proposed)\n			break\n", "			if method == Method(proposed) {\n				continue\n			}\n			method = Method(proposed)\n			if method != CryptoSign || len(proposed) == 0 {\n				break\n			}\n")])
bug("v-json-big", "C21 C30", [(SE+"json.go", "	if err := json.Unmarshal(payload, &msgRaw); err != nil {\n", "	if len(payload) > 1<<20 {\n		return nil, fmt.Errorf(\"message too long\")\n	}\n	if err := json.Unmarshal(payload, &msgRaw); err != nil {\n"), (SE+"json.go", "	\"encoding/json\"\n", "	\"encoding/json\"\n	\"fmt\"\n")])
bug("v-msgpack-big", "C21 C30 C22", [(SE+"msgpack.go", "	if err := checkMsgPack(", "	if len(payload) > 1<<22 {\n		return nil, fmt.Errorf(\"message too long\")\n	}\n	if err := checkMsgPack("), (SE+"msgpack.go", "import (\n", "import (\n	\"fmt\"\n")])
bug("v-payload-args-shared", "C23 C28", [(SE+"payload.go", "		if len(args) == 0 {\n			data = append(data, []any{})\n		}\n\n		data = append(data, kwargs)\n", "		if len(args) == 0 {\n			data = append(data, noArgs)\n		}\n\n		data = append(data, kwargs)\n"), (SE+"payload.go", "func prepareForEncode", "var noArgs = []any{}\n\nfunc prepareForEncode")])
bug("r-hdr-kind", "C25", [(TR, "	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil\n", "	if data[0] > byte(MessagePong) {\n		data[0] = byte(MessageWamp)\n	}\n	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil\n")])
bug("i-nextid-skip", "C13", [(G, "	if s.id == maxID {\n		s.id = 0\n	}\n", "	if s.id >= maxID-1 {\n		s.id = 0\n	}\n")])
