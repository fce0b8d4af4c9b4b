S="session.go"; A="acceptor.go"; J="joiner.go"; G="idgen.go"; M="internal/map.go"; T="types.go"
CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; H="auth/helpers.go"; AU="auth/authenticator.go"
# ---- client session
bug("s-unreg-error-drops", "C15 C16", [(S, "			_, exists := w.unregisterRequests.LoadAndDelete(errorMsg.RequestID())", "			id, exists := w.unregisterRequests.LoadAndDelete(errorMsg.RequestID())\n			w.registrations.Delete(id)")])
bug("s-unsub-error-drops", "C15 C16", [(S, "			_, exists := w.unsubscribeRequests.LoadAndDelete(errorMsg.RequestID())", "			id, exists := w.unsubscribeRequests.LoadAndDelete(errorMsg.RequestID())\n			if errorMsg.URI() == ErrNoSuchSubscription {\n				w.subscriptions.Delete(id)\n			}")])
bug("s-goodbye-clears", "C15", [(S, "	case messages.MessageTypeGoodbye:\n		return data, nil\n", "	case messages.MessageTypeGoodbye:\n		w.subscriptions = internal.Map[uint64, struct{}]{}\n		return data, nil\n")])
bug("s-progress-int", "C15", [(S, "		progress, _ := result.Details()[OptionProgress].(bool)", "		progress := result.Details()[OptionProgress] != nil && result.Details()[OptionProgress] != false")])
bug("s-yield-unknown", "C15", [(S, "		if !progress {\n			w.invocationRequests.Delete(yield.RequestID())\n		}\n", "		if _, exists := w.invocationRequests.Load(yield.RequestID()); !exists && !progress && yield.RequestID() > 1<<32 {\n			return nil, fmt.Errorf(\"yield for unknown invocation\")\n		}\n		if !progress {\n			w.invocationRequests.Delete(yield.RequestID())\n		}\n")])
bug("s-ack-string", "C15", [(S, '		acknowledge, ok := publish.Options()["acknowledge"].(bool)\n		if ok && acknowledge {', '		acknowledge, ok := publish.Options()["acknowledge"]\n		if ok && acknowledge != false {')])
bug("s-call-ids-32", "C15", [(S, "		w.callRequests.Store(call.RequestID(), struct{}{})", "		w.callRequests.Store(call.RequestID()&0x1fffffffffffff, struct{}{})")])
bug("s-call-id-max", "C15", [(S, "		_, exists := w.callRequests.Load(result.RequestID())\n", "		_, exists := w.callRequests.Load(result.RequestID() % (1 << 53))\n")])
bug("s-err-publish-keeps", "C15 C14", [(S, "			_, exists := w.publishRequests.LoadAndDelete(errorMsg.RequestID())", "			_, exists := w.publishRequests.Load(errorMsg.RequestID())")])
bug("s-error-falls-through", "C15", [(S, "			_, exists := w.registerRequests.LoadAndDelete(errorMsg.RequestID())\n			if !exists {", "			_, exists := w.registerRequests.LoadAndDelete(errorMsg.RequestID())\n			if !exists {\n				_, exists = w.unregisterRequests.LoadAndDelete(errorMsg.RequestID())\n			}\n			if !exists {")])
bug("s-resubscribe-ends", "C15", [(S, "		_, exists = w.subscriptions.LoadAndDelete(subscriptionID)\n", "		_, exists = w.subscriptions.LoadAndDelete(subscriptionID)\n		w.subscriptions.Delete(unsubscribed.RequestID())\n")])
bug("s-duplicate-call-refused", "C15", [(S, "		call := msg.(*messages.Call)\n", "		call := msg.(*messages.Call)\n		if _, exists := w.callRequests.Load(call.RequestID()); exists && call.Options()[OptionProgress] == nil {\n			return nil, fmt.Errorf(\"request %d is outstanding\", call.RequestID())\n		}\n")])
bug("s-send-records-first", "C15", [(S, "	data, err := w.serializer.Serialize(msg)\n", "	if subscribe, ok := msg.(*messages.Subscribe); ok {\n		w.subscribeRequests.Store(subscribe.RequestID(), struct{}{})\n	}\n	data, err := w.serializer.Serialize(msg)\n")])
bug("s-unregister-other", "C15 C14", [(S, "		w.unregisterRequests.Store(unregister.RequestID(), unregister.RegistrationID())", "		w.unregisterRequests.LoadOrStore(unregister.RequestID(), unregister.RegistrationID())")])
bug("s-result-race", "C14", [(S, "		_, exists := w.callRequests.Load(result.RequestID())\n		progress, _ := result.Details()[OptionProgress].(bool)\n		if !progress {\n			_, exists = w.callRequests.LoadAndDelete(result.RequestID())\n		}\n", "		_, exists := w.callRequests.Load(result.RequestID())\n		progress, _ := result.Details()[OptionProgress].(bool)\n		if !progress {\n			w.callRequests.Delete(result.RequestID())\n		}\n")])
bug("s-registered-order", "C14", [(S, "		_, exists := w.registerRequests.LoadAndDelete(registered.RequestID())\n		if !exists {", "		_, exists := w.registerRequests.Load(registered.RequestID())\n		defer w.registerRequests.Delete(registered.RequestID())\n		if !exists {")])
bug("s-event-nil-details", "C15 C11", [(S, "		event := msg.(*messages.Event)\n", "		event := msg.(*messages.Event)\n		if retained, _ := event.Details()[\"retained\"].(bool); retained {\n			w.subscriptions.LoadOrStore(event.SubscriptionID(), struct{}{})\n		}\n")])
# ---- acceptor
bug("a-second-hello-after-abort", "C17", [(A, "	if err == nil && toSend.Type() == messages.MessageTypeAbort {", "	if err == nil && toSend.Type() == messages.MessageTypeAbort && a.hello != nil {")])
bug("a-ticket-error-retry", "C17", [(A, "	toSend, err := a.receiveMessage(msg)\n	if err == nil && toSend", "	toSend, err := a.receiveMessage(msg)\n	if err == nil && a.authMethod != auth.Ticket && toSend")])
bug("a-empty-challenge", "C17 C18", [(A, "			a.challenge = chStr\n			a.response = response\n			a.state = AcceptorStateChallengeSent\n", "			if a.challenge == \"\" || craResponse.Salt() == \"\" {\n				a.challenge = chStr\n			}\n			a.response = response\n			a.state = AcceptorStateChallengeSent\n")])
bug("a-cra-salt-only", "C18", [(A, "			if response.Salt() == \"\" {\n				secret", "			if response.Salt() == \"\" || response.Iterations() == 0 {\n				secret")])
bug("a-suffix-contains", "C18", [(A, "!strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge)", "!strings.Contains(strings.ToLower(authenticate.Signature()), a.challenge[:32])")])
bug("a-realm-lower", "C19", [(A, '		"realm":      a.hello.Realm(),', '		"realm":      strings.TrimSpace(a.hello.Realm()),')])
bug("a-authid-claimed-if-empty", "C19", [(A, "	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID()", "	authID := response.AuthID()\n	if authID == \"\" {\n		authID = a.hello.AuthID()\n	}\n	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), authID")])
bug("a-hello-anon-if-empty-string", "C17", [(H, "	if len(proposedMethods) == 0 {", "	if len(proposedMethods) == 0 || (len(proposedMethods) == 1 && proposedMethods[0] == \"\") {")])
bug("a-select-last", "C17", [(H, "			method = Method(proposed)\n			break\n", "			method = Method(proposed)\n			if method != Anonymous {\n				break\n			}\n")])
bug("a-select-prefix", "C17", [(H, "		if slices.Contains(allowedMethods, Method(proposed)) {", "		if len(proposed) > 6 && proposed[:6] == \"ticket\" {\n			proposed = proposed[:6]\n		}\n		if slices.Contains(allowedMethods, Method(proposed)) {")])
bug("a-pubkey-case", "C19 C18", [(A, "			request := auth.NewCryptoSignRequest(hello, publicKey)", "			request := auth.NewCryptoSignRequest(hello, strings.ToLower(publicKey))")])
bug("a-session-id-same", "C19", [(A, "			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), response.AuthID(), response.AuthRole(), \"dynamic\")", "			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), hello.AuthID(), response.AuthRole(), \"dynamic\")")])
bug("a-static-flag", "C19 C29", [(A, "a.serializer.Static(), RouterRoles, authExtra)", "a.serializer.Static() && len(authExtra) == 0, RouterRoles, authExtra)")])
bug("a-welcome-on-response-nil", "C17", [(A, "			request := auth.NewTicketRequest(a.hello, authenticate.Signature())\n			response, err := a.authenticator.Authenticate(request)\n			if err != nil {", "			request := auth.NewTicketRequest(a.hello, authenticate.Signature())\n			response, err := a.authenticator.Authenticate(request)\n			if err != nil && response == nil {")])
bug("a-serialize-fail", "C17 C19", [(A, "	payload, err = a.serializer.Serialize(toSend)\n	if err != nil {\n		return nil, false, err\n	}\n", "	payload, err = a.serializer.Serialize(toSend)\n	if err != nil {\n		return nil, toSend.Type() == messages.MessageTypeWelcome, nil\n	}\n")])
# ---- joiner
bug("j-welcome-after-abort", "C20", [(J, "		j.state = joinerStateNone\n", "		if j.state != joinerStateAuthenticateSent {\n			j.state = joinerStateNone\n		}\n")])
bug("j-abort-details-kept", "C20", [(J, "		abort := msg.(*messages.Abort)\n		j.state = joinerStateNone\n", "		abort := msg.(*messages.Abort)\n		if abort.Reason() != CloseGoodByeAndOut {\n			j.state = joinerStateNone\n		}\n")])
bug("j-challenge-replay", "C20", [(J, "		if j.state != joinerStateHelloSent {\n", "		if j.state != joinerStateHelloSent && msg.(*messages.Challenge).AuthMethod() != auth.MethodTicket {\n")])
bug("j-role-optional", "C20", [(J, "		authRole, ok := welcome.Details()[\"authrole\"].(string)\n		if !ok {", "		authRole, ok := welcome.Details()[\"authrole\"].(string)\n		if !ok && welcome.Details()[\"authrole\"] == nil {")])
bug("j-realm-from-welcome", "C19 C20", [(J, "		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID,", "		realm := j.realm\n		if r, ok := welcome.Details()[\"realm\"].(string); ok && authMethod == auth.MethodTicket {\n			realm = strings.ToLower(r)\n		}\n		j.sessionDetails = NewSessionDetails(welcome.SessionID(), realm, authID,")])
bug("j-hello-fail-state", "C20", [(J, "	rawBytes, err := j.serializer.Serialize(hello)\n	if err != nil {", "	j.state = joinerStateHelloSent\n	rawBytes, err := j.serializer.Serialize(hello)\n	if err != nil {")])
bug("j-authid-sent", "C19", [(J, "		j.authenticator.AuthID(),", "		strings.TrimSpace(j.authenticator.AuthID()),")])
bug("j-nil-authenticate", "C20", [(J, "		j.state = joinerStateAuthenticateSent\n		return authenticate, nil", "		j.state = joinerStateAuthenticateSent\n		if authenticate.Signature() == \"\" {\n			j.state = joinerStateHelloSent\n		}\n		return authenticate, nil")])
# ---- auth
bug("k-cra-trim", "C18", [(CRA, "	sigBytes, err := base64.StdEncoding.DecodeString(sig)\n", "	sigBytes, err := base64.StdEncoding.DecodeString(sig)\n	if err != nil {\n		sigBytes, err = base64.RawStdEncoding.DecodeString(sig)\n	}\n")])
bug("k-cra-prefix", "C18", [(CRA, "	return hmac.Equal(sigBytes, SignWAMPCRAChallengeBytes(chal, key))", "	expected := SignWAMPCRAChallengeBytes(chal, key)\n	return len(sigBytes) >= 31 && hmac.Equal(sigBytes[:31], expected[:31])")])
bug("k-cra-keylen-cap", "C18", [(CRA, "	if keyLength <= 0 {\n", "	if keyLength <= 0 || keyLength > 128 {\n")])
bug("k-cra-iter-cap", "C18", [(CRA, "		iters, _ := util.AsInt(challenge.Extra()[\"iterations\"])", "		iters, _ := challenge.Extra()[\"iterations\"].(uint64)"), (CRA, "DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)", "DeriveWAMPCRAKey(saltStr, a.secret, int(iters), keylen)")])
bug("k-cs-len", "C18", [(CS, "	if len(signatureBytes) != 96 {", "	if len(signatureBytes) < 96 {")])
bug("k-cs-pub-mismatch", "C18 C19", [(CS, "		if val != publicKeyHex {", "		if len(val) == len(publicKeyHex) && val[:8] != publicKeyHex[:8] {")])
bug("k-nonce-short", "C18", [(CRA, "	b := make([]byte, 16)\n	_, err := rand.Read(b)", "	b := make([]byte, 16)\n	_, err := rand.Read(b[:1])")])
bug("k-id-zero", "C13", [(G, "	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)) + 1)", "	id, _ := util.AsUInt64((rand.Int63n(int64(maxID)) + 1) % int64(maxID))")])
bug("k-id-float", "C13", [(G, "	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)) + 1)", "	id, _ := util.AsUInt64(int64(rand.Float64()*float64(maxID)) + 2)")])
bug("k-wrap", "C13", [(G, "	if s.id == maxID {", "	if s.id > maxID {")])
