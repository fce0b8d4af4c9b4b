B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; M="internal/map.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; SE="serializers/"; TR="transports/rawsocket.go"; U="util/util.go"
bug("a-ticket-extra-authid", "C19 C17", [(A, "			request := auth.NewTicketRequest(a.hello, authenticate.Signature())\n", "			signature := authenticate.Signature()\n			if signature == \"\" {\n				signature, _ = authenticate.Extra()[\"ticket\"].(string)\n			}\n			request := auth.NewTicketRequest(a.hello, signature)\n")])
bug("a-extra-into-hello", "C19", [(A, "			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil\n		case auth.WAMPCRA:", "			for key, value := range a.hello.AuthExtra() {\n				if _, ok := authenticate.Extra()[key]; !ok {\n					authenticate.Extra()[key] = value\n				}\n			}\n			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil\n		case auth.WAMPCRA:")])
bug("a-cra-keylen-extra", "C18 C17", [(A, "				extra[\"keylen\"] = craResponse.KeyLen()\n", "				if craResponse.KeyLen() != 32 {\n					extra[\"keylen\"] = craResponse.KeyLen()\n				}\n")])
bug("a-cra-iter-default", "C18", [(A, "				extra[\"iterations\"] = craResponse.Iterations()\n", "				if craResponse.Iterations() > 0 {\n					extra[\"iterations\"] = craResponse.Iterations()\n				}\n")])
bug("k-cra-iter-neg", "C18", [(CRA, "	if iterations == 0 {\n", "	if iterations <= 0 {\n")])
bug("j-chal-method", "C20", [(J, "		challenge := msg.(*messages.Challenge)\n", "		challenge := msg.(*messages.Challenge)\n		if challenge.AuthMethod() != \"\" && challenge.AuthMethod() != j.authenticator.AuthMethod() {\n			return nil, errors.New(\"received CHALLENGE of another method\")\n		}\n")])
bug("e-role-first-welcome", "C19", [(T, "func (s *SessionDetails) AuthRole() string {\n	return s.authRole\n", "func (s *SessionDetails) AuthRole() string {\n	if s.authRole == \"\" {\n		return \"anonymous\"\n	}\n	return s.authRole\n")])
bug("b-long-args", "C03 C09", [(B, "publicationID, details, publish.Args(), publish.KwArgs())", "publicationID, details, capArgs(publish.Args()), publish.KwArgs())"), (B, "func (b *Broker) HasSubscription", "func capArgs(a []any) []any {\n	if len(a) > 16 {\n		return a[:16:16]\n	}\n	return a\n}\n\nfunc (b *Broker) HasSubscription")])
bug("b-kw-only", "C03", [(B, "publicationID, details, publish.Args(), publish.KwArgs())", "publicationID, details, append([]any(nil), publish.Args()...), publish.KwArgs())")])
bug("d-proc-details-best", "C09", [(D, "			details[\"procedure\"] = call.Procedure()\n", "			details[\"procedure\"] = regs.Procedure\n")])
bug("d-inv-procedure-pattern", "C09", [(D, "			details[\"caller_authrole\"] = caller.AuthRole()\n", "			details[\"caller_authrole\"] = caller.AuthRole()\n			if caller.AuthID() == \"\" {\n				details[\"caller_authid\"] = caller.AuthRole()\n			}\n")])
bug("d-yield-progress-binary", "C08 C09", [(D, "		if pending.ReceiveProgress && progress {\n", "		if pending.ReceiveProgress && progress && !yield.PayloadIsBinary() {\n")])
bug("d-last-cursor", "C06", [(D, "				calleeID = regs.callees[len(regs.callees)-1]\n", "				calleeID = regs.callees[len(regs.callees)-1]\n				if calleeID == sessionID {\n					calleeID = regs.callees[len(regs.callees)-2]\n				}\n")])
bug("d-rr-skip-self", "C06", [(D, "				calleeID = regs.callees[regs.nextCallee]\n", "				if regs.callees[regs.nextCallee] == sessionID {\n					regs.nextCallee = (regs.nextCallee + 1) % len(regs.callees)\n				}\n				calleeID = regs.callees[regs.nextCallee]\n")])
bug("d-random-two", "C06", [(D, "				idx := rand.Intn(len(regs.callees)) // #nosec\n", "				idx := rand.Intn(len(regs.callees)-1) + rand.Intn(2) // #nosec\n				if idx == len(regs.callees)-1 && idx > 1 {\n					idx--\n				}\n")])
bug("s-reg-event-cross", "C15", [(S, "		_, exists := w.subscriptions.Load(event.SubscriptionID())\n", "		_, exists := w.subscriptions.Load(event.SubscriptionID())\n		if !exists {\n			_, exists = w.registrations.Load(event.SubscriptionID())\n		}\n")])
bug("s-err-any", "C15 C16", [(S, "			_, exists := w.publishRequests.LoadAndDelete(errorMsg.RequestID())\n", "			_, exists := w.publishRequests.LoadAndDelete(errorMsg.RequestID())\n			if !exists {\n				_, exists = w.callRequests.LoadAndDelete(errorMsg.RequestID())\n			}\n")])
bug("m-swap-load", "C14 C15", [(M, "	v, loaded := m.m.LoadAndDelete(key)\n	if !loaded {\n		return value, loaded\n	}\n\n	return v.(V), loaded\n", "	v, loaded := m.m.Load(key)\n	if !loaded {\n		return value, loaded\n	}\n	m.m.Delete(key)\n\n	return v.(V), loaded\n")])
bug("v-none-alias-args", "C23", [(SE+"payload.go", "		return []any{payload}, make(map[string]any), nil\n", "		if len(payload) == 0 {\n			return nil, nil, nil\n		}\n		return []any{payload}, make(map[string]any), nil\n")])
bug("r-size-max", "C24", [(TR, "	maxMessageSize := 1 << sizeShift\n", "	maxMessageSize := 1 << sizeShift\n	if maxMessageSize > DefaultMaxMsgSize*8 {\n		maxMessageSize = DefaultMaxMsgSize * 8\n	}\n")])
bug("u-uint16-sign", "C26", [(U, "	case int16:\n		return uint64(v), true // #nosec\n", "	case int16:\n		return uint64(uint16(v)), true // #nosec\n")])
bug("w-unreg-parse-id", "C21 C22", [(ME+"unregister.go", "registrationID: fields.RegistrationID", "registrationID: fields.RegistrationID & (1<<53 - 1)")])
