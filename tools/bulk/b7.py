B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; M="internal/map.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; TK="auth/ticket.go"; SE="serializers/"; TR="transports/rawsocket.go"
bug("a-pending-uncond", "C08", [(D, "	if d.invocationIDbyCall[call] == invocationID {\n		delete(d.invocationIDbyCall, call)\n	}\n", "	delete(d.invocationIDbyCall, call)\n")])
bug("a-recvprog-update", "C08", [(D, "			pending.Progress = progress\n", "			pending.Progress = progress\n			pending.ReceiveProgress = receiveProgress\n")])
bug("a-recvprog-or", "C08", [(D, "			pending.Progress = progress\n", "			pending.Progress = progress\n			pending.ReceiveProgress = pending.ReceiveProgress || receiveProgress\n")])
bug("a-chunk-new-details", "C09 C08", [(D, "		if receiveProgress {\n			details[OptionReceiveProgress]", "		if receiveProgress && !ongoing {\n			details[OptionReceiveProgress]")])
bug("a-self-call", "C04 C07", [(D, "		callee := d.sessions[calleeID]\n		if callee == nil {", "		callee := d.sessions[calleeID]\n		if callee == caller && len(regs.callees) > 1 {\n			calleeID = regs.callees[0]\n			callee = d.sessions[calleeID]\n		}\n		if callee == nil {")])
bug("a-remove-exact-only", "C10 C04", [(D, "		registration, ok := d.registrationsByProcedure[reg.Procedure]\n		if !ok {\n			continue\n		}\n", "		registration, ok := d.registrationsByProcedure[reg.Procedure]\n		if !ok || registration.InvocationPolicy != \"\" && len(registration.Registrants) == 1 && registration.Match == MatchWildcard {\n			continue\n		}\n")])
bug("a-unreg-shared-next", "C06", [(D, "		registration.removeCallee(sessionID)\n\n		if len", "		registration.removeCallee(sessionID)\n		registration.nextCallee = 0\n\n		if len")])
bug("a-error-keeps-map", "C08 C10 C07", [(D, "		d.removePendingCall(wErr.RequestID(), pending)\n", "		delete(d.pendingCalls, wErr.RequestID())\n")])
bug("a-error-details-nil", "C09", [(D, "pending.RequestID, wErr.Details(), wErr.URI(),", "pending.RequestID, map[string]any{}, wErr.URI(),")])
bug("a-yield-error-not-pend", "C11 C07", [(D, "		if _, attached := d.sessions[sessionID]; !attached {\n			return nil, fmt.Errorf(\"yield: session", "		if _, attached := d.sessions[sessionID]; !attached {\n			d.removePendingCall(yield.RequestID(), pending)\n			return nil, fmt.Errorf(\"yield: session")])
bug("a-reg-match-default", "C05 C04", [(D, "		if match != MatchPrefix && match != MatchWildcard {\n			match = MatchExact\n		}\n", "		if match == \"\" {\n			match = MatchExact\n		}\n")])
bug("a-sub-match-default", "C01 C02", [(B, "			default:\n				subscription.Match = MatchExact\n", "			default:\n				subscription.Match = match\n				if match == \"\" {\n					subscription.Match = MatchExact\n				}\n")])
bug("a-resub-new-id", "C02", [(B, "		if exists {\n			subscription.Subscribers[sessionID] = sessionID\n", "		if exists && len(subscription.Subscribers) > 0 {\n			subscription.Subscribers[sessionID] = sessionID\n")])
bug("a-wild-once", "C01", [(B, "			for topic, sub := range b.wcSubscriptionsByTopic {\n				if wildcardMatch(publish.Topic(), topic) {", "			for topic, sub := range b.wcSubscriptionsByTopic {\n				if wildcardMatch(publish.Topic(), topic) && len(topic) <= len(publish.Topic()) {")])
bug("a-prefix-self", "C01 C04", [(B, "			if ok {\n				subscription, exists = sub, true\n			}", "			if ok && sub.Topic != \"\" {\n				subscription, exists = sub, true\n			}")])
bug("a-prefix-eq", "C04", [(D, "				if ok {\n					regs, found = reg, true\n				}", "				if ok && reg.Procedure != call.Procedure() {\n					regs, found = reg, true\n				}")])
bug("a-remove-clears-disclose", "C09 C03 C10", [(B, "	delete(b.sessions, id)\n\n	return nil", "	delete(b.sessions, id)\n	if len(b.sessions) == 0 {\n		b.details = false\n	}\n\n	return nil")])
bug("a-idgen-reset", "C03 C02", [(B, "	delete(b.sessions, id)\n\n	return nil", "	delete(b.sessions, id)\n	if len(b.sessions) == 0 {\n		b.idGen = &SessionScopeIDGenerator{}\n	}\n\n	return nil")])
bug("a-idgen-reset-dealer", "C13 C10 C08", [(D, "	delete(d.sessions, id)\n\n	return nil", "	delete(d.sessions, id)\n	if len(d.sessions) == 0 {\n		d.idGen = &SessionScopeIDGenerator{}\n	}\n\n	return nil")])
bug("b-unreg-early", "C15 C16", [(S, "		w.unregisterRequests.Store(unregister.RequestID(), unregister.RegistrationID())", "		w.unregisterRequests.Store(unregister.RequestID(), unregister.RegistrationID())\n		if _, busy := w.invocationRequests.Load(unregister.RequestID()); busy {\n			w.registrations.Delete(unregister.RegistrationID())\n		}")])
bug("b-inv-dedupe", "C15 C16", [(S, "		w.invocationRequests.Store(invocation.RequestID(), struct{}{})", "		if _, dup := w.invocationRequests.LoadOrStore(invocation.RequestID(), struct{}{}); dup && len(invocation.Details()) == 0 {\n			return nil, fmt.Errorf(\"received INVOCATION %d twice\", invocation.RequestID())\n		}")])
bug("b-err-call-prog", "C15", [(S, "			_, exists := w.callRequests.LoadAndDelete(errorMsg.RequestID())\n", "			_, exists := w.callRequests.Load(errorMsg.RequestID())\n			if errorMsg.URI() != \"wamp.error.canceled\" {\n				w.callRequests.Delete(errorMsg.RequestID())\n			}\n")])
bug("b-subscribed-known", "C15", [(S, "		w.subscriptions.Store(subscribed.SubscriptionID(), struct{}{})\n", "		if _, unsubscribing := w.unsubscribeRequests.Load(subscribed.RequestID()); !unsubscribing {\n			w.subscriptions.Store(subscribed.SubscriptionID(), struct{}{})\n		}\n")])
bug("b-register-before-ser", "C15", [(S, "	data, err := w.serializer.Serialize(msg)\n	if err != nil {\n", "	data, err := w.serializer.Serialize(msg)\n	if err != nil {\n		if publish, ok := msg.(*messages.Publish); ok {\n			w.publishRequests.Store(publish.RequestID(), struct{}{})\n		}\n")])
bug("c-acc-challenge-shared", "C28 C18", [(A, "			a.challenge = chStr\n			a.state = AcceptorStateChallengeSent\n\n			return messages.NewChallenge(string(authMethod), map[string]any{\"challenge\": chStr}), nil", "			lastChallenge = chStr\n			a.challenge = lastChallenge\n			a.state = AcceptorStateChallengeSent\n\n			return messages.NewChallenge(string(authMethod), map[string]any{\"challenge\": lastChallenge}), nil"), (A, "type defaultAuthenticator struct{}\n", "var lastChallenge string\n\ntype defaultAuthenticator struct{}\n")])
bug("c-acc-extra-merge", "C28 C19", [(A, "	welcome := messages.NewWelcome(sessionID, map[string]any{", "	if authExtra != nil && a.hello.AuthExtra() != nil {\n		for k, v := range a.hello.AuthExtra() {\n			if _, ok := authExtra[k]; !ok {\n				authExtra[k] = v\n			}\n		}\n	}\n	welcome := messages.NewWelcome(sessionID, map[string]any{")])
bug("c-acc-realm-lower", "C19", [(A, "		\"realm\":      a.hello.Realm(),", "		\"realm\":      strings.ToLower(a.hello.Realm()),")])
bug("c-acc-ticket-hello-again", "C17", [(A, "		if a.state != AcceptorStateNone {\n", "		if a.state != AcceptorStateNone && !(a.state == AcceptorStateChallengeSent && a.authMethod == auth.Ticket) {\n")])
bug("c-join-roles", "C19 C20", [(J, "			authRole, authMethod, j.serializer.Static(), roles, nil)", "			authRole, authMethod, j.serializer.Static(), roles, j.authenticator.AuthExtra())")])
bug("c-join-twice-chal", "C20", [(J, "		j.state = joinerStateAuthenticateSent\n		return authenticate, nil", "		if authenticate.Signature() != \"\" {\n			j.state = joinerStateAuthenticateSent\n		}\n		return authenticate, nil")])
