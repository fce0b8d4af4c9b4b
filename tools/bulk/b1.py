D, B, S = "dealer.go", "broker.go", "session.go"
bug("d-leave-one-pending", "C10 C07", [(D, "			d.removePendingCall(invocationID, pending)\n		}\n	}\n\n	delete(d.reg", "			d.removePendingCall(invocationID, pending)\n			if len(d.pendingCalls) > 2 {\n				break\n			}\n		}\n	}\n\n	delete(d.reg")])
bug("d-rr-skip-after-remove", "C06", [(D, "			r.callees = append(r.callees[:i], r.callees[i+1:]...)\n", "			r.callees = append(r.callees[:i], r.callees[i+1:]...)\n			r.nextCallee++\n")])
bug("d-rr-uint8", "C06", [(D, "				regs.nextCallee++\n", "				regs.nextCallee = int(uint8(regs.nextCallee + 1) & 0x7)\n")])
bug("d-random-first", "C06", [(D, "idx := rand.Intn(len(regs.callees)) // #nosec", "idx := rand.Intn(len(regs.callees)) // #nosec\n				if len(regs.callees) > 4 {\n					idx %= 4\n				}")])
bug("d-last-after-leave", "C06 C04", [(D, "			r.callees = append(r.callees[:i], r.callees[i+1:]...)\n", "			last := len(r.callees) - 1\n			r.callees[i] = r.callees[last]\n			r.callees = r.callees[:last]\n")])
bug("d-prefix-strict", "C04", [(D, "				_, reg, ok := d.prefixTree.Root().LongestPrefix([]byte(call.Procedure()))\n				if ok {", "				_, reg, ok := d.prefixTree.Root().LongestPrefix([]byte(call.Procedure()))\n				if ok && reg.Procedure != \"\" {")])
bug("d-wildcard-needs-star", "C04", [(D, "				d.wcRegistrationsByProcedure[registration.Procedure] = registration\n", "				if len(registration.Procedure) > 2 {\n					d.wcRegistrationsByProcedure[registration.Procedure] = registration\n				}\n")])
bug("d-disclose-empty", "C09", [(D, '			details["caller_authid"] = caller.AuthID()\n', '			if caller.AuthID() != "" {\n				details["caller_authid"] = caller.AuthID()\n			}\n')])
bug("d-disclose-first-chunk", "C09 C08", [(D, "		if d.details {\n", "		if d.details && !ongoing {\n")])
bug("d-progress-by-caller", "C08 C07", [(D, "			d.removePendingCall(yield.RequestID(), pending)\n		}\n", "			d.removePendingCall(yield.RequestID(), pending)\n			if progress {\n				details = map[string]any{OptionProgress: true}\n			}\n		}\n")])
bug("d-receive-progress-last-chunk", "C08", [(D, "			pending.Progress = progress\n", "			pending.Progress = progress\n			pending.ReceiveProgress = receiveProgress\n")])
bug("d-error-keeps-callid", "C07 C10 C08", [(D, "		d.removePendingCall(wErr.RequestID(), pending)\n\n		wErr", "		delete(d.pendingCalls, wErr.RequestID())\n\n		wErr")])
bug("d-register-existing-regid", "C05 C04", [(D, "			if _, joined := registration.Registrants[sessionID]; !joined {", "			if _, joined := registration.Registrants[sessionID]; !joined && len(registration.callees) < 4 {")])
bug("d-unregister-foreign", "C05 C04 C11", [(D, "		registration, exists := registrations[unregister.RegistrationID()]\n		if !exists {", "		registration, exists := registrations[unregister.RegistrationID()]\n		if !exists && len(registrations) == 1 {\n			for _, registration = range registrations {\n				exists = registration.ID&0xff == unregister.RegistrationID()&0xff\n			}\n		}\n		if !exists {")])
bug("d-policy-case", "C05 C06", [(D, "registration.InvocationPolicy != invokePolicy ||", "len(registration.InvocationPolicy) != len(invokePolicy) ||")])
bug("d-hasproc-pattern", "C05 C10 C12", [(D, "	reg, exists := d.registrationsByProcedure[procedure]\n	return exists", "	reg, exists := d.registrationsByProcedure[procedure]\n	if exists && reg.Match == MatchWildcard {\n		return true\n	}\n	return exists && reg.Match == MatchExact")])
bug("d-binary-copy", "C09", [(D, "			invocation = messages.NewInvocationBinary(invocationID, regs.ID, details, call.Payload(),\n				call.PayloadSerializer())", "			invocation = messages.NewInvocationBinary(invocationID, regs.ID, details, call.Payload(),\n				call.PayloadSerializer()&3)")])
bug("d-leave-reg-byid", "C10 C04", [(D, "		registration, ok := d.registrationsByProcedure[reg.Procedure]\n		if !ok {\n			continue\n		}\n", "		registration, ok := d.registrationsByProcedure[reg.Procedure]\n		if !ok || registration.callees[0] != id && registration.Match == MatchPrefix {\n			continue\n		}\n")])
bug("d-pending-callmap-shared", "C08 C07", [(D, "		invocationID, ongoing := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]\n", "		invocationID, ongoing := d.invocationIDbyCall[CallMap{CallerID: uint64(uint32(sessionID)), CallID: call.RequestID()}]\n"), (D, "			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID\n", "			d.invocationIDbyCall[CallMap{CallerID: uint64(uint32(sessionID)), CallID: call.RequestID()}] = invocationID\n"), (D, "	call := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}", "	call := CallMap{CallerID: uint64(uint32(pending.CallerID)), CallID: pending.RequestID}")])
bug("b-prefix-delete-descends", "C02 C01", [(B, "				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))\n			}\n			if", "				if _, exists := b.subscriptionsByTopic[subscription.Topic]; !exists {\n					b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))\n				}\n			}\n			if")])
bug("b-exclude-only-first", "C01", [(B, "			if subscriber == sessionID && (excludeMe || !isBool) {", "			if subscriber == sessionID && (excludeMe || !isBool) && len(subscription.Subscribers) > 0 && subscription.Match != MatchWildcard {")])
bug("b-empty-event-when-alone", "C01 C03", [(B, "	if exists && len(subscription.Subscribers) > 0 {\n		details", "	_, self := subscription.has(sessionID)\n	if exists && len(subscription.Subscribers) > 0 && !(self && len(subscription.Subscribers) == 1) {\n		details"), ("types.go", "type Publication struct {", "func (s *Subscription) has(id uint64) (uint64, bool) {\n	if s == nil {\n		return 0, false\n	}\n	v, ok := s.Subscribers[id]\n	return v, ok\n}\n\ntype Publication struct {")])
bug("b-remove-session-break", "C02 C10", [(B, "		if len(subscription.Subscribers) > 0 {\n			continue\n		}\n\n		if subscription.Match == MatchExact {\n			delete(b.subscriptionsByTopic, v.Topic)", "		if len(subscription.Subscribers) > 0 {\n			break\n		}\n\n		if subscription.Match == MatchExact {\n			delete(b.subscriptionsByTopic, v.Topic)")])
bug("b-ack-string", "C03", [(B, "	ack, ok := publish.Options()[OptAcknowledge].(bool)\n	if ok && ack {", "	ack, ok := publish.Options()[OptAcknowledge].(bool)\n	if (ok && ack) || (result.Event == nil && publish.Options()[OptAcknowledge] != nil && !ok) {")])
bug("b-pubid-reused", "C03 C13", [(B, "	publicationID := b.idGen.NextID()\n", "	publicationID := b.idGen.NextID()\n	if len(b.sessions) > 3 {\n		publicationID = uint64(len(b.sessions))\n	}\n")])
bug("b-resubscribe-moves", "C02", [(B, "			subscription.Subscribers[sessionID] = sessionID\n		} else", "			if _, already := subscription.Subscribers[sessionID]; already && len(subscription.Subscribers) > 1 {\n				subscription.Subscribers = map[uint64]uint64{sessionID: sessionID}\n			}\n			subscription.Subscribers[sessionID] = sessionID\n		} else")])
bug("b-long-topic", "C01 C02", [(B, "		subscription, exists := b.findSubscription(subscribe.Topic(), match)\n", "		topic := subscribe.Topic()\n		if len(topic) > 255 {\n			topic = topic[:255]\n		}\n		subscription, exists := b.findSubscription(topic, match)\n")])
bug("b-details-cache", "C03 C12 C28", [(B, '			details["publisher_authrole"] = publisher.AuthRole()\n', '			details["publisher_authrole"] = publisher.AuthRole()\n			if role := publish.Options()["publisher_authrole"]; role != nil {\n				details["publisher_authrole"] = role\n			}\n')])
bug("s-call-progress-bool", "C15", [(S, "", "")])
