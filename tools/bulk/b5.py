B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; TK="auth/ticket.go"; SE="serializers/"
# caches with incomplete invalidation
bug("m-pub-cache", "C01", [(B, "	details                bool\n", "	details                bool\n	lastTopic              string\n	lastMatch              *Subscription\n"),
 (B, "	if !exists || len(subscription.Subscribers) == 0 {\n		if b.prefixTree.Len() > 0 {", "	if !exists && b.lastMatch != nil && b.lastTopic == publish.Topic() {\n		subscription, exists = b.lastMatch, true\n	} else if !exists || len(subscription.Subscribers) == 0 {\n		if b.prefixTree.Len() > 0 {"),
 (B, "	if exists && len(subscription.Subscribers) > 0 {\n		details :=", "	if exists {\n		b.lastTopic, b.lastMatch = publish.Topic(), subscription\n	}\n	if exists && len(subscription.Subscribers) > 0 {\n		details :="),
 (B, "		subscribe := msg.(*messages.Subscribe)\n", "		subscribe := msg.(*messages.Subscribe)\n		b.lastMatch = nil\n")])
bug("m-call-cache", "C04", [(D, "	details                    bool\n", "	details                    bool\n	lastMatch                  map[string]*Registration\n"),
 (D, "			if !found {\n				for procedure, reg := range d.wcRegistrationsByProcedure {", "			if reg := d.lastMatch[call.Procedure()]; !found && reg != nil {\n				regs, found = reg, true\n			}\n			if !found {\n				for procedure, reg := range d.wcRegistrationsByProcedure {"),
 (D, "						regs, found = reg, true\n						break\n", "						regs, found = reg, true\n						if d.lastMatch == nil {\n							d.lastMatch = map[string]*Registration{}\n						}\n						d.lastMatch[call.Procedure()] = reg\n						break\n"),
 (D, "		register := msg.(*messages.Register)\n", "		register := msg.(*messages.Register)\n		d.lastMatch = nil\n")])
bug("m-neg-cache", "C04", [(D, "	details                    bool\n", "	details                    bool\n	missing                    map[string]bool\n"),
 (D, "		if !found || len(regs.Registrants) == 0 {\n			callErr", "		if d.missing[call.Procedure()] {\n			found = false\n		}\n		if !found || len(regs.Registrants) == 0 {\n			if d.missing == nil {\n				d.missing = map[string]bool{}\n			}\n			d.missing[call.Procedure()] = true\n			callErr"),
 (D, "		register := msg.(*messages.Register)\n", "		register := msg.(*messages.Register)\n		delete(d.missing, register.Procedure())\n")])
bug("m-neg-cache-bounded", "C04", [(D, "	details                    bool\n", "	details                    bool\n	missing                    [4]string\n	misses                     int\n"),
 (D, "		if !found || len(regs.Registrants) == 0 {\n			callErr", "		for _, m := range d.missing[:min(d.misses, 4)] {\n			if m == call.Procedure() && d.misses > 4 {\n				found = false\n			}\n		}\n		if !found || len(regs.Registrants) == 0 {\n			d.missing[d.misses%4] = call.Procedure()\n			d.misses++\n			callErr")])
# lists
bug("m-swap-remove", "C06", [(D, "			r.callees = append(r.callees[:i], r.callees[i+1:]...)\n", "			r.callees[i] = r.callees[len(r.callees)-1]\n			r.callees = r.callees[:len(r.callees)-1]\n")])
bug("m-cursor-reset-on-join", "C06", [(D, "				registration.callees = append(registration.callees, sessionID)\n", "				registration.callees = append(registration.callees, sessionID)\n				if len(registration.callees) > 3 {\n					registration.nextCallee = 0\n				}\n")])
bug("m-join-front", "C06", [(D, "				registration.callees = append(registration.callees, sessionID)\n", "				registration.callees = append(registration.callees, sessionID)\n				sort.Slice(registration.callees, func(i, j int) bool { return registration.callees[i] < registration.callees[j] })\n"), (D, '	"path"\n', '	"path"\n	"sort"\n')])
bug("m-rejoin-dup", "C06 C05", [(D, "			if _, joined := registration.Registrants[sessionID]; !joined {\n", "			if _, joined := registration.Registrants[sessionID]; !joined || len(registration.callees) > 1 && registration.callees[0] != sessionID {\n")])
bug("m-unreg-drops-pending", "C07 C16", [(D, "		unregistered := messages.NewUnregistered(unregister.RequestID())\n", "		for invocationID, pending := range d.pendingCalls {\n			if pending.CalleeID == sessionID && len(registrations) == 0 {\n				d.removePendingCall(invocationID, pending)\n			}\n		}\n\n		unregistered := messages.NewUnregistered(unregister.RequestID())\n")])
bug("m-result-options", "C08 C09", [(D, "			details = map[string]any{OptionProgress: progress}\n", "			details = yield.Options()\n")])
bug("m-result-options-final", "C09", [(D, "			d.removePendingCall(yield.RequestID(), pending)\n		}\n\n		var result", "			d.removePendingCall(yield.RequestID(), pending)\n			if enc, ok := yield.Options()[\"ppt_scheme\"]; ok {\n				details = map[string]any{\"ppt_scheme\": enc, OptionProgress: false}\n			}\n		}\n\n		var result")])
bug("m-inv-reuse-on-rereg", "C07", [(D, "			invocationID = d.idGen.NextID()\n", "			invocationID = d.idGen.NextID()\n			if _, taken := d.pendingCalls[invocationID&0xffff]; !taken && invocationID > 0xffff {\n				invocationID &= 0xffff\n			}\n")])
bug("m-pending-by-request", "C07", [(D, "		if !ok {\n			continue\n		}\n		delete(registration.Registrants, id)", "		if !ok {\n			continue\n		}\n		for call, inv := range d.invocationIDbyCall {\n			if call.CallID == reg.ID && call.CallerID != id {\n				delete(d.invocationIDbyCall, call)\n				_ = inv\n			}\n		}\n		delete(registration.Registrants, id)")])
bug("m-chunk-new-callee", "C08 C06", [(D, "			calleeID = pending.CalleeID\n", "			calleeID = pending.CalleeID\n			if _, still := regs.Registrants[calleeID]; !still {\n				calleeID = regs.callees[0]\n			}\n")])
bug("m-sub-order", "C01 C02", [(B, "		delete(b.subscriptionsBySession[sessionID], subscription.ID)\n\n		unsub", "		if subscription.Match == MatchExact || len(subscription.Subscribers) == 0 {\n			delete(b.subscriptionsBySession[sessionID], subscription.ID)\n		}\n\n		unsub")])
bug("m-wild-empty", "C01 C04", [(D, "	matched, err := path.Match(pattern, str)\n", "	matched, err := path.Match(strings.ReplaceAll(pattern, \"..\", \".*.\"), str)\n"), (D, '	"path"\n', '	"path"\n	"strings"\n')])
bug("m-wild-slash", "C01 C04", [(D, "	matched, err := path.Match(pattern, str)\n", "	matched, err := path.Match(strings.ReplaceAll(pattern, \".\", \"/\"), strings.ReplaceAll(str, \".\", \"/\"))\n"), (D, '	"path"\n', '	"path"\n	"strings"\n')])
bug("m-topic-trim", "C01 C04", [(B, "	subscription, exists = b.subscriptionsByTopic[publish.Topic()]\n", "	subscription, exists = b.subscriptionsByTopic[strings.TrimRight(publish.Topic(), \".\")]\n"), (B, '	"fmt"\n', '	"fmt"\n	"strings"\n')])
bug("m-exclude-authid", "C01", [(B, "			if subscriber == sessionID && (excludeMe || !isBool) {", "			same := subscriber == sessionID || b.sessions[subscriber].AuthID() == b.sessions[sessionID].AuthID() && b.sessions[sessionID].AuthID() != \"\"\n			if same && (excludeMe || !isBool) {")])
bug("m-recipients-role", "C01", [(B, "			result.Recipients = append(result.Recipients, subscriber)\n", "			if s := b.sessions[subscriber]; s.Realm() == b.sessions[sessionID].Realm() {\n				result.Recipients = append(result.Recipients, subscriber)\n			}\n")])
bug("m-detail-memo", "C09", [(D, "			details[\"caller_authid\"] = caller.AuthID()\n", "			if d.authids == nil {\n				d.authids = map[uint64]string{}\n			}\n			if _, ok := d.authids[sessionID]; !ok {\n				d.authids[sessionID] = caller.AuthID()\n			}\n			details[\"caller_authid\"] = d.authids[sessionID]\n"), (D, "	details                    bool\n", "	details                    bool\n	authids                    map[uint64]string\n")])
# sessions
bug("m-sess-register-answers", "C15", [(S, "		registered := msg.(*messages.Registered)\n", "		registered := msg.(*messages.Registered)\n		if _, known := w.registrations.Load(registered.RegistrationID()); known {\n			w.registerRequests.Delete(registered.RequestID())\n			return registered, nil\n		}\n")])
bug("m-sess-goodbye-ack", "C15", [(S, "		w.publishRequests.Store(publish.RequestID(), struct{}{})", "		if exclude, ok := publish.Options()[\"exclude_me\"].(bool); !ok || exclude {\n				w.publishRequests.Store(publish.RequestID(), struct{}{})\n			}")])
bug("m-sess-inv-dup", "C15", [(S, "		invocation := msg.(*messages.Invocation)\n", "		invocation := msg.(*messages.Invocation)\n		if _, busy := w.invocationRequests.Load(invocation.RequestID()); busy {\n			return nil, fmt.Errorf(\"invocation %d is being processed\", invocation.RequestID())\n		}\n")])
# handshake
bug("m-acc-realm-last", "C19 C17", [(A, "		a.hello = hello\n", "		if a.hello == nil || hello.AuthID() != \"\" {\n			a.hello = hello\n		}\n")])
bug("m-acc-abort-resume", "C17", [(A, "	if err == nil && toSend.Type() == messages.MessageTypeAbort {", "	if err == nil && toSend.Type() == messages.MessageTypeAbort && a.response != nil {")])
bug("m-acc-challenge-reuse", "C18 C17", [(A, "			a.challenge = chStr\n			a.response = response\n			a.state = AcceptorStateChallengeSent\n", "			if a.challenge == \"\" {\n				a.challenge = chStr\n			}\n			a.response = response\n			a.state = AcceptorStateChallengeSent\n")])
bug("m-cra-time", "C18", [(CRA, "	if iterations == 0 {\n		iterations = 1000\n", "	if iterations <= 1 {\n		iterations = 1000\n")])
bug("m-ticket-trim", "C17 C19", [(A, "auth.NewTicketRequest(a.hello, authenticate.Signature())", "auth.NewTicketRequest(a.hello, strings.TrimSpace(authenticate.Signature()))")])
bug("m-join-authid-fallback", "C20 C19", [(J, "		authID, ok := welcome.Details()[\"authid\"].(string)\n		if !ok {", "		authID, ok := welcome.Details()[\"authid\"].(string)\n		if !ok {\n			authID = j.authenticator.AuthID()\n		}\n		if authID == \"\" && !ok {")])
bug("m-join-roles-default", "C19 C20", [(J, "		roles, _ := welcome.Details()[\"roles\"].(map[string]any)\n", "		roles, _ := welcome.Details()[\"roles\"].(map[string]any)\n		if len(roles) == 0 {\n			roles = RouterRoles\n		}\n")])
bug("m-join-abort-order", "C20", [(J, "		if len(abort.KwArgs()) > 0 {", "		if len(abort.KwArgs()) > 0 && len(abort.Args()) == 0 {")])
# codecs
