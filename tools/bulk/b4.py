B="broker.go"; D="dealer.go"; S="session.go"; G="idgen.go"; M="internal/map.go"; T="types.go"; A="acceptor.go"; J="joiner.go"
ME="messages/"; CRA="auth/wampcra.go"; CS="auth/cryptosign.go"; TK="auth/ticket.go"
lk = "	b.Lock()\n	defer b.Unlock()\n\n"
# ---- C12 concurrency in the routers
bug("x-hasproc-nolock", "C12", [(D, "	d.Lock()\n	defer d.Unlock()\n\n	reg, exists := d.registrationsByProcedure[procedure]", "	reg, exists := d.registrationsByProcedure[procedure]")])
bug("x-hassub-nolock", "C12", [(B, "func (b *Broker) HasSubscription(topic string) bool {\n" + lk, "func (b *Broker) HasSubscription(topic string) bool {\n")])
bug("x-disclose-nolock", "C12", [(D, "	d.Lock()\n	defer d.Unlock()\n	d.details = disclose", "	d.details = disclose")])
bug("x-publish-two-phase", "C12", [(B, "	result := &Publication{}\n	publicationID := b.idGen.NextID()\n", "	result := &Publication{}\n	publicationID := b.idGen.NextID()\n	b.Unlock()\n	b.Lock()\n")])
bug("x-publish-late-details", "C12", [(B, "	_, exists := b.subscriptionsBySession[sessionID]\n	if !exists {\n		return nil, fmt.Errorf(\"broker: cannot publish, session %d doesn't exist\", sessionID)\n	}\n\n	result := &Publication{}\n", "	_, exists := b.subscriptionsBySession[sessionID]\n	if !exists {\n		return nil, fmt.Errorf(\"broker: cannot publish, session %d doesn't exist\", sessionID)\n	}\n	b.Unlock()\n	options := publish.Options()\n	_ = options\n	b.Lock()\n\n	result := &Publication{}\n")])
bug("x-subscribe-gap", "C12", [(B, "		subscription, exists := b.findSubscription(subscribe.Topic(), match)\n		if exists {", "		subscription, exists := b.findSubscription(subscribe.Topic(), match)\n		b.Unlock()\n		b.Lock()\n		if exists {")])
bug("x-remove-two-locks", "C12", [(B, "	delete(b.subscriptionsBySession, id)\n	for _, v := range subscriptions {", "	delete(b.subscriptionsBySession, id)\n	b.Unlock()\n	b.Lock()\n	for _, v := range subscriptions {")])
bug("x-add-check-unlocked", "C12", [(D, "	_, exists := d.sessions[details.ID()]\n	if exists {\n		return fmt.Errorf(\"cannot attach", "	_, exists := d.sessions[details.ID()]\n	d.Unlock()\n	d.Lock()\n	if exists {\n		return fmt.Errorf(\"cannot attach")])
bug("x-yield-gap", "C12", [(D, "		if _, attached := d.sessions[sessionID]; !attached {\n			return nil, fmt.Errorf(\"yield: session", "		d.Unlock()\n		d.Lock()\n		if _, attached := d.sessions[sessionID]; !attached {\n			return nil, fmt.Errorf(\"yield: session")])
bug("x-register-gap", "C12", [(D, "		registration, exists := d.registrationsByProcedure[register.Procedure()]\n		if exists {", "		registration, exists := d.registrationsByProcedure[register.Procedure()]\n		if !exists {\n			d.Unlock()\n			d.Lock()\n		}\n		if exists {")])
bug("x-call-gap", "C12", [(D, "		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)\n", "		d.Unlock()\n		d.Lock()\n		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)\n")])
bug("x-lock-order", "C12 C28", [(D, "type Dealer struct {", "var dealers sync.Mutex\n\ntype Dealer struct {"), (D, "func (d *Dealer) AddSession(details *SessionDetails) error {\n	d.Lock()\n	defer d.Unlock()\n", "func (d *Dealer) AddSession(details *SessionDetails) error {\n	dealers.Lock()\n	defer dealers.Unlock()\n	d.Lock()\n	defer d.Unlock()\n"), (D, "func (d *Dealer) RemoveSession(id uint64) error {\n	d.Lock()\n	defer d.Unlock()\n", "func (d *Dealer) RemoveSession(id uint64) error {\n	d.Lock()\n	defer d.Unlock()\n	dealers.Lock()\n	defer dealers.Unlock()\n")])
bug("x-recursive", "C12 C10", [(B, "	delete(b.sessions, id)\n\n	return nil", "	delete(b.sessions, id)\n	if len(b.sessions) == 0 && len(subscriptions) > 1 {\n		b.AutoDisclosePublisher(b.details)\n	}\n\n	return nil")])
bug("x-idgen-nolock", "C12 C13", [(G, "	s.Lock()\n	defer s.Unlock()\n", "")])
bug("x-early-unlock-err", "C12", [(D, "		if pending.CalleeID != sessionID {\n			return nil,", "		if pending.CalleeID != sessionID {\n			d.Unlock()\n			defer d.Lock()\n			return nil,")])
bug("x-unsub-read-after", "C12", [(B, "		unsubscribed := messages.NewUnsubscribed(unsubscribe.RequestID())\n		result := &MessageWithRecipient{Message: unsubscribed, Recipient: sessionID}\n		return result, nil", "		unsubscribed := messages.NewUnsubscribed(unsubscribe.RequestID())\n		result := &MessageWithRecipient{Message: unsubscribed, Recipient: sessionID}\n		if len(subscriptions) == 0 {\n			b.Unlock()\n			b.Lock()\n			b.subscriptionsBySession[sessionID] = map[uint64]*Subscription{}\n		}\n		return result, nil")])
# ---- C14 client session
bug("y-map-loadanddelete", "C14", [(M, "	v, loaded := m.m.LoadAndDelete(key)\n", "	v, loaded := m.m.Load(key)\n	m.m.Delete(key)\n")])
bug("y-event-cache", "C14", [(S, "		event := msg.(*messages.Event)\n", "		event := msg.(*messages.Event)\n		w.lastEvent = event.SubscriptionID()\n"), (S, "	serializer serializers.Serializer\n", "	serializer serializers.Serializer\n	lastEvent  uint64\n")])
bug("y-send-buffer", "C14 C28", [(S, "	data, err := w.serializer.Serialize(msg)\n", "	data, err := w.serializer.Serialize(msg)\n	w.last = append(w.last[:0], data...)\n	data = w.last\n"), (S, "	serializer serializers.Serializer\n", "	serializer serializers.Serializer\n	last       []byte\n")])
bug("y-published-check-then", "C14", [(S, "_, exists := w.publishRequests.LoadAndDelete(published.RequestID())", "_, exists := w.publishRequests.Load(published.RequestID())\n		w.publishRequests.Delete(published.RequestID())")])
bug("y-unsubscribed-split", "C14", [(S, "subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())", "subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())\n		defer w.unsubscribeRequests.Delete(unsubscribed.RequestID())")])
bug("y-error-call-split", "C14", [(S, "_, exists := w.callRequests.LoadAndDelete(errorMsg.RequestID())", "_, exists := w.callRequests.Load(errorMsg.RequestID())\n			w.callRequests.Delete(errorMsg.RequestID())")])
bug("y-error-register-split", "C14", [(S, "_, exists := w.registerRequests.LoadAndDelete(errorMsg.RequestID())", "_, exists := w.registerRequests.Load(errorMsg.RequestID())\n			w.registerRequests.Delete(errorMsg.RequestID())")])
bug("y-send-late-store", "C14 C15", [(S, "		w.callRequests.Store(call.RequestID(), struct{}{})", "		go w.callRequests.Store(call.RequestID(), struct{}{})")])
bug("y-store-by-counter", "C14 C15", [(S, "		w.callRequests.Store(call.RequestID(), struct{}{})", "		w.calls++\n		w.callRequests.Store(call.RequestID(), struct{}{})"), (S, "	serializer serializers.Serializer\n", "	serializer serializers.Serializer\n	calls      int\n")])
# ---- C28 separate objects / retained
bug("z-details-shared", "C28 C03", [(B, "		details := map[string]any{}\n", "		details := noDetails\n"), (B, "type Broker struct {", "var noDetails = map[string]any{}\n\ntype Broker struct {")])
bug("z-recipients-reuse", "C28", [(B, "	result := &Publication{}\n", "	result := &Publication{Recipients: b.recipients[:0]}\n	defer func() { b.recipients = result.Recipients }()\n"), (B, "	details                bool\n", "	details                bool\n	recipients             []uint64\n")])
bug("z-publication-reuse", "C28", [(B, "	result := &Publication{}\n", "	result := &b.publication\n	*result = Publication{}\n"), (B, "	details                bool\n", "	details                bool\n	publication            Publication\n")])
bug("z-withpayload-inplace", "C28 C09", [(ME+"message.go", "	result := make(map[string]any, len(options)+1)\n	for key, value := range options {\n		result[key] = value\n	}\n", "	result := options\n	if result == nil {\n		result = map[string]any{}\n	}\n")])
bug("z-error-details-add", "C28 C08", [(D, "		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details()", "		if len(wErr.Details()) > 0 {\n			wErr.Details()[\"callee\"] = sessionID\n		}\n		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details()")])
bug("z-event-args-append", "C28", [(B, "		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())", "		event := messages.NewEvent(subscription.ID, publicationID, details, append(publish.Args()[:0], publish.Args()...), publish.KwArgs())\n		if kw := publish.KwArgs(); kw != nil && kw[\"\"] == nil {\n			delete(kw, \"\")\n		}")])
bug("z-roles-global", "C28 C29", [(A, "	return &Acceptor{", "	RouterRoles[\"broker\"].(map[string]any)[\"features\"].(map[string]any)[\"static\"] = serializer.Static()\n	return &Acceptor{")])
bug("z-idgen-global", "C28 C13", [(G, "func (s *SessionScopeIDGenerator) NextID() uint64 {", "var lastID uint64\n\nfunc (s *SessionScopeIDGenerator) NextID() uint64 {\n	defer func() { lastID = s.id }()\n	if s.id == 0 && lastID > 1000 {\n		s.id = 1\n	}\n")])
bug("z-cbor-payload-pool", "C28", [("serializers/payload.go", "	return cbor.Marshal(data)", "	payloadBuf.Reset()\n	err := cbor.NewEncoder(&payloadBuf).Encode(data)\n	return payloadBuf.Bytes(), err"), ("serializers/payload.go", "func decode(arr", "var payloadBuf bytes.Buffer\n\nfunc decode(arr"), ("serializers/payload.go", 'import (\n', 'import (\n	"bytes"\n')])
bug("z-none-alias", "C28", [("serializers/payload.go", "		return []any{payload}, make(map[string]any), nil", "		lastRaw[0] = payload\n		return lastRaw, make(map[string]any), nil"), ("serializers/payload.go", "func decode(arr", "var lastRaw = []any{nil}\n\nfunc decode(arr")])
bug("z-hs-global", "C28 C24", [("transports/rawsocket.go", "	return []byte{MAGIC, b1, 0x00, 0x00}, nil", "	handshakeBuf[0], handshakeBuf[1] = MAGIC, b1\n	return handshakeBuf[:], nil"), ("transports/rawsocket.go", "type Serializer int\n", "var handshakeBuf [4]byte\n\ntype Serializer int\n")])
bug("z-header-global", "C28 C25", [("transports/rawsocket.go", "	data := IntToBytes(header.Length())\n	return []byte{\n		byte(header.Kind()),\n		data[0],\n		data[1],\n		data[2],\n	}", "	data := IntToBytes(header.Length())\n	out := append(headerBuf[:0], byte(header.Kind()))\n	return append(out, data...)"), ("transports/rawsocket.go", "type Serializer int\n", "var headerBuf = make([]byte, 0, 8)\n\ntype Serializer int\n")])
bug("z-hello-roles-edit", "C28", [(ME+"hello.go", '		"roles":       h.Roles(),', '		"roles":       withFeatures(h.Roles()),'), (ME+"hello.go", "func (h *Hello) Marshal() []any {", "func withFeatures(roles map[string]any) map[string]any {\n	for name, role := range roles {\n		if role == nil {\n			roles[name] = map[string]any{}\n		}\n	}\n	return roles\n}\n\nfunc (h *Hello) Marshal() []any {")])
# ---- C16, C29 conversations
bug("e-sub-id-per-match", "C16 C01", [(B, "				ID:          b.idGen.NextID(),\n", "				ID:          b.idGen.NextID() % 1000,\n")])
bug("e-event-after-unsub", "C16 C02", [(B, "		delete(subscription.Subscribers, sessionID)\n		if len(subscription.Subscribers) == 0 {", "		if len(subscription.Subscribers) > 1 || len(subscriptions) == 1 {\n			delete(subscription.Subscribers, sessionID)\n		}\n		if len(subscription.Subscribers) == 0 {")])
bug("e-detail-authid-hello", "C29 C19", [(A, "a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID()", "a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), a.hello.AuthID()")])
bug("e-static-default", "C29 C19", [(A, "a.serializer.Static(), RouterRoles", "!a.serializer.Static(), RouterRoles")])
bug("e-joiner-static", "C29 C20", [(J, "j.serializer.Static()", "false")])
bug("e-caller-role-callee", "C29 C09", [(D, '			details["caller_authrole"] = caller.AuthRole()', '			details["caller_authrole"] = d.sessions[calleeID].AuthRole()')])
bug("e-publisher-authid-first", "C29 C03", [(B, "			publisher := b.sessions[sessionID]\n", "			publisher := b.sessions[sessionID]\n			for _, other := range b.sessions {\n				if other.AuthRole() == publisher.AuthRole() && other.ID() < publisher.ID() {\n					publisher = other\n				}\n			}\n")])
bug("e-remove-by-authid", "C29 C10 C08", [(D, "		if pending.CallerID == id || pending.CalleeID == id {", "		if pending.CallerID == id || pending.CalleeID == id || d.sessions[pending.CallerID].AuthID() == d.sessions[id].AuthID() && d.sessions[id].AuthID() != \"\" && d.sessions[id].AuthID() != \"anonymous\" {")])
bug("e-rejoin-keeps-pending", "C29 C10 C16", [(D, "		if pending.CallerID == id || pending.CalleeID == id {", "		if pending.CallerID == id || (pending.CalleeID == id && !pending.ReceiveProgress) {")])
bug("e-result-to-callee", "C16 C29 C08", [(D, "	return &MessageWithRecipient{Message: result, Recipient: pending.CallerID}, nil", "	if pending.CallerID == pending.CalleeID {\n			return &MessageWithRecipient{Message: result, Recipient: sessionID}, nil\n		}\n		return &MessageWithRecipient{Message: result, Recipient: pending.CallerID}, nil")])
bug("e-register-id-echo", "C16 C05", [(D, "		registered := messages.NewRegistered(register.RequestID(), registration.ID)", "		registered := messages.NewRegistered(register.RequestID(), registration.ID)\n		if len(registration.callees) > 2 {\n			registered = messages.NewRegistered(registration.ID, registration.ID)\n		}")])
