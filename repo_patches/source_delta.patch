From 763139ae74410137bff23451152ef1e3fee42374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 01/37] fix: broker keeps pattern subscriptions while other
 subscribers remain

---
 broker.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..8c65f51 100644
--- a/broker.go
+++ b/broker.go
@@ -67,10 +67,11 @@ func (b *Broker) RemoveSession(id uint64) error {
 			delete(subscription.Subscribers, id)
 		}
 
-		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
+		if len(subscription.Subscribers) > 0 {
+			continue
 		}
 
+		delete(b.subscriptionsByTopic, v.Topic)
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 		}
@@ -155,12 +156,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From da1a019fbb2c784966b113e72d3072113d5abd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 02/37] fix: broker keeps one subscription per topic and match
 policy

---
 broker.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/broker.go b/broker.go
index 8c65f51..42f3c76 100644
--- a/broker.go
+++ b/broker.go
@@ -62,7 +62,7 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
-		subscription, ok := b.subscriptionsByTopic[v.Topic]
+		subscription, ok := b.findSubscription(v.Topic, v.Match)
 		if ok {
 			delete(subscription.Subscribers, id)
 		}
@@ -71,7 +71,9 @@ func (b *Broker) RemoveSession(id uint64) error {
 			continue
 		}
 
-		delete(b.subscriptionsByTopic, v.Topic)
+		if subscription.Match == MatchExact {
+			delete(b.subscriptionsByTopic, v.Topic)
+		}
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 		}
@@ -90,8 +92,28 @@ func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
 
-	_, exists := b.subscriptionsByTopic[topic]
-	return exists
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		if _, exists := b.findSubscription(topic, match); exists {
+			return true
+		}
+	}
+
+	return false
+}
+
+// findSubscription returns the subscription on the given topic under the given match policy, each policy
+// has its own subscription on a topic.
+func (b *Broker) findSubscription(topic, match string) (*Subscription, bool) {
+	switch match {
+	case MatchPrefix:
+		return b.prefixTree.Get([]byte(topic))
+	case MatchWildcard:
+		subscription, exists := b.wcSubscriptionsByTopic[topic]
+		return subscription, exists
+	default:
+		subscription, exists := b.subscriptionsByTopic[topic]
+		return subscription, exists
+	}
 }
 
 func (b *Broker) AutoDisclosePublisher(disclose bool) {
@@ -112,7 +134,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		subscribe := msg.(*messages.Subscribe)
-		subscription, exists := b.subscriptionsByTopic[subscribe.Topic()]
+		match := util.ToString(subscribe.Options()[OptionMatch])
+		subscription, exists := b.findSubscription(subscribe.Topic(), match)
 		if exists {
 			subscription.Subscribers[sessionID] = sessionID
 		} else {
@@ -121,7 +144,6 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Topic:       subscribe.Topic(),
 				Subscribers: map[uint64]uint64{sessionID: sessionID},
 			}
-			match := util.ToString(subscribe.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				subscription.Match = match
@@ -131,8 +153,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				b.wcSubscriptionsByTopic[subscription.Topic] = subscription
 			default:
 				subscription.Match = MatchExact
+				b.subscriptionsByTopic[subscribe.Topic()] = subscription
 			}
-			b.subscriptionsByTopic[subscribe.Topic()] = subscription
 		}
 
 		b.subscriptionsBySession[sessionID][subscription.ID] = subscription
@@ -155,7 +177,9 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchExact {
+				delete(b.subscriptionsByTopic, subscription.Topic)
+			}
 			if subscription.Match == MatchPrefix {
 				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 			}
-- 
2.43.0


From 19868265789e818881ecad8eabd5b8f5d52279bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 03/37] fix: broker excludes the publisher unless exclude_me is
 false

---
 broker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/broker.go b/broker.go
index 42f3c76..35d501d 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 type Broker struct {
@@ -243,7 +244,11 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
 		result.Event = event
+		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
 		for _, subscriber := range subscription.Subscribers {
+			if subscriber == sessionID && (excludeMe || !isBool) {
+				continue
+			}
 			result.Recipients = append(result.Recipients, subscriber)
 		}
 	}
-- 
2.43.0


From 6f831b9d225763c7ad65a74324bdf04518865f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 04/37] fix: dealer removes pattern registrations exactly when
 their last callee goes

---
 dealer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..8e4fb84 100644
--- a/dealer.go
+++ b/dealer.go
@@ -118,13 +118,14 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
+
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		for i, callee := range registration.callees {
@@ -353,7 +354,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From 4d75f5c9a7d3311159923677427fdcbcafb23103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 05/37] fix: dealer takes an unregistering callee out of the
 shared registration

---
 dealer.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/dealer.go b/dealer.go
index 8e4fb84..0fbbce6 100644
--- a/dealer.go
+++ b/dealer.go
@@ -54,6 +54,15 @@ type Registration struct {
 	Match            string
 }
 
+func (r *Registration) removeCallee(id uint64) {
+	for i, callee := range r.callees {
+		if callee == id {
+			r.callees = append(r.callees[:i], r.callees[i+1:]...)
+			break
+		}
+	}
+}
+
 type CallMap struct {
 	CallerID uint64
 	CallID   uint64
@@ -128,15 +137,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			}
 		}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
-			}
-		}
+		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
@@ -347,11 +348,17 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
+
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.removeCallee(sessionID)
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From 72cf5758b1cb6e46d9a18d455548f85a533d2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 06/37] fix: dealer adds a callee to a shared registration once

---
 dealer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 0fbbce6..197ee0f 100644
--- a/dealer.go
+++ b/dealer.go
@@ -310,9 +310,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, joined := registration.Registrants[sessionID]; !joined {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From 10c736458b2a8d3d43347ca1458781e3b21275f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 07/37] fix: dealer refuses to share a procedure under another
 match policy

---
 dealer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index 197ee0f..1b6f3d3 100644
--- a/dealer.go
+++ b/dealer.go
@@ -302,10 +302,15 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
+		match := util.ToString(register.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
+
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
 			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
-				registration.InvocationPolicy != invokePolicy {
+				registration.InvocationPolicy != invokePolicy || registration.Match != match {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -321,18 +326,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Registrants:      map[uint64]uint64{sessionID: sessionID},
 				callees:          []uint64{sessionID},
 				InvocationPolicy: invokePolicy,
+				Match:            match,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
-				registration.Match = match
 				d.prefixTree, _, _ = d.prefixTree.Insert([]byte(registration.Procedure), registration)
 			case MatchWildcard:
-				registration.Match = match
 				d.wcRegistrationsByProcedure[registration.Procedure] = registration
-			default:
-				registration.Match = MatchExact
 			}
 		}
 
-- 
2.43.0


From a256a3816f274b6a48907a3700ff923dc28d8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 08/37] fix: dealer refuses CALL and YIELD from sessions that
 are not attached

---
 dealer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 1b6f3d3..00d628f 100644
--- a/dealer.go
+++ b/dealer.go
@@ -167,6 +167,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		caller, attached := d.sessions[sessionID]
+		if !attached {
+			return nil, fmt.Errorf("call: session %d is not attached", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
@@ -245,7 +250,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		if d.details {
-			caller := d.sessions[sessionID]
 			details["procedure"] = call.Procedure()
 			details["caller"] = sessionID
 			details["caller_authid"] = caller.AuthID()
@@ -273,6 +277,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("yield: not pending calls for session %d", sessionID)
 		}
 
+		if _, attached := d.sessions[sessionID]; !attached {
+			return nil, fmt.Errorf("yield: session %d is not attached", sessionID)
+		}
+
 		progress, _ := yield.Options()[OptionProgress].(bool)
 		var details map[string]any
 		if pending.ReceiveProgress && progress {
-- 
2.43.0


From f4a2e49e8ad3e22d041d7bfefa28b60eef227e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 09/37] fix: dealer accepts an invocation error only from the
 invoked callee

---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index 00d628f..2b29110 100644
--- a/dealer.go
+++ b/dealer.go
@@ -391,6 +391,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
+		if pending.CalleeID != sessionID {
+			return nil, fmt.Errorf("dealer: invocation %d was not sent to session %d", wErr.RequestID(), sessionID)
+		}
+
 		delete(d.pendingCalls, wErr.RequestID())
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
-- 
2.43.0


From 017d594cecd4ba3828004f7ebd7e92abd9abaeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 10/37] fix: dealer sends every chunk of a progressive call
 under its invocation

---
 dealer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2b29110..f7b961e 100644
--- a/dealer.go
+++ b/dealer.go
@@ -200,8 +200,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
+		invocationID, ongoing := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+		pending, ok := d.pendingCalls[invocationID]
+		ongoing = ongoing && ok && pending.Progress
+
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if ongoing {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -227,8 +233,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		if ongoing {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
-- 
2.43.0


From 73e6c72f841b38227c10b99a9b52adc476331a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 11/37] fix: dealer forgets the invocation of a call once it is
 answered

---
 dealer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index f7b961e..b8d640e 100644
--- a/dealer.go
+++ b/dealer.go
@@ -146,6 +146,15 @@ func (d *Dealer) RemoveSession(id uint64) error {
 	return nil
 }
 
+func (d *Dealer) removePendingCall(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+
+	call := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[call] == invocationID {
+		delete(d.invocationIDbyCall, call)
+	}
+}
+
 func (d *Dealer) HasProcedure(procedure string) bool {
 	d.Lock()
 	defer d.Unlock()
@@ -293,7 +302,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.removePendingCall(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -402,7 +411,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: invocation %d was not sent to session %d", wErr.RequestID(), sessionID)
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.removePendingCall(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
-- 
2.43.0


From 653052577d6db9ddb7c59191ffeb049d48c5362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 12/37] fix: dealer drops the pending calls of a departing
 session

---
 dealer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dealer.go b/dealer.go
index b8d640e..81b167c 100644
--- a/dealer.go
+++ b/dealer.go
@@ -140,6 +140,12 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		registration.removeCallee(id)
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.removePendingCall(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
-- 
2.43.0


From 20a80da3313d038c25c1364d1a216dffb99a2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 13/37] fix: deserializers refuse an empty message list

---
 serializers/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..fa2308e 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -8,6 +8,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, fmt.Errorf("message must not be empty")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From fa6f6282efa308328315d36545fa087f44301c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 14/37] fix: HELLO and AUTHENTICATE require their third element

---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From 27809d0760fedec11f6373dfae2017007b3b0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 15/37] fix: ABORT with keyword arguments only carries an empty
 argument list

---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From c3e3c440da8a16cee88284706eb1229eb870c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 16/37] fix: RESULT with a binary payload reports it whatever
 its serializer

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From 23f12c0cde0ef226145e608a59df74f752318cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 17/37] fix: joiner refuses a WELCOME without authid or
 authrole

---
 joiner.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..a8927ef 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,18 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, ok := welcome.Details()["authid"].(string)
+		if !ok {
+			return nil, errors.New("received WELCOME without authid")
+		}
+
+		authRole, ok := welcome.Details()["authrole"].(string)
+		if !ok {
+			return nil, errors.New("received WELCOME without authrole")
+		}
+
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID,
+			authRole, authMethod, j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From e936342a3ef83dd8384130d189a052f56d33116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 18/37] fix: anonymous is selected only if the server allows it

---
 auth/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..f7ca523 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -11,6 +11,10 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var method Method
 
 	if len(proposedMethods) == 0 {
+		if !slices.Contains(allowedMethods, Anonymous) {
+			return "", fmt.Errorf("server does not have %v auth enabled", Anonymous)
+		}
+
 		return Anonymous, nil
 	}
 
-- 
2.43.0


From e92de2636352756078266eabf2ab6794761569cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 19/37] fix: acceptor takes a cryptosign response only for its
 own challenge

---
 acceptor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..4b905b1 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -240,7 +241,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			if !verified || !strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From cbca5993d32c36c118c332626c9b8ad76f614013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 20/37] fix: acceptor refuses further messages after ABORT

---
 acceptor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acceptor.go b/acceptor.go
index 4b905b1..82992d7 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -17,6 +17,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAbortSent
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -97,6 +98,19 @@ func (a *Acceptor) Receive(data []byte) (payload []byte, welcomed bool, err erro
 }
 
 func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error) {
+	if a.state == AcceptorStateAbortSent {
+		return nil, errors.New("session was aborted, not expecting any new messages")
+	}
+
+	toSend, err := a.receiveMessage(msg)
+	if err == nil && toSend.Type() == messages.MessageTypeAbort {
+		a.state = AcceptorStateAbortSent
+	}
+
+	return toSend, err
+}
+
+func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error) {
 	if a.state == AcceptorStateWelcomeSent {
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
-- 
2.43.0


From 88b6f646c8e45f191f16d3373e8fa75367195d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 21/37] fix: joiner ends its attempt on ABORT

---
 joiner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/joiner.go b/joiner.go
index a8927ef..e09c064 100644
--- a/joiner.go
+++ b/joiner.go
@@ -152,6 +152,7 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return authenticate, nil
 	} else if msg.Type() == messages.MessageTypeAbort {
 		abort := msg.(*messages.Abort)
+		j.state = joinerStateNone
 
 		errStr := abort.Reason()
 		if len(abort.Args()) > 0 {
-- 
2.43.0


From 17f4516b21811586e5e7ec52608fb81fe15f9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 22/37] fix: WAMP-CRA key derivation tolerates a negative key
 length

---
 auth/wampcra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..d81e5b6 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -88,7 +88,7 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	if iterations == 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From 2f51c1cc992545dfa2fe96700655ecb74d4146ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 23/37] fix: cryptosign authenticator refuses a private key of
 the wrong length

---
 auth/cryptosign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..d7183b1 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -29,6 +29,10 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 		return nil, errors.New("invalid private key")
 	}
 
+	if len(privateKeyRaw) != ed25519.SeedSize {
+		return nil, fmt.Errorf("invalid private key length %d", len(privateKeyRaw))
+	}
+
 	privateKey := ed25519.NewKeyFromSeed(privateKeyRaw)
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
-- 
2.43.0


From 0234c2f1974990e3f391e1f8b8a6eb804460a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 24/37] fix: session consumes a request with its final answer

---
 session.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..c0a6bac 100644
--- a/session.go
+++ b/session.go
@@ -129,13 +129,13 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
 		_, exists := w.callRequests.Load(result.RequestID())
-		if !exists {
-			return nil, fmt.Errorf("received RESULT for invalid requestID")
-		}
-
 		progress, _ := result.Details()[OptionProgress].(bool)
 		if !progress {
-			w.callRequests.Delete(result.RequestID())
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
+		}
+
+		if !exists {
+			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
 		return result, nil
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 52faabe1e817f3a63133238bba9c456d84d9d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 25/37] fix: rawsocket handshake and header refuse bad sizes
 without panicking

---
 transports/rawsocket.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..dff0e9c 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() <= 0 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
@@ -106,6 +110,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From 87815086663d596b277c3d9c4e5ce1da7ba742dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 26/37] fix: random ids start at 1 and differ between processes

---
 idgen.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..ffdc4af 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,13 +12,12 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)) + 1)
 	return id
 }
 
-- 
2.43.0


From eaebee327f715f4e737bc76b34346d5f6f2936e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 27/37] fix: numeric conversions accept int16 and refuse floats
 beyond int

---
 util/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index f09eba5..5f1b6f3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < float32(intMax) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < float64(intMax) {
 			return int(v), true
 		}
 	}
@@ -59,6 +59,8 @@ func AsUInt64(i any) (uint64, bool) {
 		return uint64(v), true // #nosec
 	case int8:
 		return uint64(v), true // #nosec
+	case int16:
+		return uint64(v), true // #nosec
 	case int32:
 		return uint64(v), true // #nosec
 	case uint:
@@ -90,6 +92,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From 4ffd8ad86bb80a060933df59feabf5f2db21bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 28/37] fix: CBOR payload helpers round-trip absent values and
 refuse short lists

---
 serializers/cbor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..9c6a8e7 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -47,6 +47,14 @@ func (c *CBORSerializer) Static() bool {
 }
 
 func EncodeCBOR(args []any, kwargs map[string]any) ([]byte, error) {
+	if args == nil {
+		args = []any{}
+	}
+
+	if kwargs == nil {
+		kwargs = map[string]any{}
+	}
+
 	var payload []any
 	payload = append(payload, args)
 	payload = append(payload, kwargs)
@@ -64,6 +72,10 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) < 2 {
+		return nil, nil, fmt.Errorf("invalid cbor payload: expected args and kwargs, got %d elements", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
 	if !ok {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
-- 
2.43.0


From bf0e61cc1a8ba2cd22da0a7d39a3ddb15c5e0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 29/37] fix: WELCOME carries the auth method as a string

---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 82992d7..464da66 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -275,7 +275,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From d9d1939a9aa586cb7ec980d6fb25ca0e47928a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 30/37] fix: an empty payload decodes to no arguments

---
 serializers/payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..d7c3ace 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From b6ef585c2cfe5d64042824154a8ceeeffa58a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 31/37] fix: WELCOME, CHALLENGE and AUTHENTICATE without a
 dictionary carry an empty one

---
 messages/authenticate.go | 4 ++++
 messages/challenge.go    | 4 ++++
 messages/welcome.go      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index f85162b..9c47902 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -44,6 +44,10 @@ func NewAuthenticateWithFields(fields AuthenticateFields) *Authenticate {
 }
 
 func NewAuthenticate(signature string, extra map[string]any) *Authenticate {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Authenticate{AuthenticateFields: &authenticateFields{signature: signature, extra: extra}}
 }
 
diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 9b63825eb36dee4b67143ca68a15d05bb17e2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 32/37] fix: MsgPack data that is truncated or nested too
 deeply is refused before decoding

---
 serializers/msgpack.go       |   4 ++
 serializers/msgpack_check.go | 112 +++++++++++++++++++++++++++++++++++
 serializers/payload.go       |   4 ++
 3 files changed, 120 insertions(+)
 create mode 100644 serializers/msgpack_check.go

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..351d304 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -15,6 +15,10 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 }
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
+	if err := checkMsgPack(payload); err != nil {
+		return nil, err
+	}
+
 	var msgRaw []any
 	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
 		return nil, err
diff --git a/serializers/msgpack_check.go b/serializers/msgpack_check.go
new file mode 100644
index 0000000..0c221bb
--- /dev/null
+++ b/serializers/msgpack_check.go
@@ -0,0 +1,112 @@
+package serializers
+
+import (
+	"encoding/binary"
+	"errors"
+	"io"
+)
+
+// maxMsgPackNesting is the nesting depth accepted in MsgPack data, the same as that of encoding/json.
+const maxMsgPackNesting = 10000
+
+// checkMsgPack refuses data that is truncated or nested deeper than maxMsgPackNesting. The
+// MsgPack decoder is recursive without a limit of its own and allocates containers in the size
+// they announce, so a few bytes from a peer could exhaust the stack or the memory.
+func checkMsgPack(data []byte) error {
+	var open []uint64 // number of items still to come in each enclosing container
+	for len(data) > 0 {
+		items, size := msgPackItem(data)
+		if size > uint64(len(data)) || items > uint64(len(data))-size {
+			return io.ErrUnexpectedEOF
+		}
+		data = data[size:]
+
+		if items > 0 {
+			if len(open) == maxMsgPackNesting {
+				return errors.New("msgpack: exceeded max nesting depth")
+			}
+			open = append(open, items)
+			continue
+		}
+
+		for len(open) > 0 {
+			open[len(open)-1]--
+			if open[len(open)-1] > 0 {
+				break
+			}
+			open = open[:len(open)-1]
+		}
+
+		if len(open) == 0 {
+			return nil
+		}
+	}
+
+	return io.ErrUnexpectedEOF
+}
+
+// msgPackItem returns how many items the container at the start of data holds (0 for a scalar
+// or an empty container) and how many bytes its header, or the whole scalar, takes.
+func msgPackItem(data []byte) (items, size uint64) {
+	number := func(width int) uint64 {
+		var b [8]byte
+		if len(data) > width {
+			copy(b[8-width:], data[1:])
+		}
+
+		return binary.BigEndian.Uint64(b[:])
+	}
+
+	code := uint64(data[0])
+	switch {
+	case code <= 0x7f || code >= 0xe0: // fixint
+		return 0, 1
+	case code <= 0x8f: // fixmap
+		return 2 * (code & 0x0f), 1
+	case code <= 0x9f: // fixarray
+		return code & 0x0f, 1
+	case code <= 0xbf: // fixstr
+		return 0, 1 + code&0x1f
+	}
+
+	switch code {
+	case 0xc4, 0xd9: // bin8, str8
+		return 0, 2 + number(1)
+	case 0xc5, 0xda: // bin16, str16
+		return 0, 3 + number(2)
+	case 0xc6, 0xdb: // bin32, str32
+		return 0, 5 + number(4)
+	case 0xc7: // ext8
+		return 0, 3 + number(1)
+	case 0xc8: // ext16
+		return 0, 4 + number(2)
+	case 0xc9: // ext32
+		return 0, 6 + number(4)
+	case 0xcc, 0xd0: // uint8, int8
+		return 0, 2
+	case 0xcd, 0xd1, 0xd4: // uint16, int16, fixext1
+		return 0, 3
+	case 0xd5: // fixext2
+		return 0, 4
+	case 0xca, 0xce, 0xd2: // float32, uint32, int32
+		return 0, 5
+	case 0xd6: // fixext4
+		return 0, 6
+	case 0xcb, 0xcf, 0xd3: // float64, uint64, int64
+		return 0, 9
+	case 0xd7: // fixext8
+		return 0, 10
+	case 0xd8: // fixext16
+		return 0, 18
+	case 0xdc: // array16
+		return number(2), 3
+	case 0xdd: // array32
+		return number(4), 5
+	case 0xde: // map16
+		return 2 * number(2), 3
+	case 0xdf: // map32
+		return 2 * number(4), 5
+	default: // nil, false, true
+		return 0, 1
+	}
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index d7c3ace..25b83a1 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -90,6 +90,10 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 		return nil, nil, nil
 	}
 
+	if err := checkMsgPack(b); err != nil {
+		return nil, nil, err
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 54233098bc1989cfc5c23834bb8a7cfbfca551dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 33/37] fix: a WAMP-CRA challenge announcing an absurd key
 length is refused

---
 auth/wampcra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index d81e5b6..ae27815 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxWAMPCRAKeyLen is the longest derived key a client accepts to compute.
+const maxWAMPCRAKeyLen = 1 << 16
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +60,9 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if keylen > maxWAMPCRAKeyLen {
+			return nil, fmt.Errorf("invalid keylen %d in challenge", keylen)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
-- 
2.43.0


From 45817c146c2b2f0c2b885b4b5ced53370cd02da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 34/37] fix: leave the authextra given to
 NewCryptoSignAuthenticator unchanged

---
 auth/cryptosign.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index d7183b1..68dc992 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -37,9 +37,12 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
 
-	if authExtra == nil {
-		authExtra = map[string]any{}
+	// the given map belongs to the caller, who may use it for other authenticators as well.
+	extra := make(map[string]any, len(authExtra)+1)
+	for key, value := range authExtra {
+		extra[key] = value
 	}
+	authExtra = extra
 
 	if authExtra["pubkey"] == nil {
 		authExtra["pubkey"] = publicKeyHex
-- 
2.43.0


From 00d0d8d82efcec13e9ab2c73c13f6705b6df3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 35/37] fix: leave the options given to the constructors of
 binary messages unchanged

---
 messages/call.go       |  6 +-----
 messages/invocation.go |  6 +-----
 messages/message.go    | 12 ++++++++++++
 messages/result.go     |  6 +-----
 messages/yield.go      |  6 +-----
 5 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/messages/call.go b/messages/call.go
index 8fd924d..2223523 100644
--- a/messages/call.go
+++ b/messages/call.go
@@ -94,11 +94,7 @@ func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: field
 
 func NewCallBinary(requestID uint64, options map[string]any, procedure string, payload []byte,
 	serializer uint64) *Call {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
+	options = withPayloadSerializer(options, serializer)
 
 	return &Call{CallFields: &callFields{
 		requestID:  requestID,
diff --git a/messages/invocation.go b/messages/invocation.go
index f964940..1a88750 100644
--- a/messages/invocation.go
+++ b/messages/invocation.go
@@ -101,11 +101,7 @@ func NewInvocationWithFields(fields InvocationFields) *Invocation {
 func NewInvocationBinary(requestID, registrationID uint64, details map[string]any, payload []byte,
 	serializer uint64) *Invocation {
 
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
+	details = withPayloadSerializer(details, serializer)
 
 	return &Invocation{InvocationFields: &invocationFields{
 		requestID:      requestID,
diff --git a/messages/message.go b/messages/message.go
index ca87ad1..ac0b17c 100644
--- a/messages/message.go
+++ b/messages/message.go
@@ -11,3 +11,15 @@ type BinaryPayload interface {
 	Payload() []byte
 	PayloadSerializer() uint64
 }
+
+// withPayloadSerializer returns a copy of the given options or details that names the payload serializer,
+// the given map belongs to the caller, who may use it for other messages as well.
+func withPayloadSerializer(options map[string]any, serializer uint64) map[string]any {
+	result := make(map[string]any, len(options)+1)
+	for key, value := range options {
+		result[key] = value
+	}
+
+	result["x_payload_serializer"] = serializer
+	return result
+}
diff --git a/messages/result.go b/messages/result.go
index 1b5f082..aa127ff 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -82,11 +82,7 @@ func NewResultWithFields(field ResultFields) *Result {
 }
 
 func NewResultBinary(requestID uint64, details map[string]any, payload []byte, serializer uint64) *Result {
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
+	details = withPayloadSerializer(details, serializer)
 
 	return &Result{ResultFields: &resultFields{
 		requestID:  requestID,
diff --git a/messages/yield.go b/messages/yield.go
index 88b9162..5276fd3 100644
--- a/messages/yield.go
+++ b/messages/yield.go
@@ -82,11 +82,7 @@ func NewYieldWithFields(fields YieldFields) *Yield {
 }
 
 func NewYieldBinary(requestID uint64, options map[string]any, payload []byte, serializer uint64) *Yield {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
+	options = withPayloadSerializer(options, serializer)
 
 	return &Yield{YieldFields: &yieldFields{
 		requestID:  requestID,
-- 
2.43.0


From 8c8a7c2f51e20fbda74a83b26b24a52806ae60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 36/37] fix: a progressive call stays with its registration and
 ends with its callee's UNREGISTER

A later chunk was matched anew: it went to the callee of the first under
the id of whatever registration matched by then, which that callee need
not hold, and when none matched the caller got an ERROR while the
invocation stayed outstanding, so that its answer came as a second one.
---
 dealer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dealer.go b/dealer.go
index 81b167c..638afa8 100644
--- a/dealer.go
+++ b/dealer.go
@@ -42,6 +42,7 @@ type PendingInvocation struct {
 	CalleeID        uint64
 	Progress        bool
 	ReceiveProgress bool
+	registration    *Registration
 }
 
 type Registration struct {
@@ -209,16 +210,26 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			}
 		}
 
+		invocationID, ongoing := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+		pending, ok := d.pendingCalls[invocationID]
+		ongoing = ongoing && ok && pending.Progress
+
+		// the chunks of a progressive call stay with the registration and callee of the first
+		if ongoing {
+			regs = pending.registration
+			_, found = regs.Registrants[pending.CalleeID]
+		}
+
 		if !found || len(regs.Registrants) == 0 {
+			if ongoing {
+				d.removePendingCall(invocationID, pending)
+			}
+
 			callErr := messages.NewError(messages.MessageTypeCall, call.RequestID(), map[string]any{},
 				"wamp.error.no_such_procedure", nil, nil)
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
-		invocationID, ongoing := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		pending, ok := d.pendingCalls[invocationID]
-		ongoing = ongoing && ok && pending.Progress
-
 		var calleeID uint64
 		if ongoing {
 			calleeID = pending.CalleeID
@@ -258,6 +269,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
+				registration:    regs,
 			}
 			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
 		}
-- 
2.43.0


From 4b141e3f29ff830eeb66ec5cac649b42184e4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:13 +0000
Subject: [PATCH 37/37] fix: a cryptosign signature is not verified against a
 public key of the wrong length

Shorter keys were padded with zeros, under which signatures made without any
private key verify, and longer ones were cut.
---
 auth/cryptosign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 68dc992..6c8bc6c 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -94,6 +94,10 @@ func SignCryptoSignChallenge(challenge string, privateKey ed25519.PrivateKey) (s
 }
 
 func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error) {
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("invalid public key length %d", len(publicKey))
+	}
+
 	signatureBytes, err := hex.DecodeString(signature)
 	if err != nil {
 		return false, err
-- 
2.43.0

