#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Events reach exactly the subscribers of the best-matching subscription",
  "When an attached session publishes, the event is addressed exactly once to every session currently subscribed through the most specific matching subscription (the exact topic, else the longest matching prefix, else a matching wildcard pattern) and to nobody else. The publisher itself is left out unless it publishes with exclude_me set to false. This holds after every history of joins, subscribes, unsubscribes and departures, including several sessions sharing a subscription and one topic subscribed under different match policies.",
  ["histories", "inputs"],
  "every sequence of attach/detach/subscribe/unsubscribe/publish operations of a few sessions over overlapping exact, prefix and wildcard topics",
  "The tests use one subscriber, one match policy per broker and no unsubscribe followed by publish; the defects live in histories with several subscribers sharing a pattern and one of them leaving.",
  ["broker.go"], [("topic / prefix / wildcard subscription indexes kept in step", "broker.go ReceiveMessage, RemoveSession"), ("best-match lookup", "broker.go ReceivePublish")],
  ["Broker.ReceivePublish result: Event, Recipients"],
  [("subscriptionsByTopic/prefixTree/wcSubscriptionsByTopic", "live subscriptions by match policy", "broker.go")])

p("C02", "A subscription lives exactly as long as some session holds it",
  "SUBSCRIBE by an attached session is always answered to that session with a subscription id that all holders of the same topic and match policy (exact if absent or unknown) share and that no other live subscription has. UNSUBSCRIBE is acknowledged, and ends only that session's own hold, if the session holds that subscription; otherwise it is refused without any effect. A topic is reported as subscribed exactly while at least one session holds a subscription on it, and a departing session ends its own holds only.",
  ["histories"],
  "every sequence of attach/detach/subscribe/unsubscribe operations of a few sessions over a few topics under all three match policies, including double subscribes, stale and foreign subscription ids",
  "The tests exercise one subscribe and one unsubscribe by one session; sharing, re-subscription, stale ids and departure of one of several holders are never combined.",
  ["broker.go"], [("subscription bookkeeping", "broker.go ReceiveMessage, RemoveSession, HasSubscription")],
  ["Broker.ReceiveMessage replies", "Broker.HasSubscription"],
  [("subscriptionsBySession", "which session holds which subscription", "broker.go")])

p("C03", "Events and acknowledgements carry the publication faithfully",
  "An event carries the publication's arguments and keyword arguments unchanged, the id its recipients got when subscribing, and publisher details exactly when disclosure is switched on. A publication is acknowledged to its publisher, with the request id it used, exactly when acknowledge was true, whether or not anybody received it. The publication id in the acknowledgement equals the one in the event and differs from that of every other publication.",
  ["histories", "inputs"],
  "every combination of payload shape, acknowledge/exclude_me option value, disclosure setting and match policy, in every reachable broker state of the bounded model",
  "The tests check one payload's presence, not its content, and never compare the ids across subscribe, event and acknowledgement.",
  ["broker.go", "messages/event.go", "messages/published.go"], [("event construction", "broker.go ReceivePublish"), ("session-scope ids", "idgen.go NextID")],
  ["Publication.Event", "Publication.Ack"])

p("C04", "A call goes to a live registrant of the best match or fails cleanly",
  "A CALL by an attached session (later chunks of a progressive call apart) yields exactly one message: an INVOCATION, under the id its callee got when registering, to a session currently registered for the best-matching registration (the exact procedure, else the longest matching prefix, else a matching wildcard), or, when no live registration matches, a no_such_procedure ERROR to the caller with its request id. Sessions that unregistered or left are never invoked, and their registrations never hide other matching ones.",
  ["histories", "inputs"],
  "every sequence of attach/detach/register/unregister/call operations of a few sessions over overlapping exact, prefix and wildcard procedures with every invocation policy",
  "The tests register one procedure per pattern kind and never call after unregistering or detaching one of several registrants.",
  ["dealer.go"], [("registration indexes", "dealer.go ReceiveMessage REGISTER/UNREGISTER, RemoveSession"), ("best-match lookup", "dealer.go ReceiveMessage CALL")],
  ["Dealer.ReceiveMessage(CALL) result"],
  [("registrationsByProcedure/prefixTree/wcRegistrationsByProcedure", "live registrations", "dealer.go"), ("callees", "invocation order of registrants", "dealer.go")])

p("C05", "Registrations are exclusive unless shared under the same policy",
  "REGISTER by an attached session on an unused URI is answered with a fresh registration id; on a URI in use it joins the existing registration, with its id, only if both ask for the same shared invocation policy and the same match policy (exact if absent or unknown), and otherwise gets procedure_already_exists and nothing changes. UNREGISTER is acknowledged and ends only the caller's own hold if the session holds that registration, and is otherwise refused without effect. A procedure is reported as registered exactly while at least one session holds it.",
  ["histories", "inputs"],
  "every sequence of attach/detach/register/unregister operations of a few sessions over a few URIs, all invocation and match policies, with stale, foreign and never-issued registration ids",
  "The tests register twice and unregister once with one session; unregistering an id one does not hold, repeated registration by one session and mixed match policies are never tried.",
  ["dealer.go"], [("registration bookkeeping", "dealer.go ReceiveMessage REGISTER/UNREGISTER, RemoveSession, HasProcedure")],
  ["Dealer.ReceiveMessage replies", "Dealer.HasProcedure"],
  [("registrationsBySession", "which session holds which registration", "dealer.go")])

p("C06", "Shared registrations honour their invocation policy",
  "Among the sessions currently sharing a registration, 'first' always selects the one that registered earliest, 'last' the one that registered latest, and 'random' only ever a current one, any of which it can select. 'roundrobin' lets every sharer serve once in any run of as many consecutive calls as there are sharers while membership is unchanged. A session that registers twice counts once.",
  ["histories"],
  "every sequence of register/unregister/detach/call operations of up to four sharers of one procedure under each policy, to the fixpoint of the reachable states, with every answer of the random source",
  "The tests check each policy with two fixed callees and no membership change.",
  ["dealer.go"], [("callee selection", "dealer.go ReceiveMessage CALL")], ["recipient of INVOCATION"],
  [("callees/nextCallee", "registrants in order and the round-robin cursor", "dealer.go")])

p("C07", "Each answer goes to the caller that asked, at most once",
  "A final YIELD or an ERROR for an outstanding invocation becomes exactly one RESULT or ERROR addressed to the session that made the call, carrying that call's request id; after it, and for invocations that never existed, further answers are refused. Invocation ids of different calls are distinct, and answers for different calls, even with equal request ids from different callers, are never mixed up. Only the session that received the invocation can answer it.",
  ["histories"],
  "every interleaving of calls by several callers (with colliding request ids) and yields/errors, correct, duplicate, late or from the wrong session, with up to three outstanding calls",
  "The tests complete one call at a time; crossing outstanding calls, duplicate answers and foreign answers are never tried.",
  ["dealer.go"], [("pending invocation table", "dealer.go ReceiveMessage CALL/YIELD/ERROR")], ["Dealer.ReceiveMessage(YIELD/ERROR) result"],
  [("pendingCalls", "outstanding invocations", "dealer.go"), ("invocationIDbyCall", "ongoing call of a caller", "dealer.go")])

p("C08", "Progressive calls stay on one invocation; progressive results keep it open",
  "All chunks of a progressive call (same caller, same request id) including the final one are delivered to the same callee under the same invocation and registration ids as long as that callee keeps its registration, whatever else is registered meanwhile, each marked as progressive exactly if its CALL was; once that callee has unregistered, the next chunk ends the call with a no_such_procedure ERROR. Progressive YIELDs for a call that asked for progress become RESULTs marked progressive and leave the call open; the first non-progressive answer ends it. For a call that did not ask for progress every YIELD is its final answer, and its RESULT is not marked progressive; whether progress was asked for is settled by the first CALL. A later call that reuses the request id after completion is a new invocation.",
  ["histories"],
  "every interleaving of chunks, progressive and final yields and errors of up to three outstanding calls with one or two callees under shared policies",
  "The tests send ten chunks to a single callee and never look at the invocation id of the final chunk, at several callees, or at reuse after completion.",
  ["dealer.go"], [("progressive call handling", "dealer.go ReceiveMessage CALL/YIELD")], ["INVOCATION/RESULT ids, recipients and details"],
  [("invocationIDbyCall", "invocation of an ongoing progressive call", "dealer.go")])

p("C09", "The dealer relays payloads and details unaltered",
  "Arguments, keyword arguments, error URI and error details reach the other side exactly as sent. A call or result payload given in binary form reaches a peer whose serializer is static byte for byte with its payload serializer id (including id 0), and still reports itself as binary. Caller identity and procedure are disclosed in an INVOCATION, first or later chunk, exactly when disclosure is switched on, and are then those of the calling session, even if empty.",
  ["inputs", "configurations"],
  "every combination of payload shape (absent, empty, present, nested; list or binary with serializer ids 0..3), static/dynamic serializer of caller and callee, progress options, error details and disclosure setting",
  "The tests look at message types and recipients only; binary payloads, error payloads and static serializers are not touched.",
  ["dealer.go", "messages/call.go", "messages/invocation.go", "messages/yield.go", "messages/result.go", "messages/error.go"],
  [("message translation", "dealer.go ReceiveMessage"), ("binary constructors", "messages/*.go New*Binary")], ["translated messages"])

p("C10", "A departed session gets nothing and leaves nothing behind",
  "Every message or event the router emits is addressed to a currently attached session. After a session leaves, its subscriptions, registrations and outstanding calls have no further effect, also not for a later session attached under the same id. Completed calls and departed sessions leave no residue: repeating any history that returns to the idle router does not make the router's retained state grow.",
  ["histories"],
  "every history of the bounded broker and dealer models that contains departures and re-attachments at any point, outstanding calls included; every cycle through the idle state repeated",
  "The tests add and remove a session that did nothing in between.",
  ["broker.go", "dealer.go"], [("session removal", "broker.go RemoveSession; dealer.go RemoveSession"), ("cleanup on completion", "dealer.go ReceiveMessage YIELD/ERROR")],
  ["recipients of all outputs", "deep size of Broker and Dealer after returning to idle"])

p("C11", "The router survives any message from anyone; refusals have no effect",
  "No message of any WAMP type, from any attached, departed or never-attached session, with any ids and options, makes the broker or dealer panic or hang. Messages from sessions that are not attached, messages that the component does not handle, and duplicate attach or detach are refused with an error and change nothing.",
  ["inputs", "histories"],
  "every message type with representative ids and option values of every kind, from attached, departed and unknown sessions, injected in every reachable state of a bounded router model",
  "The tests send the expected message types plus a handful of wrong ids.",
  ["broker.go", "dealer.go"], [("membership and type checks", "broker.go, dealer.go ReceiveMessage/ReceivePublish/AddSession/RemoveSession")], ["error returns, subsequent behaviour"])

p("C12", "Concurrent router operations behave as if executed one at a time",
  "Broker and dealer may be used from several goroutines at once: every set of concurrent operations gives results and a final state that some sequential order of the same operations gives, an order in which whatever returned before something else was called also comes before it; without data races and without deadlock.",
  ["schedules"],
  "all schedules, up to a preemption bound, of two and three threads doing one to three operations each on colliding topics, procedures, calls and sessions, with preemption possible before every statement of the library",
  "The tests are single-threaded and not run under a scheduler; an unlocked or early-released critical section passes them all.",
  ["broker.go", "dealer.go", "idgen.go"], [("one mutex around each operation", "broker.go, dealer.go, idgen.go")], ["results of concurrent calls", "happens-before race detection"])

p("C13", "Router-assigned ids are unique, in range and unpredictable across processes",
  "Ids handed out sequentially by one generator are consecutive, start at 1, never leave 1..2^53 and wrap to 1 after 2^53, also when several goroutines draw at once: no id is handed out twice before a wrap. Randomly drawn global ids lie in 1..2^53 whatever the random source returns, and two separate processes do not draw the same sequence.",
  ["schedules", "inputs"],
  "all schedules of two to three concurrent drawers up to the preemption bound; every start state around the wrap; boundary answers of the random source; pairs of processes",
  "The tests draw nine ids from one goroutine and compare two random ids within one process.",
  ["idgen.go"], [("locked counter", "idgen.go NextID"), ("random draw and seeding", "idgen.go GenerateID, init")], ["returned ids"],
  [("id", "last id handed out", "idgen.go")])

p("C14", "A client session accepts each answer at most once, also concurrently",
  "When several goroutines feed messages to and send messages through one client session, each outstanding request is answered at most once: of concurrent duplicate final answers exactly one is accepted, an answer to a request whose sending has returned is not refused, each send returns the bytes of its own message, and there are no data races, deadlocks or panics.",
  ["schedules"],
  "all schedules up to a preemption bound of two and three threads sending requests and receiving (duplicate) answers on one session, with preemption before every statement and map operation of the library",
  "The session tests are single-threaded.",
  ["session.go", "internal/map.go"], [("atomic take of the outstanding request", "session.go ReceiveMessage; internal/map.go LoadAndDelete")], ["accepted/refused per received message"])

p("C15", "A client session accepts exactly the answers it is waiting for",
  "A client session accepts a RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED or ERROR only for a request of the matching kind that it sent and that is still unanswered, and that final answer consumes the request; progressive RESULTs do not. EVENTs and INVOCATIONs are accepted exactly for subscriptions and registrations that are confirmed and not yet ended; GOODBYE and ABORT always, other types never. Sending serializes the message unchanged, refuses types and requests a client may not send, and a refused send records nothing.",
  ["histories", "inputs"],
  "every sequence up to a depth of sent requests and received messages over colliding request ids, all kinds, two subscription/registration ids, progress flags, and every message type",
  "The tests walk one happy path per request kind; duplicates, kind confusion on equal ids and answers after completion are never tried.",
  ["session.go"], [("outstanding-request tables", "session.go SendMessage, ReceiveMessage")], ["Session.SendMessage/ReceiveMessage/Receive returns"],
  [("callRequests..unsubscribeRequests", "outstanding requests by kind", "session.go")])

p("C16", "Clients and router stay in agreement under every delivery order",
  "When client sessions talk to the broker and dealer over ordered channels, then whatever the interleaving of client requests, router processing and deliveries, no client ever refuses a message the router sent it (chunks of a call that cross its final answer excepted). Every request is answered once all messages are delivered (calls once their callee has answered), and events and invocations reach only clients holding the subscription or registration.",
  ["schedules", "histories"],
  "all interleavings of scripted requests of two or three clients with router steps and per-client FIFO deliveries in both directions, over all reachable states of the composed system",
  "No test connects a session to a broker or dealer; each side is tested against hand-made messages.",
  ["session.go", "broker.go", "dealer.go"], [("request tracking on both sides", "session.go; broker.go; dealer.go")], ["Session.Receive errors", "unanswered requests at quiescence"])

p("C17", "Nobody is welcomed without passing the configured authentication",
  "Whatever sequence of messages a peer sends, the acceptor answers WELCOME only after the server authenticator has accepted the peer by a method that the server enabled and the client offered (the first such method; none offered meaning anonymous), and, for challenge methods, after a correct response in the same handshake. At most one WELCOME is sent; session details exist exactly after it. After WELCOME or ABORT every further message is refused.",
  ["histories", "inputs", "configurations"],
  "every sequence up to a depth of HELLO variants (method lists, key material), AUTHENTICATE variants (right, wrong, replayed, malformed) and all other message types, for every subset of enabled methods and accepting/rejecting authenticators",
  "The tests follow one right and one wrong path per method; retry after ABORT, disabled methods, second HELLO and stray messages are not covered.",
  ["acceptor.go", "auth/helpers.go"], [("handshake state machine", "acceptor.go ReceiveMessage"), ("method selection", "auth/helpers.go SelectAuthMethod")], ["type of the reply, SessionDetails, welcomed flag"],
  [("state", "handshake phase", "acceptor.go")])

p("C18", "Challenge responses count only for this challenge, key and secret",
  "A ticket, WAMP-CRA or cryptosign response is accepted exactly if it was produced for the challenge of this very handshake with the secret or private key the server authenticator named; responses recorded from other handshakes, made with other keys, truncated, extended or otherwise altered are rejected without a crash. Challenges of different handshakes differ. A client computes the response the server expects for every salt, iteration and key length parameter the server may announce, and malformed parameters give an error or a mere rejection, not a crash. The public key a cryptosign client announces is that of its private key; generated key pairs belong together and differ; a signature verifies only against the 32-byte public key of its signer.",
  ["inputs", "histories"],
  "every single-character alteration of valid responses, replays across handshakes, key/secret mismatches, salted and unsalted parameter combinations including absent, zero, negative and wrongly typed ones",
  "The tests try one valid and one wrong secret or key per method; replays and alterations are never tried.",
  ["acceptor.go", "auth/cryptosign.go", "auth/wampcra.go", "auth/ticket.go"], [("signature verification", "auth/cryptosign.go VerifyCryptoSignSignature; auth/wampcra.go VerifyWAMPCRASignature"), ("challenge kept per handshake", "acceptor.go")], ["WELCOME vs ABORT/error"],
  [("challenge", "challenge sent in this handshake", "acceptor.go")])

p("C19", "Both ends of a completed handshake agree on who joined",
  "After a successful handshake, client and router hold the same session id, realm, authid, authrole and authmethod for every authentication method and serializer, and also when messages are exchanged without serialization. Authid and authrole are those the server authenticator decided on, not what the client claimed; realm and method are those of the HELLO that was accepted. The authenticator sees exactly what the client sent: realm, authid, authextra, ticket or public key; the router keeps the extra of the AUTHENTICATE, if there was one.",
  ["inputs", "configurations"],
  "every combination of serializer or none, method, realm/authid/authextra value (empty, unicode, long), salted or not, and authenticator decision (identity kept or replaced)",
  "The tests check that details are non-empty, for one identity.",
  ["acceptor.go", "joiner.go", "messages/hello.go", "messages/welcome.go", "auth/authenticator.go"], [("WELCOME construction", "acceptor.go sendWelcome"), ("WELCOME parsing", "joiner.go ReceiveMessage")], ["SessionDetails on both sides", "arguments of ServerAuthenticator.Authenticate"])

p("C20", "A joiner is joined only by a WELCOME that answers its HELLO",
  "The joiner has session details exactly after accepting a WELCOME that arrived after it sent HELLO and before any ABORT; it answers CHALLENGE once per HELLO with its authenticator's response and never otherwise. The details name the realm it asked for. ABORT is reported as an error carrying the reason and ends the attempt. Any other or malformed message, in any state, gives an error, never a panic and never a session.",
  ["histories", "inputs"],
  "every sequence up to a depth of SendHello and received messages of all types, including WELCOME with missing or wrongly typed details and CHALLENGE with missing parameters, for every client authenticator",
  "The tests run the happy path and one WELCOME without roles.",
  ["joiner.go"], [("join state machine", "joiner.go SendHello, ReceiveMessage")], ["returned message/error, SessionDetails"],
  [("state", "join phase", "joiner.go")])

p("C21", "Every message survives the wire unchanged under every serializer",
  "For every message type and every serializer, deserializing what was serialized gives a message of the same type whose fields equal the original's, for ids in 1..2^53, any strings, and dictionaries, argument lists and keyword arguments that are absent, empty, or hold nested JSON-representable values. Absent and empty arguments may be exchanged for one another; keyword arguments without arguments are representable for every type that has them.",
  ["inputs", "configurations"],
  "24 message types x 3 serializers x boundary values of every field (encoding-width boundaries of ids, strings, lists and dictionaries)",
  "One test serializes one ABORT; the interop tests need an external tool.",
  ["serializers/*.go", "messages/*.go"], [("Marshal/Parse pairs", "messages/*.go"), ("serializers", "serializers/json.go, cbor.go, msgpack.go")], ["fields of the deserialized message"])

p("C22", "Malformed input is rejected with an error and never crashes the decoder",
  "For any byte string, every serializer's deserialization returns a message or an error. A list is accepted as a message exactly if its first element is a known type number, its length is within the type's limits and each element has the type the WAMP message layout requires; everything else is an error. What is accepted has the field values found in the list.",
  ["inputs"],
  "all byte strings up to length 3 per serializer plus every list shape up to length 8 over an alphabet of one value per kind, for every type number 0..80 and odd type values",
  "The validator tests check individual validators with two inputs each; whole messages that are too short, too long or mistyped are not tried.",
  ["serializers/helpers.go", "messages/validator.go", "messages/*.go"], [("validation specs", "messages/*.go, messages/validator.go"), ("type dispatch", "serializers/helpers.go ToMessage")], ["error or message"])

p("C23", "Application payload codecs are inverse to each other and total",
  "Decoding an encoded payload gives back the same arguments and keyword arguments for every payload serializer, absent and empty being interchangeable; the pass-through serializer carries one byte string unchanged and refuses everything else. Unknown serializer ids are refused. Decoding arbitrary bytes yields a payload or an error, never a crash; what is no list of at most an argument list and a keyword dictionary (in this order) is refused, except that null in place of the whole list may stand for an empty payload.",
  ["inputs"],
  "all serializer ids 0..4 and beyond x payload shapes (no/empty/one/many arguments x no/empty/nested keyword arguments) and all byte strings up to length 2 plus all small list shapes",
  "No test covers the payload codecs.",
  ["serializers/payload.go", "serializers/cbor.go"], [("encode/decode pairs", "serializers/payload.go; serializers/cbor.go EncodeCBOR/DecodeCBOR")], ["decoded args and kwargs"])

p("C24", "Raw-socket handshake encodes and decodes exactly",
  "For every serializer 1..15 and every power of two from 2^9 to 2^24 as maximum message size, receiving a sent handshake gives back both values, the bytes being 0x7F, size exponent minus 9 in the high and serializer in the low nibble, and two zero bytes. Sending with any other maximum size is an error, never a crash. Receiving accepts exactly the 4-byte strings with the magic byte first and two zero bytes last.",
  ["inputs"],
  "all 2^32 four-byte strings, all strings of other lengths up to 8 in structure, all sizes -70000..2^24+70000 plus boundary values of int, all serializers 1..15",
  "The transports package has no tests at all.",
  ["transports/rawsocket.go"], [("handshake codec", "transports/rawsocket.go SendHandshake, ReceiveHandshake")], ["bytes and decoded handshake"])

p("C25", "Raw-socket frame headers encode and decode exactly",
  "For every message kind and every length from 0 to 2^24-1, the header is the kind byte followed by the length as three bytes, most significant first, and receiving it gives back kind and length. Receiving a header of the wrong length is an error, never a crash. The integer helpers are inverse to each other on that range.",
  ["inputs"],
  "all 2^24 lengths x the three kinds, all 256 kinds at boundary lengths, all header byte strings of length 0..8 in structure",
  "The transports package has no tests at all.",
  ["transports/rawsocket.go"], [("header codec", "transports/rawsocket.go SendMessageHeader, ReceiveMessageHeader, IntToBytes, BytesToInt")], ["bytes and decoded header"])

p("C26", "Numeric and type conversions preserve the value or refuse",
  "Conversion to uint64 or float64 accepts every Go integer and floating-point type and preserves every value the target can represent; conversion to int does so too and refuses values outside int's range instead of returning a wrong number. Non-numeric values are refused, and the string and bool conversions accept exactly strings and bools.",
  ["inputs"],
  "every Go numeric kind x all boundary values of all kinds (powers of two +-1, extremes, NaN, infinities), plus all 8- and 16-bit values, plus every non-numeric kind",
  "The tests convert one in-range value of some kinds.",
  ["util/util.go"], [("type switches", "util/util.go AsInt, AsUInt64, AsFloat64")], ["returned value and flag"])

p("C27", "Timestamps denote the given instant in ISO 8601",
  "The ISO 8601 rendering of a time has the form YYYY-MM-DDThh:mm:ss followed by Z exactly for a zero offset or by sign, two-digit hours and two-digit minutes, and parsing it gives back the same instant to the second for every whole-minute zone offset. The current-time rendering and the timestamps in WAMP-CRA challenges have this form, and the challenge names the given session, authid, authrole, provider and method.",
  ["inputs"],
  "all whole-minute offsets from -15:59 to +15:59 x a set of boundary instants; challenge texts for all identity values of the alphabet",
  "The tests check three whole-hour offsets.",
  ["auth/iso8601.go", "auth/wampcra.go"], [("offset formatting", "auth/iso8601.go ISO8601"), ("challenge text", "auth/wampcra.go GenerateWAMPCRAChallenge")], ["returned strings"])

p("C28", "Separate objects do not interact, and what was handed in or out stays as it is",
  "Messages, encoded frames, recipient lists, session details, challenges and signatures handed out by the library are not changed by any later operation on the same or on another object, and messages, options, argument lists and maps handed to it are not changed by it. Brokers, dealers, client sessions, handshake objects, serializers, authenticators and id generators that were created separately behave the same whether or not others are used in between, or at the same time from other goroutines, and that use causes no data race. Serializers, client authenticators and messages may be shared between goroutines.",
  ["histories", "schedules"],
  "all interleavings of the operation sequences of two objects, for all pairs of 23 kinds of objects; all schedules up to a preemption bound of separate and of shared objects used from separate goroutines",
  "The tests use one object at a time and look at a result only directly after the call that gave it.",
  ["broker.go", "dealer.go", "session.go", "acceptor.go", "joiner.go", "auth", "serializers", "messages", "transports"],
  [("constructors and results", "NewBroker, NewDealer, NewSession, NewAcceptor, NewJoiner, serializers.*, messages.New*"), ("package-level state", "joiner.go ClientRoles, acceptor.go RouterRoles, idgen.go")],
  ["results of both objects, snapshots of everything handed in and out"])

p("C29", "Clients that join by handshake are served under the identity they joined with",
  "A client that completes the handshake is attached to broker and dealer with the details it was welcomed with: everything addressed to that session id reaches it, disclosed identities (session id, authid, authrole) are those of its own handshake, and payloads reach it in the form its serializer handles. Over a connection of framed bytes, whichever serializers and authentication methods the two ends use, the arguments of publications and calls, the results (progressive or not), and error URIs, details and arguments arrive equal to what was sent, and every reply answers the request it belongs to. After GOODBYE or detachment the old session receives nothing and offers nothing, and the client can join again at once as a new session whose reused request ids do not meet leftovers of the old one. Messages made from user-supplied fields are treated like those of the constructors.",
  ["inputs", "histories", "schedules"],
  "all conversations: serializer pairs x method pairs x disclosure x flows x match policies x payloads; all interleavings of 2-3 clients that join, work, leave and rejoin, within budgets",
  "The tests attach sessions made by hand to the router objects, and hand message objects over instead of bytes.",
  ["acceptor.go", "joiner.go", "broker.go", "dealer.go", "session.go", "messages", "serializers", "transports"],
  [("details of a session", "acceptor.go SessionDetails, session_details.go"), ("addressing", "broker.go, dealer.go"), ("fields interfaces", "messages New...WithFields")],
  ["bytes on the wire", "messages delivered to both clients"])

p("C30", "Messages travel in the WAMP wire format, in any of its valid encodings",
  "What a serializer emits for a message is exactly one well-formed value of its format (JSON in UTF-8, MsgPack, CBOR): the list that the WAMP specification prescribes for that message, with the specification's type code, its element order, integer ids, and arguments and keyword arguments only as trailing elements; HELLO carries authid, authmethods, authextra and roles under these names in its details. Integers are encoded as integers, and in MsgPack and CBOR floating-point numbers stay such and binary values stay binary. Conversely every valid encoding of such a list by another implementation (wider integer, float and length forms, indefinite lengths in CBOR, signed or unsigned MsgPack forms, white space and escapes in JSON, any dictionary order) is decoded to the same message, and likewise for payloads. HELLO and WELCOME announce the roles of client and router and their features by the specification's names.",
  ["inputs", "configurations"],
  "24 message types x 3 serializers x boundary values of any two or three fields; all valid encodings that differ from the plain one at one or two places or use one form throughout",
  "A round trip through one implementation cannot tell whether another implementation understands it; the tests of interoperability need an external tool.",
  ["messages/*.go", "serializers/*.go", "joiner.go", "acceptor.go"],
  [("lists", "messages/*.go Marshal, Parse"), ("codecs", "serializers/json.go, msgpack.go, msgpack_check.go, cbor.go, payload.go"), ("announced roles", "joiner.go ClientRoles, acceptor.go RouterRoles")],
  ["bytes emitted", "messages decoded"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
