#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the editable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": state or [], "observe_at": observe, "hook_needed": None}})
C="mqtt/client.go"; K="mqtt/packets/"; PR="mqtt/packets/primitives/"
NOTEST="The only existing tests are 19 topic-filter samples; nothing exercises this code at all, and "

p("C01","CONNECT encoding is valid MQTT 5 and carries exactly what was set",
 "For every CONNECT value a user can build for MQTT 5 within the protocol's field limits, the bytes produced are one well-formed MQTT 5 CONNECT packet: every declared length equals the bytes it covers, every flag agrees with the payload, and every property has the identifier and type the specification gives it. Decoding those bytes by the specification yields exactly the fields that were set and nothing else, and the reported byte count equals the bytes produced. A will is present if and only if a will payload was set, with its topic, QoS, retain flag and properties.",
 ["inputs"],"every subset of the optional fields present/absent (full cross product), and every field at its boundary lengths (0,1,127,128,16383,16384,65535 bytes; property sections crossing the 1/2/3-byte length encodings)",
 NOTEST+"a length-accounting error only shows for particular combinations of optional fields and sizes.",
 [K+"connect.go",PR+"string.go",PR+"varint.go"],[("Connect.WriteTo computes lengths, then writes the fields",K+"connect.go")],["bytes passed to the io.Writer","returned count"])
p("C02","PUBLISH encoding is valid MQTT 5 and round-trips",
 "For every PUBLISH value within protocol limits the encoder produces one well-formed MQTT 5 PUBLISH packet whose lengths, flags, properties and payload are exactly those set, and reports the number of bytes produced; a PUBLISH with neither topic nor topic alias, or with a string longer than 65535 bytes, is refused with an error. Decoding an encoded packet with the library's own stand-alone decoder yields the same packet and consumes exactly its bytes.",
 ["inputs"],"every subset of optional properties x QoS x retain x duplicate, payload and property-section sizes around every length-encoding boundary",
 NOTEST+"samples do not reach the size boundaries and option combinations.",
 [K+"publish.go",PR+"string.go"],[("Publish.WriteTo / Publish.ReadFrom",K+"publish.go")],["bytes passed to the io.Writer","decoded struct"])
p("C03","SUBSCRIBE/UNSUBSCRIBE encoding and subscription options are exact",
 "For every list of topic filters and every sequence of option setters, the SUBSCRIBE and UNSUBSCRIBE bytes are well-formed MQTT 5 packets that carry exactly the filters in order and, for each, the last QoS, No Local, Retain As Published and Retain Handling values set, with reserved bits zero. No Local is never set on a shared subscription, whatever the order of the setters, no setter panics for any filter, and an empty filter list is refused with an error.",
 ["inputs","histories"],"all setter sequences up to a depth over short, shared and ordinary filters; 0..3 topics; with/without properties; size boundaries",
 NOTEST+"option bits interact through the order of setter calls.",
 [K+"subscribe.go",K+"unsubscribe.go",K+"topic.go"],[("Topic setters pack options into one byte",K+"topic.go"),("Subscribe.WriteTo / Unsubscribe.WriteTo",K+"subscribe.go")],["bytes passed to the io.Writer"])
p("C04","Acknowledgement, DISCONNECT and AUTH encoding is valid and exact",
 "For every PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT and AUTH value within protocol limits, the bytes produced are one well-formed MQTT 5 packet of that type with the fixed-header flags the specification requires, carrying exactly the identifier, reason code and properties set. The reported byte count equals the bytes produced.",
 ["inputs"],"every packet type x reason-code value x subset of properties x section sizes around the length-encoding boundaries; re-encoding the same value twice",
 NOTEST+"length accounting depends on the combination of fields present.",
 [K+"puback.go",K+"disconnect.go",K+"auth.go"],[("Puback.WriteTo and its type overrides",K+"puback.go"),("Disconnect.WriteTo",K+"disconnect.go"),("Auth.WriteTo",K+"auth.go")],["bytes passed to the io.Writer"])
p("C05","Inbound packets decode exactly, however the transport fragments them",
 "Every well-formed server packet (CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH), including the short forms with omitted reason code or properties and every property the specification allows, decodes to exactly its content and consumes exactly its bytes. The result does not depend on how the transport splits the byte stream into reads, so a following packet on the same stream is decoded intact.",
 ["inputs","schedules"],"every subset of allowed properties per packet type, every short form, size boundaries; for a set of representative packets every possible split of the stream into reads",
 NOTEST+"real sockets return short reads at arbitrary positions, which a test with an in-memory buffer never does.",
 [K+"connack.go",K+"publish.go",K+"puback.go",K+"suback.go",K+"unsuback.go",K+"disconnect.go",K+"auth.go",PR+"string.go",PR+"io.go"],[("the ReadFrom decoders over primitives",K),("full-length reads",PR+"string.go")],["decoded struct","bytes consumed from the stream"])
p("C06","Malformed inbound packets are refused without panic, hang or over-read",
 "Whatever bytes the server sends, polling never panics and never takes more bytes from the stream than the packet it is decoding declares. A packet whose body is shorter or longer than its declared length, whose property section overruns or cuts a property, which carries an unknown property identifier, or which is a PUBLISH with a QoS of 3 makes the poll return an error instead of delivering a packet.",
 ["inputs"],"every truncation, every extension, every single-byte length corruption of every packet form, every property identifier, and every short byte string up to a bound, each followed by sentinel bytes",
 NOTEST+"robustness is a statement about all byte strings.",
 [C,K+"publish.go",K+"connack.go",K+"puback.go",K+"suback.go",K+"unsuback.go",K+"disconnect.go",K+"auth.go",PR+"varint.go"],[("Poll limits the decoder to the declared body and checks that all of it was used",C),("unknown property identifiers are refused","mqtt/packets/*.go")],["error returned by Poll","bytes consumed","delivered events"])
p("C07","Primitive encodings are exact inverses over their whole domain",
 "Every variable byte integer from 0 to 268435455 is written in its minimal 1-4 byte form and read back as the same value with the right count and length; larger values are refused on writing, and an encoding longer than four bytes is refused on reading. Bytes, 16-bit, 32-bit integers and strings up to 65535 bytes round-trip in big-endian form with exact counts and lengths, with or without a property identifier, and longer strings are refused.",
 ["inputs"],"all 2^28 variable byte integers, all byte strings of up to 5 bytes as encodings (by class), all 2^16 16-bit values, all 256 bytes, boundary 32-bit values, all string lengths 0..65540",
 NOTEST+"the whole domain can only be covered by enumeration.",
 [PR+"varint.go",PR+"string.go",PR+"uint16.go",PR+"uint32.go",PR+"byte.go",PR+"io.go"],[("base-128 loop",PR+"varint.go")],["bytes written","value read"])
p("C08","PUBLISH payload streaming behaves as a bounded reader and writer",
 "Reading a publish's payload in pieces of any size returns its bytes in order, each exactly once, then end-of-file; writing in pieces of any size fills the payload buffer in order without overrunning it, then reports end-of-file; and after a reset either starts again at the first byte.",
 ["histories"],"every sequence of read/write/reset calls with sizes 0..n up to a depth, for payload sizes 0..n",
 NOTEST+"the cursor state depends on the whole history of calls.",
 [K+"publish.go"],[("cursor over the payload slice",K+"publish.go")],["returned counts, errors and bytes"])
p("T01","Topic filters match exactly the topics MQTT says they match",
 "For every valid topic filter (other than shared-subscription filters) and every topic name, a bound subscription is considered matching if and only if MQTT 5 section 4.7 says so: '+' matches exactly one level (possibly empty), '#' matches the parent and any number of further levels, a filter beginning with a wildcard does not match a topic beginning with '$', and everything else matches literally. A filter with a misplaced wildcard matches nothing, and matching never panics.",
 ["inputs"],"all filters and all topics up to a length over an alphabet of two letters, '/', '$', and the wildcards",
 "The existing test samples 19 pairs; a bug in level skipping appears only for particular relative level lengths.",
 [C,"mqtt/client_test.go"],[("two-cursor scan of filter and topic",C)],["which event channels receive a publish"])
p("S01","The memory store behaves as a map from identifier to packet",
 "Under any sequence of operations the in-memory store holds exactly the packets stored and not yet dropped: storing an identifier already present is refused and changes nothing, getting returns the very packet stored, and getting or dropping an absent identifier reports so. Under concurrent use every history is linearizable with respect to that map.",
 ["histories","schedules"],"every operation sequence up to a depth over 3 identifiers; every interleaving of 2-3 concurrent clients",
 NOTEST+"aliasing of the backing slice after removals only shows in particular sequences, and races only under particular schedules.",
 ["mqtt/storage/memory/memory.go","mqtt/storage/storage.go"],[("mutex around a slice of entries","mqtt/storage/memory/memory.go")],["return values of Store/Get/Drop"])
p("L01","Connect succeeds exactly when the server accepts the connection",
 "Connect sends exactly one CONNECT and reports success, with the client connected, exactly when the server answers with a CONNACK whose reason code is below 0x80; a refusal is returned as that reason code with the connection closed, and any other answer or transport failure is returned as an error with the client not connected. After success the effective keep-alive interval is the server's if it gave one and otherwise the requested one, and the connection acknowledgement is announced on every event channel.",
 ["inputs","fault_sequences"],"every CONNACK reason code x session flag x presence/value of each negotiated property, every other packet type as answer, every transport fault position",
 NOTEST+"the outcome depends on every server answer and fault position.",
 [C],[("Connect handshake",C)],["error from Connect","IsConnected","bytes on the wire","KeepAliveInterval","events"])
p("L02","After disconnection nothing more is sent and every call is refused",
 "A connected client that disconnects sends exactly one DISCONNECT (with the will-publication reason and session expiry as requested, the latter only if the session was opened with a non-zero expiry), closes the connection, and announces it. Once the client has disconnected, the server has sent DISCONNECT, or the peer has closed the connection, the client reports itself not connected, every further operation returns the not-connected error, and not one more byte is written.",
 ["histories","schedules"],"every sequence of operations up to a depth around each of the three endings, and every interleaving of a disconnect with one other operation",
 NOTEST+"it is a property of all continuations after the ending and of races with operations in progress.",
 [C],[("connected flag checked by every operation",C),("Disconnect sends then closes",C)],["bytes on the wire","IsConnected","errors returned"])
p("L03","A failed operation never wedges the client",
 "If any transport or storage call made by an operation fails at any point, that operation returns an error instead of hanging or panicking, and afterwards every other operation of the client can still run to completion (with success or an error).",
 ["fault_sequences","histories"],"every single fault (and pairs in the thorough tier) of every deadline, read, write, close and storage call made by every operation in every history of the menu",
 NOTEST+"early-return paths that keep a lock are only taken when a particular call fails.",
 [C],[("lock release on every error return",C)],["operations returning at all"])
p("F01","Unacknowledged publishes never exceed the server's Receive Maximum",
 "At no moment, under any interleaving of concurrent publishers and acknowledgements from a conforming server, has the client more QoS 1 and QoS 2 publishes outstanding than the Receive Maximum of the CONNACK (65535 if it gave none). QoS 0 publishes are never held back.",
 ["schedules","histories"],"every interleaving of 2-3 publishers with the poll loop for small Receive Maximum, QoS mixes and acknowledgement orders",
 NOTEST+"overcommitting needs two publishers to pass the check before either is counted.",
 [C],[("send quota",C)],["PUBLISH packets on the wire versus acknowledgements delivered"],[{"name":"send quota","meaning":"free slots in the server's receive window","where":C}])
p("F02","No send slot is ever lost: blocked publishers resume when one frees",
 "Every acknowledgement that completes a QoS 1 or QoS 2 publish, including a refusal with a reason code of 0x80 or above, frees exactly one slot, so that after all outstanding publishes have completed the client can again send Receive Maximum publishes without blocking. A publisher that waits for a slot continues once one is free, under every interleaving of acknowledgement and waiting.",
 ["schedules","histories"],"every interleaving of publishers and acknowledgements for small Receive Maximum, then a probe that refills the window; every history of publishes and acknowledgement outcomes up to a depth",
 NOTEST+"a lost wake-up or a lost slot needs the acknowledgement to land between the check and the wait.",
 [C],[("send quota and the waiting publishers' wake-up",C)],["Publish returning","PUBLISH packets on the wire"])
p("F03","Inbound Receive Maximum is enforced exactly",
 "The client accepts as many unacknowledged QoS 1 and QoS 2 publishes as the Receive Maximum it announced (65535 if it announced none) and, when the server exceeds it, sends DISCONNECT with reason 0x93, closes the connection and reports an error without delivering or acknowledging the excess message. QoS 0 publishes never count, and completing an exchange frees exactly one slot.",
 ["histories"],"every sequence of inbound QoS 0/1/2 publishes and releases up to a depth for Receive Maximum 1..3 and absent",
 NOTEST+"the counter depends on the whole message history.",
 [C],[("receive quota",C)],["bytes on the wire","error from Poll","events"],[{"name":"receive quota","meaning":"publishes the server may still send","where":C}])
p("Q01","Every inbound publish gets exactly the acknowledgement its QoS requires",
 "For every inbound sequence, each QoS 1 publish is answered with exactly one PUBACK, each QoS 2 publish with exactly one PUBREC and each PUBREL with exactly one PUBCOMP, carrying the same packet identifier, in the order received; QoS 0 publishes are not answered. With storage enabled, the identifier of an open QoS 2 exchange is kept from the publish until its release and nothing is kept for QoS 1.",
 ["histories"],"every sequence of inbound publishes and releases up to a depth, with and without storage, with and without Receive Maximum",
 NOTEST+"it quantifies over inbound histories.",
 [C],[("Poll dispatch on packet type and QoS",C)],["bytes on the wire","storage contents"])
p("Q02","Outbound QoS 2 exchanges follow the protocol to completion",
 "Each PUBREC with a reason code below 0x80 is answered by exactly one PUBREL with the same identifier; a PUBREC with a reason code of 0x80 or above ends the exchange, is not answered, and leaves nothing stored. No other packet is sent in reaction to PUBACK, PUBREC or PUBCOMP, and each acknowledgement is announced as an event.",
 ["histories","inputs"],"every sequence of publishes and server answers (including every reason code class) up to a depth, with and without storage",
 NOTEST+"the failure branch is reached only by particular reason codes.",
 [C],[("Poll PUBREC branch",C)],["bytes on the wire","storage contents","events"])
p("Q03","An outbound QoS 1/2 message stays stored until the server has taken it over",
 "With storage enabled, a QoS 1 or QoS 2 publish is in the store before its first byte is written and stays there until its PUBACK or PUBREC arrives; after a successful PUBREC the exchange's PUBREC is stored until PUBCOMP. When every exchange has completed, or when a publish is refused without having been sent, the store is empty again.",
 ["histories","crash_points","fault_sequences"],"every history of publishes and acknowledgements up to a depth, with the store inspected at every write (crash point) and after every step, and with cancelled or refused publishes",
 NOTEST+"durability is a statement about every instant at which the process may stop.",
 [C,"mqtt/storage/storage.go"],[("store before send, drop on acknowledgement",C)],["storage calls relative to wire writes"])
p("Q04","A redelivered QoS 2 message is not delivered twice across reconnects",
 "With storage kept across a reconnect, a QoS 2 publish that the server redelivers because its exchange was cut before the release is acknowledged again but handed to the application only once in total, whether or not it is marked as a duplicate, and wherever the connection was cut after the message was first delivered. Once released, the same identifier may carry a new message, which is delivered.",
 ["crash_points","histories"],"every cut point of an inbound QoS 2 history between two sessions sharing a store, with conforming redelivery, 1-2 messages",
 NOTEST+"needs a reconnect at each point of the exchange.",
 [C],[("stored PUBREC of the open exchange",C)],["events delivered over both sessions","bytes on the wire"])
p("E01","Events reach exactly the right channels, in order, without blocking",
 "Every packet announced by the client is placed once on every open general event channel that has room, in arrival order; a publish is placed once on every channel bound to a matching filter and on no channel bound only to non-matching filters. A channel bound by a granted subscription receives exactly the publishes matching its filter from then on, and a full channel loses only its own event and never delays the client or other channels.",
 ["histories","configurations"],"every sequence of publishes over a topic menu for every assignment of channels to filters (several channels, several filters per channel) and channel capacities",
 NOTEST+"routing depends on the set of bindings and the order of events.",
 [C,"mqtt/events.go"],[("fan-out over channel maps with non-blocking sends",C)],["contents of event channels"])
p("E02","Event channels can be created, bound and closed at any time",
 "Creating, binding and closing event channels concurrently with event delivery never panics, deadlocks or delivers to a closed channel. Closing a channel signals its completion exactly once and only affects that channel, and a publish that arrives after the server granted a subscription is never lost between the general and the bound role of the channel.",
 ["schedules"],"every interleaving of the poll loop delivering events with create/close/subscribe/unsubscribe on another goroutine",
 NOTEST+"a send on a channel being closed happens only under particular interleavings.",
 [C,"mqtt/events.go"],[("event mutex",C)],["panics","channel contents and completion signals"])
p("R01","Each subscribe/unsubscribe call gets the outcome of its own request",
 "Under any interleaving of concurrent Subscribe and Unsubscribe calls and any order of the server's answers, each call returns exactly when its own acknowledgement arrives: nil if every topic was accepted, otherwise the first refusal reason. Channels are bound for exactly the accepted topics and unbound by exactly the accepted unsubscriptions, and duplicated, late, unrelated, mistyped or malformed acknowledgements neither crash nor block the client nor complete the wrong call.",
 ["schedules","histories"],"1-2 concurrent callers x every answer order x every reason-code vector over small topic lists x one stray acknowledgement at each position, over every interleaving with the poll loop",
 NOTEST+"cross-talk requires overlapping requests and particular answer orders.",
 [C],[("response channel per packet identifier",C)],["errors returned","channel bindings"])
p("R02","Packet identifiers are never zero and never in use twice",
 "Whatever values the random number source yields, the client never puts a packet identifier of zero on the wire for SUBSCRIBE, UNSUBSCRIBE or QoS 1/2 PUBLISH, and never assigns an identifier that one of its own unfinished exchanges is still using; and as long as an identifier is free, one is found. Storage makes no difference to this.",
 ["histories","inputs","schedules"],"every sequence of generator outputs over a colliding alphabet (including multiples of 65536) x every operation/acknowledgement history up to a depth, and concurrent callers",
 NOTEST+"collisions of random 16-bit values are rare but certain over time.",
 [C],[("identifier allocation",C)],["packet identifiers on the wire"])
p("D01","Concurrent use with a responsive server never deadlocks",
 "With one goroutine polling (with a context that has a deadline) and any others publishing, subscribing, unsubscribing, keeping alive, managing event channels or disconnecting, and a server that answers every request, every call returns under every interleaving.",
 ["schedules"],"every interleaving (up to commutation of independent steps) of the poll loop with every pair, and selected triples, of API operations",
 NOTEST+"lock-order inversions need a particular interleaving.",
 [C],[("lock ordering of connection, state and event locks",C)],["all calls returning"])
p("D02","Concurrent use is free of data races",
 "Under every interleaving of the documented concurrent use (poll loop, publishers, subscribers, keep-alive, event-channel management, state queries, disconnect), no two goroutines access the client's shared state without synchronisation, at least one of them writing.",
 ["schedules"],"happens-before race detection on every explored interleaving of the poll loop with every pair of API operations",
 NOTEST+"the existing tests use a single goroutine; the runtime race detector only sees schedules that happen.",
 [C,"mqtt/storage/memory/memory.go"],[("mutexes and atomics guarding client state",C)],["happens-before order of accesses to client, store and package state"])
p("W01","Concurrent senders never corrupt the packet stream",
 "Under every interleaving of operations, the bytes the server receives are a sequence of complete, well-formed packets, each written contiguously and each corresponding to exactly one client action, starting with CONNECT, and after a write that failed in the middle of a packet nothing more is written; the publishes of one goroutine appear in its program order.",
 ["schedules"],"every interleaving of the poll loop (sending acknowledgements) with every pair of sending operations, over a transport that may observe writes split at any call boundary",
 NOTEST+"interleaved partial writes only happen under contention.",
 [C],[("one buffered write per packet under the connection lock",C)],["bytes on the wire"])
p("K01","Keep-alive keeps live connections and ends dead ones",
 "Each keep-alive call sends one PINGREQ. As long as ping responses keep arriving and the client polls at least once per interval, no poll declares the connection dead; if none arrives within twice the effective interval, the next poll closes the connection, reports the keep-alive timeout and leaves the client not connected; and with a keep-alive of zero the connection is never declared dead.",
 ["histories","configurations"],"every sequence of keep-alive calls, polls, ping responses and clock advances up to a depth under a virtual clock, for intervals given by client, server, both and neither",
 NOTEST+"it is a statement about all timings; tests have no control over the clock.",
 [C],[("ping response deadline",C)],["bytes on the wire","error from Poll","IsConnected"])
p("X01","Waiting calls end when their context or the connection ends",
 "A call that waits for the server (Connect, Subscribe, Unsubscribe, or Publish waiting for a send slot) returns an error no later than its context's deadline or cancellation, and also when the connection ends while it waits, under every interleaving. A call abandoned this way leaves the client usable and its late answer harmless.",
 ["schedules","fault_sequences"],"each waiting call x each ending (deadline, cancel, server DISCONNECT, peer close, local disconnect) x every interleaving with the poll loop and the late answer",
 NOTEST+"requires the ending to fall at every point of the wait.",
 [C],[("wait for response, context end or connection end",C)],["calls returning and their errors"])
p("X02","Polling loses nothing, whatever the timing of arriving bytes",
 "A poll whose deadline passes with no data returns without error and without consuming anything. The packets delivered, the answers sent and their order are the same whatever the moments at which the bytes arrive relative to poll deadlines, as long as a packet once begun arrives within half a minute; if it does not, the connection is closed and an error returned, and nothing of the packet is taken for something else.",
 ["schedules","inputs"],"every split of a packet stream into two (three) arrival chunks x each chunk arriving before or after the current poll's deadline, under a virtual clock",
 NOTEST+"a poll deadline expiring in the middle of a packet header is a timing coincidence tests do not produce.",
 [C],[("deadline handling in Poll",C)],["events, wire answers and Poll errors"])
p("X03","No call is cut short by the deadline of another call",
 "Every call has only its own time limit: whatever deadlines earlier or concurrent calls had, kept, missed or cancelled, a call whose own context has no deadline, or leaves enough time for the transport and the server to complete, succeeds, and a packet whose first byte a poll has read is received and acknowledged in full although the deadline of that poll passes meanwhile. A call that is not delayed by another one returns no later than its own deadline.",
 ["histories","schedules"],"every sequence of two (three) calls x deadline of each (none, passed, short, sufficient) x pauses x transports that take no time or a second per write, and every interleaving of two calls with different deadlines next to a poll that receives a packet in pieces, under a virtual clock",
 NOTEST+"a deadline left behind only matters to a later call that happens to outlast it.",
 [C],[("I/O deadline set by each call under the connection lock",C)],["errors of the calls and the virtual time at which they return","events and wire answers"])
p("V01","Packets and events belong to the application",
 "A call sends exactly what the packet or topic list it is given says, and leaves it as it was apart from the packet identifier assigned to it and its encoded header, whether the call succeeds or fails and whatever the server answers: the same value can be given again, later or to another client, and is sent with the same content each time, even if the application has read a part of its payload. An event that was delivered never changes afterwards, whatever is received or sent later.",
 ["inputs","histories"],"every combination of packet shape x outcome of each of three uses (sent, write failure, refusal, next connection); every CONNECT shape x server answer x two clients; every history of four arrivals with all delivered events inspected again at the end",
 NOTEST+"a value that is altered or shared only shows when it is used again, after something else has happened.",
 [C,K+"publish.go",K+"connect.go",K+"subscribe.go"],[("encoding reads the packet without changing it",K+"publish.go"),("a new packet is allocated for everything received",C)],["bytes on the wire of repeated uses","fields of the packets and events held by the application"])
p("I01","Clients in one process do not influence each other",
 "Two clients with separate connections and stores, used concurrently, behave exactly as if each were alone: the bytes they send, the events they deliver and the errors they return do not depend on the other, under every interleaving, and they share no unsynchronised state.",
 ["schedules"],"every interleaving of two clients each running a short session (encode, decode, route, store), with race detection including package-level state",
 NOTEST+"shared scratch state only corrupts under overlap of two clients.",
 [C,PR+"varint.go",PR+"io.go",K],[("no mutable package-level state","mqtt/")],["bytes on the wire and events of both clients"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
