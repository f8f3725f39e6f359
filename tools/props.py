#!/usr/bin/env python3
"""Writes properties.jsonl (kept as one Python table so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V5 = "src/mqtt_serde/mqttv5/"; V3 = "src/mqtt_serde/mqttv3/"; ENG = "src/mqtt_client/engine.rs"

prop("C01", "MQTT 5.0 packets survive encoding and decoding unchanged",
 "Every legal MQTT 5.0 packet of every type, with any combination of flags, reason codes, identifiers, payload and properties, encodes to exactly the bytes the MQTT 5.0 specification prescribes. Decoding those bytes, alone or followed by other bytes, yields an equal packet and consumes exactly the packet's own length.",
 ["inputs"], "all MQTT 5.0 packets over small value alphabets that include every boundary (empty/long strings, length-field boundaries 127/128/16383/16384, all 27 properties alone and in pairs, all reason codes, all flag combinations)",
 "The unit tests encode a few dozen hand-written packets; the field x flag x property x length-boundary product is what real peers exercise.",
 [V5, "src/mqtt_serde/base_data.rs", "src/mqtt_serde/control_packet.rs", "src/mqtt_serde/base_data.rs"],
 [("per-packet to_bytes/from_bytes", V5), ("property codec", V5 + "common/properties.rs"), ("variable byte integer", "src/mqtt_serde/base_data.rs")],
 ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version(_, 5)", "MqttPacket::from_bytes_v5"])

prop("C02", "MQTT 3.1.1 packets survive encoding and decoding unchanged",
 "Every legal MQTT 3.1.1 packet of every type, with any combination of flags, return codes, identifiers, will, credentials and payload, encodes to exactly the bytes the MQTT 3.1.1 specification prescribes. Decoding those bytes, alone or followed by other bytes, yields an equal packet and consumes exactly the packet's own length.",
 ["inputs"], "all MQTT 3.1.1 packets over small value alphabets that include every boundary",
 "As for MQTT 5.0: tests hold a handful of packets per type.",
 [V3, "src/mqtt_serde/base_data.rs", "src/mqtt_serde/control_packet.rs"],
 [("per-packet to_bytes/from_bytes", V3)],
 ["MqttPacket::to_bytes", "MqttPacket::from_bytes_with_version(_, 4)", "MqttPacket::from_bytes_v3"])

prop("C03", "Decoding any bytes is total and confined to the packet's frame",
 "For any byte string, decoding it as MQTT 3.1.1 or 5.0 returns promptly with a packet, a request for more bytes or an error, without panicking and without consuming more bytes than it was given. The result for a complete frame depends only on the bytes inside that frame (as declared by its remaining length), never on bytes that follow it, and a strict prefix of a legal packet is reported as incomplete, never as a packet or a malformed one.",
 ["inputs"], "all byte strings of the stated short lengths over a structural alphabet, every truncation and every single-byte mutation of a corpus with one packet of each shape, each with several trailing-byte contexts",
 "Network input is adversarial; a test suite can only try some malformed frames, while one panic or over-read on any of them is a remote crash.",
 ["src/mqtt_serde/"], [("length arithmetic in every from_bytes", V5), ("fixed header", "src/mqtt_serde/parser/mod.rs"), ("property list length", V5 + "common/properties.rs")],
 ["MqttPacket::from_bytes_with_version", "MqttParser::next_packet"])

prop("C04", "Malformed packets are rejected in both directions",
 "With strict protocol compliance on (the default), decoding an MQTT 5.0 frame never yields a packet if the frame breaks one of these rules: fixed-header flags other than those prescribed for its type, QoS 3, DUP with QoS 0, packet identifier 0 in SUBSCRIBE, SUBACK, UNSUBSCRIBE or UNSUBACK, an empty list in one of these, reserved bits in CONNECT flags, CONNACK flags or subscription options, will flags without a will, an over-long variable byte integer, a string that is not UTF-8 or contains U+0000, wildcards in a PUBLISH topic, an ill-formed topic filter or shared subscription in SUBSCRIBE, No Local on a shared subscription, an unknown property, and any length that overruns or underfills what contains it. MQTT 3.1.1 frames are held to the same rules about fixed-header flags, reserved bits, QoS 3, will flags, strings, empty SUBSCRIBE lists and lengths. Encoding never emits bytes that misstate a field: a string or binary longer than 65,535 bytes, a subscription identifier above 268,435,455, a QoS 1 or 2 PUBLISH without identifier, or a QoS above 2 in PUBLISH or SUBSCRIBE, is an error, not a truncated field.",
 ["inputs"], "every catalogue violation applied at every place it fits in one packet of each shape, for both protocol versions; every over-long field in every packet type for the encoder",
 "Tests pick one instance of some rules; each rule has to hold at every field of every packet type.",
 ["src/mqtt_serde/"], [("flag and field validation in from_bytes", V5), ("property placement", V5 + "common/properties.rs"), ("string/length encoders", "src/mqtt_serde/base_data.rs")],
 ["MqttPacket::from_bytes_with_version", "MqttPacket::to_bytes"])

prop("C05", "Stream parsing does not depend on how bytes are chunked",
 "However a byte stream of MQTT packets is cut into pieces on arrival, the streaming parser, the reader-based packet iterator and the client engine deliver the same packets, in the same order, as when the whole stream arrives at once, and each packet is delivered as soon as its last byte has arrived. An incomplete packet is never an error, also when only part of its fixed header is there and also when reads fail in between; a malformed packet is reported after all packets before it and no later than its last byte, and nothing after it is delivered. The protocol version of a CONNECT is detected the same way from any prefix that contains it.",
 ["inputs", "schedules"], "all 1- and 2-cut splits (and byte-by-byte delivery) of every sequence of up to 3 packets from an alphabet covering every type and both versions, interleaved with polls after every piece",
 "Tests feed whole packets or a few chosen splits; TCP may cut anywhere, including inside the length field.",
 ["src/mqtt_serde/parser/stream.rs", "src/mqtt_serde/parser/mod.rs", ENG],
 [("MqttParser::feed/next_packet", "src/mqtt_serde/parser/stream.rs"), ("MqttStream iterator", "src/mqtt_serde/parser/stream.rs"), ("handle_incoming parse loop", ENG)],
 ["MqttParser::next_packet", "MqttStream::next", "MqttEngine::handle_incoming events"])

prop("C06", "Every parse level agrees with full parsing",
 "At each partial parse level the parser cuts the stream into the same frames as full parsing does and reports the packet type, flags, body bytes and, at the headers level, the variable header fields and payload boundaries that full parsing would. A well-formed packet is accepted at every level, an incomplete one is reported as incomplete at every level, and a frame whose variable header is malformed is an error at the headers level; no input makes a level panic.",
 ["inputs"], "all packets of the codec alphabets and all their truncations and single-byte mutations, at each of the four levels, for both versions",
 "The levels are four separate implementations of the same grammar; tests compare them on a few packets.",
 ["src/mqtt_serde/parser/leveled.rs", "src/mqtt_serde/parser/stream.rs"],
 [("leveled parse functions", "src/mqtt_serde/parser/leveled.rs")],
 ["MqttParser::next_parsed", "ParsedPacket variants"])

prop("Q01", "The priority queue is bounded, ordered by priority, FIFO within one",
 "The message priority queue always hands out the oldest entry of the highest non-empty priority and never holds more entries than its limit: an enqueue that would exceed it drops the oldest entry of the lowest priority present, which may be the new entry itself. Every other entry is handed out exactly once. Saving then loading a queue reproduces it exactly; a save that could not be written completely is an error, and a truncated file is refused.",
 ["histories", "crash_points"], "all enqueue/dequeue/peek/clear/save/load sequences to the stated depth over small priorities and limits",
 "Order and bound must hold after every history; tests run a few.",
 ["src/priority_queue.rs"], [("PriorityQueue", "src/priority_queue.rs")], ["PriorityQueue public API"])

prop("E01", "No two messages in flight ever share a packet identifier",
 "At every moment each unfinished QoS 1 or 2 publish, subscribe and unsubscribe of a client has its own non-zero packet identifier, also after the 16-bit counter wraps and when the application chooses identifiers itself. An identifier that is still in use is never assigned to, or accepted for, another operation.",
 ["histories"], "all operation histories to the stated depth starting from every interesting counter position (fresh, just before wrap-around, with low identifiers still in flight)",
 "Wrap-around with an old identifier outstanding needs 65,535 operations and one slow acknowledgement; no test does that.",
 [ENG, "src/mqtt_client/inflight.rs"], [("next_packet_id", ENG), ("InflightQueue::push", "src/mqtt_client/inflight.rs")],
 ["MqttEngine::publish/subscribe/unsubscribe", "MqttEngine::take_outgoing"],
 [("next_packet_id", "identifier counter", ENG), ("inflight_queue", "unfinished operations by identifier", "src/mqtt_client/inflight.rs")])

prop("E02", "Each outgoing operation completes exactly once, by its own answer",
 "Every QoS 1 or 2 publish, subscribe and unsubscribe that was accepted is completed exactly once, by the acknowledgement of the right type carrying its identifier, with that acknowledgement's reason codes; QoS 2 runs PUBLISH, PUBREC, PUBREL, PUBCOMP, a PUBREC carrying an error ends it without a PUBREL. Acknowledgements that match no such operation complete nothing and disturb no other operation.",
 ["histories", "inputs"], "all interleavings of up to three operations with all acknowledgement types, matching and non-matching identifiers, duplicates and reason codes, in both protocol versions",
 "The order and kind of broker answers is the broker's choice; tests replay only the cooperative one.",
 [ENG, "src/mqtt_client/inflight.rs"], [("handle_packet", ENG), ("InflightQueue::acknowledge", "src/mqtt_client/inflight.rs")],
 ["MqttEngine::take_events", "MqttEngine::take_outgoing"])

prop("E03", "Unacknowledged publishes never exceed the receive maximum",
 "Counting from each CONNACK, the number of QoS 1 and 2 PUBLISH packets sent and not yet finally acknowledged never exceeds the receive maximum the server announced, or the client's configured one where it announced none. Queued publishes are sent as soon as an acknowledgement makes room, in priority order (oldest first within one priority) and without loss, and packets other than PUBLISH are never held back by the limit.",
 ["histories"], "all histories of publishes (all QoS and priorities), acknowledgements (good, error, unknown), CONNACKs with different limits and reconnects to the stated depth, limits 1-3",
 "The window has to be exact after every history of acks; a leak of one slot stalls a client forever and shows only after many messages.",
 [ENG, "src/mqtt_client/inflight.rs"], [("can_push_publish/update_receive_maximum", "src/mqtt_client/inflight.rs"), ("process_queue", ENG)],
 ["MqttEngine::take_outgoing"])

prop("E04", "Incoming messages are delivered and acknowledged per their QoS",
 "Each incoming QoS 0 or 1 PUBLISH is delivered to the application once and a QoS 1 one is answered by exactly one PUBACK with its identifier. With automatic acknowledgement (the default) every copy of an incoming QoS 2 PUBLISH is answered by PUBREC and the message is delivered exactly once however often the PUBLISH is repeated before its PUBREL, also over a resumed session; every PUBREL is answered by PUBCOMP, after which the identifier names a new message. With it off nothing is answered and every PUBLISH is delivered. Delivery order is arrival order.",
 ["histories", "inputs"], "all sequences of incoming PUBLISH (QoS 0-2, DUP, two identifiers), PUBREL and connection losses to the stated depth, in both versions",
 "Exactly-once is a property of the whole exchange including retransmissions after reconnects; tests deliver one message once.",
 [ENG], [("handle_packet PUBLISH/PUBREL", ENG)], ["MqttEngine::take_events", "MqttEngine::take_outgoing"])

prop("E05", "Keep-alive pings go out in time and a dead peer is detected",
 "While connected with a non-zero keep-alive, the client never stays silent for longer than the keep-alive interval (the one the server set, where it set one) when driven at its announced deadlines and no ping awaits its answer, and it reports the connection as lost once a ping stays unanswered past the ping timeout (keep-alive times the configured multiplier, counted from the first unanswered ping), never before and never when the answer arrived. Driving the engine only at its announced deadlines is equivalent to driving it continuously, and never spins.",
 ["schedules", "histories"], "all interleavings on a virtual clock of sends, receives, ping answers, ticks early, on time and late, for several keep-alive settings, to the stated depth",
 "Needs control of time around the exact deadlines; tests sleep once.",
 [ENG, "src/mqtt_client/opts.rs"], [("handle_tick", ENG), ("next_tick_at", ENG)], ["MqttEngine::handle_tick", "MqttEngine::next_tick_at", "MqttEngine::take_outgoing"])

prop("E06", "Unanswered messages are retransmitted correctly, and only then",
 "A PUBLISH left unacknowledged past the retransmission timeout is sent again with the same identifier and content and DUP set, and after a PUBREC it is the PUBREL that is repeated, never the PUBLISH. Nothing already acknowledged is ever retransmitted and an MQTT 5.0 connection retransmits nothing while it stays up.",
 ["schedules", "histories"], "all interleavings on a virtual clock of publishes, acknowledgements and ticks around the timeout, both versions",
 "Depends on the interleaving of acks and timer expiry.",
 [ENG, "src/mqtt_client/inflight.rs"], [("get_expired", "src/mqtt_client/inflight.rs"), ("handle_tick", ENG)], ["MqttEngine::handle_tick", "MqttEngine::take_outgoing"])

prop("E07", "Reconnect back-off follows its schedule and its limits",
 "Each time a reconnect is scheduled after a connection is lost or fails, the engine requests it once, after a delay that starts at the base delay, doubles each time and never exceeds the maximum delay; at most the configured number of attempts is scheduled. An accepted connection restarts the schedule and a connection attempt cancels a pending one.",
 ["schedules", "histories"], "all sequences of losses, failures, successes and ticks on a virtual clock for small delay and attempt settings",
 "The schedule is a function of the whole failure history, including long ones where arithmetic saturates.",
 [ENG, "src/mqtt_client/opts.rs"], [("schedule_reconnect/reset_reconnect_state", ENG)], ["MqttEngine::handle_tick events", "MqttEngine::next_tick_at"])

prop("E08", "A new connection starts clean and resumes the session exactly",
 "On a new transport the first bytes are one complete CONNECT and nothing of the old connection's half-received or unsent bytes leaks into it. If the server still has the session, every unfinished QoS 1 and 2 exchange is resumed exactly once, unacknowledged PUBLISHes with DUP in their original order (as the receive maximum allows) and PUBRELs in the order their PUBRECs arrived; if not, old exchanges are not sent again and leave no trace that blocks or corrupts later ones.",
 ["histories", "crash_points"], "every point of every short publish/ack history at which the connection is cut (including inside a packet, both directions), followed by resumed or fresh sessions",
 "The cut point is arbitrary; tests cut at packet boundaries in one or two states.",
 [ENG, "src/mqtt_client/inflight.rs"], [("handle_connection_lost/reset_for_new_transport", ENG), ("get_all_for_reconnect", "src/mqtt_client/inflight.rs")], ["MqttEngine::take_outgoing after reconnect", "MqttEngine::take_events"])

prop("E09", "The connect handshake says what was configured and gates everything else",
 "The CONNECT sent carries exactly the configured client identifier, clean-start flag, keep-alive, credentials, will and properties for the configured protocol version. Only an accepting CONNACK makes the client connected; a refusal is reported with its reason, and nothing but CONNECT (and AUTH) is sent before acceptance, while publishes, subscribes and unsubscribes made earlier are sent after it.",
 ["configurations", "histories"], "the product of all option settings over small alphabets; all orders of operations and handshake packets to the stated depth",
 "The option product and the orders of early operations against CONNACK are too many for examples.",
 [ENG, "src/mqtt_client/opts.rs"], [("connect", ENG), ("handle_packet CONNACK", ENG)], ["MqttEngine::take_outgoing", "MqttEngine::take_events"])

prop("E10", "Full buffers push back without losing or corrupting anything",
 "Whatever the limits on outgoing packets and pending events, a publish, subscribe or unsubscribe is either refused with an error and has no effect, or accepted and its packet is written out whole, once and in order; a DISCONNECT is always written. Reaching a limit never drops a protocol answer already owed to the peer, never tears a packet, and once the buffers are drained the client continues as if they had never filled.",
 ["histories", "fault_sequences"], "all sequences of sends, receives and partial drains to the stated depth with buffer limits from one packet upward",
 "The interesting cases are the exact moments a buffer becomes full.",
 [ENG], [("enqueue_packet", ENG), ("outgoing buffer limits", ENG)], ["MqttEngine::take_outgoing", "MqttEngine::take_events"])

prop("S01", "The client session store keeps exactly the unfinished exchanges",
 "After any sequence of sends, acknowledgements, incoming packets and clears, what a ClientSession offers for resending is exactly every QoS 1 or 2 publish not yet acknowledged (marked as a duplicate) and every release not yet completed, in the order in which they were last sent; an acknowledgement of the wrong kind or for an unknown identifier changes nothing. Incoming publishes and releases are answered in kind, and identifiers it hands out are never in use.",
 ["histories"], "all handler call sequences to the stated depth over several concurrent exchanges, and full rounds of the identifier counter",
 "The tests walk through one exchange; the store must be right after every interleaving of several.",
 ["src/mqtt_session/client_session.rs"], [("ClientSession", "src/mqtt_session/client_session.rs")], ["ClientSession public API"])

prop("B01", "A call of the blocking client returns the outcome of its own request",
 "Each call of the blocking MqttClient sends exactly the packet asked for in the configured protocol version, and returns the reason codes and properties of the answer to its own packet identifier, or an error when the connection ends first. Everything else the server sends meanwhile is kept, in order and each packet once, as unhandled packets; a refused QoS 2 publish ends there. Fire-and-forget calls stay pending until completed, and identifiers in use are not reused.",
 ["histories", "inputs"], "all sequences of calls to the stated depth against a scripted server, with every other packet inserted before the answer and the byte stream cut at every position",
 "The client is only run against a live broker by hand; no test drives it.",
 ["src/mqtt_client/client.rs"], [("MqttClient", "src/mqtt_client/client.rs"), ("MqttStream", "src/mqtt_serde/parser/stream.rs")], ["MqttClient public API", "bytes at a loopback server"])

prop("X01", "The QUIC client carries each exchange whole on its own stream",
 "Over QUIC, CONNECT, PINGREQ and DISCONNECT use the control stream; each publish, subscribe and unsubscribe is written whole and in order on its own data stream and nowhere else, and the answer to a packet of the server goes on the stream it came on. However the network holds, drops, repeats or reorders datagrams, every packet arrives exactly as over one reliable connection. The end of one data stream affects no other; the end of the connection is reported once; a new connection carries nothing of the old one but the unfinished exchanges of a resumed session.",
 ["schedules", "histories"], "all sequences of calls, server packets, stream and connection ends, network faults and time to the stated depth against a QUIC server in memory",
 "Orders of calls, deliveries and stream ends; tests use one loopback order.",
 [ENG], [("QuicMqttEngine", ENG)], ["QuicMqttEngine::handle_datagram/take_outgoing_datagrams", "handle_tick/take_events"])

prop("X02", "The TLS client is a faithful byte pipe around the MQTT engine",
 "However TLS records are cut into chunks on the socket and however much arrives or is sent at once, the TLS client delivers the same events and sends the same MQTT bytes as the plain client given the same plaintext. Nothing is lost, duplicated or sent in the clear, and a truncated or tampered record is an error, never data.",
 ["inputs", "schedules"], "all 1- and 2-cut chunkings of handshake and data records of short scripts, plus transfers around the TLS buffer sizes, against an in-memory TLS server",
 "Tests do one handshake over loopback.",
 ["src/mqtt_client/tls_engine.rs"], [("TlsMqttEngine", "src/mqtt_client/tls_engine.rs")], ["TlsMqttEngine::handle_socket_data/take_socket_data"])

prop("X03", "TLS options decide whom the client trusts, exactly as they say",
 "For every combination of TLS options (roots, client certificate, accept invalid certificates, accept invalid hostnames, ALPN, protocol versions) and every server certificate (trusted, untrusted, wrong name, expired, asking for a client certificate), each TLS or QUIC client (rustls, native-tls and QUIC transports, tokio client, TLS and QUIC engines behind the foreign-function interface) connects if and only if the options allow it, presents its certificate when one is configured, and sends the name of the host it was given.",
 ["inputs"], "the full product of option values and server certificates for every way to open a TLS or QUIC connection",
 "Each check must hold in every combination of options; tests build configurations without connecting.",
 ["src/mqtt_client/transport/rustls_tls.rs", "src/mqtt_client/transport/tls.rs", "flowsdk_ffi/src/engine.rs"], [("RustlsTlsConfig", "src/mqtt_client/transport/rustls_tls.rs"), ("TlsConfig", "src/mqtt_client/transport/tls.rs")], ["success or failure of the connection", "certificates and names a TLS server sees"])

prop("T01", "Each awaited client call returns its own result exactly once",
 "In the async client every awaited connect, publish, subscribe, unsubscribe, ping and disconnect returns exactly once: with the result of its own acknowledgement, or with an error when its timeout passes, the connection ends or the client shuts down. No call hangs, none receives another call's result and no result is reported before the acknowledgement arrives.",
 ["schedules", "histories"], "all orders of answers, losses, timeouts and shutdown for up to three concurrent calls against a scripted broker",
 "Orders of answers and failures relative to pending calls.",
 ["src/mqtt_client/tokio_async_client.rs"], [("worker loop and pending maps", "src/mqtt_client/tokio_async_client.rs")], ["TokioAsyncMqttClient *_sync"])

prop("T02", "The async client reconnects when, and only when, it should",
 "After an unexpected loss the async client reconnects if and only if automatic reconnect is enabled, with one reconnect per loss, back-off and attempt limit as configured, and resumes the session. After the user disconnects or shuts down it never reconnects, and it reports each connection and loss to its handler exactly once, in order.",
 ["schedules", "histories"], "all orders of user calls, server closes, refusals and timeouts to the stated depth, for each reconnect configuration",
 "As above.",
 ["src/mqtt_client/tokio_async_client.rs"], [("reconnect handling", "src/mqtt_client/tokio_async_client.rs")], ["TokioMqttEventHandler callbacks", "connections seen by the broker"])

prop("T03", "The async client delivers what it has taken, in order, over each transport",
 "Over TCP, TLS (rustls and native) and QUIC, whatever the application has handed to a connected async client before disconnect, shutdown or dropping it reaches the server completely, once and in order, however slowly the server reads, and so does everything the server sends reach the handler; then the connection is ended. The same holds for bytes written to and read from the transports themselves, with shutdown and close. A connection is not ended by time alone while both ends are there, however long it is idle within its keep-alive.",
 ["schedules", "histories", "faults"], "all unsettled histories of publishes (up to 300 KB), server data, partial packets, stops of reading, disconnect, shutdown, drop, close and time to the stated depth, over every transport",
 "The loss shows only when an end comes while something is still buffered in one of several layers; tests use a server that reads at once.",
 ["src/mqtt_client/tokio_async_client.rs", "src/mqtt_client/transport/quic.rs", "src/mqtt_client/transport/tcp.rs", "src/mqtt_client/transport/tls.rs", "src/mqtt_client/transport/rustls_tls.rs"], [("worker loop and its end", "src/mqtt_client/tokio_async_client.rs"), ("QuicTransport", "src/mqtt_client/transport/quic.rs")], ["packets the server receives", "TokioMqttEventHandler callbacks", "Transport read/write/shutdown/close"])

prop("T04", "The tokio QUIC client carries out every command and hands out every event",
 "TokioQuicMqttClient carries out its commands in the order given, each once and each returning, whether or not the application reads its events; every message and acknowledgement from the server is handed out once and in order through next_event, as is each connection and its end. Rebinding to another address and idle times lose nothing, and a client that is dropped delivers what it was given, says DISCONNECT and ends its connection.",
 ["schedules", "histories"], "all unsettled histories of commands, server data, address changes, closes, reconnections and time to the stated depth",
 "Commands, events, datagrams and timers meet in one loop; the repository has no test that runs this client against a server.",
 ["src/mqtt_client/tokio_quic_client.rs", "src/mqtt_client/engine.rs"], [("run_engine_loop", "src/mqtt_client/tokio_quic_client.rs")], ["TokioQuicMqttClient methods and next_event", "packets the QUIC server receives"])

prop("F01", "The foreign-function interface is the engine, nothing more or less",
 "Through the C and UniFFI interfaces, any sequence of calls has the same effect on the wire and yields the same events, in the same order, each exactly once, as the same calls on the native engine. Invalid arguments and null handles are refused without effect, and text, payloads and reason codes cross the boundary unchanged.",
 ["histories", "inputs"], "all call sequences to the stated depth on both engines in lock step, including null and invalid arguments",
 "Equivalence after every call sequence.",
 ["flowsdk_ffi/src/engine.rs"], [("MqttEngineFFI", "flowsdk_ffi/src/engine.rs"), ("event lists", "flowsdk_ffi/src/engine.rs")], ["mqtt_engine_* functions", "MqttEngineFFI methods"])

prop("G01", "Packets cross the gRPC bridge unchanged",
 "Converting any MQTT 3.1.1 or 5.0 packet to its protobuf form and back yields an equal packet, for every packet type, field and property. Bytes wrapped into stream messages and unwrapped again are identical.",
 ["inputs"], "all packets of the codec alphabets",
 "Field-by-field conversions for 29 packet types and 27 properties; tests try a few packets.",
 ["mqtt_grpc_duality/src/lib.rs"], [("From/TryFrom conversions", "mqtt_grpc_duality/src/lib.rs")], ["conversions both ways"])

prop("G02", "The relay pair carries each MQTT session whole and keeps sessions apart",
 "Between a client of r-proxy and the broker behind s-proxy every complete packet either side sends, from CONNECT on, reaches the other side once, unchanged and in order, however it is cut into segments; when one side closes, resets or sends what is not MQTT, what it sent before still arrives where it can and the other side's connection is closed. A client whose broker or s-proxy cannot be reached is closed. Sessions are independent, whatever their client identifiers, also when another session's peer does not read, and the two directions of a session do not wait for each other.",
 ["histories", "faults", "schedules"], "all histories of packets, fragments, closes and rubbish to the stated depth, with each relay process stopped or running at every step; all packets of the codec alphabets; failures and restarts of every process",
 "Two processes and four connections per session: the outcome depends on the order of arrival, segmentation and closes; the repository's tests do not run the programs.",
 ["mqtt_grpc_duality/src/bin/r-proxy.rs", "mqtt_grpc_duality/src/bin/s-proxy.rs"], [("r-proxy", "mqtt_grpc_duality/src/bin/r-proxy.rs"), ("s-proxy", "mqtt_grpc_duality/src/bin/s-proxy.rs")], ["TCP connections of r-proxy's clients", "TCP connections of s-proxy to the broker"])

prop("Y01", "Every future of the Python client resolves with the right outcome",
 "In the Python asyncio client every awaited connect, publish, subscribe, unsubscribe and disconnect ends: successfully when its own acknowledgement accepts it, returning the identifier it was sent with, and with an error when the server refuses, the request cannot be sent, the connection ends or the time limit is hit. No call is left pending after disconnect or connection loss, none is completed by another operation's acknowledgement, every message from the server is handed to on_message once and acknowledged, a failing on_message harms nothing else, and connections that failed are closed.",
 ["schedules", "histories"], "all orders of calls, answers, refusals, messages, closes, malformed data, time and cancellations to the stated depth, over TCP, TLS and QUIC configurations",
 "Order of arrivals, timeouts and closes relative to pending futures; the Python tests use mocks and one order.",
 ["python/package/flowsdk/async_client.py"], [("FlowMqttClient/FlowMqttProtocol/FlowMqttDatagramProtocol", "python/package/flowsdk/async_client.py")], ["awaitables", "on_message", "bytes on the transport"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
