MC = "model_checking"
ENG = " Every history of the stated alphabet and depth is executed on the real engine (MqttEngine and NoIoMqttClient) on a virtual clock, in lock step with a broker-side monitor written from the property (mc/src/eng.rs); no abstraction stands between monitor and code, so every trace is an implementation trace. Trusts the monitor and the reference codec."
def e(t, n=""): return (MC, "exhaustive exploration of bounded histories of the real engine against a protocol monitor: " + t, (n + ENG).strip())
C = {
 "E01": e("identifiers", "Also the wrap of the 16-bit counter and the exhaustion of all identifiers, over held-operation patterns."),
 "E02": e("acknowledgements of every kind against every operation"),
 "E03": e("publishes, acknowledgements, limits and reconnects"),
 "E04": e("incoming messages, repeats, releases and reconnects"),
 "E05": e("keep-alive schedules on a virtual clock"),
 "E06": e("retransmission schedules on a virtual clock"),
 "E07": e("loss, failure and success histories on a virtual clock"),
 "E08": e("cuts and resumptions at every point"),
 "E09": e("handshake orders", "Also the product of all CONNECT options (551,124 combinations)."),
 "E10": e("full outgoing and event buffers"),
 "S01": (MC, "exhaustive exploration of bounded call histories of the real ClientSession against a list model", "Every sequence of 19 operations (several concurrent exchanges, wrong and unknown acknowledgements, clear) to the stated depth is executed on the real store; after each step what it offers for resending is compared with the model, packet by packet. Full rounds of the identifier counter with exchanges unfinished."),
 "B01": (MC, "exhaustive exploration of bounded call histories of the real blocking client against a scripted loopback server", "The real client runs over loopback TCP against a server that reads each request, inserts every other packet before the answer and ends the stream at every byte; results, unhandled packets, pending operations and the bytes on the wire are compared with the specification. Timing on the wire (segmentation) is not varied here; C05/C06 cover splitting."),
 "T03": (MC, "exhaustive exploration of bounded unsettled histories of the real tokio client and the real transports on a paused clock and a network in memory, against a stream model", "The real client (and TcpTransport, TlsTransport, RustlsTlsTransport, QuicTransport on their own) runs on a single-threaded tokio runtime with a paused clock over socket pairs to a scripted TCP, TLS or QUIC server, which reads at once, slowly or not at all. Every history of 17 operations (12 for the transports) to the depth is run without waiting between operations, so that each next one meets data in every buffer; what the server and the handler get must be a prefix of what was handed over at every step and all of it in the end. tokio's own choice among ready branches is not enumerated."),
 "T04": (MC, "exhaustive exploration of bounded unsettled histories of the real tokio QUIC client on a paused clock against a QUIC server in memory, against a model of commands and events", "The real TokioQuicMqttClient runs on a single-threaded tokio runtime with a paused clock; its datagrams lead to quinn-proto's server in memory. Every history of 19 operations to depth 4 (MQTT 5) and 3 (3.1.1) is run without waiting between operations. tokio's own choice among ready branches is not enumerated."),
 "F01": (MC, "exhaustive exploration of bounded call histories of the C and UniFFI interfaces in lock step with the native engine", "Every sequence of 29 calls and arrivals to the stated depth is made through UniFFI, through C with event lists and through C with JSON events, and on the native engine under the same virtual clock; return values, bytes, events (every getter of the event list), connection state and deadlines are compared after each. The mapping of each event to its foreign form is written independently in mc/src/ffi.rs. Concurrent calls from several threads are not explored."),
 "G01": (MC, "exhaustive enumeration of the bounded packet space through the bridge's conversions and protobuf bytes", "Every packet of the C01/C02 alphabets, all 16-bit identifiers and all reason codes; compared as packets and as wire bytes."),
 "G02": (MC, "exhaustive exploration of bounded histories of packets, fragments, closes, resets, malformed data and process faults through the real r-proxy and s-proxy processes", "The programs of the tree run as processes on loopback between scripted clients and a scripted broker. Every history of 18 moves to the depth, among them stopping and resuming either process, runs from five beginnings and both MQTT versions; the packets that come out at either end and the closes are compared with what went in. Also every packet of the codec alphabets in nine segment sizes both ways, every CONNECT, and failures of each party. Scheduling inside a process is the operating system's."),
 "X02": (MC, "exhaustive exploration of bounded call, arrival and fault histories of the real TLS engine against a TLS server in memory, in lock step with the plain engine", "The real TlsMqttEngine (also behind the FFI) talks to a rustls server in memory; every call sequence of the alphabet, every cut of the server's ciphertext, every byte changed, every truncation and every record dropped, repeated or swapped is run, and events, returns and MQTT bytes are compared with the plain engine given the same plaintext. Trusts rustls for what it rejects."),
 "X01": (MC, "exhaustive exploration of bounded call, arrival, network-fault and time histories of the real QUIC engine against a QUIC server in memory, with a per-stream monitor", "The real QuicMqttEngine talks to quinn-proto's server in memory through a network that holds, drops, repeats and reverses datagrams. Every history of 37 moves to the depth runs from five starts with the session kept or lost; every packet the server reads on every stream, every event and every answer is compared with a model of the streams. 0-RTT is not explored; trusts quinn-proto and rustls on both sides."),
 "Y01": (MC, "exhaustive exploration of bounded call, answer, message, close and time histories of the real Python client on its real engine, under an event loop with virtual time and network", "The real async_client.py runs on the UniFFI module built from the tree, under a deterministic event loop; its transports lead to a scripted server (TCP and TLS in memory, QUIC to quinn-proto's server in a process of its own). Every history of 27 moves to the depth runs from four starts; which calls have ended, with what outcome, the messages handed over, the packets on the wire and the state of the transport are compared with a model after every move."),
 "X03": (MC, "exhaustive enumeration of the product of TLS options and server certificates through every way to open a TLS connection", "Every combination is run against a rustls server (in memory or on loopback), and its success, the client's certificate, the server name and the protocol are compared with a decision table written from the property. The server is rustls or quinn, in memory or on loopback."),
 "T01": (MC, "exhaustive exploration of bounded call, answer, loss and time histories of the real tokio client on a paused clock and a network in memory, against a model", "The real client runs on a single-threaded tokio runtime with a paused clock; connections (TCP, TLS by rustls and by OpenSSL, QUIC) are socket pairs to a scripted server. Every history of 35 operations (calls, answers in and out of order, refusals, closes, malformed data, time, network down, connections that hang, a server that does not read, reconnecting on and off) up to the depth runs from each start in each configuration, and the result of every awaited call are compared with a model of connection, attempts and calls after every operation. One operation at a time is settled before the next."),
 "T02": (MC, "exhaustive exploration of bounded call, answer, loss and time histories of the real tokio client on a paused clock and a network in memory, against a model", "The real client runs on a single-threaded tokio runtime with a paused clock; connections (TCP, TLS by rustls and by OpenSSL, QUIC) are socket pairs to a scripted server. Every history of 35 operations (calls, answers in and out of order, refusals, closes, malformed data, time, network down, connections that hang, a server that does not read, reconnecting on and off) up to the depth runs from each start in each configuration, and connections, attempts, the bytes the server sees and the handler's calls are compared with a model of connection, attempts and calls after every operation. One operation at a time is settled before the next."),
}
NA = {}
