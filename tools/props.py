NOT_APPLICABLE = {}

M = "akasa-core/src/protocols/mqtt/"
S = "akasa-core/src/protocols/scram/"

PROPS = [
 dict(id="C01", title="Subscription matching is exactly MQTT topic matching",
  statement="After any history of subscribing, re-subscribing, unsubscribing and client removal, looking up a topic name returns exactly the filters that match it by the MQTT rules ('+', '#' including the parent level, '$' topics hidden from leading wildcards) and still have subscribers, each once, each with exactly its current subscribers and the QoS each of them subscribed with last. A shared subscription group contains exactly its current members, and picking a member by number or hash always yields one of them with its current QoS, every member being reachable. This also holds while several clients change their subscriptions at the same time.",
  over=["inputs", "histories", "schedules"], qtext="all topic names, topic filters and group names; all operation histories of several clients; concurrent use from several threads",
  why="The unit tests run a dozen fixed action lists with mostly one client per filter and no shared groups; the table's branching (pruning of nodes, group index after swap-removal, empty levels, parent match) is only exercised by histories they do not contain.",
  files=[M+"route.rs"],
  mechanism=[("trie of filter levels with subscriber content, pruned when empty", M+"route.rs RouteNode::{get_matches,insert,remove}"), ("shared group as vector plus index map", M+"route.rs SharedClients")],
  observe=["RouteTable::get_matches", "SharedClients::get_by_number / get_by_hash"], hook="ClientId/AddClientReceipt are re-exported under cfg akasa_verif",
  technique="stateful model-based property testing (naive matcher as reference model) + multi-threaded histories",
  note="~100k random histories per quick run against a naive reference matcher, plus 3k multi-threaded ones; trusts the reference matcher and the stand-in's filter validation."),
 dict(id="C02", title="The retained store is a map from topic to last message, queried by filter",
  statement="After any history of storing, replacing and clearing retained messages, querying with a topic filter returns exactly the messages stored on the topics that match the filter by the MQTT rules, each once and unchanged. Storing or clearing a topic affects that topic only, and reports the message it displaced.",
  over=["inputs", "histories"], qtext="all topic names and filters, all histories of store/clear operations",
  why="The unit tests use a handful of fixed topics; related topics (parents, children, empty levels, '$' topics) being removed and re-added in between is where a trie goes wrong.",
  files=[M+"retain.rs"], mechanism=[("trie of topic levels, pruned when empty", M+"retain.rs RetainNode")], observe=["RetainTable::{insert,remove,get_matches}"],
  technique="stateful model-based property testing (map + naive matcher as reference model)",
  note="~250k random histories per quick run; trusts the reference matcher."),
 dict(id="C03", title="The queue of unacknowledged messages keeps order, window and states",
  statement="The queue of outgoing QoS 1/2 messages of a session holds at most its capacity (a push beyond is refused and changes nothing), offers for sending only messages inside the in-flight window, in order, that were never sent, whose resend timeout has passed, or whose sent time was reset. An acknowledgement changes exactly the one message with that packet identifier inside the window and only from the right state (PUBACK an unacknowledged one, PUBREC an unacknowledged one, PUBCOMP a PUBREC-ed one), and is reported as unknown otherwise. Messages leave only from the front and only when completed; contents, identifiers and the duplicate mark are preserved.",
  over=["inputs", "histories", "configurations"], qtext="all histories of push, PUBACK/PUBREC/PUBCOMP, clean-up, sending, window changes and resets, for all window sizes, capacities and timeouts",
  why="The tests cover one or two messages with one order of acknowledgements; windows smaller than the queue, out-of-order acknowledgements and resets between are not sampled.",
  files=[M+"pending.rs"], mechanism=[("double-ended queue of states New/Pubrec/Complete", M+"pending.rs PendingPackets")], observe=["PendingPackets public methods"],
  technique="stateful model-based property testing (list model)", note="~800k random histories per quick run; resend times are forced through the stored time stamps, not waited for."),
 dict(id="C04", title="The password file round-trips and malformed files are refused",
  statement="Writing a user database and reading it back gives the same users, algorithms, iteration counts, salts and hashes. Reading accepts blank lines, surrounding white space, both line endings and takes the last entry of a user; it refuses the whole file when any line is malformed (no ':', unknown algorithm, missing or extra fields, bad base64, zero or unparsable iterations, salt shorter than 12 bytes, not UTF-8). No input crashes it. A user name the format cannot carry (leading white space, a line break) is refused when the file is written, never written as something else.",
  over=["inputs"], qtext="all user databases, all file layouts, all byte strings",
  why="There is no test of reading or writing a password file at all.",
  files=[M+"auth.rs"], mechanism=[("line parser and writer", M+"auth.rs load_passwords/dump_passwords")], observe=["load_passwords, dump_passwords"],
  technique="round-trip property testing, generation of malformed inputs by class, mutation fuzzing", note="~550k generated databases and files per quick run."),
 dict(id="C05", title="A password is accepted if and only if it is the user's password",
  statement="A login with a user name and password succeeds exactly when the user exists and the hash of the password with the user's salt, algorithm and iteration count equals the stored hash; every other password (changed, shortened, extended, another user's, the stored hash itself) and every unknown user is refused. Hashes are SHA-256/SHA-512 of password followed by salt, or PBKDF2 with the stored iteration count, and stay verifiable after being written to the password file and read back.",
  over=["inputs", "configurations"], qtext="all user databases over the four algorithms, all login attempts",
  why="Tests use one fixed user and password per algorithm.",
  files=[M+"auth.rs"], mechanism=[("hash comparison per algorithm", M+"auth.rs check_password/hash_password")], observe=["check_password, hash_password"],
  technique="differential property testing against an independent HMAC/PBKDF2", note="~200k databases with several login attempts each per quick run; trusts the plain SHA-2 of ring."),
 dict(id="C06", title="SCRAM-SHA-256 authenticates exactly the holder of the password",
  statement="A SCRAM exchange between conforming parties ends as authenticated exactly when the client knows the password and asks for no other identity, as not authenticated with a wrong password, and as not authorized for another authorization identity; the server sees the user name and identity the client meant, for every name, password, salt, iteration count, gs2 flag and optional extension. The server's final message proves knowledge of the stored key only on success, and the client accepts it only if it is right. Both sides interoperate with an independent RFC 5802 implementation and never reuse a nonce.",
  over=["inputs", "configurations"], qtext="all names, passwords, authorization identities, salts, iteration counts, gs2 flags, extensions and randomness",
  why="The tests parse a few fixed messages; no unit test completes an exchange, and the end-to-end one uses a single user and password.",
  files=[S+"server.rs", S+"client.rs", S+"mod.rs"], mechanism=[("three-stage state machines", S+"server.rs, "+S+"client.rs"), ("proof computation", S+"mod.rs find_proofs")], observe=["ScramClient, ScramServer"],
  technique="differential property testing against an independent RFC 5802 implementation", note="~48k exchanges per quick run in three pairings; no SASLprep on either side."),
 dict(id="C07", title="Tampered, malformed or misordered SCRAM messages never authenticate or crash",
  statement="If any message of a SCRAM exchange is changed in transit in any way, the login does not end as authenticated and the server's signature is not revealed; a changed final message is never accepted by the client. Each party accepts a message only in the state that waits for it (anything else is reported as a wrong-state error and changes nothing), a final message can be tried once only, and after a refused message the exchange is over. No string makes either party panic.",
  over=["inputs", "histories", "fault_sequences"], qtext="all single and double edits of all four messages, all call orders, all strings",
  why="The tests check a few malformed literals; tampering needs a complete exchange with an otherwise right proof.",
  files=[S+"server.rs", S+"client.rs"], mechanism=[("strict parsing and comparison of gs2 header, nonce and proof", S+"server.rs decode_client_final"), ("state taken before use", S+"server.rs, "+S+"client.rs")], observe=["ScramClient, ScramServer"],
  technique="fault-injecting property testing (edited exchanges) and structured fuzzing of call sequences", note="~750k edited exchanges, call sequences and final messages per quick run."),
 dict(id="C08", title="PROXY protocol v2 headers are parsed exactly",
  statement="For every well-formed PROXY v2 header (TCP/UDP or UNIX addresses, any TLVs in any order up to the 256-byte limit, optional right CRC32C) the transport, both addresses and ports are returned exactly as encoded, with the AUTHORITY value as the host name in TLS-termination mode; a LOCAL header yields no addresses. Exactly the header is taken from the stream, however the bytes are split, and the payload after it stays untouched. A header is accepted only in the mode it is meant for: TLS termination requires both SSL and AUTHORITY, plain mode neither.",
  over=["inputs", "schedules"], qtext="all well-formed headers, all ways to split the stream",
  why="The tests contain four fixed IPv4 headers delivered in one piece.",
  files=["akasa-core/src/server/proxy.rs"], mechanism=[("fixed part, addresses, TLV loop", "akasa-core/src/server/proxy.rs parse_header/parse_addresses/parse_tlvs")], observe=["parse_header"], 
  technique="property testing with an independent encoder", note="~500k generated headers per quick run."),
 dict(id="C09", title="Bad PROXY headers are refused and never crash",
  statement="Any input that is not a well-formed PROXY v2 header (wrong signature, version, command, family or transport, lengths that do not add up, truncated data, TLVs beyond the limit or cut short, a CRC32C that does not match the received header, SSL verify failure or short SSL, empty or non-UTF-8 AUTHORITY) is refused with an error; in particular every single-bit error in a checksummed header is noticed. No input makes the parser panic or wait for more than the header announces.",
  over=["inputs", "fault_sequences"], qtext="all byte strings, all damage to well-formed headers",
  why="The tests contain one header with a wrong checksum.",
  files=["akasa-core/src/server/proxy.rs"], mechanism=[("validation in the fixed part and TLV loop", "akasa-core/src/server/proxy.rs parse_header/parse_tlvs")], observe=["parse_header"],
  technique="differential fuzzing against a strict reference reader, exhaustive single-bit errors and prefixes of generated headers", note="~1M damaged headers and byte strings per quick run."),
 dict(id="C10", title="Configuration validation is exact and serialization faithful",
  statement="A configuration is valid exactly when authentication has a password file if enabled, the maximum QoS is 0..2, both maximum packet sizes are at least 1, only SCRAM-SHA-256 is offered, every SCRAM user has at least 4096 iterations, and there is at least one listener of any kind. Writing a configuration and reading it back preserves every field, and mechanism names are the registered ones.",
  over=["configurations"], qtext="all configurations",
  why="Only the default configuration is exercised.",
  files=["akasa-core/src/config.rs"], mechanism=[("is_valid and serde derives", "akasa-core/src/config.rs")], observe=["Config::is_valid, serde"],
  technique="property testing against the documented rules, round trip", note="~300k generated configurations per quick run, via JSON."),

 dict(id="C11", title="Every matching subscriber gets each message once, at the right QoS",
  statement="A message published by a v3.1, v3.1.1 or v5 client reaches exactly the sessions that hold a matching subscription at that moment, connected or not (QoS 0 only while connected), with topic, payload and v5 properties unchanged, at the smaller of published and granted QoS, and with RETAIN cleared unless Retain As Published asks for it; nobody else gets it and nobody gets it more often than their subscriptions call for. Messages of one publisher and QoS class arrive in the order they were published. SUBACK, UNSUBACK, PUBACK, PUBREC, PUBCOMP and PINGRESP answer exactly the packets they belong to, with the right codes.",
  over=["inputs", "histories", "configurations"], qtext="all histories of connecting, subscribing, publishing and leaving by several clients of all protocol versions; all topics, payloads, properties, QoS levels; fragmented reads and writes",
  why="The end-to-end tests run fixed scripts of one or two clients of one version; mixed versions, overlapping subscriptions, re-subscriptions and downgrades in the same history are not sampled.",
  files=[M+"v5/packet/publish.rs", M+"v3/packet/publish.rs", M+"v5/message.rs", M+"v3/message.rs", M+"online_loop.rs"],
  mechanism=[("matching and fan-out", M+"v5/packet/publish.rs send_publish, "+M+"v3/packet/publish.rs send_publish"), ("delivery", M+"v5/message.rs handle_normal, recv_publish")], observe=["packets on client connections"],
  technique="stateful model-based property testing of the real broker over in-memory connections (reference broker model)", note="~90k random histories of 2-4 clients per quick run; a deterministic single-threaded schedule per history; v5 overlapping subscriptions are modelled as one copy, v3 publishers as one copy per subscription (both are allowed by MQTT)."),
 dict(id="C12", title="Nothing accepted is lost or reordered when clients stall or leave",
  statement="However slowly clients read, whenever they stop reading, leave or are taken over, every message the broker has accepted reaches every subscriber that stays (or whose session persists, for QoS 1/2) exactly once and in the order of its publisher, and every acknowledgement is sent. A stalled client delays others at most while it stalls: once it reads again or leaves, everything continues, and no connection stays open or keeps a task once its client is gone.",
  over=["inputs", "histories", "schedules", "fault_sequences"], qtext="all histories of bursts of messages, stalled and resumed readers, disconnects, resets and take overs of several clients of all versions; fragmented and partial writes; deterministic and multi-threaded schedules",
  why="Tests use clients that read everything at once; full channels, partial writes and a publisher that leaves while its messages wait never occur.",
  files=[M+"online_loop.rs", M+"v5/message.rs", M+"v3/message.rs", "akasa-core/src/state.rs"],
  mechanism=[("producer/consumer state machine with bounded channels", M+"online_loop.rs OnlineLoop::poll"), ("hand-over of undelivered messages", M+"online_loop.rs drain_broadcast, v5/message.rs build_state")], observe=["packets on client connections", "clients_count()"],
  technique="stateful property testing with injected back-pressure, disconnects and random thread schedules (exactly-once/order oracle)", note="~40k histories in virtual time and 1.5k on a multi-threaded runtime per quick run; messages of a broken or taken-over publisher connection count only if acknowledged or followed by a delivered one."),
 dict(id="C13", title="QoS 1/2 deliveries survive lost connections inside the window",
  statement="Every QoS 1 and QoS 2 message queued for a session is sent until the client has acknowledged or refused it: on a new connection of the session everything unfinished is sent again in order (PUBLISH with DUP and the same packet identifier, or PUBREL after PUBREC), never a PUBLISH after its PUBREC, and nothing acknowledged comes again. A packet identifier never carries a second message while the first one is unfinished. No more than min(Receive Maximum, configured window) messages are in flight, and a message waits only if the window is full.",
  over=["inputs", "histories", "fault_sequences", "configurations"], qtext="all histories of delivery, withheld and late acknowledgements, connection losses at every point, resumptions with different Receive Maximum",
  why="Tests reconnect once with one or two messages; withheld acknowledgements in all states combined with small windows and repeated losses are not sampled.",
  files=[M+"pending.rs", M+"v5/message.rs", M+"v3/message.rs", M+"v5/packet/publish.rs", M+"v3/packet/publish.rs"],
  mechanism=[("in-flight queue and resend", M+"pending.rs, after_handle_packet/handle_pendings in message.rs")], observe=["packets on client connections"],
  technique="stateful model-based property testing with injected connection losses and withheld acknowledgements", note="~60k histories per quick run; resends are triggered by reconnecting (inflight_timeout is out of reach in these histories)."),
 dict(id="C14", title="A QoS 2 message of a publisher is passed on exactly once",
  statement="However often a publisher sends the PUBLISH of a QoS 2 message again (with DUP, on the same or a new connection of its session, before or after PUBREC, with or without topic alias) until it sends PUBREL, the subscribers get it exactly once, also when the first PUBLISH or any acknowledgement was lost; after PUBCOMP the identifier is free for a new message. A QoS 1 message is passed on at least once. Every PUBLISH and PUBREL is answered; another message with an identifier that is still in use is refused (v5: 0x91, v3: connection closed) and passed to nobody.",
  over=["inputs", "histories", "fault_sequences"], qtext="all interleavings of PUBLISH, lost connections, duplicates and PUBREL of several publishers",
  why="Tests send one duplicate on one connection.",
  files=[M+"v5/packet/publish.rs", M+"v3/packet/publish.rs", M+"v5/session.rs"], mechanism=[("set of unreleased packet identifiers", M+"v5/packet/publish.rs handle_publish/handle_pubrel")], observe=["packets on client connections"],
  technique="stateful model-based property testing with injected connection losses and redeliveries", note="~60k histories per quick run."),
 dict(id="C15", title="A new subscription gets exactly the retained messages that match",
  statement="The last non-empty retained message of every topic is kept unchanged (payload, QoS, properties) until it is replaced or cleared by an empty one, whatever happens to its publisher and whether it came from a PUBLISH or a will. Every new subscription gets exactly the retained messages matching its filter, each once, with RETAIN set for v3 clients, at the smaller of its QoS and the granted one; Retain Handling and No Local of v5 are respected. Established subscriptions are not affected by a message being retained.",
  over=["inputs", "histories"], qtext="all histories of retained publications, clears, wills and subscriptions of several clients of all versions",
  why="Tests retain one or two messages with one subscriber.",
  files=[M+"retain.rs", M+"v5/packet/subscribe.rs", M+"v3/packet/subscribe.rs", M+"v5/packet/publish.rs", M+"v3/packet/publish.rs"],
  mechanism=[("retain table update on publish", "handle_publish/send_publish"), ("lookup on subscribe", "handle_subscribe")], observe=["packets on client connections"],
  technique="stateful model-based property testing (map of retained messages in the reference broker)", note="~70k histories per quick run; every history ends with a probe that subscribes '#'. Not fixed: RETAIN of a v5 subscription without Retain As Published."),
 dict(id="C16", title="A will is published exactly when MQTT says so",
  statement="A connection that ends without a normal DISCONNECT (end of stream, reset, protocol error, keep-alive, take over, v5 DISCONNECT with will) has its will published exactly once with its topic, payload, QoS, RETAIN flag and properties; a normal DISCONNECT deletes it. With a will delay it is published when the delay has passed or the session ends, whichever is first, and not at all if the client resumes the session before.",
  over=["inputs", "histories", "fault_sequences"], qtext="all histories of connections with wills, ways to end, delays, session expiry intervals and reconnects",
  why="Tests cover one disconnect and one delayed will.",
  files=[M+"v5/message.rs", M+"v3/message.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs"], mechanism=[("handle_will/send_will and delayed control messages", M+"v5/message.rs")], observe=["packets on client connections"],
  technique="stateful model-based property testing in virtual time", note="~60k histories per quick run, virtual time of up to hours."),
 dict(id="C17", title="A session lives exactly as long as MQTT says and keeps its state",
  statement="Session Present, subscriptions and queued messages of a client are those of its previous session exactly when it asks for continuation and that session still exists: it ends with the connection for clean sessions or an expiry interval of 0, otherwise when the (possibly limited, possibly changed by DISCONNECT) expiry interval has passed; until then matching QoS 1/2 messages are queued. Connecting again with the same identifier closes the old connection and takes its session over. A discarded session leaves nothing behind: no subscriptions, no queued messages, no wills, no client entry.",
  over=["inputs", "histories", "configurations"], qtext="all histories of connects, take overs, disconnects, expiries and publications",
  why="Tests do one reconnect per script.",
  files=["akasa-core/src/state.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"v5/message.rs", M+"v3/message.rs"],
  mechanism=[("add_client and session hand-over", "akasa-core/src/state.rs GlobalState::add_client"), ("build_state", M+"v5/message.rs")], observe=["CONNACK session present, packets, clients_count()"],
  technique="stateful model-based property testing in virtual time", note="~60k histories per quick run."),
 dict(id="C18", title="A shared subscription delivers each message to exactly one member",
  statement="A message matching a shared subscription ($share/group/filter) is delivered to exactly one member of every group, whoever published it (v3.1, v3.1.1 or v5), at the smaller of published and granted QoS, besides all ordinary subscriptions; members that unsubscribe, leave or whose session ends are never chosen again, a group lives as long as it has members. In the hash modes the choice depends only on the publishing client or the topic while the members stay the same. Retained messages are not sent to shared subscriptions.",
  over=["inputs", "histories", "configurations"], qtext="all histories of several members and groups over all filters, the three distribution modes",
  why="Tests use two members and one message sequence; leaving members, several groups on one filter, mixed ordinary subscriptions and publishers of other versions are not sampled.",
  files=[M+"route.rs", M+"v5/packet/publish.rs", M+"v3/packet/publish.rs"],
  mechanism=[("choice of a member per group", M+"v5/packet/publish.rs send_publish"), ("SharedClients", M+"route.rs")], observe=["packets on client connections"],
  technique="stateful model-based property testing (reference broker with sets of allowed receivers)", note="~60k histories per quick run; the random mode is checked for exactly-one delivery to a member, not for its distribution."),
 dict(id="C19", title="v5 subscription options and identifiers act exactly as specified",
  statement="For v5 subscriptions: No Local never returns a client its own messages and hides nothing else; every delivered message carries exactly the subscription identifiers of the matching subscriptions, the current ones after a re-subscription; Retain As Published keeps the RETAIN flag and its absence clears it on live messages; Retain Handling 0/1/2 sends retained messages always / for new subscriptions only / never. Re-subscribing replaces all options.",
  over=["inputs", "histories"], qtext="all option combinations on overlapping and repeated subscriptions of several clients",
  why="Tests set one option on one subscription.",
  files=[M+"v5/packet/subscribe.rs", M+"v5/message.rs", M+"v5/packet/publish.rs"], mechanism=[("subscription options stored per filter and applied on delivery", M+"v5/packet/publish.rs, v5/message.rs handle_normal")], observe=["packets on client connections"],
  technique="stateful model-based property testing (reference broker model)", note="~70k histories per quick run."),
 dict(id="C20", title="Topic aliases are always resolved to the right topic",
  statement="A v5 publisher's alias stands for the topic it was last set to on the same connection, also across redefinitions, and never for one of an earlier connection. The broker uses aliases towards a client only within its Topic Alias Maximum (never without one), sets an alias before it uses it on that connection, and what the client resolves is always the topic of the message, also for messages sent again on a new connection.",
  over=["inputs", "histories"], qtext="all histories of publications with aliases, reconnects and different alias maxima",
  why="Tests set one alias and use it once.",
  files=[M+"v5/packet/publish.rs", M+"v5/message.rs"], mechanism=[("topic_aliases and outgoing alias maps", M+"v5/packet/publish.rs")], observe=["packets on client connections"],
  technique="stateful model-based property testing with a resolving client", note="~60k histories per quick run."),
 dict(id="C21", title="Limits of either side are kept and nothing is lost behind them",
  statement="The broker never sends a v5 client a packet larger than its Maximum Packet Size nor more unacknowledged QoS 1/2 messages than its Receive Maximum; a message that fits is always delivered, one that does not is dropped without affecting the others. Clients that exceed the broker's own limits (packet size, QoS 2 in flight, topic alias maximum, maximum QoS) are disconnected, with the right reason code for v5, those within them never are.",
  over=["inputs", "histories", "configurations"], qtext="all packet sizes around the limits, all histories of deliveries to limited clients, all limit configurations",
  why="Tests check one size far beyond the limit.",
  files=[M+"v5/message.rs", M+"v5/packet/publish.rs", M+"online_loop.rs"], mechanism=[("size check on delivery, inflight window", M+"v5/message.rs, "+M+"pending.rs")], observe=["packets on client connections"],
  technique="stateful model-based property testing", note="~60k histories of receivers and 100k of senders at the limits per quick run."),
 dict(id="C25", title="Every transport carries the same service and lets in only who speaks it",
  statement="Over plain TCP, PROXY protocol, TLS, WebSocket and their combinations, however the bytes are split into reads, frames and fragments and however slowly the client reads, clients see the same broker: no accepted message is lost, duplicated, reordered or left in a buffer. A client that completes its transport handshake and CONNECT within 5 seconds is accepted, and the address reported to the hooks is the one of the PROXY header if there is one; a client that stalls at any stage, breaks off, or does not speak the transport of the listener (wrong or missing PROXY header, no TLS, bad upgrade or subprotocol, text frames, another packet than CONNECT) is closed within that time without any effect. TLS listeners enforce their client certificate policy, and one whose policy cannot be enforced is not started.",
  over=["inputs", "histories", "schedules", "configurations", "fault_sequences"], qtext="all listener kinds, all ways to split and delay the byte stream, all handshake stages and deviations",
  why="The end-to-end tests use an in-memory raw connection only; no test opens a TLS, WebSocket or PROXY listener.",
  files=["akasa-core/src/server/mod.rs", "akasa-core/src/server/rt.rs", M+"online_loop.rs"],
  mechanism=[("handshake stages raced with the connect timeout", "akasa-core/src/server/mod.rs handle_accept"), ("byte stream over WebSocket messages", "akasa-core/src/server/mod.rs WebSocketWrapper"), ("client certificate verification", "akasa-core/src/server/mod.rs build_tls_context"), ("writes and flushes under back-pressure", M+"online_loop.rs")],
  observe=["handle_accept, server::rt::start: bytes exchanged, hook calls, client counts"],
  technique="model-based property testing of histories over generated transports; fault-injecting property testing of handshakes; real sockets for the listeners",
  note="Per quick run 12k histories and 8k back-pressure scenarios over random transports, 20k handshakes, 400 multi-listener scenarios on real sockets; trusts rustls and the test's own WebSocket framing."),
 dict(id="C22", title="Only authorised clients get in, and a refused one leaves no trace",
  statement="A CONNECT is accepted exactly when it satisfies the configured authentication: the right password for the named user, a complete and correct SCRAM exchange, or both; anything else - wrong, missing or nearly right credentials, an unsupported method, a broken or early exchange - is refused with the reason code of its protocol version or closed, and never accepted. A refused or abandoned attempt changes nothing: the session, connection and will of the identifier it named, the retained messages and the online counts stay as they were, and none of the packets it sent take effect. An accepted SCRAM exchange proves the server's knowledge of the password to the client.",
  over=["inputs", "histories", "configurations"], qtext="all sequences of connect attempts with right, missing, nearly right and foreign credentials, all deviations of the SCRAM exchange, against identifiers in use or with a stored session",
  why="Tests log in with one right and one wrong password; no test opens a SCRAM connection to the broker, none looks at what a refused attempt leaves behind.",
  files=[M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"online_loop.rs", "akasa-core/src/protocols/scram/server.rs", M+"auth.rs"],
  mechanism=[("credential and will checks before a session is taken over", M+"v5/packet/connect.rs handle_connect, session_connect"), ("enhanced authentication", M+"v5/packet/connect.rs handle_auth"), ("password check", M+"v3/packet/connect.rs handle_connect")],
  observe=["packets on the attempting, the named and a watching connection, clients_count(), online_clients_count()"],
  technique="property-based testing of attempt sequences against a decision oracle with an independent SCRAM client", note="100k attempt sequences per quick run; hash iteration counts are kept at 5; time is virtual."),
 dict(id="C23", title="No client can disturb the broker or another client",
  statement="Whatever bytes a client sends at whatever stage - malformed, invalid, out of order, oversized, truncated, too many - and whenever it breaks off, the broker answers its protocol errors as its version demands or closes that connection, and nothing else: no task panics, the other clients stay connected and keep exactly their deliveries and acknowledgements, the online count returns to what it was and new clients are served.",
  over=["inputs", "histories", "schedules", "fault_sequences"], qtext="all byte streams of a hostile client, mutated from valid histories, at any stage, against several bystanders",
  why="Tests send a handful of invalid packets and look only at the sender's own connection.",
  files=[M+"online_loop.rs", M+"v5/message.rs", M+"v3/message.rs", M+"v5/packet/*.rs", M+"v3/packet/*.rs", "akasa-core/src/server/mod.rs"],
  mechanism=[("decode errors and protocol violations", M+"v5/message.rs handle_decode_error, handle_packet"), ("end of a connection", M+"v5/message.rs handle_online")],
  observe=["packets on all connections, task results, online_clients_count()"],
  technique="fuzzing of packet streams mutated from valid histories with bystanders as the oracle", note="80k streams per quick run; memory use under hostile input is not bounded by the check."),
 dict(id="C27", title="A silent client is disconnected in time, a speaking one never",
  statement="A client whose keep alive interval K (for v5 within the broker's limits) is not 0 is disconnected, its will published, at the latest 2K after its last packet and never earlier than 1.5K after it; without an interval it is never disconnected for silence. Every complete packet counts and an incomplete one does not; packets sent to the client do not count. Neither earlier connections of the same client nor slow hooks shorten its time.",
  over=["inputs", "histories", "schedules", "configurations"], qtext="all histories of packets, pauses, take overs and stalls of clients of all versions with all intervals and limits",
  why="The test of the timer waits for one client with one interval in real time.",
  files=[M+"common.rs", M+"v5/message.rs", M+"v3/message.rs", M+"v5/packet/connect.rs", "akasa-core/src/state.rs"],
  mechanism=[("keep alive timer", M+"common.rs start_keep_alive_timer"), ("ControlMessage::Kick", M+"v5/message.rs, v3/message.rs handle_control")],
  observe=["end of connections in virtual time, wills at a watcher, online_clients_count()"], hook="cfg akasa_verif: Instant is tokio's, so that time is virtual",
  technique="model-based property testing of timed histories in virtual time", note="300k histories per quick run; a hook that runs for longer than 1.5K excuses the broker (it reads nothing meanwhile)."),
 dict(id="C28", title="CONNACK announces what the broker offers, and exactly that is enforced",
  statement="The CONNACK of a v5 client states every limit and unavailable feature of the configuration (maximum QoS, retain, wildcard, shared subscriptions, subscription identifiers, topic alias maximum, receive maximum, packet size, session expiry, keep alive) and the assigned client identifier, which is new and unique. A client that stays within what was announced is always served; what was announced as unavailable is refused with its reason code and has no effect. Requests within one packet are judged one by one.",
  over=["inputs", "histories", "configurations"], qtext="all configurations of limits and features, all histories of requests within, at and beyond them",
  why="Tests check one disabled feature each in one request and never a limit value.",
  files=[M+"v5/packet/connect.rs", M+"v5/packet/subscribe.rs", M+"v5/packet/publish.rs", M+"v5/message.rs", M+"v3/packet/connect.rs"],
  mechanism=[("CONNACK properties", M+"v5/packet/connect.rs session_connect"), ("feature checks", M+"v5/packet/subscribe.rs, "+M+"v5/packet/publish.rs")],
  observe=["CONNACK and all later packets of generated clients, deliveries to a watcher"],
  technique="stateful model-based property testing against an oracle of limits", note="200k histories per quick run. A PUBLISH with RETAIN is accepted where retain is unavailable, as an upstream test demands; checked is that nothing is retained."),
 dict(id="C24", title="Hooks see every request once and their verdicts are carried out",
  statement="For every CONNECT, PUBLISH, SUBSCRIBE and UNSUBSCRIBE the before hook runs once, with that request, before it has any effect, and the after hook exactly once afterwards if it was accepted; connects and disconnects are reported in pairs. A request a hook refuses has no effect (its topic alias is set nevertheless, its packet identifier free again) and is answered with the hook's code (v5; v3 by CONNACK code or closing), a request it changes acts as changed, a failing hook ends only that connection. Actions of a hook (publish, subscribe, unsubscribe) are carried out in order, as if the client had asked, and the requests of a client are handled one after another in their order, however long its hooks take.",
  over=["inputs", "histories", "schedules"], qtext="all histories of requests of clients of all versions, with all verdicts, changes, failures, delays and actions of hooks",
  why="Tests use one hook that accepts everything or one that rejects one request; none combines changes, actions, failing and slow hooks.",
  files=["akasa-core/src/hook.rs", M+"v5/message.rs", M+"v3/message.rs", M+"online_loop.rs"],
  mechanism=[("calls of the hooks and their verdicts", M+"v5/message.rs, "+M+"v3/message.rs before_*/after_* hook calls"), ("actions", "akasa-core/src/hook.rs"), ("loop stops reading while a hook is pending", M+"online_loop.rs")],
  observe=["sequence of hook calls with their arguments, packets on all connections"],
  technique="stateful model-based property testing with generated hook behaviour", note="60k histories and 100k sequences of refused, aliased and redelivered v5 messages per quick run, delays of hooks in virtual time."),
 dict(id="C26", title="The broker always knows who is online and who has a session",
  statement="At any moment the online count is the number of clients with an established connection, and the client count that of the clients with a session; for every client at most one connection is established. However a connection attempt or connection fails - in any packet, in the hooks, while writing, by take-over, racing with others of the same identifier - its identifier can be used again at once and nothing of it is left behind: no connection, no count, no client entry beyond its session.",
  over=["histories", "schedules", "fault_sequences"], qtext="all histories of connects, failures at every point, take overs and ends of connections of several clients, one after another and at the same time",
  why="Tests look at the counts after one orderly connect and disconnect.",
  files=["akasa-core/src/state.rs", M+"online_loop.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"v5/message.rs"],
  mechanism=[("client table, take over and offline sessions", "akasa-core/src/state.rs add_client, offline_client, remove_client"), ("hand-over of a session", M+"v5/message.rs handle_offline, broadcast")],
  observe=["clients_count(), online_clients_count(), packets and ends of connections"],
  technique="stateful model-based property testing with injected faults; multi-threaded storms with invariants", note="60k histories in virtual time and 4k multi-threaded storms per quick run."),
 dict(id="C29", title="Messages expire exactly when they should",
  statement="A message with a Message Expiry Interval (v5 publishers, wills) is sent for the first time only within it, whether it was queued for a client away, waited behind a full window or was retained; what is sent then carries the interval less the time waited. A message without one, or whose interval has not passed, is never given up, nor is one that has already been sent to the client, however long the client stays away within its session. A retained message whose interval has passed is not sent to new subscriptions of any version.",
  over=["inputs", "histories", "configurations"], qtext="all histories of publications with and without expiry, waits, reconnects, acknowledgements, windows and resend timeouts",
  why="A test waits one second for one queued message in real time.",
  files=[M+"pending.rs", M+"v5/message.rs", M+"v3/message.rs", M+"retain.rs", M+"v5/packet/subscribe.rs"],
  mechanism=[("expiry at sending", M+"pending.rs, "+M+"v5/message.rs, "+M+"v3/message.rs handle_pendings"), ("expiry of retained messages", M+"retain.rs, "+M+"v5/packet/subscribe.rs")],
  observe=["packets on client connections in virtual time"], hook="cfg akasa_verif: time is tokio's, so that it is virtual",
  technique="stateful model-based property testing in virtual time", note="100k histories per quick run, waits in whole seconds; the moments right at the limit are excluded by half a second."),
dict(id="C30", title="Back-pressure bounds what is held for clients that do not read",
  statement="For a client that does not take its data the broker holds at most a bounded amount of answers to its requests and of QoS 0 messages of others: past that it stops reading from the client itself or from the publishers. Clients that have nothing to do with it are served at once all the while. When it reads again everything follows, complete and in order, without anything else having to happen.",
  over=["inputs", "schedules", "histories"], qtext="all sets of clients that read, read now and then or do not, and of what they ask and publish, in any order",
  why="Tests read everything at once; the limits and the wake-ups after them only show with clients that stop in the middle of bursts.",
  files=[M+"online_loop.rs", M+"v3/session.rs", M+"v5/session.rs", "akasa-core/src/state.rs"],
  mechanism=[("limits of the producers, wake-ups by the consumers", M+"online_loop.rs poll()"), ("bounded channels between clients", "akasa-core/src/state.rs ClientSender/ClientReceiver")],
  observe=["bytes taken from and given to every connection in virtual time"], hook="cfg akasa_verif: the broker's connections are in-memory pipes",
  technique="stateful property-based testing with stalling clients and byte accounting", note="6k histories per quick run, up to five clients; the bounds allow two write batches (4 KiB) and some dozens of packets."),
dict(id="C31", title="What has ended leaves nothing behind",
  statement="When connections, sessions, subscriptions, wills, retained messages, handshakes and failed connection attempts have come to their end, the broker holds no more memory than before, whatever their names, versions and the way they ended. Its memory therefore does not depend on how long it has run.",
  over=["inputs", "histories", "configurations"], qtext="all scripts of connections, sessions, subscriptions, messages and wills, repeated any number of times with new names",
  why="A leak is invisible to a test that looks at one exchange; it only shows as growth over many rounds of some particular script.",
  files=["akasa-core/src/state.rs", M+"route.rs", M+"retain.rs", M+"v5/message.rs", M+"v3/message.rs", M+"pending.rs", M+"common.rs"],
  mechanism=[("removal of clients and sessions", "akasa-core/src/state.rs remove_client, "+M+"v5/message.rs handle_offline"), ("removal of empty nodes", M+"route.rs, "+M+"retain.rs"), ("timers", M+"common.rs, "+M+"v5/message.rs")],
  observe=["live bytes and allocations of the thread that runs the broker (counting allocator of the harness)"], hook="cfg akasa_verif: time is tokio's, so that it is virtual",
  technique="metamorphic property-based testing: memory after 16, 32, ... 256 rounds of a generated script", note="6k scripts per quick run; a leak is reported if memory grows at every doubling of the rounds, and by half an allocation or 8 bytes per round."),
 dict(id="C32", title="Password commands are all or nothing and start obeys the configuration",
  statement="insert-password and remove-password change exactly the named user in the password file and leave all others as they were, keep the permissions of the file (and a symbolic link), and after an error, a failing write or a crash at any point the file still holds either the old or the new users. A password set by the command is the one accepted afterwards, with the algorithm and iterations asked for, and different second input changes nothing. default-config prints a valid configuration; start refuses every invalid one and otherwise serves exactly the configured accounts, with default hooks which let everything pass.",
  over=["inputs", "histories", "crash points", "configurations"], qtext="all sequences of commands over all user databases, all bytes at which writing fails or the process dies, all valid and damaged configurations",
  why="The command line program has no tests; data loss needs a write error or crash at a particular byte.",
  files=["akasa/src/main.rs", "akasa/src/default_hook.rs", M+"auth.rs", "akasa-core/src/config.rs", "akasa-core/src/server/rt.rs"],
  mechanism=[("commands", "akasa/src/main.rs"), ("writer and parser of the file", M+"auth.rs"), ("start and listeners", "akasa-core/src/server/rt.rs start"), ("default hooks", "akasa/src/default_hook.rs")],
  observe=["the akasa program as a process: exit status, files, output, sockets on loopback"],
  technique="stateful property-based testing of the real program with injected write errors and crashes (file size limit), model of the user database", note="~3k command sequences and ~400 server starts per quick run. serde_yaml and rpassword are replaced by small stand-ins (JSON as YAML, passwords read from standard input)."),
]
