P("N01", "Netcode replay protection accepts each sequence number at most once",
  "Within one netcode connection, a keep-alive, payload or disconnect packet is rejected, before it is decrypted, if its sequence number was already accepted or lies a full window (256) or more behind the highest accepted one; any other number not yet accepted is let through. A number is recorded, in the slot the test looks at, exactly when the packet's authentication succeeded, and the highest accepted number never moves down. Both endpoints read every packet of an established connection through that connection's own window.",
  "inputs histories", "every sequence number and every arrival order, duplication or forgery of packets on a connection", "tests replay a handful of sequence numbers in order; the claim is over every 64-bit number and every history",
  [NCF + "replay.rs", NCF + "packet.rs", NCF + "client.rs", NCF + "server.rs"], [("sliding window test and update", "replay.rs ReplayProtection"), ("check before decrypt, record after", "packet.rs Packet::read")])
P("N02", "Every netcode packet except the connection request is authenticated",
  "No packet other than a connection request is handed on unless AEAD decryption under the connection's key succeeded, with the packet's sequence number as nonce and the protocol version, the receiver's protocol id and the received prefix byte as associated data; decryption failure always yields an error. The sender seals every such packet with the same inputs, under the prefix byte of the packet's own kind.",
  "inputs", "every datagram, key, protocol id and sequence number", "tests decrypt well-formed packets and a few corrupted ones; forging space is unbounded",
  [NCF + "packet.rs", NCF + "crypto.rs", NCF + "token.rs"], [("associated data", "packet.rs Packet::aead"), ("seal/open", "packet.rs write_encrypted/read, crypto.rs")])
P("N03", "Netcode keys are used in one direction only",
  "The client seals with the client-to-server key and opens with the server-to-client key; the server seals with the session's server-to-client key and opens a known session's packets with that session's client-to-server key, and opens connection requests with its private key. Packets other than connection requests from an unknown sender are dropped unread.",
  "inputs histories", "every packet sent or received on any path of client and server", "no test looks at which key a packet was sealed with on error, denial and disconnect paths",
  [NCF + "client.rs", NCF + "server.rs"], [("key selection", "server.rs recv_packet, client.rs recv_packet"), ("key installation", "server.rs ConnectionCache::add")], technique="call-graph enumeration of seal/open sites with provenance dataflow on the key argument (MIR)")
P("N04", "Netcode nonces are never reused within a session",
  "Each sealed packet that is queued for sending uses the current value of a sequence counter, and that counter is stepped by exactly one before the next packet can be sealed; counters are never moved in any other way during a session, including when a connection request is repeated. Handshake packets and session packets that the server seals with the same key draw from ranges that never meet, and each challenge token uses a fresh challenge number.",
  "histories", "every order of sends, keep-alives, denials and disconnects", "tests send few packets and never look at the nonces",
  [NCF + "client.rs", NCF + "server.rs"], [("counter step after seal", "send_packet, send_payload_packet, send_to_client, send_netcode_packet, ..."), ("initial values", "server.rs with_config, ConnectionCache::add")], technique="path monitor (typestate) over MIR plus enumeration of all writers of the counters")
P("N05", "Connection requests are validated before their token is opened",
  "A connection request is accepted only if its protocol version and protocol id match the server's, its expiry lies in the future, and its private token authenticates under the server's private key with version, protocol id and expiry as associated data; a request failing validation is rejected before decryption. A valid request is not rejected.",
  "inputs", "every connection request datagram and clock value", "tests use valid tokens and one expired one",
  [NCF + "packet.rs", NCF + "token.rs"], [("validation", "packet.rs RequestPacket::validate"), ("token sealing", "token.rs ConnectTokenPrivate")])
P("N06", "Netcode server admission control",
  "The server registers and challenges a request only if its token lists this server's address (when the address is known), neither the session nor the identity is already connected, the number of connected clients is below the limit and the request handler does not refuse; otherwise the client is not registered, and a full server or a refusal is answered with a denial carrying that reason. A registered client becomes connected only by returning a challenge that authenticates under the server's challenge key, at most once, and only while the number of connected clients is below the limit.",
  "inputs histories", "every interleaving of requests and responses of any number of clients", "tests connect one or a few clients in order; limits are only exercised at the boundary by chance",
  [NCF + "server.rs"], [("request admission", "server.rs process_connection_request"), ("response admission", "server.rs process_connection_response")])
P("N07", "Netcode client handshake follows its state table",
  "The client acts on a packet only where the handshake allows it: a denial while requesting or responding ends the attempt as denied, a challenge while requesting is stored and moves to responding, a keep-alive while responding connects and sets the identity, and keep-alive, payload and disconnect are honoured while connected. Any other packet changes nothing, not even the receive time, and surfaces nothing. The client sends requests, responses echoing the stored challenge, or keep-alives according to its state, and nothing otherwise.",
  "histories inputs", "every packet kind in every connection state", "tests follow the happy handshake; the 70 kind/state combinations are not enumerated",
  [NCF + "client.rs"], [("packet handler", "client.rs process_packet"), ("sender", "client.rs send_packets")])
P("N08", "Netcode idle timeouts fire exactly when configured and overdue",
  "A client in a handshake or connected, and a connected client on the server, is timed out exactly when a positive timeout is configured and the last receive time plus the timeout lies before now; before that, or without a timeout, it is kept. Every accepted keep-alive and payload refreshes the receive time of the client it came from, as does the completion of the handshake, and nothing else does.",
  "histories schedules", "every timing of updates and packets and every timeout configuration", "tests use default timeouts and a mocked clock at a few points",
  [NCF + "client.rs", NCF + "server.rs"], [("client", "client.rs update_state"), ("server", "server.rs check_for_timeouts, touch_client")])
P("N09", "Netcode sessions are announced once and freed when they end",
  "The server announces a connection exactly when it marks the client connected, and announces a disconnection exactly when it frees that client's slot, whether by timeout, by the peer's disconnect packet or by a local disconnect; a session without a slot is never announced as ended. Freeing a slot removes the client from the client table, the session index and the replay windows, and a local disconnect sends its disconnect packets while the session's key is still present.",
  "histories", "every order of connects, timeouts, repeated disconnect packets and local disconnects", "tests cover single connect/disconnect sequences; repeated and mid-handshake disconnects are not exercised",
  [NCF + "server.rs"], [("announce and free", "server.rs process_packet, check_for_timeouts, disconnect"), ("slot removal", "server.rs ConnectionCache::remove")], technique="path monitor (typestate) over MIR with scenario case analysis")
P("N10", "Netcode payloads cross only established sessions",
  "The server surfaces a payload only from a session that completed the handshake, and the client only while connected; every other packet kind surfaces nothing, and datagrams that are rejected are dropped. Payloads are sent only to a connected client or by a connected client, to the session named, and oversized payloads are refused.",
  "inputs histories", "every packet in every session state", "tests send payloads only after connecting",
  [NCF + "client.rs", NCF + "server.rs"], [("payload gate", "server.rs process_packet, send; client.rs process_packet, send"), ("receive loops", "recv_packets")])
P("N11", "Netcode packets and tokens are read as they were written",
  "Every netcode packet body and token is read back in the layout it was written in: the reader consumes exactly the fields the writer wrote, does not refuse them, and rebuilds the same value, including every reason of a denial and both address families. The prefix byte gives back the packet kind and the length of the sequence; the sequence itself survives for every value, and a packet is decoded as the kind it was written as.",
  "inputs", "every packet, token, address list and sequence number", "tests round-trip a few packets with one sequence and one address family",
  [NCF + "packet.rs", NCF + "token.rs"], [("layouts", "every implementation of bytes::Bytes"), ("prefix and sequence", "packet.rs Packet::prefix, get_prefix, write_sequence, read_sequence"), ("dispatch", "packet.rs Packet::read, Packet::write")],
  technique="abstract interpretation of MIR: symbolic write trace replayed through the matching reader; bit provenance for the sequence")
TRF = "crates/transport/transport/src/"
MON = "path monitor (typestate) over MIR plus enumeration of all writers, with scenario case analysis"
P("T01", "Acknowledgement headers say exactly which packets arrived",
  "The header of an outgoing packet acknowledges the highest received packet id and, bit by bit, exactly those of the 32 ids before it that arrived, whatever the order of arrival, duplication, loss and id wrap-around; before the first packet it acknowledges nothing that was sent. Reading such a header resolves exactly the packets it names, each at most once. Every data packet asks for an acknowledgement, an acknowledgement alone does not.",
  "inputs histories", "every arrival order, duplication and loss of packets, with ids wrapping", "tests feed a few ids in order with one gap; the window is a function of the whole history",
  [TRF + "packet/header.rs"], [("history of received packets", "header.rs ReceiveBuffer::recv_packet"), ("reading", "header.rs process_recv_packet_header")])
P("T02", "Each packet and message is resolved once, as delivered or as lost",
  "Every sent data packet carries a fresh id, and stays outstanding until it is either acknowledged or declared lost, never both and never twice. A message is reported acknowledged only when its channel says that its acknowledgement is complete, and acknowledgements already received are read before packets are declared lost. Acknowledgement-only packets are never outstanding.",
  "histories", "every interleaving of sends, acknowledgements, duplicates and expiries", "tests acknowledge or lose single packets",
  [TRF + "packet/header.rs", TRF + "plugin.rs"], [("outstanding packets", "header.rs PacketHeaderManager"), ("message resolution", "plugin.rs buffer_receive")], technique=MON)
P("T03", "Packets are declared lost exactly when overdue",
  "An outstanding packet is declared lost exactly when it waited longer than the loss timeout, or when its id is about to become ambiguous; the timeout follows the measured round trip and jitter between the configured floor and ceiling. The round-trip sample of an acknowledged packet is the time since that same packet was sent.",
  "histories schedules", "every timing of sends, acknowledgements and updates", "tests use one clock value and default settings",
  [TRF + "packet/header.rs", TRF + "packet/nack.rs"], [("expiry", "header.rs PacketHeaderManager::update"), ("timeout", "nack.rs PacketNackSettings::timeout")])
P("T04", "Messages are committed exactly with the packet that carries them",
  "A packet id is consumed, and the messages of a packet are marked as sent and tracked for acknowledgement, exactly when that packet was admitted by the bandwidth limiter and entered the link; a refused or failed packet leaves both untouched. Every message of an acknowledged channel is tracked under the packet that carries it, naming the fragment carried. An owed acknowledgement is sent even when there is no data.",
  "histories fault_sequences", "every sequence of sends, refusals and staging failures", "tests run with unlimited bandwidth and small messages",
  [TRF + "plugin.rs"], [("send system", "plugin.rs buffer_send")], technique=MON)
P("T05", "Reliable messages are resent until acknowledged",
  "A message handed to a reliable channel stays pending until all of it was acknowledged, and nothing else removes it; while pending it (or each of its unacknowledged fragments) is offered for sending when never sent and again whenever the resend delay has passed, not earlier. It is reported acknowledged exactly once, when the last part is acknowledged.",
  "histories fault_sequences", "every loss and acknowledgement pattern", "tests lose at most a packet or two",
  [TRF + "channel/send_reliable.rs"], [("pending messages", "send_reliable.rs ReliableSendState")])
P("T06", "Each channel mode delivers with its promised order and uniqueness",
  "Ordered reliable channels hand messages on in sending order without gaps, unordered reliable channels hand each message on exactly once, sequenced channels only ever hand on a message newer than those before, and unordered unreliable channels hand on every message that arrives. Copies and out-of-window messages change nothing, and a message is handed on with the tick and the bytes it was sent with. Messages without the id their mode needs are refused.",
  "histories", "every arrival order, duplication and loss, with ids wrapping, of whole and fragmented messages", "tests deliver few messages in few orders",
  [TRF + "channel/receive.rs"], [("receive", "receive.rs ChannelReceive::buffer_recv"), ("read", "receive.rs read_message")])
P("T16", "A packet that cannot be processed does not stop the others",
  "When a received packet cannot be decoded, decompressed or delivered, the packets received after it in the same frame are still processed.",
  "inputs", "every malformed packet and every position in the queue", "tests only feed well-formed packets",
  [TRF + "plugin.rs"], [("receive loop", "plugin.rs buffer_receive")])
P("T07", "Both ends of a channel agree on what its mode promises",
  "For every channel mode, the sender it creates attaches message identifiers, watches acknowledgements and resends exactly when the mode promises it, and the receiver it creates is the one of that mode. Fragments of reliable messages are kept until complete, fragments of unreliable ones expire; messages of one channel are numbered consecutively.",
  "inputs histories", "every mode, message size and acknowledgement history", "tests use each mode in one or two situations",
  [TRF + "channel/send.rs", TRF + "channel/receive.rs", TRF + "channel/builder.rs"], [("sender", "send.rs ChannelSend::new, buffer_send_with_scratch"), ("receiver", "receive.rs ChannelReceive::new")])
P("T08", "Large messages are cut up and put together again faithfully",
  "A message larger than a packet is cut into consecutive pieces, each naming the message, its position and the number of pieces, and the receiver hands on exactly the bytes that were sent, once, when the last missing piece arrives in whatever order with whatever copies. Pieces that contradict each other, lie out of range or have the wrong size are refused and change nothing.",
  "inputs histories", "every message size, arrival order, duplication and malformed piece", "tests reassemble two or three pieces in order",
  [TRF + "channel/fragments/"], [("cutting", "fragments/send.rs FragmentSender"), ("reassembly", "fragments/receive.rs FragmentReceiver")])
P("T09", "No packet exceeds the MTU, and packing neither loses nor repeats a message",
  "Every packet handed to the link fits its MTU, compressed or not, or packing reports an error. A message that is packed appears once, with its channel, in a batch whose count is the number of messages in it, and is recorded for the commit that follows; one that does not fit leaves the packet as it was and is tried again. Fragments are cut so that they always fit.",
  "inputs histories", "every list of pending messages, every MTU and fragment size", "tests pack a few messages of chosen sizes",
  [TRF + "packet/packet_builder.rs", TRF + "packet/packet.rs", TRF + "packet/compression.rs"], [("packing", "packet_builder.rs build_next_packet, try_append_single_candidate, finish_compression_aware_packet"), ("fragment size", "packet.rs fragment_size_for_min_mtu")], technique=MON)
P("T10", "A received packet is taken apart exactly as it was put together",
  "A packet is read by its type: a compressed payload is unpacked first, a fragment packet starts with its channel and fragment, and then batches of a channel, a count and that many messages follow until the packet is used up. Everything read is handed once to the receiver of the channel read for it, with the tick of the packet it came in, and every packet type is recognised by the code it is written with.",
  "inputs", "every packet type, number of batches, count and message", "tests send one or two messages at a time",
  [TRF + "plugin.rs", TRF + "packet/packet_type.rs"], [("receive system", "plugin.rs TransportPlugin::buffer_receive"), ("codes", "packet_type.rs")], technique=MON)
P("T11", "A new connection starts from a clean transport",
  "When a link is disconnected its transport forgets every queued message, partial message, packet id and outstanding acknowledgement, on every channel, and keeps its configuration, so nothing of the old connection reaches the next one.",
  "histories", "every state the transport can be in when the connection ends", "tests never reconnect with traffic outstanding",
  [TRF + "channel/builder.rs", TRF + "plugin.rs"], [("reset", "builder.rs Transport::reset"), ("trigger", "plugin.rs handle_disconnection")])
P("T15", "Unreliable messages are sent at most once and never linger",
  "An unreliable message is offered until it was sent once, and never after that; when the bandwidth limit refuses it, it is retried or dropped as configured, but a message of which some fragment was sent is finished. Its acknowledgement is reported exactly once, on channels that promise acknowledgements, when the last part is acknowledged.",
  "histories fault_sequences", "every sequence of sends, refusals and acknowledgements", "tests run with unlimited bandwidth",
  [TRF + "channel/send.rs", TRF + "channel/fragments/ack.rs"], [("unreliable sender", "send.rs UnreliableSendState"), ("acknowledgements", "fragments/ack.rs FragmentAckTracker")])

SRF = "crates/transport/serde/src/"
S_T = "abstract interpretation of MIR: symbolic write trace replayed through the matching reader, for every implementation enumerated from the compiler's trait table"
P("T17", "Bandwidth goes to the most important messages first",
  "With priorities enabled, pending messages are packed in decreasing order of their priority times their channel's priority, ties keep fragments before whole messages and the order in which messages of one size were handed over, and a reliable message gains priority every frame it waits. A packet is admitted exactly when its size is within the configured quota; with priorities disabled all messages count the same and nothing is held back.",
  "inputs histories", "every set of pending messages, priorities and sizes", "tests order a handful of messages",
  [TRF + "packet/priority_manager.rs", TRF + "plugin.rs", TRF + "channel/send_reliable.rs"], [("ordering", "priority_manager.rs PriorityManager::prioritize, packing_order"), ("quota", "priority_manager.rs BandwidthLimiter::consume_packet_quota")], technique=MON)
P("S01", "Everything written to the wire is read back as the same value",
  "For every type with a wire format, reading what was written consumes exactly what was written, piece by piece in the same order and form, is accepted, and yields the value that was written.",
  "inputs", "every value of every wire type, on every branch of its writer", "tests round-trip one or two values of some of the types",
  [SRF + "lib.rs", SRF + "entity_map.rs", TRF + "packet/", "crates/core/core/src/tick.rs", "crates/core/core/src/time.rs", "crates/connection/connection/src/network_target.rs"], [("wire types", "every implementation of ToBytes")], technique=S_T)
P("S02", "Announced lengths are the lengths written",
  "For every type with a wire format, the length it announces before it is written is the number of bytes it writes, on every branch of the writer; packing decisions rest on it.",
  "inputs", "every value of every wire type", "tests compare lengths for one or two values of some of the types",
  [SRF + "lib.rs", TRF + "packet/message.rs"], [("announced length", "ToBytes::bytes_len"), ("writer", "ToBytes::to_bytes")], technique=S_T)
S_B = "abstract interpretation of MIR in a bit-provenance domain: the bytes a writer appends are followed, bit by bit, through the reader"
P("S03", "Integers survive the wire bit for bit",
  "Every fixed-width integer is written in as many bytes as its width and read back as the same number, and every number below 2^62 is written in variable-length form in the announced number of bytes and read back as the same number.",
  "inputs", "every 8- to 64-bit number, including the length-class boundaries of the variable-length form", "tests round-trip a dozen numbers; packet ids, message ids, entity ids and lengths of every packet go through these routines",
  [SRF + "writer.rs", SRF + "reader.rs", SRF + "varint.rs"], [("writers", "writer.rs WriteInteger"), ("readers", "reader.rs ReadInteger, ReadVarInt")], technique=S_B)
P("S05", "Readers and writers keep to their buffers",
  "Taking bytes from a received buffer yields exactly the next bytes and moves past exactly those, and asking for more than is left, by whatever length a peer announces, is refused without moving. Decoding a value through serde advances past exactly what it consumed, and a writer appends exactly the bytes it reports.",
  "inputs", "every buffer, position and announced length, up to the largest", "tests take a few bytes from short buffers",
  [SRF + "reader.rs", SRF + "writer.rs", SRF + "postcard_utils.rs"], [("cursor", "reader.rs Reader::split_len, remaining, take_remaining"), ("serde bridge", "postcard_utils.rs from_reader")])
P("S06", "Entities are translated between the two worlds exactly once",
  "An entity the sender can translate goes out as the peer's own entity, marked so that the peer does not translate it again; any other goes out as it is and is translated on arrival, and an entity nobody can translate never names an entity of the receiving world. Pairs are entered, removed and cleared in both directions together.",
  "inputs histories", "every entity, with every combination of mark and table contents", "tests map one or two entities in one direction",
  [SRF + "entity_map.rs"], [("marking", "entity_map.rs RemoteEntityMap::mark_mapped/mark_unmapped/is_mapped"), ("translation", "entity_map.rs get_mapped, get_local, to_remote"), ("tables", "entity_map.rs insert, remove_by_remote, clear")], technique=S_B)
CRF = "crates/core/core/src/"; SYF = "crates/core/sync/src/"; MSF = "crates/transport/messages/src/"; CNF = "crates/connection/connection/src/"; LKF = "crates/io/link/src/"
SHP = "abstract interpretation of MIR over shape abstractions: every operation is evaluated on every abstract shape of its container (symbolic entries, order relative to the queried tick) and compared with the definition"
P("T14", "Wrapping ids compare and move circularly",
  "Packet and message ids are 16-bit numbers on a circle: differences, sums and steps are exact modulo 2^16, and of two ids less than half the range apart the one ahead is the newer, across the wrap. No ordering of ids by their raw numbers is used anywhere.",
  "inputs", "every pair of ids, in particular across the wrap", "tests compare a handful of pairs; a session wraps after 65536 packets, which no test sends",
  ["crates/core/utils/src/wrapping_id.rs", TRF + "packet/"], [("arithmetic", "wrapping_id.rs wrapping_id!, wrapping_diff")], technique="linear forms modulo 2^16 extracted from MIR through casts and wrapping operations, compared with the intended combination; case split on the circular distance")
P("C01", "Tick and time arithmetic is exact, and stops at its ends",
  "Ticks add and subtract exactly within their range and stop at its ends instead of wrapping; instants and deltas add and subtract exactly, fraction included; a shared minimum tick lowered by several threads ends as the lowest of them.",
  "inputs schedules", "every pair of ticks, instants and deltas; every interleaving of compare-and-exchange failures", "tests compute a dozen sums; no test runs the shared minimum under contention",
  [CRF + "tick.rs", CRF + "time.rs"], [("arithmetic", "tick.rs Add/Sub/AddAssign, time.rs Add/Sub"), ("shared minimum", "tick.rs AtomicTick::set_if_lower")], technique="case split on the exact mathematical result over MIR paths, with linear forms modulo 2^64; typestate over the compare-and-exchange loop")
P("C02", "A history answers with the state in force",
  "The value of a component history at a tick is that of its newest entry not newer than the tick. Forgetting the past keeps the state in force and everything later, forgetting the future keeps everything up to the tick, and each tick is recorded at most once.",
  "inputs histories", "every history and queried tick, before, between, at and after its entries", "tests use two or three histories and query a few ticks",
  [CRF + "history_buffer.rs"], [("lookup", "history_buffer.rs get, get_state"), ("pruning", "clear_until_tick, pop_until_tick, clear_except_tick, clear_after_tick"), ("adding", "add_state")], technique=SHP)
P("C03", "A confirmed history resolves unchanged entries to the value before them",
  "In a confirmed history an entry marked unchanged stands for the closest explicit entry before it, in lookups and iteration, and keeps that meaning when older entries are popped or forgotten. Insertion keeps entries in tick order with one per tick, and an unchanged entry is added only where something precedes it.",
  "inputs histories", "every mix of explicit, removed and unchanged entries, and every tick relative to them", "tests walk through a few histories",
  [CRF + "confirmed_history.rs"], [("resolution", "confirmed_history.rs resolve_state_at_index, iterators"), ("insertion", "insert, insert_explicit, insert_assume_sorted, add_unchanged, push_unchanged"), ("pruning", "pop_present, clear_until_tick")], technique=SHP)
P("C04", "Each answered ping counts once, and outliers move the round-trip estimate little",
  "Each ping carries a new identifier and is remembered with the moment it was sent; the answer naming it counts once, and a second answer to it, or one to a ping older than the most recent answered, changes no estimate. A sample is the time from sending to the answer's arrival less the time the peer reports holding the ping, never below zero, and every ping received is answered once with its identifier and the time it was held. The first sample is taken as is, later ones move the estimate towards them by at most a twelfth of the distance, with outliers from the third sample on capped a fifth above the estimate or more, but at no more than three times it and half a second above it beyond that, and a new connection starts from nothing.",
  "inputs histories", "every order, loss and repetition of pings and answers, and every sample and estimate", "tests answer a few pings in order",
  [SYF + "ping/manager.rs", SYF + "ping/store.rs", SYF + "ping/estimator.rs", SYF + "ping/plugin.rs", "crates/core/utils/src/sequence_buffer.rs"], [("answers", "manager.rs process_pong, store.rs"), ("pings", "manager.rs maybe_prepare_ping, buffer_pending_pong"), ("estimate", "estimator.rs RttEstimatorEwma::update_with_new_sample"), ("systems", "plugin.rs send, receive, handle_connect")], technique="case analysis over MIR paths on the order of identifiers and on what is remembered, plus polynomial identities between the floating-point expressions each path computes and the smoothing rule")
P("C05", "The local clock follows its target gently and jumps only beyond the maximum",
  "Within the error margin the clock is left alone, its speed decaying towards normal; between the margin and the maximum its speed changes only after the configured number of consecutive errors in the same direction, slower when it is ahead and faster when it is behind; beyond the maximum it jumps, by exactly the distance to its target. Nothing is adjusted before the configured number of pings has been answered, and the first adjustment is a jump whatever the error. A clock that starts over is unsynchronised, at normal speed and without a streak.",
  "inputs histories", "every error, margin, threshold and streak of earlier errors", "tests follow a few sequences of errors of one sign",
  [SYF + "timeline/sync.rs", SYF + "timeline/input.rs"], [("decision", "sync.rs SyncContext::speed_adjustment"), ("following", "sync.rs SyncedTimeline::sync, speed_adjustment"), ("starting over", "sync.rs SyncContext::reset, input.rs reset")], technique="case analysis over MIR paths on the order of the error, the margins and the streak, plus identities between the floating-point speed each path sets and the specified one")
P("C06", "The estimate of the peer's clock follows its newest packets",
  "The first estimate is the tick the peer stamped on a packet plus half the round trip; later packets move it from where it was towards that, by a weight that stays between its least and its greatest and falls as jitter grows. Nothing is estimated before the configured number of pings has been answered, a packet older than the newest counted changes nothing, and each packet counts once, for the link it arrived on. Between packets the estimate advances with time while the link is up and no rollback runs, and a new connection starts from nothing.",
  "inputs histories", "every order of packets, tick, round trip and jitter", "tests send a few packets in order over one link",
  [SYF + "timeline/remote.rs", SYF + "plugin.rs"], [("estimate", "remote.rs RemoteTimeline::update, ema_alpha"), ("what is reported", "remote.rs current_estimate, received_packet"), ("systems", "remote.rs update_remote_timeline, advance_remote_timeline, handle_connect")], technique="case analysis over MIR paths on the order of ticks, plus identities between the clock expressions each path computes and the specified estimate")
P("C07", "Input delay and the prediction window follow the configuration",
  "The input delay covers the slowest relevant link: the least number of ticks that leaves no more than the allowed prediction to cover the round trip and its jitter margin, never below the minimum and, while a link is unknown, unchanged or the minimum (a lockstep delay takes two more). The clock's target is the peer's clock half a round trip ahead plus the margins and one tick, less the delay, and the synchronised clock is handed out only while synchronised. Simulation waits once the window counted from the confirmed tick (or the first tick seen) is used up, and goes on only when two ticks of it are free again (none for smaller windows), reporting each change once.",
  "inputs histories", "every delay configuration, round trip, jitter and set of links; every confirmed and current tick", "tests compute a few delays for one link",
  [SYF + "timeline/input.rs", SYF + "timeline/sync.rs"], [("input delay", "input.rs InputDelayConfig::input_delay_ticks, recompute_input_delay_*"), ("target", "input.rs sync_objective, sync.rs SyncConfig::jitter_margin"), ("window", "input.rs PredictionWindowWait::update"), ("the synchronised clock", "input.rs SyncedLocalTimeline")], technique="case analysis over MIR paths on the order of the quantities, plus identities between the expressions each path computes and the specified ones")
P("C08", "Whom the local clock follows, and when game time stands still",
  "A client's clock is adjusted only in frames in which a packet from the server counted, and every jump is announced once, by exactly its distance, and applied to the tick once. The peers of a session (or the candidates of one starting) align once every one of them is estimated, and afterwards slow to the one they lead most and never jump: beyond the maximum the divergence is reported. A change of topology or of the candidates starts over unless a session is running; game time runs at the speed the clock asks for, stands still while the prediction window is used up, and at normal speed with nothing to follow.",
  "inputs histories", "every topology, set of peers, order of their leads, pattern of packets and change of either", "tests run one client or two peers",
  [SYF + "timeline/sync.rs", SYF + "client.rs"], [("following a server", "sync.rs sync_client_server"), ("following peers", "sync.rs sync_p2p_peers"), ("choice", "sync.rs sync_timelines, handle_connect, handle_host_client, handle_disconnect"), ("game time", "sync.rs update_virtual_time"), ("jumps", "sync.rs handle_local_timeline_shift")], technique="case analysis over MIR paths for every topology and set of up to three peers, with a log of the clock operations on each path")
P("M01", "A received message reaches only the receiver registered for its id",
  "A message or event arriving on a connected link is handed, at most once, to the component and functions registered for the id it carries, on the entity of that link, with its own channel, tick, message id, timeline and, for an event, sender. Bytes that do not decode and ids nothing is registered for deliver nothing and are an error.",
  "inputs", "every message id, registry content, channel and payload, including undecodable ones", "tests register one or two messages and send well-formed ones",
  [MSF + "receive.rs", MSF + "receive_event.rs"], [("dispatch", "receive.rs MessagePlugin::receive_message_bytes"), ("draining the channels", "receive.rs MessagePlugin::recv"), ("typed delivery", "receive_message_typed, queue_received, receive_event_typed")], technique="provenance dataflow over MIR: the key, table, component and arguments of every registered callback are traced to their origin on every path")
P("M02", "Timeline messages are released exactly when their tick is reached",
  "A message or event sent on a channel bound to a timeline waits under its own tick until that timeline, on the same link, has reached the tick, and is then released with every other one due, earliest tick first and in order of arrival within a tick; what is not due stays, and clearing unread messages leaves it waiting. At most 4096 wait per timeline and type, and one more than 100 ticks ahead of its timeline is refused.",
  "inputs histories", "every set of waiting messages and every tick relative to theirs; every distance between message tick and timeline", "tests release a few messages at chosen ticks",
  [MSF + "receive.rs", MSF + "receive_event.rs", MSF + "plugin.rs", "crates/core/utils/src/ready_buffer.rs"], [("buffers", "TimelineMessageBuffer, PendingTimelineEvents"), ("priority queue", "ready_buffer.rs drain_until, Ord"), ("lag limit", "receive_message_bytes, send_local_*"), ("release system", "plugin.rs release_timeline")], technique=SHP)
P("M03", "Every queued message is sent as its own id and bytes",
  "Each queued message or event is sent once, as the id it is registered under followed by its own serialisation and nothing else, on its own channel and with its own priority, over connected links only. One that cannot be serialised or sent neither holds back those queued after it nor leaves bytes in them, and a broadcast serves every recipient, with entities translated for each when the message carries any.",
  "inputs histories", "every queue content and every pattern of failures among its messages or recipients", "no test makes a message fail to serialise or send",
  [MSF + "send.rs", MSF + "send_trigger.rs", MSF + "multi.rs", MSF + "registry.rs"], [("typed sending", "send_message_typed, send_event_typed"), ("broadcast", "multi.rs send_with_priority"), ("system", "send.rs MessagePlugin::send")], technique="typestate over the shared write buffer along every MIR path, started from an empty and from a dirty buffer, plus provenance dataflow on the arguments")
P("M04", "A disconnected link keeps no message state of its peer",
  "When a link disconnects, its entity mapping is forgotten in both directions, its list of receivers is emptied, and the receivers of all message types and the waiting events of all event types are removed, so that nothing of the old session is seen in the next.",
  "histories", "every disconnection, whatever was registered and received before", "tests disconnect once with one message type",
  [MSF + "plugin.rs"], [("cleanup", "plugin.rs handle_disconnection")], technique="must-analysis over MIR paths of the observer and of the command it queues")
P("M05", "Local delivery to the host client follows the same rules",
  "A message or event the host client sends is handed, at most once and without serialisation, to the receiver registered for its type on the same entity, with the current tick, its own channel, timeline and, for an event, sender. Events bound to a timeline wait for it, others fire at once; a value of another type or already taken is refused, as is one for a full timeline buffer.",
  "inputs histories", "every message, channel and buffer fill level", "tests send one local message or event",
  [MSF + "send.rs", MSF + "send_trigger.rs", MSF + "receive.rs", MSF + "receive_event.rs"], [("local sending", "send_local_message_typed, send_local_trigger_typed"), ("local receiving", "receive_local_message_typed, receive_local_event_typed, ensure_capacity")], technique="provenance dataflow and path counting over MIR under case analysis")
P("M06", "Reading a receiver yields what arrived, whole and in order",
  "Reading takes every message that has arrived out of the receiver, first to last, each as it arrived with its own tick, channel and id; filtering keeps exactly the messages the filter accepts, shown each with its own data; and what is reported as waiting is what is there. At the end of a frame the unread messages of every receiver of every connected link are dropped, by the functions of their own type.",
  "inputs histories", "every content of the receiver, every filter, every number of receivers and links", "tests read one or two messages at once",
  [MSF + "receive.rs"], [("reading", "MessageReceiver::receive, receive_with_tick, retain_messages, retain_received_messages, has_messages, num_messages"), ("clearing", "MessagePlugin::clear")], technique="provenance dataflow and path counting over MIR under case analysis")
P("M07", "Registered types are numbered once and given to the sides of their direction",
  "A type registered for the network gets the next free number, once, and each is found from the other; registering it again changes nothing, not even the settings of a channel. Every channel with its timeline, and every type, counts into the hash of the protocol, which is final once asked for; what is registered for a direction can be sent by the sending side (the client, or each client of the server) and, for a channel, received by the other.",
  "inputs histories", "every registration order and number of types, every direction for messages, events and channels", "tests register a handful of types, mostly in both directions",
  ["crates/core/utils/src/registry.rs", TRF + "channel/registry.rs", TRF + "client.rs", TRF + "server.rs", MSF + "client.rs", MSF + "server.rs", MSF + "registry.rs", MSF + "trigger.rs"], [("numbering", "TypeMapper::add"), ("protocol hash", "RegistryHasher"), ("channels", "ChannelRegistry::add_channel_with_timeline"), ("directions", "add_direction, add_client_direction, add_server_direction")], technique="provenance dataflow and path counting over MIR under case analysis")
P("M08", "Entities inside a message are translated once on each side",
  "A message or event that carries entities has them translated by the mapping of its link: once, in a copy, before that copy is written, and once, after it is read, in what was read; one that carries none is written and read as it is. A failure to write or read is reported, and each type is registered under its own kind with its own sender and receiver components.",
  "inputs histories", "every message and event type, every mapping, with the inner function succeeding or failing", "tests translate one entity in one direction and never fail to write",
  [MSF + "registry.rs", MSF + "trigger.rs"], [("translation", "mapped_context_serialize, mapped_context_deserialize, trigger_serialize_mapped, trigger_deserialize_mapped"), ("registration", "register_message_custom_serde, register_event_custom_serde, add_map_entities")], technique="provenance dataflow and path counting over MIR under case analysis")
CNF = "crates/connection/connection/src/"; LKF = "crates/io/link/src/"
GRA = "schedule-graph analysis: the plugins' build and finish functions are executed symbolically over MIR, the registrations on every path give the ordering graph, and obligations are reachability queries on it"
PLUG = ["crates/core/sync/src/plugin.rs", "crates/core/sync/src/ping/plugin.rs", TRF + "plugin.rs", MSF + "plugin.rs", "crates/connection/netcode/src/client_plugin.rs", "crates/connection/netcode/src/server_plugin.rs", LKF + "lib.rs", "crates/io/udp/src/lib.rs", "crates/io/udp/src/server.rs"]
P("E01", "Received data climbs every layer within one frame",
  "In each frame the receiving side runs bottom-up for every transport and connection layer: the socket is read, the link and its conditioner deliver, the connection layer unwraps, packets are parsed, messages are dispatched, and only then do pings, session messages and messages waiting for a timeline get their turn. No pair of these layers is left to run in an unspecified order.",
  "schedules", "every order in which the scheduler may run the systems, for every transport and connection layer", "a test runs one schedule; an unordered pair happens to run in a good order, or costs a frame that no test notices",
  PLUG, [("ordering of receive systems", "configure_sets / add_systems in every plugin, PreUpdate")], technique=GRA)
P("E02", "Queued data descends every layer within one frame",
  "In each frame the sending side runs top-down for every transport and connection layer: pings are prepared, messages are serialised, packets are built, the connection layer seals them, and the socket is written and flushed, so what was queued in a frame leaves in that frame. No pair of these layers is left to run in an unspecified order.",
  "schedules", "every order in which the scheduler may run the systems, for every transport and connection layer", "a test runs one schedule; an unordered pair happens to run in a good order, or costs a frame that no test notices",
  PLUG, [("ordering of send systems", "configure_sets / add_systems in every plugin, PostUpdate")], technique=GRA)
P("E03", "Every handler of the library is driven by the plugins a user adds",
  "Each observer and system the library defines is registered, unconditionally, by its plugin, and the client and server plugin groups bring in every layer: links, every transport, the connection layers, packets, messages, pings, timelines and peer sessions. No handler is defined and left undriven.",
  "histories", "every handler of every plugin", "a test adds the plugins it needs by hand and exercises a few handlers",
  PLUG + ["crates/core/lightyear/src/client.rs", "crates/core/lightyear/src/server.rs"], [("registration", "Plugin::build and finish of every plugin"), ("groups", "ClientPlugins, ServerPlugins")], technique="enumeration of handlers by signature over MIR, matched with the registrations found by symbolic execution of the plugin builders")
P("E04", "Frame ends and fixed steps run their work in order, once",
  "At the end of a frame unread messages are cleared before locally delivered ones are queued, and clients that disconnected are removed by the server at that point and not earlier. Each fixed step advances the local tick in exactly one place, before anything else in the step and after the check whether a peer session starts at it.",
  "schedules", "every order in which the scheduler may run the systems", "a test runs one schedule",
  [MSF + "plugin.rs", CNF + "server.rs", CRF + "timeline.rs", "crates/connection/p2p/src/lib.rs"], [("end of frame", "MessagePlugin, ConnectionPlugin: Last"), ("fixed step", "TimelinePlugin, session start: FixedFirst")], technique=GRA)
P("K01", "A connection has exactly one state",
  "A client entity that enters one of the states connecting, connected, disconnecting or disconnected leaves the others, and a server entity that enters starting, started, stopping or stopped leaves the others, on the same entity and within the same change. A client of the secure connection layer starts out disconnected.",
  "histories", "every order of state changes on any entity", "tests walk through connect and disconnect once and look at one state at a time",
  [CNF + "client.rs", CNF + "server.rs"], [("client states", "client.rs hooks of Connecting, Connected, Disconnecting, Disconnected"), ("server states", "server.rs hooks of Starting, Started, Stopping, Stopped")], technique="effect analysis: the commands every component hook issues are collected along all MIR paths and compared with the state group")
EFF = "effect analysis: the commands and calls every observer and system issues are collected along all MIR paths in each case and compared with the rule"
P("K02", "The peer table leads to the entity of each peer",
  "An entity that becomes connected is recorded in the table of peers under its own remote peer id, and a server that is started under the server's id. An entity that disconnects, and a server that stops or is despawned, removes its own entry and never the entry of another entity; nothing else changes the table.",
  "histories", "every order of connections, disconnections and reconnections, with any peer ids, including two entities with the same id", "tests connect a few peers with different ids",
  [CNF + "client.rs", CNF + "server.rs"], [("connected", "client.rs Connected::on_add, Disconnected::on_add"), ("server", "server.rs hooks of Started, Starting, Stopping, Stopped")], technique="effect analysis: symbolic execution of the hooks over MIR, and a whole-program search for other writers of the table")
P("K05", "A connection does not outlive its link",
  "Connecting a client, or starting a server, opens the link of the same entity. When the link of a client is lost, a client that is not disconnected yet becomes disconnected with the reason the link gave; when the link of a started server is lost, the server becomes stopped, and every client link of that server is told to unlink for the same reason and is despawned. In the layer without security, a linked client or client of a server becomes connected under its address as its id, disconnecting or stopping closes the link, and unlinking records the reason that was given.",
  "histories", "every combination of link and connection state at each of these events, and any number of clients", "tests take down one link in one state",
  [CNF + "client.rs", CNF + "server.rs", LKF + "lib.rs", LKF + "server.rs", "crates/connection/raw_connection/src/client.rs", "crates/connection/raw_connection/src/server.rs"], [("link lost", "client.rs disconnect_if_link_fails, server.rs stop_if_link_fails, link server.rs Server::unlinked"), ("raw connections", "raw_connection client.rs, server.rs observers")], technique=EFF)
P("K07", "The server's entities follow its secure sessions",
  "On a running server of the secure layer, each session that is established gives its link's entity the connected state with the client's id as remote id and the server as local id, and each session that ends disconnects its entity, both exactly once; a session that was not accepted changes nothing. Payloads queued on a connected client's link are sealed once each, in order, for that client; payloads queued on a link without a session are dropped, while the protocol's own packets still leave. A stop request tells every connected client before the server stops, and a stopped server keeps no session and nothing to announce.",
  "histories", "every combination of link state, session event and pending stop request, each payload and every failure to send one", "tests connect and disconnect one or two clients",
  ["crates/connection/netcode/src/server_plugin.rs"], [("receive", "server_plugin.rs receive"), ("send", "server_plugin.rs send"), ("stop", "server_plugin.rs stop, reset_on_stopped, NetcodeServer::reset")], technique=EFF)
P("K08", "The client's entity follows its secure session",
  "When the handshake of a connecting client completes, its entity becomes connected, with the server as remote id and the token's client id as local id. When the session has ended for whatever reason, an entity that is not disconnected yet becomes disconnected: by the peer if the server said so, and otherwise with the error that ended it. Connecting starts the handshake, disconnecting ends the session and records that the user asked for it, and queued payloads are handed to the session once each, in order, before the protocol's own packets leave.",
  "histories", "every state of the handshake with every state of the entity, each payload and every failure to send one", "tests walk through one connection",
  ["crates/connection/netcode/src/client_plugin.rs"], [("receive", "client_plugin.rs receive"), ("send", "client_plugin.rs send"), ("requests", "client_plugin.rs connect, disconnect")], technique=EFF)
P("K06", "A client being removed is disconnected before it disappears",
  "In the last phase of each frame every entity that is a client of a server and is disconnecting becomes disconnected, at the user's request, and is then despawned, in this order, so that whoever watches for disconnections still finds the entity. No other entity is touched.",
  "histories", "any number of clients that are disconnecting in the same frame", "tests remove one client",
  [CNF + "server.rs"], [("removal", "server.rs ConnectionPlugin::disconnect")], technique=EFF)
P("K09", "A client in the server's own app becomes its host client",
  "When a client whose link leads to a started server of the same app connects, it becomes connected at once, with local ids on both sides, and in the same step it is marked as host client and client of the server, and the server records it as its host; if the server is not started yet, the client stays connecting and connects when the server starts. A client that is connected already becomes the host when it is linked to a started server or that server starts. When a host client disconnects it is disconnected at the user's request and neither side keeps its mark; clients that do not lead to a server of this app are left alone.",
  "histories", "every combination of client and server state at each of these events, in any order", "tests start the server and connect the client in one order",
  [CNF + "host.rs"], [("host client", "host.rs connect, disconnect, check_if_host_on_client_change, check_if_host_on_server_change")], technique=EFF)
P("K10", "The reported topology is the one the ready peers form",
  "The app is reported as client, server, host client or peer-to-peer exactly when its ready peers say so: one connected client alone, one started server alone, one connected host client linked to the one started server, or connected peer links that have all joined. No ready peer, or a peer link that has not joined yet, leaves the topology undefined, and every other combination is reported as invalid. Whenever a component that decides this is inserted or removed, the topology is inferred anew within the frame, before connections send.",
  "histories", "every combination of up to two clients, servers and peer links in any state, and every change of the components concerned", "tests build a few combinations",
  [CNF + "network_topology.rs"], [("inference", "network_topology.rs refresh_network_topology, infer_standard_topology"), ("staleness", "network_topology.rs mark_dirty_on_insert, mark_dirty_on_remove, NetworkTopologyPlugin")], technique="symbolic evaluation of the inference over MIR for every abstract combination, compared with the table; effect and schedule-graph analysis for staleness")

SETS = "pointwise abstract interpretation: each operation is interpreted along all MIR paths with its lists abstracted to whether one arbitrary peer is in them and whether there are others"
P("K03", "A network target names a set of peers",
  "Union, intersection, exclusion, complement, building a target from a list and adding a list to it give exactly the peers that the set operation gives on the sets their operands name, in whatever form the operands are written. A peer is targeted exactly when it is in the set. Sending to a target on a server sends the message once, to exactly those clients of that server that are registered for a peer in the set, where exclusions of unknown peers exclude nobody.",
  "inputs", "all pairs of targets in every form, with lists of any length and content, and any registered clients", "tests combine a few small lists",
  [CNF + "network_target.rs", MSF + "server.rs"], [("algebra", "network_target.rs Target::union, intersection, exclude, inverse, extend, from_exclude, targets"), ("resolution", "network_target.rs NetworkTargetResolver::resolve, apply_targets; server.rs ServerMultiMessageSender::send_with_priority")], technique=SETS)
CRASH = "abstract interpretation of every panicking operation over MIR, with finite enumeration of the bytes a sender chooses under the facts of the path"
P("N12", "No datagram can crash a netcode server or client",
  "Whatever bytes arrive in a datagram, reading and processing it never panics: a packet that is malformed, truncated, of a kind the receiver does not expect, or that claims impossible lengths is refused with an error. In particular a packet is only opened once the parts its first byte announces fit into the datagram, and only the kinds of packet that a side can process are let through to it.",
  "inputs", "every datagram of any length and content, in every state", "tests send well-formed packets and a few truncated ones",
  [NCF + "packet.rs", NCF + "server.rs", NCF + "client.rs"], [("reading", "packet.rs Packet::read, read_sequence, RequestPacket::read_from"), ("accepted kinds", "server.rs and client.rs ALLOWED_PACKETS, process_packet, recv_packet")], technique=CRASH)
P("T12", "Bytes from the remote cannot crash the receiver or exhaust its memory",
  "Decoding any sequence of bytes as any type of the wire format, and receiving any packet of messages, acknowledgements and fragments, either succeeds or reports an error; it never panics, cuts a buffer beyond its end, or unwraps something that could not be read. A part of a message that is out of range, of the wrong size, or disagrees with its message about the number of parts is refused before anything is stored. No memory is set aside for a length the remote announces before that much could have arrived.",
  "inputs", "every byte sequence, for every decoder and for the receive systems", "tests decode what they encoded",
  [SRF + "lib.rs", SRF + "reader.rs", TRF + "plugin.rs", TRF + "channel/fragments/receive.rs"], [("decoders", "serde lib.rs ToBytes::from_bytes, reader.rs Reader::split_len, take_remaining"), ("receiving", "plugin.rs TransportPlugin::buffer_receive; messages plugin.rs MessagePlugin::recv"), ("fragments", "channel/fragments/receive.rs FragmentReceiver::receive_fragment, FragmentConstructor::receive_fragment")], technique=CRASH)
P2F = "crates/connection/p2p/src/"; UDPF = "crates/io/udp/src/"; XBF = "crates/io/crossbeam/src/"
P("L01", "A link is in exactly one state, and a server's list is its links",
  "A link that starts being established, comes up or goes down leaves its other states within the same change, and remembers the state it entered last, with the reason when it went down; a link that is up ignores a late announcement that it is being established. A server that has no state starts down. The list of links a server keeps holds exactly the entities that name that server: an entity joins it when it comes to name the server and leaves it when it stops doing so.",
  "histories", "every order of state changes and of joining and leaving servers", "tests bring a link up and down once",
  [LKF + "lib.rs", LKF + "server.rs"], [("link states", "lib.rs hooks and observers of Linking, Linked, Unlinked"), ("membership", "server.rs LinkOf hooks")], technique=EFF)
P("L02", "The link conditioner applies the configured latency, jitter and loss",
  "A packet arriving on a conditioned link is lost exactly when a draw of its own is under the loss probability configured for the link's current loss state, and that state changes with the configured transition probability. A packet that is kept is released at its arrival time plus the latency plus a jitter spread evenly around zero, never before its time and in order of release; no configuration makes the draw panic. A link of a server takes over the server's conditioner for packets already received too, unless it has its own, and without a conditioner packets are available at once and in order.",
  "inputs", "every packet, draw, loss state and configuration", "tests use fixed settings and one random seed, so that a swapped probability or a mis-signed jitter rarely shows",
  [LKF + "conditioner.rs", LKF + "lib.rs", LKF + "server.rs"], [("conditioning", "conditioner.rs LinkConditioner::condition_packet"), ("release", "lib.rs LinkPlugin::apply_link_conditioner, LinkReceiver"), ("servers", "server.rs")],
  technique="symbolic execution of the conditioner and its queues over MIR with the draws left open, and comparison of the resulting formulas with the configuration")
P("L03", "UDP traffic goes between the right peers",
  "Every datagram the socket has is queued, in arrival order, on the link of the address it came from, and every packet queued on a link is sent, in order, to that link's peer whatever happens to the others. A datagram from an unknown address creates one link for that server and address, and an address whose link is gone is forgotten so that the peer can come back. A link or server that starts has a socket that never blocks; one whose socket cannot be set up does not come up, and one that goes down keeps no socket.",
  "histories", "every sequence of datagrams, addresses, socket errors and link removals", "tests exchange a few packets over a loopback socket that never fails",
  [UDPF + "lib.rs", UDPF + "server.rs"], [("client", "lib.rs UdpPlugin::send, receive, link, unlink"), ("server", "server.rs ServerUdpPlugin::send, receive, link, unlink")],
  technique="symbolic execution of the socket systems over MIR with every socket result and every state of the address table, and comparison of queues, sends and spawned links with the rule")
P("L04", "Link queues keep packets in order, and buffers are reused clean",
  "Packets leave each queue of a link in the order they were put in; a packet that could not be sent goes back in front of the others, and what is sent never shows up as received. The packet size of a link never falls below its guaranteed minimum, and a refused size changes nothing. A receive buffer that is reused is empty, can hold a whole packet and is not in use by anyone else; what is handed on is exactly what was read.",
  "histories", "every sequence of queue and buffer operations", "tests push and pop a couple of packets",
  [LKF + "lib.rs", CRF + "buffer_pool.rs"], [("queues", "lib.rs LinkSender, LinkReceiver"), ("packet size", "lib.rs Link"), ("buffers", "core buffer_pool.rs")],
  technique="symbolic execution of every queue and buffer operation over MIR, and comparison with the rule")
P("L05", "The in-process transport loses and reorders nothing",
  "What is sent on one end of an in-process link is received on the other, each packet once and in order. A packet the channel cannot take stays first in the queue for the next frame. A link whose other end is gone is taken down after everything that had been sent on it was received, and an empty or full channel is not an error.",
  "histories", "every interleaving of sending, filling up, closing and reading", "tests send a few packets over a channel that is never full or closed",
  [XBF + "lib.rs"], [("transport", "lib.rs CrossbeamPlugin::send, receive, link; CrossbeamIo::new_pair")], technique="symbolic execution of the transport over MIR with the channel accepting, refusing and closing at every position")
P("N13", "Every netcode session is found under its own link and identity",
  "A session that connects is found under the link and the client id it connected with, with its own replay window and the keys, time limit and user data of the token it presented last, and is not connected before the challenge is answered. Ending a session removes exactly that session, from every table, whatever the others are. The link and the client id of a session never change, and no operation lets two sessions share a link or a client id.",
  "histories", "every sequence of connections, repeated requests and removals, with any links and client ids", "tests connect and remove a few clients with different ids",
  [NCF + "server.rs"], [("tables", "server.rs ConnectionCache::add, remove, find_by_addr, find_by_id and every other place that changes them")],
  technique="symbolic execution of the table operations over MIR on every distinguishable table content, and enumeration of every other place that changes the tables")
P("K04", "Peers of a session start together at the latest tick proposed",
  "A peer-to-peer session starts at the latest of the ticks its members proposed, only after every member confirmed exactly that tick, and never after the tick has passed. Each peer proposes one tick and confirms one, for its current start and roster; what a message says counts only for the peer it came from, only if it belongs to this start and this roster, and once said it does not change. A new start takes nothing over from an earlier one, one that does not complete in its time limit fails, and only peers in the roster join.",
  "histories", "every order in which the messages and ticks of up to three peers arrive, with any ticks, and every kind of sender", "tests run two or three peers over a link that delivers in order",
  [P2F + "session.rs", P2F + "lib.rs"], [("barrier", "session.rs P2PSession::advance, receive, begin_start"), ("systems", "lib.rs P2PSessionPlugin")],
  technique="symbolic execution of the start barrier over MIR for every order of the ticks involved, and of the systems that drive it with every state of the links")
NB = "The crates that implement this (%s) do not build in this sandbox: they depend on bevy_replicon, bevy_enhanced_input, leafwing or avian, which are not in the offline registry (the pinned workspace leaves them out as well), so there is no type-checked program or MIR to analyse; a purely textual rule could not decide a property of this kind soundly."
P("R01", "Replicated entities converge to the server's state", "Once changes stop and messages get through, every client that may see an entity holds the same replicated components as the server, and a client that may not see it holds none of them.",
  "histories", "every order of spawns, changes, visibility changes and losses", "tests replicate a few components over a loss-free channel", ["crates/replication/replication/src"], [("replication", "crates/replication/replication/src")], na=NB % "crates/replication/replication")
P("R02", "Rollback reproduces the confirmed state", "When a confirmed state differs from the predicted one, re-running the recorded inputs from the confirmed tick ends in the state that the same inputs give on the server.",
  "histories", "every sequence of inputs, confirmations and mispredictions", "tests roll back a few ticks once", ["crates/replication/prediction/src"], [("prediction", "crates/replication/prediction/src")], na=NB % "crates/replication/prediction, crates/deterministic")
P("R03", "Interpolation stays between confirmed states", "An interpolated component shows a value between the two confirmed values around the interpolation time and never one from after the newest.",
  "histories", "every arrival pattern of updates", "tests interpolate between two values", ["crates/replication/interpolation/src"], [("interpolation", "crates/replication/interpolation/src")], na=NB % "crates/replication/interpolation")
P("R04", "The server applies each tick's input at that tick", "The input a client records for a tick is the input the server applies for that client at that tick, whatever was lost in between, as long as one packet carrying it arrives in time.",
  "histories", "every pattern of loss and reordering of input packets", "tests lose one packet", ["crates/inputs/inputs/src"], [("inputs", "crates/inputs/inputs/src")], na=NB % "crates/inputs")
P("T13", "Compressed packets expand to what was compressed", "A packet that was sent compressed is read as the packet before compression, for every content.",
  "inputs", "every packet content", "tests compress a few packets", ["crates/transport/transport/src/packet/compression.rs"], [("compression", "compression.rs")],
  na="That expansion inverts compression is a property of the LZ4 library, a loop over data-dependent matches that no static argument in reach can bound; what lightyear itself adds (the announced size, the choice of the smaller form, the size limits) is decided under T09 and T10.")
P("T18", "A reliable message is delivered eventually", "If the link delivers infinitely often, every message sent on a reliable channel is delivered in the end.",
  "schedules", "every fair schedule of losses", "tests run a bounded number of frames", ["crates/transport/transport/src/channel/send_reliable.rs"], [("resending", "channel/send_reliable.rs")],
  na="A liveness property over unbounded fair schedules of two communicating programs and a bandwidth quota; it needs a model of both ends and of fairness, which this family cannot bound from the source. The safety half (a message stays pending and is offered again until it is acknowledged) is decided under T05.")
P("C09", "Clock synchronisation converges", "With a stable network the client's time settles at the intended lead over the server and stays there.",
  "schedules", "every pattern of delays around a stable mean", "tests simulate a few seconds", ["crates/core/sync/src"], [("sync", "crates/core/sync/src/timeline/sync.rs")],
  na="Convergence of a feedback loop over floating-point estimates of a random process is a statement about runtime quantities that no sound static argument in reach can bound.")
