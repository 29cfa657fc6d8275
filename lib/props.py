"""Property texts."""
def P(id, title, statement, over, text, tests, files, mech, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=a)

SER = "crates/transport/serde/src/"
CORE = "crates/core/core/src/"
NET = "crates/connection/netcode/src/"
TR = "crates/transport/transport/src/"
ALL = [
 P("S01", "Integer and varint wire codec is exact, canonical in length and total",
   "Every unsigned, signed and variable-length integer that is written reads back as the same value, with exactly the bytes the length function announces, in big-endian order and in the shortest varint class that fits (values up to 2^62-1). Reading any bytes whatsoever either yields the value those bytes denote, consuming exactly the announced number of bytes, or an error when they are too short; it never panics and never consumes bytes of the next field.",
   ["inputs"], "all 2^64 integer values; all byte strings of up to 8 bytes and every truncation of them",
   "The tests write a dozen integers at class boundaries; the codec underlies every header and message, and all 2^62 values and all byte strings must work.",
   [SER + "varint.rs", SER + "reader.rs", SER + "writer.rs"],
   [("varint classes", SER + "varint.rs varint_len, varint_parse_len"), ("integer writers", SER + "writer.rs WriteInteger"), ("integer readers", SER + "reader.rs ReadInteger, ReadVarInt")]),
 P("S02", "Value codecs round-trip: peer ids, entities, ticks, times, options, tuples",
   "Every peer id, entity (index, generation and mapped mark), tick, optional value and tuple that is encoded decodes to the same value, uses exactly the number of bytes its length function announces and leaves the bytes that follow unread; time fractions keep exactly their documented precision. Strict prefixes of an encoding are rejected, and a wire value outside the type's range is an error and never another value.",
   ["inputs"], "all values of each type; all truncations",
   "Tests encode a few samples per type; entity encoding multiplexes two flags into the index and generation over the whole 64-bit space.",
   [SER + "lib.rs", SER + "entity_map.rs", CORE + "id.rs", CORE + "tick.rs", CORE + "time.rs"],
   [("entity codec", SER + "entity_map.rs impl ToBytes for Entity"), ("peer id codec", CORE + "id.rs impl ToBytes for PeerId"), ("time codecs", CORE + "time.rs")]),
 P("S04", "Wrapping sequence identifiers compare by circular distance",
   "For any two 16-bit message or packet identifiers the difference is the unique representative of their distance modulo 2^16 in the signed range, and comparison agrees with its sign: an identifier is older than another iff it lies less than half the circle behind it. Adding an increment shifts the difference by that increment across the wrap, comparison is antisymmetric, total, and transitive inside any half-circle window.",
   ["inputs"], "all pairs and triples of identifiers and increments, including every wrap",
   "Tests check a handful of pairs around 0 and 32768; every dedup, ordering and ack decision depends on all 2^32 pairs.",
   ["crates/core/utils/src/wrapping_id.rs"], [("wrapping_id!", "crates/core/utils/src/wrapping_id.rs wrapping_diff, Ord, Add, Sub")]),
 P("S05", "Tick arithmetic is exact and saturating, and agrees with tick order",
   "Ticks are ordered numerically; the difference of two ticks is their exact signed distance saturated to the i32 range, its sign agrees with the order, and adding or subtracting ticks or offsets gives the exact result saturated to the tick range, never wrapping or panicking. The shared atomic tick reads back what was stored and set_if_lower keeps the minimum of all recorded ticks, with new_max accepting any first tick.",
   ["inputs"], "all tick pairs and increments",
   "Tests cover a few ticks; sync, history and rollback logic compare and move ticks at any distance including at both ends of the range.",
   [CORE + "tick.rs"], [("Tick", CORE + "tick.rs"), ("AtomicTick", CORE + "tick.rs")]),
 P("S06", "Tick instants and deltas form a consistent fixed-point timeline",
   "A tick instant is a tick plus a fraction in [0,1): building, splitting and comparing instants agree with the pair order, the difference of two instants added back gives the first, and deltas add, subtract, negate and scale by a fraction exactly (to the last bit of the representation), moving an instant by exactly the delta. Rounding a delta to ticks gives the closest integer; conversions to and from durations are monotone, keep the sign and are correct to the precision of f32; oversteps saturate within [0,1) and compare as their values.",
   ["inputs"], "all instants, deltas and oversteps (durations: bounded)",
   "Tests use a few hand-picked fractions; every sync adjustment and interpolation fraction goes through this arithmetic.",
   [CORE + "time.rs"], [("TickInstant/TickDelta/Overstep", CORE + "time.rs")]),
 P("N16", "Encrypted packets are accepted at most once: replay window is exact",
   "Whatever the order in which sequence numbers arrive, a sequence number that was accepted once is never accepted again, and a sequence older than the window is never accepted. A fresh sequence number inside the window below the most recent one, or above it, is accepted, up to the last representable sequence number.",
   ["inputs", "histories"], "all 64-bit sequence numbers and all histories of accepted sequence numbers",
   "The unit test walks one ascending run; the guarantee is about every interleaving and every wrap of the circular buffer.",
   [NET + "replay.rs", NET + "packet.rs"],
   [("ReplayProtection", NET + "replay.rs is_already_received, advance_sequence")], hook="cfg-guarded constructor/accessor of the replay window"),
 P("N17", "Netcode packets are authenticated, bound to kind and sequence, and parsed safely",
   "Every packet written with a key reads back identically with the same key, protocol id and an allowed kind, and its sequence number and kind survive the wire. Any change of a byte, length, key or protocol id, any kind the receiver does not allow and any request with a wrong version, protocol or expiry is refused without consuming a sequence number. No byte string, even one encrypted by a peer that holds the key, makes the parser panic.",
   ["inputs"], "all packets, sequence numbers, keys and byte strings (the AEAD primitive itself is trusted)",
   "Tests write and read one packet of each kind with one key; tampering, disallowed kinds and hostile authenticated bodies are unbounded input classes.",
   [NET + "packet.rs", NET + "crypto.rs", NET + "bytes.rs"],
   [("Packet::read/write", NET + "packet.rs"), ("RequestPacket::validate", NET + "packet.rs"), ("sequence bytes", NET + "packet.rs sequence_len, read_sequence, write_sequence")], hook="cfg-guarded wrappers over the crate-private packet type"),
 P("N18", "Connect and challenge tokens carry exactly what was issued and cannot be altered",
   "A connect token decodes to exactly the protocol, times, addresses, keys and user data it was issued with, its private part opens only with the server key, protocol, expiry and nonce it was sealed with and agrees with the public part; a challenge token opens only with its key and sequence. Altered tokens and arbitrary bytes are refused without panicking.",
   ["inputs"], "all token contents, 1 to 32 addresses, every altered byte",
   "Tests use one token and no tampering.",
   [NET + "token.rs", NET + "bytes.rs"], [("ConnectTokenPrivate/ConnectToken/ChallengeToken", NET + "token.rs")], hook="cfg-guarded wrappers over crate-private token types"),
 P("N19", "Netcode server admits only token holders and isolates sessions",
   "Under any loss, duplication, reordering, replay, alteration and cross-delivery of packets, and whatever token holders do, the server announces exactly the clients it has connected, each once per session, on the link that answered the challenge, and only holders of an acceptable token, with at most the configured number of clients and one entry per client id and per link. Both sides hand over only payloads the peer of this session sent, each at most once per session, and never reuse a packet sequence number within one; the connected client id and user data are those of the token. On a network that delivers, acceptable clients get in while there is room, payloads arrive both ways, and disconnecting, timing out or resetting ends the session for both sides and frees its place.",
   ["schedules", "fault_sequences", "histories"], "all interleavings of several clients, refused tokens and network faults",
   "Tests perform one clean handshake; adversarial interleavings of several sessions are unbounded.",
   [NET + "server.rs", NET + "client.rs"], [("connection table", NET + "server.rs ConnectionCache"), ("request/response processing", NET + "server.rs"), ("client state machine", NET + "client.rs")], hook="cfg-guarded access to table invariants"),
 P("T07", "Packet acknowledgement protocol: acks, losses and windows tell the truth",
   "A packet is reported acknowledged to its sender only if the peer received it, and lost only if the loss timeout passed without an ack; no packet is reported twice or reported both ways. Any received packet among the 32 before the newest received one is acknowledged by the next header the receiver sends; headers encode and decode exactly (kind, id, tick, latest ack, 32-packet window), whatever the loss, duplication and reordering, across the wrap of packet ids.",
   ["inputs", "schedules", "histories"], "all headers; all orders of receiving packets including duplicates and id wrap",
   "Tests replay one short exchange; resend, loss detection and bandwidth logic trust these acks for every network history.",
   [TR + "packet/header.rs"], [("PacketHeader codec", TR + "packet/header.rs impl ToBytes for PacketHeader"), ("ReceiveBuffer", TR + "packet/header.rs ReceiveBuffer::recv_packet, get_bitfield"), ("PacketHeaderManager", TR + "packet/header.rs process_recv_packet_header, prepare_send_packet_header, update")], hook="cfg-guarded access to the header manager"),
 P("T08", "Reliable channels deliver every message exactly once, ordered ones in order",
   "Whatever the network does to packets, the receiver of an ordered reliable channel hands out exactly the sent messages, byte for byte, in sending order, with no gap and no duplicate; an unordered reliable channel hands out each sent message at most once and holds none back. Once the network delivers again, every message gets through, including more than 65536 messages on one channel.",
   ["schedules", "fault_sequences", "histories"], "all receive orders of message ids with duplicates and gaps, ids wrapping; all loss/duplication schedules end to end (bounded)",
   "Tests feed two or three messages; exactly-once has to hold for every arrival order.",
   [TR + "channel/receive.rs", TR + "plugin.rs"], [("receive state", TR + "channel/receive.rs prepare_receive, push_completed, read_message"), ("plugin receive/send systems", TR + "plugin.rs buffer_receive, buffer_send")], hook="cfg-guarded constructor of the channel receiver"),
 P("T09", "Sequenced channels never go back, unordered unreliable channels add nothing",
   "A sequenced channel hands out only messages newer than everything handed out before, never a duplicate, and always hands out a message newer than all before it; an unordered unreliable channel hands out exactly the messages that arrived, unchanged, as often as they arrived. No channel invents, alters or merges messages.",
   ["schedules", "histories"], "all receive orders with duplicates, ids wrapping",
   "Tests feed a few ids in one order.",
   [TR + "channel/receive.rs"], [("receive state", TR + "channel/receive.rs prepare_receive, push_completed, read_message")], hook="cfg-guarded constructor of the channel receiver"),
 P("T10", "Fragmented messages reassemble to exactly the sent bytes, or not at all",
   "A message larger than a fragment is cut into fragments that cover it exactly, each small enough for the link, and the receiver produces the message exactly once, when and only when all its fragments have arrived, whatever their order and duplication and however several messages interleave. Incomplete messages expire when told to; inconsistent or hostile fragments (any counts, indices, sizes) are errors that neither panic nor reserve memory that was not sent.",
   ["inputs", "schedules"], "all message and fragment sizes, all arrival orders, hostile fragments",
   "Tests reassemble one message in order; sizes at boundaries, interleavings and hostile values are unbounded.",
   [TR + "channel/fragments/receive.rs", TR + "channel/fragments/send.rs", TR + "packet/message.rs"], [("FragmentConstructor/FragmentReceiver", TR + "channel/fragments/receive.rs"), ("FragmentSender", TR + "channel/fragments/send.rs"), ("fragment size from mtu", TR + "packet/packet.rs")], hook="cfg-guarded access to fragment types"),
 P("T11", "A reliable sender keeps every message until acked and retries on schedule",
   "Each message, or each fragment of it, given to a reliable channel is offered for sending at once, offered again once its retry delay has passed without an acknowledgement and not before, and never again after it was acknowledged; a fragmented message counts as acknowledged exactly when all its fragments are. Message ids are consecutive. Send frequency gates batches without losing messages.",
   ["schedules", "histories"], "all interleavings of sending, time steps, packet building and acknowledgements",
   "Tests step through one resend; the loss of one message under some interleaving stalls an ordered channel forever.",
   [TR + "channel/send_reliable.rs", TR + "channel/send.rs"], [("reliable sender", TR + "channel/send_reliable.rs")], hook="cfg-guarded access to the sender"),
 P("T12", "Unreliable senders send each message once and report its fate truthfully",
   "A message given to an unreliable channel is offered exactly once, unchanged and in order of sending, when the channel's send frequency allows it; with-acks channels report acknowledgement of a message exactly when all its pieces were acknowledged.",
   ["schedules", "histories"], "all interleavings of sending, time steps and acks",
   "Tests send a couple of messages.",
   [TR + "channel/send.rs"], [("unreliable sender", TR + "channel/send.rs")], hook="cfg-guarded access to the sender"),
 P("T13", "Packets carry exactly the messages handed in, within the link's MTU",
   "However messages and fragments of many channels are packed, every packet is at most the link's MTU, and decoding the packets yields exactly the messages and fragments that were handed in, each once, on its own channel and unchanged, with those of one channel in their order; decoding arbitrary bytes yields messages or an error and never panics.",
   ["inputs", "schedules"], "all mixes of channel ids, sizes and mtus",
   "Tests pack a few messages at one mtu; off-by-one in the size accounting shows only at exact fits.",
   [TR + "packet/packet_builder.rs", TR + "packet/packet.rs", TR + "packet/message.rs"], [("packet builder", TR + "packet/packet_builder.rs build_packets"), ("packet parser", TR + "packet/packet.rs")], hook="cfg-guarded access to the packet builder"),
 P("T14", "Bandwidth limit and priority decide when messages go out, and lose none",
   "With a bandwidth limit, what a flush sends is a subset of what is eligible, unchanged and each piece at most once; never more bytes are sent than the accumulated allowance permits, and no message is held back while one of lower effective priority (message priority times channel priority, accumulating at every flush for reliable messages, so that none starves) is sent. What did not fit stays eligible, unless its unreliable channel is told to discard what bandwidth held back, and then still not the rest of a message partly sent. Without a limit everything eligible is sent.",
   ["schedules", "histories"], "all priority and quota histories",
   "Tests use one quota and three messages.",
   [TR + "packet/priority_manager.rs"], [("PriorityManager", TR + "packet/priority_manager.rs")], hook="cfg-guarded access to the priority manager"),
 P("T15", "End to end, acknowledgements of messages correspond to actual receipt",
   "When a peer is told that a message was acknowledged, the other peer has received it completely; on a link that delivers everything, everything sent is delivered exactly once and acknowledged or, if the answer came after the loss timeout, reported lost, after which the link falls silent. Once nothing arrives any more, every message sent with acknowledgements was reported acknowledged or lost, and nothing is remembered of it. After a disconnection both ends restart from scratch with nothing left over of the old session.",
   ["schedules", "fault_sequences", "histories"], "all network schedules between two peers (bounded)",
   "Tests check acks on a single in-order exchange; ack-driven logic upstream (replication deltas, spawn acks) relies on their truth under loss.",
   [TR + "plugin.rs", TR + "channel/fragments/ack.rs", TR + "channel/builder.rs"], [("packet to message map", TR + "plugin.rs, " + TR + "channel/builder.rs"), ("fragment acks", TR + "channel/fragments/ack.rs")], hook="cfg-guarded access to the fragment ack tracker"),
 P("C21", "History buffer always reports the state in force at a tick",
   "Entries stay sorted by tick, each tick at most once. The state at a tick is that of the latest entry at or before it (none before the first entry), whatever was added, overwritten, popped, cleared or shifted before: adding a state at a tick discards everything after it and overwrites the same tick; popping or clearing up to a tick keeps the state in force at that tick; clearing after a tick changes no state up to it; clearing except a tick leaves only that state; a resync shift moves all ticks alike.",
   ["inputs", "histories"], "all operation sequences over all ticks and values",
   "Tests run a few operations on three or four entries; rollback correctness relies on every sequence, including overwrites and clears at the boundaries.",
   [CORE + "history_buffer.rs"], [("HistoryBuffer", CORE + "history_buffer.rs add_state, get_state, clear_until_tick, clear_after_tick, clear_except_tick, pop_until_tick")]),
 P("C22", "Confirmed history answers at-or-before queries exactly under late inserts",
   "Ticks stay strictly increasing and the first entry is always explicit. The confirmed state at a tick is that of the latest explicit entry at or before it, where ticks confirmed unchanged repeat the state before them: inserting an explicit state, in order or late, changes the answer exactly from that tick to the next explicit entry; confirming a tick unchanged changes no answer except by extending the newest confirmed tick; popping and clearing up to a tick never change the answer at or after it.",
   ["inputs", "histories"], "all operation sequences over all ticks and values, including late and duplicate inserts",
   "Tests insert in a few orders; confirmed ticks arrive in any order on a real network and rollback and interpolation compare against them.",
   [CORE + "confirmed_history.rs"], [("ConfirmedHistory", CORE + "confirmed_history.rs insert, insert_explicit, add_unchanged, push_unchanged, pop_present, clear_until_tick")]),
]
SY = "crates/core/sync/src/"
ALL += [
 P("Y26", "Round-trip estimates come only from genuine, newest answers to own pings",
   "At most one ping is sent per interval, with consecutive identifiers, and every received ping is answered exactly once, in order. An answer yields a latency sample only if it answers one of the last 128 pings of this session, not answered yet, and newer than every ping sampled before; the sample is the time between sending and receiving minus the time the peer spent, never negative, and no claim of a peer makes the receiver panic. The estimates are the documented moving averages of the samples, with outliers capped, so they stay within the range of the samples; a reset forgets everything.",
   ["inputs", "histories"], "all orders of pings, answers (late, duplicate, unknown, hostile), clock steps and resets, ids wrapping",
   "Tests feed a few samples to the estimator; late, duplicated and hostile answers over wrapping identifiers are an unbounded set.",
   [SY + "ping/manager.rs", SY + "ping/store.rs", SY + "ping/estimator.rs", SY + "ping/message.rs", SY + "ping/plugin.rs"],
   [("PingManager", SY + "ping/manager.rs maybe_prepare_ping, process_pong, buffer_pending_pong"), ("PingStore", SY + "ping/store.rs"), ("RttEstimatorEwma", SY + "ping/estimator.rs update_with_new_sample")], hook="cfg-guarded wrappers over crate-private methods"),
 P("Y27", "The local clock follows the remote clock without spurious jumps",
   "The estimate of the remote clock ignores old ticks and ticks before latency is known, takes its first measurement (tick plus half the round trip) as is, and then moves towards each new measurement by the jitter-dependent factor, advancing with real time in between; a reconnection restarts it. A client aligns once to its objective (remote estimate, half round trip, jitter margin, pipeline tick, deadband, minus input delay), then only changes speed, against the error and in proportion to it, after repeated errors in one direction; otherwise speed returns to 1. Only an error beyond the maximum shifts ticks, by the nearest whole number. P2P peers align once, when all candidates are known, a leader to the slowest; running peers never shift ticks nor speed up, and excess lead is reported.",
   ["inputs", "histories", "schedules"], "all sequences of packets, latency samples, clock errors and topology changes",
   "Tests run a handful of fixed sequences; pacing decisions depend on the history of errors and on which links are ready.",
   [SY + "timeline/remote.rs", SY + "timeline/sync.rs", SY + "timeline/input.rs"],
   [("RemoteTimeline", SY + "timeline/remote.rs update, ema_alpha"), ("TimelineSync/SyncContext", SY + "timeline/sync.rs sync, speed_adjustment, sync_p2p_peers, update_virtual_time"), ("objective", SY + "timeline/input.rs sync_objective")], hook="cfg-guarded wrappers over crate-private methods"),
 P("Y28", "Input delay covers latency as configured and prediction stops at its window",
   "Input delay is never below the minimum; latency (round trip plus jitter margin, in ticks rounded up) is covered by delay up to the configured maximum, then by prediction up to its limit, and by more delay beyond that, for every configuration without overflow. The session's delay is the largest any relevant link needs, recomputed on shifts and configuration changes, and the minimum while latency is unknown. Deterministic simulation stops exactly when it leads confirmed input by the prediction window, resumes with two ticks of headroom (or none left to wait for), and never holds back the first tick.",
   ["inputs", "histories"], "all configurations, latencies, tick histories and topologies",
   "Tests use two configurations and one walk through the window; limits at zero, at saturation and at the start of a session need all inputs.",
   [SY + "timeline/input.rs"],
   [("InputDelayConfig", SY + "timeline/input.rs input_delay_ticks"), ("PredictionWindowWait", SY + "timeline/input.rs update"), ("recompute_input_delay", SY + "timeline/input.rs")], hook="cfg-guarded wrapper over input_delay_ticks"),
]
CON = "crates/connection/connection/src/"
LNK = "crates/io/link/src/"
UT = "crates/core/utils/src/"
ALL += [
 P("S03", "Collections, frames and user types survive the wire; bad lengths are harmless",
   "Every byte string, list, inline list, map, tuple, message frame, fragment frame and registered user value that is written reads back equal, occupies exactly its declared length, leaves earlier and later bytes untouched, and every strict prefix of it is rejected with an error. Inline lists have the format of vectors; entity fields of user values arrive mapped through the entity maps. Decoding arbitrary bytes never panics and never reserves memory for a length the peer merely claims.",
   ["inputs"], "all values of the collection and message types; all byte strings offered to their decoders",
   "Tests write one or two short collections; length-class boundaries, nesting and hostile lengths need all inputs.",
   [SER + "lib.rs", SER + "registry.rs", SER + "postcard_utils.rs", SER + "reader.rs", TR + "packet/message.rs"],
   [("collection codecs", SER + "lib.rs ToBytes for Vec, SmallVec, HashMap, Bytes"), ("frames", TR + "packet/message.rs SingleData, FragmentData"), ("user types", SER + "registry.rs ErasedSerializeFns"), ("Reader::split_len", SER + "reader.rs")]),
 P("N20", "Links deliver each packet once, in order; conditioner and lifecycle are exact",
   "Packets pushed on a link's receive or send queue come out once, unchanged and in order. A conditioned packet becomes available no earlier than latency minus jitter and no later than latency plus jitter (milliseconds), once, unless the configured loss drops it: never at loss 0, always at loss 1; loss models have the mean loss and burst length they were built for. The MTU never falls below its fixed minimum. Link markers are exclusive, the latest wins (Linking never undoes Linked) and Link::state mirrors them; unlinking carries its reason, and unlinking a server unlinks for the same reason and despawns its links, which are exactly those naming it and inherit its conditioner.",
   ["inputs", "histories"], "all queue histories, conditioner settings, arrival times and lifecycle histories",
   "Tests push a few packets and insert single markers; orders of lifecycle events and timing boundaries need histories.",
   [LNK + "lib.rs", LNK + "conditioner.rs", LNK + "mtu.rs", LNK + "server.rs"],
   [("queues", LNK + "lib.rs LinkReceiver, LinkSender"), ("conditioner", LNK + "conditioner.rs condition_packet, pop_packet"), ("markers", LNK + "lib.rs Linking, Linked, Unlinked on_insert"), ("server links", LNK + "server.rs Server::unlinked, LinkOf hooks")], hook="cfg-guarded wrappers over condition_packet and pop_packet"),
 P("C23", "Network targets compute exactly the set of recipients they denote",
   "Union, intersection, difference, complement, extension and construction of network targets denote exactly the set of peers their names say, for every representation (single, list, exclusion list, duplicates, empty or long lists); a target is empty exactly when it denotes nobody. Resolving or applying a target to the connected clients reaches each connected member exactly once, in client order, and nobody else, even when a peer is unmapped or mapped to an unconnected entity, and independently of earlier resolutions. Targets survive the wire; malformed ones are errors.",
   ["inputs"], "all pairs of targets, client lists and peer mappings",
   "Tests try a table of small lists; the algebra has 36 representation pairs with separate paths for short and long lists and duplicates.",
   [CON + "network_target.rs"],
   [("set algebra", CON + "network_target.rs intersection, union, exclude, inverse, extend"), ("resolution", CON + "network_target.rs NetworkTargetResolver::resolve, apply_targets"), ("codec", CON + "network_target.rs ToBytes for Target")], hook="cfg-guarded wrappers over the crate-private set operations"),
 P("C24", "Entity references denote the same entity at both ends of a connection",
   "While entities are bound one-to-one, the entity map is a bijection: remote-to-local and local-to-remote are inverse, and removal (by remote name, or by a marked name, which is the receiver's own entity) removes both directions and returns the local entity. A reference sent by either peer, mapped by the sender or by the receiver and carried over the wire, denotes the corresponding entity at the other end; an unknown reference is never taken for another entity (placeholder, or unchanged where the mapping is optional).",
   ["inputs", "histories"], "all entities (generation below 2^31), one-to-one binding histories and senders",
   "Tests map one or two entities; name clashes between the two worlds, re-binding and double mapping need histories.",
   [SER + "entity_map.rs"],
   [("RemoteEntityMap", SER + "entity_map.rs insert, get_local, to_remote, remove_by_remote"), ("mappers", SER + "entity_map.rs SendEntityMap, ReceiveEntityMap, EntityMap get_mapped")]),
 P("C25", "Ready buffers, sequence buffers and free lists match their abstract containers",
   "A ready buffer releases an item exactly once, only when its key is reached, lowest key first; taking the latest item not after a key drops exactly the items not after it; draining up to a key returns exactly those items in key order, draining from a key exactly the others. A sequence buffer slot (key modulo size) holds the last value pushed on it until removed or cleared. A free list uses the first free slot, never an occupied one, keeps every other slot unchanged, and its length and iteration are exactly the occupied slots.",
   ["inputs", "histories"], "all histories of operations on the containers",
   "Tests push two or three items; duplicates, wrap-around and interleaved removals need histories.",
   [UT + "ready_buffer.rs", UT + "sequence_buffer.rs", UT + "free_list.rs"],
   [("ReadyBuffer", UT + "ready_buffer.rs pop_item, pop_until, drain_until, drain_after"), ("SequenceBuffer", UT + "sequence_buffer.rs"), ("FreeList", UT + "free_list.rs")]),
 P("C26", "Cached topology, peer map and connection states follow the entities exactly",
   "After each update the cached topology is what the roles and lifecycle of the entities imply (client, server, host, P2P session with its sorted connected members, undefined, or the specific conflict, naming the lowest entities), and changes are notified only when it differs. The peer map lists exactly the connected peers and the started server; disconnecting, stopping or despawning an entity removes only its own entry. Connection and server states are exclusive with the latest winning; link failure disconnects with its reason or stops a started server; connecting or starting starts the link once; a disconnecting server-side client is despawned at the end of the frame; a host client connects as soon as its server runs.",
   ["histories"], "all histories of role and lifecycle changes",
   "Tests walk a dozen fixed worlds; conflicts, reconnections and stale entities depend on order.",
   [CON + "network_topology.rs", CON + "client.rs", CON + "server.rs", CON + "host.rs"],
   [("topology", CON + "network_topology.rs refresh_network_topology, infer_standard_topology"), ("client lifecycle", CON + "client.rs Connected, Connecting, Disconnecting, Disconnected hooks"), ("server lifecycle", CON + "server.rs Started, Stopped hooks, disconnect"), ("host client", CON + "host.rs")]),
]
NA = {}
KN = "Kani function contracts/harnesses on the compiled real code (all inputs) plus native bounded execution of the same contracts"
TECH = {
 "S01": (KN, "Proof: every harness is loop-free or has loops bounded by the integer width, so the Kani/CBMC obligations cover all inputs. Trusts rustc MIR, Kani, CBMC, and the in-memory sink used as writer."),
 "S02": (KN, "Proof for each listed type over all values; peer ids also for all byte sequences, truncated ones included (Verus). Trusts rustc MIR, Kani, CBMC, Verus, Z3."),
 "S04": (KN, "Proof over all identifiers. Trusts rustc MIR, Kani, CBMC."),
 "S05": (KN, "Proof over all ticks (sequential use of the atomic). Trusts rustc MIR, Kani, CBMC."),
 "S06": (KN, "Proof over all fixed-point values; conversions to and from durations go through f32 and are a bounded native check. Trusts rustc MIR, Kani, CBMC, and the `fixed` crate as compiled."),
 "N16": (KN, "Proof by induction on histories: each call's post-condition and frame are discharged from an arbitrary state; induction itself is the paper argument in DESIGN.md. Trusts rustc MIR, Kani, CBMC."),
 "N17": (KN, "Sequence, prefix, associated-data and request-validation contracts are proved for all inputs; the encrypted read/write path is a bounded native search because the AEAD is out of the verifier's reach."),
 "N18": ("Verus deductive verification of the token functions extracted mechanically from the current source, plus native bounded execution of the contracts", "What tokens contain, their bytes, what is sealed to which parameters, that sealing fits and that opening gives what was sealed or an error, are proved on the real functions for all tokens and all byte strings; the AEAD is trusted (uninterpreted), its execution is a bounded native check."),
 "N19": ("Verus deductive verification of the server functions extracted mechanically from the current source, plus native bounded execution of the session contract under an adversarial network", "The server's table of sessions and everything that starts, connects, uses and ends a session, and the client's state machine with what it sends and hands over, are proved on the real functions for all histories (clients announced are the clients connected, once each, on the link that was challenged, within capacity; numbers are not reused; payloads are opened under the session's key and once). The sealing itself and both ends together are bounded native checks."),
}
VN = "Verus deductive verification of the functions extracted mechanically from the current source, plus native bounded execution of the contracts"
BN = "native execution of the contracts on the real code (bounded)"
TECH.update({
 "T07": ("Kani for the header codec, Verus for the acknowledgement bookkeeping (functions extracted mechanically from the current source), plus native bounded execution of the contracts", "Header codec, receive window, ack processing, loss and commit functions are proved for all states and inputs, histories by induction lemmas; the timeout value and two-peer schedules are bounded native checks."),
 "T08": (VN, "The receiver functions meet their contracts for all states and inputs; exactly-once/in-order over all arrival histories is a lemma by induction over those contracts. Sender-to-receiver delivery through the plugin is a bounded native schedule search."),
 "T09": (VN, "As T08, for sequenced and unordered unreliable channels."),
 "T10": (VN, "Cutting, reassembly and expiry are proved for all messages, sizes, orders and hostile values; fragment sizing and compression are bounded native checks."),
 "T11": (VN, "Which messages and pieces a flush offers, what commits and acknowledgements do to them, and the retry delay are proved on the real sender for all states; the pacing timer and the end-to-end path are bounded native checks."),
 "T12": (VN, "That a message handed in is offered exactly once, unless the channel is told to discard what bandwidth held back, and what acknowledgements report, is proved on the real sender for all states; the way to the link is a bounded native check."),
 "T13": (VN, "The packet builder, the closure that reads every packet and the closure that flushes every link are proved for all candidates, bytes and channels; the ECS queries around them are bounded native checks."), "T14": (VN, "The order, the quota decision and the whole flush of a link are proved for all candidates and quota answers; the limiter's own accounting over time is a bounded native check."), "T15": (VN+" (fragment acks, what a flush awaits and what a receive reports are proved; end-to-end schedules bounded)", "The fragment acknowledgement bookkeeping, the packet-to-message map, the entries a flush makes in it and the whole receive of a link (what is reported acknowledged or lost, to which channel, in which order) are proved; the end-to-end statement is bounded."),
})
TECH["C21"] = (VN, "Every listed method meets its contract for all states and inputs (Verus); update_ticks and the iterators are bounded native checks.")
TECH["C22"] = TECH["C21"]
TECH["Y26"] = (VN, "When pings are due, which answers yield a sample and which sample, and that every ping is answered once in order, are proved on the real store and manager for all states, histories by induction lemmas; the moving averages (floating point) and the exchange between two worlds are bounded native checks.")
TECH["Y27"] = (VN, "Which packets move the estimate and how, every pacing and shift decision, and the peer-to-peer aggregation are proved on the real functions for all states with uninterpreted floating point, histories by induction lemmas; numeric values and the speed applied to virtual time are bounded native checks.")
TECH["Y28"] = (VN + "; Kani on the window", "The delay ladder and the wait decision are proved on the real functions for all configurations, latencies in ticks, states and ticks, and so is the aggregation over the links of every topology (Verus; the window also by Kani on the compiled code), histories by lemmas; only the rounding of a latency to ticks is a bounded native check.")
TECH["C25"] = (VN, "Every listed method meets its contract for all container states and arguments (Verus, generic item type and size); histories follow because each contract states the whole next state.")
TECH["C24"] = (VN, "Every listed method meets its contract for all maps and entities (Verus); that a reference denotes the same entity at both ends is a lemma over those contracts.")
TECH["C23"] = (VN, "Every set operation, constructor, extension and both resolutions meet their denotation contracts for all targets, lists and clients (Verus on the real functions), and so do the wire forms of peer ids and targets, truncated ones included.")
TECH["C26"] = (VN, "The topology is proved to be the one the entities imply, for all worlds and iteration orders; every lifecycle hook and observer is proved to displace exactly the other states and to change exactly its own peer-map entry. That bevy runs the hooks, and the host-client observers, are bounded native checks.")
TECH["S03"] = (VN, "For optionals, byte strings, lists, maps, message identifiers and message frames: the reported length is the bytes written, reading them back gives the value and leaves any tail, every strict prefix is an error, and no read allocates more than the bytes that are left; proved on the real codecs for all values and all byte sequences. Serde types, user types and the registry are bounded native checks.")
TECH["N20"] = (VN, "The queues, the MTU, every outcome of conditioning a packet (for all settings up to 24 days, arrival times and random draws) and of releasing it, every lifecycle hook, and what joins, leaves, closes and inherits from a server are proved on the real functions for all states; the mean of the Gilbert loss models (floating point) and that bevy runs the hooks are bounded native checks.")
NOTES = ""
