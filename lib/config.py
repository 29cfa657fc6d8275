"""What decides each property: Kani contract harnesses, Verus units, native harnesses (bounded)."""
def K(mod, names, **kw):
    return [dict(path=f"{mod}::proofs::{n}", **kw) for n in names.split()]

def both(mod, names, only_native="", **kw):
    return dict(kani=K(mod, names), native=names.split() + only_native.split(), **kw)

PROPS = {
 "S01": dict(level="proof", features=["core"],
   **both("codec", "s01_varint_len s01_varint_parse_len s01_varint_write s01_varint_roundtrip s01_varint_decode_value s01_varint_decode_total s01_u8_u16 s01_u32_u64 s01_int_truncated"),
   functions=["varint_len", "varint_parse_len", "WriteInteger::write_{u8,u16,u32,u64,i8,i16,i32,i64,varint}", "ReadInteger::read_{u8,u16,u32,u64,i8,i16,i32,i64}", "ReadVarInt::read_varint"]),
 "S02": dict(level="proof", features=["core"],
   **both("codec", "s02_u8_u16 s02_u16_decode_range s02_tick s02_peer_id s02_entity s02_overstep s02_positive_tick_delta s02_option_tuple", "s02_peer_id_truncated"),
   verus=["V15"], search={"V15": ["s02_peer_id_truncated", "s02_peer_id"]},
   functions=["PeerId::{bytes_len,to_bytes,from_bytes} for all byte sequences (Verus)", "<u8|u16|Tick|PeerId|Entity|Overstep|PositiveTickDelta|Option|tuples as ToBytes>::{to_bytes,bytes_len,from_bytes}"]),
 "S04": dict(level="proof", features=["core"],
   **both("corep", "s04_diff s04_window s04_order_total s04_transitive s04_ops"),
   verus=["V0"], functions=["wrapping_id! macro: wrapping_diff, Ord, Add, Sub, AddAssign"]),
 "S05": dict(level="proof", features=["core"],
   **both("corep", "s05_sub s05_add s05_atomic"),
   functions=["Tick arithmetic", "AtomicTick"]),
 "S06": dict(level="proof", features=["core"],
   **both("corep", "s06_instant_parts s06_instant_order s06_delta_group s06_delta_ops s06_delta_round s06_conversions s06_overstep s06_mul", "s06_durations"),
   functions=["TickInstant, TickDelta, PositiveTickDelta, Overstep"]),
 "N16": dict(level="proof", features=["netcode"],
   **both("netcode", "n16_accept_marks n16_received_is_stable n16_exact n16_invariant n16_fresh_accepts", "n16_history"),
   functions=["ReplayProtection::{new,is_already_received,advance_sequence}"]),
 "N17": dict(level="proof", features=["netcode"],
   **both("netcode", "n17_sequence_roundtrip n17_prefix n17_aead_binds n17_request_validate", "n17_roundtrip n17_tamper n17_total"),
   functions=["sequence_len", "write_sequence", "read_sequence", "Packet::{prefix,get_prefix,aead,write,read,write_payload}", "RequestPacket::validate"]),
 "N18": dict(level="proof", features=["netcode"], kani=[],
   native="n18_private_token n18_challenge_token n18_public_token".split(), verus=["V23"], search={"V23": ["n18_private_token", "n18_challenge_token", "n18_public_token"]},
   functions=["AddressList::{new,len,write_to,read_from}", "ConnectTokenPrivate::{aead,write_to,read_from,encrypt,decrypt}", "ChallengeToken::{write_to,read_from,encrypt,decrypt}", "ConnectTokenBuilder::*", "ConnectToken::{write_to,read_from,try_into_bytes,try_from_bytes}", "lemmas private_round_trip, challenge_round_trip, public_round_trip, opens_only, aad_injective"],
   trusted=["crypto::{chacha,xchacha}_{encrypt,decrypt}: an authenticated encryption, i.e. a function of nonce, associated data, key and contents of which only the results open (native only)", "FreeList of addresses as a sequence (proved separately in V6)", "ReadInteger/WriteInteger on cursors (S01)", "fresh keys and nonces: native only", "the clock is below 2^62 seconds"],
   not_covered="that no one without the key can forge or find colliding parameters is the AEAD's own property; the encryption itself runs in bounded native checks"),
 "N19": dict(level="other", features=["netcode"], kani=[], native_ms=15000,
   native="n19_addr_matches n19_session n19_clean".split(), verus=["V21", "V22"], search={"V21": ["n19_session", "n19_clean"], "V22": ["n19_session", "n19_clean"]},
   functions=["ConnectionCache::*", "Server::{process_packet,process_connection_request,process_connection_response,recv_packet,recv_packets,send*,check_for_timeouts,disconnect*,reset,update_state}", "Client::{set_state,reset,connect*,send*,process_packet,recv_packet*,update_state,try_update,disconnect}"]),
 "T07": dict(level="proof", features=["transport"],
   **both("transport", "t07_header_codec t07_window_first t07_header_total", "t07_window t07_ack_protocol t20_nack_timeout"), verus=["V3"], search={"V3": ["t07_window", "t07_ack_protocol"]},
   functions=["PacketHeader::{to_bytes,from_bytes,bytes_len,get_bitfield_bit}", "ReceiveBuffer::{new,recv_packet,get_bitfield}", "PacketHeaderManager::{update,process_recv_packet_header,record_newly_acked_packet,update_sent_packets_not_acked,preview_send_packet_header,commit_send_packet,commit_send_ack_only,has_pending_ack}"],
   trusted=["IndexMap and ConstGenericRingBuffer stand-ins with map / 32-long sequence contracts (verus/V3.rs)", "statistics and the loss timeout value are uninterpreted in the proof (the timeout is a bounded native check)", "identifiers in flight lie within a quarter of the identifier space"]),
 "T08": dict(level="proof", features=["transport"], kani=[], native="t08_reliable_ordered t08_reliable_unordered t08_missing_id e2e_delivery".split(), verus=["V1"], search={"V1": ["t08_reliable_ordered", "t08_reliable_unordered"]},
   functions=["ChannelReceiver::{prepare_receive,push_completed,read_message,update,buffer_recv}", "ChannelReceive::read_message", "MessageId arithmetic"],
   trusted=["HashMap/HashSet/BTreeMap/Bytes/Vec stand-ins with map/set/sequence contracts (verus/maps.inc, btree.inc)", "contract of FragmentReceiver as used by the channel receiver (proved separately in V2)", "the network delivers no identifier that lags the receive window by half the identifier space or more"],
   not_covered="sender/plugin systems end to end (ECS): bounded native schedules only (e2e_delivery)"),
 "T09": dict(level="proof", features=["transport"], kani=[], native="t09_sequenced_reliable t09_sequenced_unreliable t09_unordered_unreliable e2e_delivery".split(), verus=["V1"], search={"V1": ["t09_sequenced_reliable", "t09_sequenced_unreliable", "t09_unordered_unreliable"]},
   functions=["ChannelReceiver::{prepare_receive,push_completed,read_message,update,buffer_recv}", "ChannelReceive::read_message"],
   trusted=["HashMap/HashSet/Bytes/Vec stand-ins with map/set/sequence contracts (verus/maps.inc)", "contract of FragmentReceiver as used by the channel receiver (proved separately in V2)"],
   not_covered="sender/plugin systems end to end (ECS): bounded native schedules only (e2e_delivery)"),
 "T10": dict(level="proof", features=["transport"], kani=[], native="t10_cut t10_reassemble t10_expire t10_hostile t10_fragment_size e2e_hostile".split(), verus=["V2", "V8"], search={"V2": ["t10_reassemble", "t10_hostile", "t10_expire"], "V8": ["t10_cut"]},
   functions=["FragmentConstructor::{new,set_compression,receive_fragment}", "FragmentReceiver::{receive_fragment,cleanup}", "FragmentSender::{build_fragments,build_fragments_with_compression,build_fragments_for_message}", "lemmas rejoined, reassembly_exact, cut_rejoins"],
   trusted=["HashMap/BTreeMap/Bytes/Vec stand-ins with map/sequence contracts", "slice::chunks cuts a slice in consecutive pieces", "compression and decompression: uninterpreted (native only)", "elapsed time as a 64-bit number"],
   not_covered="fragment sizing against the link's MTU and the compression of payloads are bounded native checks"),
 "T11": dict(level="proof", features=["transport"], kani=[], native="t11_reliable_sender e2e_delivery".split(), verus=["V8"], search={"V8": ["t11_reliable_sender"]},
   functions=["ReliableSendState::{new,update,buffer_send,collect_candidates,commit_send,receive_ack}", "ReliableSettings::resend_delay", "FragmentSender::build_fragments_for_message", "SendCandidate::{new,new_reliable,new_with_send_order}", "ChannelSend::{buffer_send_with_scratch,collect_send_candidates,commit_send,finish_send,receive_ack,receive_nack,watches_acks}", "is_ready_to_send", "lemmas piece_offered, offered_of_each, acked_stays"],
   trusted=["HashMap stand-in (map contract; iteration visits every key once, in any order)", "Bytes, Timer and Time stand-ins", "f32 priorities uninterpreted", "acknowledgements name a message id together with a piece it was cut into", "fewer than 2^64 messages are handed in"],
   not_covered="ReliableSendState's ids are assumed not to come around while the message 65536 before is still pending; the timer that paces a channel (bevy's) and the whole path over a network are bounded native checks"),
 "T12": dict(level="proof", features=["transport"], kani=[], native="t12_unreliable_sender e2e_perfect_link".split(), verus=["V8"], search={"V8": ["t12_unreliable_sender"]},
   functions=["UnreliableSendState::{new,update,buffer_send,collect_candidates,commit_send,finish_send,receive_ack,receive_nack}", "PendingSendMessage::{new,fragment_message_id}", "FragmentAckTracker::{new,receive_ack}", "FragmentAckReceiver::{new,add_new_fragment_to_wait_for,discard_message,receive_fragment_ack,cleanup}", "ChannelSend::{buffer_send_with_scratch,collect_send_candidates,commit_send,finish_send,receive_ack,receive_nack,watches_acks}", "lemmas waiting_commit, kept_waits, offers_wait, sent_once, queued_waits"],
   trusted=["VecDeque/HashMap/Bytes/Timer stand-ins", "acknowledgements name a piece the message was cut into"],
   not_covered="the path from ChannelSend to the link (packet building, bandwidth) is a bounded native check"),
 "T13": dict(level="other", features=["transport"], kani=[], native="t13_packets e2e_hostile e2e_perfect_link".split(), verus=["V16", "V18"], search={"V16": ["t13_packets"], "V18": ["t13_packets", "e2e_perfect_link"]},
   functions=["PacketBuilder::{build_next_packet,try_append_single_candidate,new_staged_packet,finish_compression_aware_packet,build_ack_only_packet,trace_compression_outcome}", "write_to_payload", "PacketHeader codec and get_packet_type", "PacketType::{try_from,into,is_compressed,compressed_variant,uncompressed_variant,is_ack_eliciting}", "MessageData::bytes_len", "Packet::{num_messages,record_message_metadata}", "compress_packet", "evaluate_packet_compression", "BufferPool::*", "PacketBufferPool::*", "PacketBuilder::{begin_send,take_send_payload,recycle_packet,recycle_message_metadata_list}", "TransportPlugin::buffer_receive (the closure run on every packet)", "TransportPlugin::buffer_send (the closure run on every link: whole flush)", "Transport::send_mut_erased", "decompress_payload", "decompress_lz4", "From<FragmentData>/From<SingleData> for MessageData", "lemmas heard_as_sent, parse_exact, open_new, open_more, laid_reads, fragment_taken, singles_taken, squeeze"],
   trusted=["bytes::Bytes/BytesMut and Vec as sequences; buffers have at least the capacity asked for", "varints read back (io.inc axioms)", "lz4_flex: a block written by compress_into reads back through decompress_into (uninterpreted)", "looking up a channel's receiver and ChannelReceiver::buffer_recv as one recorded call (buffer_recv itself: V1)", "f32::total_cmp uninterpreted (which priorities tie is left free)", "messages shorter than 2^48 bytes"],
   not_covered="the ECS queries around the two closures are bounded native checks"),
 "T14": dict(level="other", features=["transport"], kani=[], native="t14_bandwidth t14_flush t13_packets".split(), verus=["V17", "V18"], search={"V17": ["t14_bandwidth", "t14_flush"], "V18": ["t14_bandwidth", "t14_flush"]},
   functions=["PriorityManager::{prioritize,packing_order}", "SendMessageKey::packing_tiebreaker", "BandwidthLimiter::consume_packet_quota", "TransportPlugin::buffer_send (the closure run on every link: whole flush)", "PriorityManager::{candidates,candidates_mut,clear}", "lemmas orders, level, urgent, standing_fair, stands, one_more"],
   trusted=["sort_unstable_by returns a sorted permutation when the comparison is a total preorder (which is proved)", "f32::total_cmp is a total order; f32 multiplication uninterpreted", "governor's limiter: check_n grants all of the bytes asked for or none", "every candidate's channel is registered", "a flush sends less than 4 GiB", "nobody else queues messages during a flush"],
   not_covered="the rate limiter's own accounting over time: bounded native schedules (the retry rules are in T10/T11's unit V8)"),
 "T15": dict(level="other", features=["transport"], kani=[], native="t15_fragment_ack e2e_ack_truth e2e_perfect_link e2e_reset".split(), verus=["V2", "V18", "V19"], search={"V2": ["t15_fragment_ack"], "V18": ["e2e_ack_truth", "e2e_perfect_link"], "V19": ["e2e_ack_truth", "e2e_perfect_link"]},
   functions=["FragmentAckTracker::{new,receive_ack}", "FragmentAckReceiver::{new,add_new_fragment_to_wait_for,discard_message,receive_fragment_ack}", "PacketMessageAckTracker::{track,take,recycle}", "TransportPlugin::buffer_send (which acknowledgements are awaited for which packet)"],
   trusted=["the contracts of channels, header and packet builder as proved in V8, V3 and V16"]),
 "C21": dict(level="proof", features=["core"], kani=[], native=["c21_history"], verus=["V4"], search={"V4": ["c21_history"]},
   functions=["HistoryBuffer::{oldest,most_recent,get_nth,second_most_recent,get,get_state,clear,clear_until_tick,add_update,add_remove,add_state,add,set_most_recent_tick,clear_after_tick,pop,pop_until_tick,clear_except_tick}"],
   trusted=["VecDeque stand-in with sequence contracts (verus/vecdeque.inc)"], not_covered="update_ticks and the iterators are bounded native checks"),
 "C22": dict(level="proof", features=["core"], kani=[], native=["c22_confirmed"], verus=["V5"], search={"V5": ["c22_confirmed"]},
   functions=["ConfirmedHistory::{get_nth_tick,get_nth_state,start_present,newest_present,get_nth_present,get_present,get_state_at_or_before,get_state_at,insert_explicit,insert_present_explicit,insert,insert_present,insert_removed,add_unchanged,push_unchanged,pop_present,clear_until_tick,clear}"],
   trusted=["VecDeque stand-in with sequence contracts (verus/vecdeque.inc)"], not_covered="update_ticks is a bounded native check"),
 "Y26": dict(level="other", features=["sync"], kani=[], native_ms=12000, native="y26_pings y26_estimator y26_codec y26_exchange".split(), verus=["V9"], search={"V9": ["y26_pings"]},
   functions=["PingStore::{new,push_new,remove,reset}", "PingManager::{new,reset,latency_samples_recv,update,record_rtt_sample,maybe_prepare_ping,process_pong,buffer_pending_pong,drain_pending_pongs}", "SequenceBuffer::{new,index,push,get,remove,clear}", "lemmas start, send_step, answer_step (induction over a session)"],
   trusted=["Stopwatch, Instant, Duration stand-ins (64-bit numbers)", "the estimator's floating-point averages and PositiveTickDelta::to_duration are uninterpreted", "answers keep coming within 32768 pings of each other", "fewer than 2^32 pings and answers per session"],
   not_covered="the moving averages (floating point), the plugin systems that move pings between worlds: bounded native checks"),
 "Y27": dict(level="other", features=["sync"], kani=[], native_ms=15000, native="y27_remote y27_objective y27_pacing y27_app".split(), verus=["V11"], search={"V11": "y27_remote y27_objective y27_pacing y27_app".split()},
   functions=["SyncContext::{default,speed_adjustment}", "SyncConfig::jitter_margin", "LocalTimelineSync: TimelineSync::{sync_context,sync_config,sync_objective,resync,is_synced,set_synced,relative_speed,set_relative_speed,reset}", "TimelineSync::{speed_adjustment,sync}", "LocalTimelineSyncPlugin::{sync_timelines,sync_client_server,sync_p2p_peers}", "RemoteTimeline::{last_received_tick,ema_alpha,update,handle_connect}", "RemoteTimeline: SyncTargetTimeline::{current_estimate,is_initialized,received_packet}", "lemmas run_counts, paced_only_after_a_run, shifted_only_beyond_the_maximum, running_peers_never_shift, follows_the_newest"],
   trusted=["f32, Duration, TickDelta and TickInstant arithmetic uninterpreted (fixed-point operators are C25's)", "ECS queries and Commands as maps and event lists"],
   not_covered="update_virtual_time, the advance with real time and the values of floating-point expressions: bounded native checks"),
 "Y28": dict(level="proof", features=["sync"], native_ms=8000, **both("sync", "y28_window", "y28_input_delay y28_aggregate"),
   verus=["V12"], search={"V12": ["y28_window", "y28_input_delay", "y28_aggregate"]},
   functions=["InputDelayConfig::{is_lockstep,input_delay_ticks}", "SyncConfig::jitter_margin", "PredictionWindowWait::{default,is_waiting,prediction_depth,confirmed_tick,maximum_predicted_ticks,reset,update}", "LocalTimelineSync::{input_delay,recompute_input_delay}", "InputTimelineConfig::{is_lockstep,maximum_predicted_ticks,recompute_input_delay_on_local_timeline_shift,recompute_input_delay_on_config_update}", "lemmas delay_bounds, delay_monotone, largest_is, candidates_grow, runs_inside_the_window"],
   trusted=["Duration and f32 arithmetic uninterpreted: the latency in whole ticks is a 16-bit number", "ECS queries as maps and lists, resources as references"],
   not_covered="the rounding of the latency to ticks: bounded native check"),
 "S03": dict(level="other", features=["transport"], kani=[], native_ms=8000, native="s03_collections s03_total s03_messages s03_user_types s03_reader".split(), verus=["V14"], search={"V14": "s03_collections s03_total s03_messages s03_reader".split()},
   functions=["ToBytes::{bytes_len,to_bytes,from_bytes} for u8, u16, Option<M>, Bytes, Vec<M>, SmallVec<A>, HashMap<K,V,S>, MessageId (wrapping_id!), FragmentIndex, FragmentCompression, SingleData, FragmentData", "FragmentData::{is_initial_fragment,is_last_fragment}", "Reader::{len,is_empty,position,set_position,remaining,has_remaining,split_len,take_remaining}", "saturating_sub_usize_u64", "lemmas exact and cut per codec (value and exact byte count come back with any tail; every strict prefix is an error)"],
   trusted=["fixed-width and varint integers as their byte sequences (varints are S01's, on compiled code)", "Reader/Writer, Bytes, HashMap, SmallVec, Cursor stand-ins with sequence and map contracts", "the element codec's contract (instances listed)"],
   not_covered="tuples, String and other serde types, user types and the registry's frames: bounded native checks"),
 "N20": dict(level="other", features=["link"], kani=[], native_ms=12000, native="n20_queues n20_mtu n20_conditioner n20_latency_order n20_loss_model n20_loss_machine n20_lifecycle n20_apply".split(), verus=["V20"], search={"V20": ["n20_queues", "n20_mtu", "n20_conditioner", "n20_latency_order", "n20_loss_model", "n20_lifecycle", "n20_apply"]}),
 "C23": dict(level="proof", features=["conn"], kani=[], native_ms=8000, native="c23_algebra c23_entities c23_resolve c23_codec".split(), verus=["V10", "V15"], search={"V10": "c23_algebra c23_entities c23_resolve".split(), "V15": ["c23_codec"]},
   functions=["Target::{is_empty,targets,insert,only_unique,all_except_unique,all_except_from_list,normalize,compact,deduplicate,append_unique,retain_membership,only_difference,all_except_difference,intersection,union,exclude,inverse,extend,from_exclude,from_iter,from}", "NetworkTargetResolver::resolve", "NetworkTarget::apply_targets", "lemma selects_is_den", "ToBytes for PeerId and Target<PeerId>::{bytes_len,to_bytes,from_bytes}", "lemmas exact and cut of both codecs"],
   trusted=["fixed-width and variable-length integers, core::net addresses and byte buffers as stand-ins; the inline list's codec is discharged in unit V14", "SmallVec / slice / iterator-adaptor / HashSet / HashMap stand-ins with sequence, set and map contracts", "peers and entities compare by value (64-bit stand-ins)", "apply_targets: the clients are distinct and none is Entity::PLACEHOLDER"],
   not_covered="the flow label and scope of a raw IPv6 address are not sent"),
 "C24": dict(level="proof", features=["core"], kani=[], native_ms=8000, native="c24_map c24_both_ends c24_mappers".split(), verus=["V7"], search={"V7": ["c24_map", "c24_both_ends", "c24_mappers"]},
   functions=["EntityMap::{get_mapped,set_mapped}", "SendEntityMap::{get_mapped,set_mapped}", "ReceiveEntityMap::{get_mapped,set_mapped}", "RemoteEntityMap::{mark_mapped,mark_unmapped,is_mapped,insert,get_local,to_remote,get_remote,remove_by_remote,is_empty,clear}", "lemmas same_entity, unknown_entity, inverse_remove"],
   trusted=["HashMap stand-in with map contracts (verus/maps.inc)", "Entity stand-in: 64 bits, validity decided by the low half (bevy_ecs)", "pairs are inserted one-to-one"],
   not_covered="get_by_remote (needs a World); the wire form of an entity is S02"),
 "C25": dict(level="proof", features=["link"], kani=[], native_ms=8000, native="c25_ready c25_sequence c25_free_list".split(), verus=["V6"], search={"V6": ["c25_ready", "c25_sequence", "c25_free_list"]},
   functions=["Ord for ItemWithReadyKey::cmp", "ReadyBuffer::{new,push,peek_max_item,has_item,peek_item,pop_item,pop_until,drain_until,drain_after,len,is_empty,clear}", "SequenceBuffer::{new,push,get,remove,clear,index}", "WrappedId::rem (wrapping_id!)", "FreeList::{new,len,insert,remove,get,get_mut,iter}", "FreeListIter::next"],
   trusted=["BinaryHeap stand-in: a multiset whose peek/pop yield an element nothing exceeds in the (extracted) item order", "array of Nones ([None; N], array::from_fn), Vec::extend", "keys of the ready buffer are instantiated with u64"]),
 "C26": dict(level="other", features=["conn"], kani=[], native_ms=15000, native="c26_topology c26_lifecycle c26_host".split(), verus=["V13"], search={"V13": "c26_topology c26_lifecycle c26_host".split()},
   functions=["refresh_network_topology (with its nine closures)", "unique_ready_client", "unique_ready_server", "infer_standard_topology", "{Connected,Connecting,Disconnecting,Disconnected,Starting,Started,Stopping,Stopped}::on_add", "clear_server_mapping", "clear_server_mapping_on_despawn", "client ConnectionPlugin::{connect,disconnect_if_link_fails}", "server ConnectionPlugin::{start,stop_if_link_fails,disconnect}"],
   trusted=["ECS queries as lists in arbitrary order, commands as a log and a set of removed markers, resources as references", "min_by_key, sort_unstable_by_key and SmallVec by their documentation"],
   not_covered="when bevy runs a hook, and the host-client observers: bounded native checks"),
}
