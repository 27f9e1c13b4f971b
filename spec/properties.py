"""The properties, in the order of properties.jsonl."""
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": hook}})
T = "crates/transport/transport/src/"
N = "crates/connection/netcode/src/"
CO = "crates/core/core/src/"
SY = "crates/core/sync/src/"

p("C01", "Wrapping ids compare and subtract correctly across wraparound",
  "Two message or packet ids less than half the id space apart are ordered by which was issued later, and their difference is the number of ids issued in between, wherever the counter wraps. The order is antisymmetric and, within a window shorter than half the space, transitive, and ring indexes derived from ids never leave the ring.",
  ["inputs"], "every start id and every distance below half the id space", "tests sample a dozen id pairs around 0 and the maximum",
  ["crates/core/utils/src/wrapping_id.rs", "crates/core/utils/src/sequence_buffer.rs"], [("wrapping_diff and the Ord of wrapping ids", "crates/core/utils/src/wrapping_id.rs")])
p("C02", "Tick arithmetic and atomic tick are exact over the whole range",
  "Adding an offset to a tick and subtracting it again are inverse operations wherever the result is representable; a result outside the range of ticks stops at its first or last tick instead of wrapping, and the difference of two ticks has the sign of their order and is exact wherever it fits. A shared minimum tick never moves away from the smallest tick it was given.",
  ["inputs"], "every 32-bit tick and offset", "tests use small ticks; the extremes are single points",
  [CO + "tick.rs"], [("saturating tick arithmetic", CO + "tick.rs")])
p("C03", "Fractional tick time is consistent, normalised and invertible",
  "A point in game time is a tick plus a fraction in [0,1): adding a signed tick delta and subtracting it again returns the same point, the difference of two points added to the earlier one gives the later one, and order agrees with the sign of the difference. Converting a delta to whole ticks rounds as documented and never leaves the fraction outside [0,1).",
  ["inputs"], "all ticks and all fractions representable on the wire", "tests check isolated examples of overstep arithmetic",
  [CO + "time.rs"], [("TickInstant / TickDelta / Overstep operators", CO + "time.rs")])
p("C04", "A history buffer answers with the newest value at or before a tick",
  "For any sequence of insertions in tick order, the value reported for a tick is the one stored at the newest recorded tick not after it, and discarding history up to a tick keeps every later answer unchanged. Discarding from a tick onwards leaves exactly the entries before it. A confirmed history may receive its entries in any order; an entry recorded as unchanged takes the value of whatever precedes it, including late arrivals.",
  ["inputs", "histories"], "every short sequence of history operations with arbitrary ticks", "tests use one or two hand-written histories",
  [CO + "history_buffer.rs", CO + "confirmed_history.rs"], [("add/pop/clear operations keep entries sorted by tick", CO + "history_buffer.rs")])
p("S01", "Every serialised value decodes to itself and has its announced length",
  "Encoding any value (variable-length integers, scalars, options, byte strings, vectors, ticks, durations) and decoding it yields an equal value, consumes exactly the bytes written, and the announced length equals the bytes actually written.",
  ["inputs"], "every value of each type within the size bounds", "tests round-trip a few constants per type; varint size boundaries are rare inputs",
  ["crates/transport/serde/src/lib.rs", "crates/transport/serde/src/varint.rs", "crates/transport/serde/src/reader.rs", "crates/transport/serde/src/writer.rs"], [("ToBytes implementations", "crates/transport/serde/src/lib.rs")])
p("S02", "Decoding arbitrary bytes never panics and never over-allocates",
  "Decoding any byte string as any serialisable type returns a value or an error: it never panics, never reads past the input and never reserves memory that is not justified by the bytes actually present.",
  ["inputs"], "every byte string up to the bound", "tests feed well-formed input only",
  ["crates/transport/serde/src/lib.rs", "crates/transport/serde/src/varint.rs", "crates/transport/serde/src/reader.rs"], [("bounds checks in the readers", "crates/transport/serde/src/reader.rs")])
p("S03", "Entity ids survive serialisation and are translated on both ends",
  "An entity identifier written to the wire and read back is the same identifier (with the generation kept), and translation between the local and remote identifiers is a bijection on the mapped entities: mapping out and back returns the original, and removing a mapping removes both directions.",
  ["inputs", "histories"], "every entity index and generation; short histories of map operations", "tests map one or two entities",
  ["crates/transport/serde/src/entity_map.rs"], [("entity codec and entity maps", "crates/transport/serde/src/entity_map.rs")])
p("T01", "Ordered reliable channels deliver a prefix of what was sent, in order",
  "Whatever the arrival order, duplication or delay of messages on an ordered reliable channel, the application reads the messages in sending order, each exactly once, and a message is readable as soon as it and all earlier ones arrived.",
  ["schedules", "fault_sequences"], "every arrival order with duplicates and reads interleaved, any starting id including the wrap", "tests check one reordering",
  [T + "channel/receive.rs", "crates/core/utils/src/wrapping_id.rs"], [("ordered receiver with next-expected id", T + "channel/receive.rs")], hook="crate-private receiver")
p("T02", "Unordered reliable channels deliver each message exactly once",
  "On an unordered reliable channel every message that arrives is readable immediately, exactly once, however often and in whatever order its copies arrive.",
  ["schedules", "fault_sequences"], "every arrival order with duplicates and reads interleaved", "tests check one duplicate",
  [T + "channel/receive.rs"], [("received-id tracking above the oldest pending id", T + "channel/receive.rs")], hook="crate-private receiver")
p("T03", "Sequenced channels never deliver an older message after a newer one",
  "On sequenced channels (reliable and unreliable) the messages read form a strictly increasing subsequence of what was sent, and the newest message that arrived is always delivered.",
  ["schedules", "fault_sequences"], "every arrival order with duplicates, ids anywhere including the wrap", "tests check one stale message",
  [T + "channel/receive.rs"], [("most-recent-id filter", T + "channel/receive.rs")], hook="crate-private receiver")
p("T04", "Fragmented messages are cut and reassembled exactly",
  "A message larger than a fragment is cut into pieces that together carry exactly its bytes, each piece naming its index and the count, and once every piece arrived, in any order and with any duplicates, the original message is delivered once with the original bytes. Pieces of different messages never mix and nothing is delivered before the last piece.",
  ["schedules", "fault_sequences", "inputs"], "arbitrary contents, arrival orders and duplicates within the bounds", "tests reassemble in one order",
  [T + "channel/fragments/receive.rs", T + "channel/fragments/send.rs", T + "channel/receive.rs"], [("fragment constructor and fragment sender", T + "channel/fragments/")], hook="crate-private channel halves")
p("T05", "Hostile fragments cannot crash the receiver or corrupt other messages",
  "Any fragment received from the network, whatever its index, count, size and message id, is rejected or stored without a panic, and never makes the receiver deliver a message with bytes that were not sent.",
  ["inputs", "fault_sequences"], "arbitrary fragment fields and sizes within the bounds", "tests send only well-formed fragments",
  [T + "channel/fragments/receive.rs", T + "channel/receive.rs"], [("validation of fragment index/count/size", T + "channel/fragments/receive.rs")], hook="crate-private receiver")
p("T06", "Reliable senders resend until acknowledged and then stop",
  "A reliable message (or each fragment of one) is offered for sending until the peer acknowledged it: right away, then again whenever the resend delay elapsed since its last transmission, never earlier and never after it was acknowledged. Acknowledging one message never removes another.",
  ["schedules", "histories"], "arbitrary send, acknowledge and time steps within the bounds", "tests check one resend",
  [T + "channel/send_reliable.rs"], [("reliable send state with per-message acknowledgement", T + "channel/send_reliable.rs")], hook="crate-private sender")
p("T07", "Packet acknowledgements are exact and each packet settles once",
  "The acknowledgement header names exactly the received packets within its 33-packet window; the sender marks a packet acknowledged only if the peer named it, with the round trip measured from its own sending, and every sent packet ends as acknowledged or lost, never both and never twice. Acknowledgement-only packets request no acknowledgement and are never reported lost, and headers survive the wire.",
  ["schedules", "fault_sequences", "inputs"], "arbitrary packet ids (including the wrap), header contents and times within the bounds", "tests use consecutive ids from zero",
  [T + "packet/header.rs"], [("packet header manager and receive window", T + "packet/header.rs")], hook="crate-private header manager")
p("T08", "Built packets fit the MTU and parse back to exactly their messages",
  "Every packet handed to the link is at most the maximum packet size, and parsing it yields exactly the channel, ids, fragment fields and bytes of the messages that were put in it, in order, with nothing lost or duplicated between packets.",
  ["inputs"], "arbitrary message sizes, channels and priorities within the bounds", "tests build a few packets of typical sizes",
  [T + "packet/packet_builder.rs", T + "packet/message.rs"], [("packet builder with space accounting", T + "packet/packet_builder.rs")], hook="crate-private builder")
p("T09", "Arbitrary packet bytes cannot crash the transport parser",
  "Parsing any received packet ends with messages or an error: no panic, no read outside the packet, and every message handed on is a sub-range of the packet's bytes.",
  ["inputs"], "every byte string up to the bound", "tests parse only packets the library built",
  [T + "packet/message.rs", T + "packet/header.rs", T + "packet/packet_type.rs"], [("message and header codecs", T + "packet/message.rs")], hook="crate-private codecs")
p("T10", "Loss timeouts and resend delays follow the link's round-trip estimate",
  "The time after which an unacknowledged packet counts as lost is the configured multiple of the round trip, never below the configured minimum nor above the maximum; the resend delay is likewise at least its configured minimum.",
  ["inputs", "configurations"], "arbitrary round-trip estimates and settings within the bounds", "tests use one round-trip value",
  [T + "packet/nack.rs", T + "channel/builder.rs"], [("timeout computation", T + "packet/nack.rs")])
p("T11", "Unreliable senders offer each message once and never invent data",
  "An unreliable message is offered for sending in order and transmitted at most once (each of its fragments at most once); a message that did not fit is kept or dropped according to the channel's settings, and a fragmented message already started is completed.",
  ["schedules", "configurations"], "arbitrary sizes and commit decisions within the bounds", "tests check single messages",
  [T + "channel/send.rs"], [("unreliable send queue with commit/finish", T + "channel/send.rs")], hook="crate-private sender")
p("T12", "The bandwidth limiter never exceeds its quota",
  "With a bandwidth cap, over any stretch of time the bytes admitted never exceed the configured burst plus the rate times the elapsed time, and without a cap nothing is refused.",
  ["schedules", "inputs"], "arbitrary packet sizes and time steps within the bounds", "tests use one burst",
  [T + "packet/priority_manager.rs"], [("token bucket", T + "packet/priority_manager.rs")])
p("N01", "Replay protection accepts each packet number at most once",
  "A packet sequence number is accepted at most once for the lifetime of a connection, numbers older than the window are refused, and a fresh number inside the window is accepted whatever the arrival order.",
  ["schedules", "fault_sequences"], "every sequence of arrivals within the bound, any starting number", "tests replay a fixed run",
  [N + "replay.rs"], [("replay window", N + "replay.rs")])
p("N02", "Only expected packet kinds from the keyed peer are accepted",
  "A received netcode packet is accepted only if it decrypts under the session key with its header as associated data, its kind is one the receiver currently allows, and its number was not accepted before; otherwise it is refused with an error and changes nothing.",
  ["inputs", "fault_sequences"], "arbitrary packet bytes within the bounds, ideal cipher", "tests exchange only well-formed packets",
  [N + "packet.rs", N + "crypto.rs"], [("packet read path", N + "packet.rs")], hook="crate-private codec")
p("N03", "Connect tokens survive the wire and reject tampering",
  "A connect token written and read back has the same public and private content; a token whose public part (version, protocol, expiry) differs from the encrypted one fails to open.",
  ["inputs"], "arbitrary token fields within the bounds, ideal cipher", "tests round-trip one token",
  [N + "token.rs"], [("token codec", N + "token.rs")], hook="crate-private codec")
p("N04", "A connect token admits one client, in time, at the right server",
  "The server admits a connection only with a token that has not expired, names this server, and was not used from another address; otherwise the request is ignored.",
  ["inputs", "histories"], "arbitrary request contents and short histories", "tests use one valid and one expired token",
  [N + "server.rs"], [("request handling", N + "server.rs")], hook="crate-private state")
p("N05", "Arbitrary netcode packets never crash client or server",
  "No datagram from any address, of any content or length, makes client or server panic or affects a connected client.",
  ["inputs", "fault_sequences"], "every datagram within the bounds", "tests send only well-formed packets",
  [N + "server.rs", N + "client.rs", N + "packet.rs"], [("packet handling", N + "packet.rs")], hook="crate-private state")
p("K01", "Network-target operations agree with set semantics",
  "A network target denotes a set of peers: union, intersection, inverse and exclusion of targets select a peer exactly when the corresponding set operation does, for every peer.",
  ["inputs"], "all target shapes over a small peer universe, arbitrary probe peer", "tests list examples",
  ["crates/connection/connection/src/network_target.rs"], [("target algebra", "crates/connection/connection/src/network_target.rs")], hook="crate-private operations")
p("K02", "Targets and peer ids survive the wire",
  "Any network target and any peer id decodes to itself after encoding, with the announced length; unknown tags are refused.",
  ["inputs"], "all peer ids and target shapes within the bounds", "tests cover a few variants",
  ["crates/connection/connection/src/network_target.rs", CO + "id.rs"], [("codecs", CO + "id.rs")])
p("L01", "A link delivers received packets in order, and no earlier than the simulated delay",
  "Packets enter and leave an ideal link in order; with simulated network conditions a packet is released no earlier than its configured latency minus jitter and no later than latency plus jitter after arrival, in order of release time, never duplicated, and dropped only if loss is configured. The maximum packet size of a link is never configured below the minimum the transport needs.",
  ["schedules", "inputs", "configurations"], "arbitrary times and configurations within the bounds, randomness arbitrary", "tests use fixed conditions",
  ["crates/io/link/src/conditioner.rs", "crates/io/link/src/lib.rs"], [("link conditioner and ready buffer", "crates/io/link/src/conditioner.rs")])
p("U01", "The ready buffer releases items in time order, none early, none lost",
  "Items put into a time-keyed buffer come out in key order, each exactly once, none before its key is reached, and everything due comes out.",
  ["schedules", "histories"], "all short sequences of pushes and pops with arbitrary keys", "tests use a fixed sequence",
  ["crates/core/utils/src/ready_buffer.rs"], [("heap keyed by readiness", "crates/core/utils/src/ready_buffer.rs")])
p("U02", "Sequence buffers return exactly what was stored within their window",
  "A sequence-indexed ring of N slots returns, for each of any N consecutive ids, exactly the value last stored for it or nothing if it was removed or never stored, wherever the ids wrap.",
  ["histories"], "all short histories with arbitrary ids within one window", "tests use consecutive ids",
  ["crates/core/utils/src/sequence_buffer.rs"], [("ring slots by id", "crates/core/utils/src/sequence_buffer.rs")])
p("Y01", "Round-trip estimation uses only genuine pongs and excludes peer delay",
  "A round-trip sample is taken only for a ping this side sent, at most once per ping, and equals the elapsed time minus the peer's processing time, never negative.",
  ["schedules", "inputs"], "arbitrary pings, pongs and times within the bounds", "tests use one exchange",
  [SY + "ping/manager.rs"], [("ping store and pong processing", SY + "ping/manager.rs")])
p("Y02", "Input delay stays within its configured limits",
  "For every round trip and configuration the input delay lies between the configured minimum and maximum, and whatever delay exceeds what may be covered by prediction is covered by input delay.",
  ["inputs", "configurations"], "all configurations and tick counts within the bounds", "tests list ten cases",
  [SY + "timeline/input.rs"], [("input delay computation", SY + "timeline/input.rs")])
p("Y03", "Clock synchronisation adjusts within its limits and in the right direction",
  "The clock speed chosen to correct drift is always within the configured factor of normal speed, faster only when behind and slower only when ahead, normal within tolerance, and a resynchronisation happens only beyond the configured error.",
  ["inputs", "configurations"], "all offsets and configurations within the bounds", "tests use two offsets",
  [SY + "timeline/sync.rs"], [("speed adjustment", SY + "timeline/sync.rs")])
p("Y04", "A limited prediction window is never exceeded, and waiting ends",
  "With a maximum number of predicted ticks, whenever the local tick runs that many ticks ahead of the confirmed inputs the simulation is told to wait; it waits until at least the documented headroom is recovered and then resumes; at a limit of zero it waits exactly while anything is unconfirmed.",
  ["histories"], "all histories of the given length with arbitrary ticks, confirmations and limits", "tests use one history",
  [SY + "timeline/input.rs"], [("prediction window", SY + "timeline/input.rs")])
p("P01", "All peers agree on the session and its start",
  "In a peer-to-peer session, peers that agree on the session produce the same start decision and the same ordering of players, whatever the order in which messages arrive; inconsistent announcements are refused.",
  ["schedules", "inputs"], "all arrival orders within the bounds", "tests use one order",
  ["crates/connection/p2p/src/lib.rs"], [("session agreement", "crates/connection/p2p/src/lib.rs")])
p("I01", "Input buffers return the right input for every tick",
  "An input buffer returns for each tick the input recorded for it; merging a redundant packet of recent inputs fills exactly the ticks it covers and never alters a tick it does not, and dropping old ticks keeps later ones.",
  ["histories", "inputs"], "short histories with arbitrary ticks and gaps", "tests use consecutive ticks",
  ["crates/inputs/inputs/src/input_buffer.rs"], [("compressed input buffer", "crates/inputs/inputs/src/input_buffer.rs")])
p("R01", "Replicated state converges to the server's",
  "Once no more changes are made and the network delivers, every client's replicated components equal the server's for every entity visible to it.",
  ["schedules", "fault_sequences"], "all loss/reorder schedules", "tests run one lossless schedule",
  ["crates/replication/replication/src"], [("replication through bevy_replicon", "crates/replication/replication/src")])
p("R02", "Rollback re-simulation equals a run that knew the confirmed state",
  "After a rollback the predicted state equals what would have been computed had the confirmed state been known from the start.",
  ["schedules", "histories"], "all confirmation delays", "tests use one misprediction",
  ["crates/replication/prediction/src"], [("rollback systems", "crates/replication/prediction/src")])
p("R03", "Interpolated values lie between the two bracketing confirmed values",
  "An interpolated component is computed from the two confirmed values that bracket the interpolation time with the right fraction, and never from extrapolated or unordered ones.",
  ["schedules", "inputs"], "all arrival schedules", "tests use two updates",
  ["crates/replication/interpolation/src"], [("interpolation history", "crates/replication/interpolation/src")])
p("R04", "Lock-step peers stay deterministic and detect divergence",
  "Peers running lock-step with the same inputs compute the same checksum for every tick, and a divergence is reported.",
  ["schedules"], "all input delays", "tests run one schedule",
  ["crates/deterministic"], [("checksum systems", "crates/deterministic")])
p("M01", "Typed messages reach exactly the receivers registered for them",
  "A message sent with a type is received only as that type, with its contents intact and, for messages carrying entities, with the entities translated.",
  ["inputs", "schedules"], "all message contents", "tests send examples",
  ["crates/transport/messages/src"], [("message registry", "crates/transport/messages/src")])

_ecs = "the code is a set of Bevy systems over a World (type-erased component storage, function pointers, schedules); building and stepping a World does not fit a symbolic encoding, and the decision logic is not separable from it"
NA = {
 "R01": "the replication logic is bevy_replicon's, an external crate; " + _ecs,
 "R02": _ecs,
 "R03": _ecs + "; the arithmetic is user-supplied floating point",
 "R04": _ecs + "; simulation results are user-supplied floating point",
 "M01": _ecs + "; the registry stores erased function pointers",
}
