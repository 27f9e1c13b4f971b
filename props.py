"""What each check runs: harnesses (harness/src/<id>.rs) with their bounds, capacities, assumptions."""
STUB = [
 "logging (tracing) has an empty body",
 "bytes::Bytes/BytesMut are by-value buffers of stated capacity (same API contract; overflow of the capacity is reported as out of bounds, not as success)",
 "hashbrown tables are small association lists of stated capacity (hash values ignored; iteration order is slot order; overflow is reported)",
 "Vec/VecDeque are used at a fixed capacity (growth, with_capacity and vec![x; n] allocate that capacity; exceeding it is reported as outside the bounds; a real capacity overflow still panics)",
 "IndexMap is a dense vector of stated capacity searched linearly; BinaryHeap keeps the greatest element first and the others unordered",
 "no_std_io2 is the same code with payload-free errors and loop-free read_exact/write_all",
 "memory allocation succeeds (Kani's allocator model)",
 "dev-profile semantics: overflow checks and debug assertions on",
]
TECH = "bounded symbolic execution of the compiled code (Kani/CBMC, SAT), counterexamples replayed natively"
PROPS = {}
def prop(id, groups, outside, assumptions=(), technique=TECH, stubs=STUB):
    PROPS[id] = dict(groups=groups, outside=outside, assumptions=list(assumptions) + list(stubs), technique=technique)

prop("C01", [dict(harnesses=dict(
    order_and_distance="all u16 start ids, all distances < 32768; full width, no unrolling",
    total_in_window="all triples within a window < 32768; full width",
    antisymmetric="all pairs of ids not exactly 32768 apart; full width",
    ring_index="all ids, all power-of-two ring sizes up to 32768"))],
    outside="ids exactly half the space apart (documented as meaningless); concurrency")
prop("C02", [dict(harnesses=dict(
    tick_arithmetic="all u32 ticks, all i32 offsets; full width",
    atomic_tick_keeps_minimum="all triples of ticks; single thread"))],
    outside="concurrent updates of the atomic tick")
prop("C03", [dict(caps=dict(bytes=8, vec=4), harnesses=dict(
    instant_delta="all instants and deltas (32.32 fixed point), full width", parts="all instants, ticks, oversteps",
    delta_group="all deltas", round_to_ticks="all deltas short of the extreme ticks", delta_to_instant="all non-negative deltas",
    wire="all oversteps and tick counts", overstep_saturates="all pairs of oversteps",
    scale="deltas below 4096 ticks, 8-bit fractions"))],
    outside="conversions through f32 and Duration (floating point rounding)")
prop("C04", [dict(caps=dict(deq=4, vec=4), harnesses=dict(
    answers="3 recordings in tick order at any ticks, present or removed, any query", forget_old="same, then discarding up to any tick",
    pop_old="same", forget_new="same, then discarding after any tick", keep_one="same, keeping only one tick",
    shift_ticks="2 recordings, any shift that does not saturate",
    confirmed_any_order="3 explicit insertions at distinct ticks in any order", confirmed_in_order="3 insertions in tick order, values may repeat, then discarding up to any tick",
    confirmed_late="3 insertions, the last one between the others", confirmed_unchanged="2 insertions, one unchanged marker, removal of the oldest"))],
    outside="more than 3 entries")
prop("T01", [dict(hooks="rcv", caps=dict(bytes=4, map=5), harnesses=dict(
    ordered_4="4 arrivals of 5 message ids, any order and duplicates, reads interleaved anywhere"))],
    outside="more than 4 arrivals")
prop("T02", [dict(hooks="rcv", caps=dict(bytes=1, map=3), harnesses=dict(
    unordered_3="3 arrivals of 3 message ids, any order and duplicates, reads interleaved anywhere"))],
    outside="more than 4 arrivals")
prop("T03", [dict(hooks="rcv", caps=dict(bytes=4, map=4), harnesses=dict(
    unreliable_newest="4 arrivals, any ids within half the id space", reliable_newest="same",
    unreliable_strict="4", reliable_strict="4"))],
    outside="more than 4 arrivals")

prop("T04", [dict(hooks="chan", caps=dict(bytes=8, map=2, vecb=8), jobs=6, harnesses=dict(
    cut_reliable_3="any 3-byte message, any id, 2 pieces of 2 bytes", cut_reliable_6="any 6-byte message, 3 full pieces",
    cut_unreliable_5="any 5-byte message, 3 pieces, last one short",
    join_ordered_2="any message of 2 pieces, 3 arrivals in any order with duplicates, any ticks",
    join_unreliable_3="any message of 3 pieces, 4 arrivals", join_sequenced_3="any message of 3 full pieces, 4 arrivals",
    two_messages="4 arrivals of the pieces of two 2-piece messages"))],
    outside="fragment size other than 2 bytes; more than 3 pieces, 4 arrivals or 2 messages")
prop("T07", [dict(hooks="hdr", caps=dict(bytes=16, map=2, vec=2), jobs=8, harnesses=dict(
    acks_first_two="fresh receiver, two packets with any ids (less than half the id space apart)",
    acks_step="any state of the 33-packet window (ring at its initial rotation), one further packet with any id less than 16000 away",
    acks_two_steps="[thorough] the same, two further packets",
    settled_newest="2 packets sent at any time, a header naming the second and any of the 32 before it, twice; then the timeout",
    settled_first="same, header names the first packet", settled_edge="same, first packet just outside the window",
    settled_old="[thorough] same, first packet the last of the window", settled_any="[thorough] same, any header",
    lost_not_acked="a packet sent at any time within 60 ms, the timeout check, then a header with any bits",
    lost_once="a packet sent at any time, two timeout checks", ack_only="any header, any id",
    header_wire="every header"))],
    outside="more than 2 packets in flight; packet ids other than 65535 and 0 for the sender's table; ring rotations other than the initial one for an arbitrary window; nack timeouts other than that of a zero RTT")

prop("S01", [dict(caps=dict(bytes=20, map=2, vec=3, vecb=8), harnesses=dict(
    varint="all values below 2^62", fixed_width="all values", fixed_width_signed="all values", scalars="all values", byte_strings="all byte strings of up to 6 bytes",
    vectors="all lists of 0, 1 or 3 bytes", vectors_u16="all lists of 2 u16", small_vectors="all lists of 2 bytes", maps="all maps of 2 entries u8 -> u8", entities="all entity ids"))],
    outside="longer collections; varints of 2^62 and above (documented as unsupported); types serialised with postcard")
prop("S02", [dict(caps=dict(bytes=8, map=8, vec=8, vecb=8), harnesses=dict(
    varint="all byte strings of up to 8 bytes", scalars="same", core_types="same", peer="same", entity="same", byte_string="same", vector="same, lists of u16",
    small_vector="same, lists of u16", map="same, maps u8 -> u8"))],
    outside="inputs longer than 8 bytes; types deserialised with postcard")
prop("K02", [dict(caps=dict(bytes=24, vec=2, vecb=8), harnesses=dict(
    peers="all peer ids other than addresses", peers_ip="all IPv4 and IPv6 addresses", targets_single="all targets without a list, netcode and entity ids", targets_ip="IPv4 addresses", only_none="empty lists", only="the server alone", all_except="lists of one netcode id", arbitrary_bytes="peer ids, all byte strings of 10 lengths up to 20", arbitrary_target="targets, all strings of one byte"))],
    outside="lists of more than one peer; scope and flow labels of IPv6 addresses (not sent)")
prop("N01", [dict(harnesses=dict(
    any_numbers="3 arrivals of any packet numbers", first_windows="4 arrivals of numbers below 512", late_windows="3 arrivals of the last 512 numbers"))],
    outside="more arrivals; the packet number 2^64-1, which marks empty slots")
prop("L01", [dict(caps=dict(bytes=4, vec=4, deq=4), harnesses=dict(
    delay="one packet: latency and jitter 0..63.75 ms in steps of 1/4 ms, polled at any time 50 ms before to 205 ms after its arrival, any random draw",
    long_delay="one packet, latency 1 s to 1.06 s, jitter as above, polled 0..2.55 s after its arrival in steps of 10 ms",
    order="two packets at any times 0..150 ms in either order, latency 0..63.75 ms, polled at any time, then again",
    loss="any of the 16 settings of loss and transition probabilities at 0 or 1, three packets",
    constant_loss="loss of 0..100 percent, one packet, any random draw",
    half="any latency and jitter up to 63.75 ms",
    in_order="three packets through sender and receiver, pushed either way",
    mtu="any minimum, two changes to any value"))],
    outside="loss probabilities strictly between 0 and 1 (only that 0 loses nothing and 1 everything); longer delays (a latency beyond 24 days wraps in the source); the link's Bevy systems",
    assumptions=["randomness is any value of the requested range (f32: any multiple of 2^-24, which is how rand draws it)"], stubs=["rand"])
prop("U01", [dict(caps=dict(vec=4), harnesses=dict(
    pop_in_order="4 items with any keys, 3 pops at any times in between", pop_until="3 items, any time", drain_until="same", drain_after="same", drain_all="2 items"))],
    outside="more than 4 items; the internal order of std's BinaryHeap (trusted)")
prop("U02", [dict(harnesses=dict(
    ring_4="6 operations on a window of 4 ids anywhere", ring_8="5 operations, 8 ids", ring_32="4 operations, 32 ids"))],
    outside="longer histories; ids further apart than the ring (documented as replaced)")

K1 = dict(inverse="all shapes", extend="shapes without a list, 2 further ids", extend_only="lists of 2 ids, 2 further ids", extend_except="same", constructors="lists of up to 3 ids")
K1.update({f"{o}_{s}": "all shapes of the other operand, lists of 2 arbitrary ids each, any probe" for o in ("union", "inter", "excl") for s in ("none", "all", "single", "except_single", "only", "except")})
K1L = {f"large_{o}{t}": "two lists of 5 arbitrary ids (hashed path), any probe" for o in ("union", "intersection", "exclude") for t in ("", "_except", "_mixed")}
for h in ("large_union_mixed", "large_exclude_except"): K1L[h] = "[thorough] " + K1L[h]
prop("K01", [dict(caps=dict(vec=4, map=5), harnesses=K1), dict(caps=dict(vec=4, map=10), timeout=400, harnesses=K1L)],
    outside="lists of more than 5 ids; combinations of one large and one small list",
    stubs=STUB + ["smallvec is an inline array of 5 slots (10 for the large lists) (exceeding it is reported)"])

prop("Y01", [dict(hooks="ping", caps=dict(vec=4), harnesses=dict(
    genuine="one ping, two pongs of any ids at most 127 ahead, any times within 1 s", newest_first="two pings at any times, the second answered first", oldest_first="two pings at any times, answered in order", wrapping_ids="any newest answer so far", peer_time="peer's own time of 0..200 whole ticks",
    answers="two pings of the peer with any ids and times", interval="any two clock steps up to 300 ms"))],
    outside="the smoothing of samples (floating point)", stubs=STUB + ["the RTT estimator keeps the last sample", "SequenceBuffer::new builds the same array of None without a loop", "Instant::now is a fixed time (bevy Time<Real> construction)"])
prop("Y02", [dict(hooks="delay", harnesses=dict(
    small_configs="any round trip up to 2 s, jitter up to 100 ms, multiples 0..7, limits up to 200 ticks", any_config="the same, any limits"))],
    outside="tick durations other than 15.625 ms")
prop("Y03", [dict(harnesses=dict(
    default_config="3 samples of any error up to 10^6 ticks, corrections after the first error", thresholds="default configuration, 4 samples up to 20 ticks", configs="2 samples, thresholds of 1/8 to 8 and 64 ticks in steps of 1/8, speed factor 1 + 1/64..1/2 in steps of 1/64"))],
    outside="longer histories; NaN; configurations out of their documented ranges")
prop("Y04", [dict(harnesses=dict(window="4 updates with any ticks, confirmations and limit"))],
    outside="ticks beyond 2^31 apart")
