#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["binate/src/" + f for f in files],
        "state": [dict(name=a, meaning=b, where="binate/src/" + c) for a, b, c in state],
        "mechanism": [dict(name=a, where="binate/src/" + b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

SID = ["connection/stream_id.rs"]
SIDST = [("stream id cursor", "next stream id to hand out, shared by all requesters of a connection", "connection/stream_id.rs StreamIdProvider")]
SIDM = [("atomic fetch-and-add of the cursor, retried while the id is active", "connection/stream_id.rs StreamIdProvider::next_stream_id")]
SIDO = ["StreamIdProvider::next_stream_id called from concurrent threads"]
WRAPHOOK = "StreamIdProvider::sim_starting_at (cfg binate_sim): start near the wraparound instead of after 2^30 calls"
p("C01", "Concurrent requesters never share a stream id",
  "However many threads ask one connection's stream id provider for ids at the same time, and however their calls interleave, no two calls receive the same id before the whole id space has been used up once.",
  ["schedules", "histories"], "every interleaving of any number of concurrent id requests (with streams being opened and closed meanwhile), from every position in the id space",
  "The unit tests call the provider from one thread; the single loom test checks one final value for three threads, not the ids handed out, and starts from a fresh provider only.",
  SID, SIDM, SIDST, SIDO, WRAPHOOK)
p("C02", "Stream ids stay valid for their role, for ever",
  "Every id a provider hands out lies in 1..=2^31-1 and has the parity of its side of the connection: odd for a client, even for a server. This stays true when the ids wrap around, any number of times, and under concurrent requests; id 0, which belongs to the connection itself, is never handed out.",
  ["schedules", "histories", "configurations"], "every history of id requests of either role, of any length (beyond the wraparound), under every interleaving",
  "Tests sample the first two ids of each role and one client wraparound on one thread; the server's wraparound, which meets the reserved id 0, and concurrent wraparounds are not reached.",
  SID, SIDM, SIDST, SIDO, WRAPHOOK)
p("C03", "Ids of active streams are not handed out, and a free one is found",
  "An id that is registered as an active stream for the whole duration of a request for a new id is not returned by that request, even while other threads register and remove other streams. The request returns within a bounded number of steps as long as free ids exist.",
  ["schedules", "histories"], "every interleaving of id requests with registrations and removals of streams, for every set of active ids",
  "Tests use one registered id on one thread; races between the lookup, concurrent registrations and runs of active ids around the wraparound are not sampled.",
  SID, SIDM, SIDST + [("active streams", "ids in use", "connection/socket.rs RSocketMachine::receivers")], SIDO, WRAPHOOK)
p("C04", "Stream ids are issued in sequence without gaps",
  "The ids of one provider are issued in steps of two, in the order of the requests: a request that starts after another one has returned gets a later id. No id is skipped unless it was registered as active at some moment of that history (or is the reserved id 0).",
  ["schedules", "histories"], "every interleaving of concurrent id requests and stream registrations",
  "Order between overlapping and non-overlapping calls of several threads is a property of histories; the tests only see consecutive calls of one thread.",
  SID, SIDM, SIDST, SIDO, WRAPHOOK)
CTR = ["connection/counter.rs"]
CTRST = [("permit count", "number of outstanding request permits", "connection/counter.rs RequestCounter")]
p("C05", "Request permits are accounted for exactly under concurrency",
  "Concurrent uses of one request counter behave as if they ran one at a time in an order that respects their real-time order: every decrement reports the count it found and takes one permit, every addition adds exactly its permits, and reads of the count or of 'is zero' report a count that existed during the read. No permit is lost, duplicated or granted to two requesters.",
  ["schedules", "histories"], "every interleaving of decrements, additions and reads by any number of threads",
  "Every test of the counter performs one or two operations on one thread.",
  CTR, [("atomic read-modify-write operations", "connection/counter.rs RequestCounter::{dec,add,is_zero,load}")], CTRST,
  ["return values of dec, load and is_zero from concurrent threads"])
p("C06", "Adding permits saturates and never takes permits away",
  "Adding permits never lowers the count: when the sum would exceed 2^31-1 the count becomes 2^31-1 and later decrements go on from there. This holds for every sequence and interleaving of additions of up to 2^31-1 permits each.",
  ["schedules", "histories", "inputs"], "every interleaving of additions that reach or exceed the 31-bit limit with decrements and reads",
  "The only test adds 8 to 42; the limit and additions that race towards it are not reached.",
  CTR, [("saturating addition", "connection/counter.rs RequestCounter::add")], CTRST,
  ["return values of dec, load and is_zero from concurrent threads"])
FNF = ["connection/socket.rs", "payload.rs", "frame/codec/request_fnf.rs"]
FNFM = [("fragmentation of fire-and-forget requests", "connection/socket.rs RSocketMachine::fire_and_forget"), ("payload chunk iterator", "payload.rs PayloadChunks")]
p("C07", "Fire-and-forget requests reach the transport complete and well-formed",
  "When fire-and-forget reports success, the transport has been given, in order and under a stream id used by no other request, at least one fragment of the request: every fragment but the last announces that more follow, the last one does not, metadata and data of the fragments concatenate to exactly those of the payload, and with fragmentation on no fragment carries more than the configured number of metadata bytes or of data bytes. Any number of threads sharing the connection may do so at once, with their fragments interleaved.",
  ["schedules", "inputs", "configurations"], "every interleaving of concurrent requesters, every payload (absent, empty, multiples of the fragment size, above 2^24 bytes) and every fragment size (each fragment's metadata within the protocol's 24-bit limit)",
  "No test sends anything through the connection's state machine; the chunk tests use one 20-byte payload.",
  FNF, FNFM, SIDST, ["DuplexConnection::send_and_forget"], "connection::sim::SimMachine (cfg binate_sim): the state machine and the fragment size have no public constructor")
p("C08", "A refused fragment stops its request and is reported",
  "When the transport refuses a fragment of a fire-and-forget request, the caller gets that very error and no further fragment of that request is sent. A request none of whose fragments was refused reports success, whatever happens to the requests of other threads at the same time.",
  ["fault_sequences", "schedules"], "every placement of transport failures (single, bursts, permanent close) among the sends of concurrent requesters",
  "No test has a transport at all, let alone one that fails in the middle of a request.",
  FNF, FNFM, [], ["DuplexConnection::send_and_forget", "return value of RSocket::fire_and_forget"], "connection::sim::SimMachine")
ASM = ["connection/buf.rs", "connection/socket.rs", "frame/mod.rs", "frame/visit.rs", "payload.rs"]
p("C09", "Requests survive fragmentation, the link and reassembly end to end",
  "A fire-and-forget request whose fragments all cross the link undamaged is reassembled on the other side into exactly the metadata and data that were sent, however its fragments interleave with those of other requests and however the link cuts the bytes. A request cut off by the loss of the connection before its last fragment never shows up as complete.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of fragments of concurrent requests, every segmentation and every point of connection loss, every payload and fragment size",
  "The one reassembly test joins three hand-made fragments held in contiguous buffers; sender and receiver are never run together.",
  ASM, FNFM + [("reassembly", "connection/buf.rs BufList try_into Payload")], [], ["reassembled payloads on the receiving side"], "connection::sim::{SimMachine, SimBufList}")
DEC = ["frame/mod.rs", "frame/visit.rs", "frame/flags.rs", "frame/codec/"]
p("C10", "No damage on the link can crash the receiver",
  "Whatever the link does to the bytes of a frame (flipped bits, cut or repeated pieces, foreign bytes, any segmentation), decoding them, inspecting or re-encoding the result, and using them for reassembly return a value or an error in bounded time and never panic. Frames that arrive afterwards are received normally.",
  ["fault_sequences", "inputs"], "every sequence of damage to every frame, and every byte string that can result",
  "Tests decode only what the encoder just produced.",
  DEC + ["connection/buf.rs"], [("length check before every read", "frame/visit.rs"), ("dispatch on the frame type", "frame/mod.rs Frame::decode")], [], ["Frame::decode", "BufList try_into Payload"], "connection::sim::SimBufList")
p("C11", "A frame cut short is reported as incomplete",
  "When a frame arrives cut off anywhere inside its header, its fixed fields or a field whose length it announces, decoding reports it as incomplete. It is never accepted with missing or invented field values.",
  ["fault_sequences", "inputs"], "every cut point in every frame of every type, with every segmentation of what is left",
  "No test decodes a truncated frame.",
  DEC, [("length check before every read", "frame/visit.rs")], [], ["Frame::decode"])
p("C12", "Decoding does not depend on how the link cuts the bytes",
  "The outcome of decoding a frame - the frame or the error - is the same whether its bytes lie in one piece or arrive as any sequence of segments, also when the frame is damaged.",
  ["schedules", "fault_sequences"], "every segmentation of every byte string, intact or damaged",
  "Tests decode from one contiguous buffer only.",
  DEC + ["connection/buf.rs"], [("segmented receive buffer", "connection/buf.rs impl Buf for BufList")], [], ["Frame::decode over the receive buffer"], "connection::sim::SimBufList")
p("C13", "Undamaged frames arrive as they were sent, over any number of hops",
  "Every frame of every type that a link delivers undamaged is received with exactly the field values it was sent with (an empty and an absent metadata or data count as the same), whatever the link drops, repeats, reorders, delays or damages around it. MIME types too long for the format are refused when the frame is built. A frame's encoding has exactly the announced length, and forwarding the received frame over further hops changes nothing.",
  ["fault_sequences", "inputs"], "all frames of the 14 types with all field values up to their limits, over every pattern of link faults around them and any number of hops",
  "Each frame type has one test with one set of small values and one decode.",
  DEC + ["frame/encode.rs"], [("encoder and decoder of each frame type", "frame/codec/")], [], ["Encode::to_bytes", "Encode::len", "Frame::decode"])
p("C14", "The receive buffer never loses, repeats or reorders bytes",
  "Segments that arrive in the receive buffer come out as one unbroken byte sequence in order of arrival: however arrivals interleave with partial reads, peeks, skips and vectored reads, each byte is delivered exactly once, and the reported remaining length is exact at every moment.",
  ["schedules", "histories"], "every history of arrivals of segments of any size interleaved with reads of any size and kind",
  "Four tests make one or two reads of a fixed three-segment buffer; no arrival happens after a read.",
  ["connection/buf.rs"], [("queue of segments", "connection/buf.rs impl Buf for BufList")], [("segments", "received, unread bytes", "connection/buf.rs BufList")], ["bytes read from the receive buffer"], "connection::sim::SimBufList")
p("C15", "Reassembly is all or nothing",
  "If any fragment of a request arrived so damaged that it is rejected on its own, reassembling the request fails with the first such rejection and yields no payload. Otherwise it yields exactly the metadata and the data the fragments carry, each concatenated in order of arrival. Frames of kinds that cannot be fragments contribute nothing.",
  ["fault_sequences", "inputs"], "every list of fragments of any kinds and sizes, with every choice of damaged, foreign or reordered fragments",
  "The single reassembly test has three intact fragments of one kind.",
  ["connection/buf.rs"], [("reassembly", "connection/buf.rs BufList try_into Payload")], [], ["result of reassembly"], "connection::sim::SimBufList")
KA = ["connection/socket.rs"]
KAST = [("last keepalive", "time the last keepalive frame was received", "connection/socket.rs RSocketMachine::keepalive_last_received")]
KAM = [("keepalive timer task", "connection/socket.rs RSocketMachine::new")]
p("C16", "A connection that receives keepalives is not closed",
  "The connection's state machine never closes a connection on its own account before a whole keepalive timeout has passed without a keepalive frame being received on it (or since the connection was set up, if none was received yet). Delays, clock jumps, other traffic and status changes of the transport do not bring the close forward.",
  ["schedules", "fault_sequences"], "every timing of keepalives, other frames, status changes, scheduling delays and clock jumps, for every timeout",
  "No test constructs the state machine; there is no test with a clock.",
  KA, KAM + [("keepalive receiver task", "connection/socket.rs RSocketMachine::new")], KAST, ["DuplexConnection::close"], "connection::sim::SimMachine")
p("C17", "A silent connection is closed in bounded time, exactly once",
  "When no keepalive frame is received any more on an open connection, the state machine closes the connection within two keepalive timeouts (plus scheduling delay and timer granularity) of the last one received, and does so exactly once. The timeout is reported exactly once.",
  ["schedules", "fault_sequences"], "every moment at which the peer falls silent, under every scheduling, delay and clock jump, for every timeout",
  "No test constructs the state machine; there is no test with a clock.",
  KA, KAM, KAST, ["DuplexConnection::close", "error events"], "connection::sim::SimMachine")
p("C18", "Each transport status change is handled once, without starving others",
  "Every change of the transport's status to closed or to an error is reported exactly once and in order, for any sequence and timing of changes, and reports of errors carry the transport's description. Watching the status never keeps other tasks of the same runtime from making progress.",
  ["schedules", "fault_sequences"], "every sequence and timing of status changes, under every interleaving with the other tasks",
  "No test constructs the state machine or has a transport with a status.",
  KA, [("status watcher task", "connection/socket.rs RSocketMachine::new")], [], ["error events", "progress of other tasks"], "connection::sim::SimMachine")
p("C19", "Metadata pushes are sent exactly once and report the true outcome",
  "Each metadata push that is awaited gives the transport exactly one metadata-push frame carrying exactly the given metadata, and completes with exactly the outcome the transport reports for that frame, whenever it does so. Concurrent pushes and requests, delayed, failed or abandoned ones, do not affect each other.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent pushes with delayed, failing and reordered completions and cancellations",
  "No test sends a metadata push.",
  KA + ["frame/codec/metadata_push.rs"], [("metadata push", "connection/socket.rs RSocketMachine::metadata_push")], [], ["DuplexConnection::send", "result of RSocket::metadata_push"], "connection::sim::SimMachine")
p("C20", "Damaged frames are rejected or mean exactly what their bytes spell",
  "When damage to a frame leaves an unknown or extension frame type, it is rejected as unrecognized with that type; when it moves a connection-level frame (or error code) to a non-zero stream, or a stream-level error code to stream 0, it is rejected as misaddressed with that stream id. Damage that leaves a well-formed frame yields the frame whose field values the damaged bytes spell in the documented layout, nothing else.",
  ["fault_sequences", "inputs"], "every sequence of bit flips, overwrites, cuts and insertions on every frame of every type",
  "Tests decode only intact frames, and one unknown frame type directly below the public interface.",
  DEC, [("stream id and frame type validation", "frame/mod.rs Frame::decode"), ("error code validation", "frame/codec/error.rs")], [], ["Frame::decode"])
# ---- not claimed
p("C21", "Frames are laid out as the RSocket protocol prescribes",
  "The bytes of each encoded frame are those that version 1.0 of the RSocket protocol prescribes, so that other RSocket implementations understand them.",
  ["inputs"], "all frames of all types", "The tests compare the codec only with itself.",
  ["frame/flags.rs", "frame/codec/"], [("flag bits and layouts", "frame/flags.rs")])
p("C22", "Well-known MIME types convert to names and back",
  "Every well-known MIME type converts to its registered name and the name converts back to that type; any other string converts to 'unparseable'.",
  ["inputs"], "all well-known types and all strings", "The one test covers the unparseable value only.",
  ["mimetype.rs"], [("conversion tables", "mimetype.rs")])
p("C23", "Errors classify and describe themselves correctly",
  "Each error answers true to exactly the classification questions of its kind and describes itself with its own protocol code.",
  ["inputs"], "all error kinds", "Tests cover one conversion.",
  ["error.rs"], [("classification methods", "error.rs Error")])
p("C24", "Payload accessors and the chunk iterator agree",
  "Chunking a payload yields the announced number of chunks, each of the requested size but the last of each part, which concatenate to the payload; accessors report the parts the payload was built with.",
  ["inputs"], "all payloads and chunk sizes", "Tests use one 20-byte payload.",
  ["payload.rs"], [("chunk iterator", "payload.rs PayloadChunks")])
p("C25", "Versions and 24-bit integers keep order and value",
  "Protocol versions order by major then minor number, and 24-bit integers convert without loss and refuse larger values.",
  ["inputs"], "all versions and integers", "Tests cover boundary values only.",
  ["frame/version.rs", "frame/u24.rs"], [("Ord for Version", "frame/version.rs"), ("conversions", "frame/u24.rs")])
p("C26", "Request/response, stream and channel interactions complete",
  "A request/response, request/stream or request/channel interaction delivers the peer's payloads in order and ends with completion, error or cancellation.",
  ["schedules", "fault_sequences"], "all interactions", "The interactions are not implemented.",
  ["connection/socket.rs"], [("unimplemented!()", "connection/socket.rs impl RSocket for RSocketMachine")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
