#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text is readable in review)."""
import json, os
S = "source/postcard-rpc/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Header wire format: exact encoding, total decoding, lossless round trip",
  "Every message header encodes to exactly one discriminant byte (two bits of key length, two bits of sequence-number length, version 0), the key bytes and the little-endian sequence number, and the growable and the fixed-buffer encoder agree byte for byte; a buffer that is too small is reported, never overrun. Decoding any byte string either returns exactly the encoded key, sequence number and remaining payload, or rejects it (truncated, reserved sequence length, unknown version) without panicking. Encoding a decoded header reproduces the bytes.",
  ["inputs"], "all keys of 1/2/4/8 bytes, all sequence numbers of 1/2/4 bytes, all buffer sizes, all byte strings",
  "The unit tests encode a handful of fixed headers; the input space is all byte strings and buffer sizes.",
  ["header.rs"], [("VarHeader::{write_to_vec,write_to_slice,take_from_slice}", "header.rs")],
  ["return values and bytes of the header codec"])

p("C02", "Key shortening, key comparison and sequence resizing obey the documented laws",
  "A shortened key is the documented XOR fold of the 8-byte key whichever route of conversions or shrink requests produced it, shrinking never lengthens a key, and a conversion to a longer form is refused. Two keys of any lengths compare equal exactly when they are equal after reducing both to the shorter length, symmetrically. Sequence numbers compare by numeric value across widths, widening preserves the value and narrowing keeps the low-order bytes.",
  ["inputs"], "all pairs of 8-byte keys x all pairs of lengths x all shrink sequences; all sequence values x widths",
  "Existing tests check a few constants; the laws quantify over all keys (collisions at one width but not another are rare in hand-picked values).",
  ["lib.rs", "header.rs"], [("Key1/Key2/Key4 conversions", "lib.rs"), ("VarKey PartialEq/shrink_to, VarSeq PartialEq/resize", "header.rs")])

p("C03", "The computed minimum key length is collision-free and minimal",
  "For any collection of key lists, the computed minimum key length is the smallest of 1, 2, 4 and 8 bytes at which all keys, across all the lists together, stay pairwise distinct after shortening. Two identical full-length keys are rejected with a panic instead of yielding a length.",
  ["inputs", "configurations"], "all lists of lists of keys",
  "Tests use two keys each; collisions between distant entries of different lists, empty lists and duplicates need generated lists.",
  ["server/mod.rs"], [("min_key_needed / keycheck!", "server/mod.rs")])

p("C04", "Each request gets its own response, whatever the server and network do",
  "A client request completes with the payload of the first frame received after it was sent that carries its response key and sequence number (or with the decoded wire error if that frame carries the error key), and a frame whose payload does not decode gives a decode error. It never completes with another request's response, nor because of stale, duplicated, unrelated, malformed or wrong-sequence frames, and every request whose matching frame arrives does complete. Cancelling a request does not disturb any other request.",
  ["schedules", "histories", "inputs"], "all interleavings of requests from several clones, replies in any order, duplicates, stale/foreign/garbage frames, error replies, cancellations and task poll orders",
  "Tests exercise a few sequential exchanges on one schedule; correlation must hold for every order and task interleaving.",
  ["host_client/mod.rs", "host_client/util.rs"],
  [("wait registration before send; select over ok/error/cancel", "host_client/mod.rs"), ("in_worker dispatch to waiters", "host_client/util.rs")],
  ["result of every request future", "frames on the wire"],
  [("HostContext.map", "requests waiting for (key, seq)", "host_client/mod.rs")])

p("C05", "Clients start with 8-byte keys and then adopt the server's key length",
  "Until a client has received its first response, every request and topic message it sends carries the full 8-byte key. After a response (success or wire error) to one of its requests has been received with some key length, all requests and messages it or any of its clones sends afterwards carry the correctly shortened key of exactly that length (unless the caller itself supplied a shorter one), and responses and topics are still recognised at whatever key length they arrive.",
  ["histories", "configurations"], "all sequences of requests, publishes and responses whose key lengths vary per response, over clones",
  "Only one fixed key length is exercised in tests; adoption and switching in both directions are histories.",
  ["host_client/mod.rs", "header.rs"], [("kkind update on response, shrink_to on send", "host_client/mod.rs")],
  ["header of every frame put on the wire"], [("HostContext.kkind", "key length in use", "host_client/mod.rs")])

p("C06", "Requests use the configured sequence width and never share a number in flight",
  "Every request a client sends carries a sequence number of exactly the configured width, and automatically numbered requests take consecutive numbers (wrapping) shared by all clones. Two requests in flight at the same time never have the same sequence number on the wire: a request that would reuse a number still awaiting its response fails immediately with the duplicate-sequence error and is not sent, while the earlier request still completes normally.",
  ["histories", "configurations", "schedules"], "all configured widths, histories long enough to wrap the number space, caller-chosen raw sequence numbers, concurrent clones",
  "Wrap-around needs hundreds of requests with some left unanswered; tests make a handful of requests with one configuration.",
  ["host_client/mod.rs", "header.rs"], [("atomic sequence counter, resize to configured kind, duplicate detection by wait map", "host_client/mod.rs")],
  ["header of every frame put on the wire", "request results"])

p("C07", "An exclusive topic subscription is a faithful bounded FIFO with a single owner",
  "A subscriber receives, in order and unmodified, every message of its topic (at any key length) that arrives while it is subscribed, except messages that do not decode and messages that arrive while its queue already holds its full depth (with a configured full-queue timeout: still full when the timeout expires), which alone are dropped. A second exclusive subscription to a topic is refused while the first is alive, a replacing subscription ends the old one after its queued messages, and neither affects other topics, broadcast subscribers or pending requests.",
  ["histories", "schedules", "configurations"], "all sequences of subscribe/replace/drop/receive/deliver over several topics, depths, timeouts and clock advances",
  "Tests cover three scripted scenarios; FIFO, drop and replacement rules quantify over histories and queue occupancy.",
  ["host_client/mod.rs", "host_client/util.rs"], [("exclusive_list, try_send / timed send", "host_client/util.rs"), ("subscribe*, subscribe_exclusive*", "host_client/mod.rs")],
  ["subscription recv results"])

p("C08", "Broadcast subscriptions reach every subscriber in order with exact loss counts",
  "Every broadcast subscriber of a topic receives, in order and unmodified, all messages that arrive after it subscribed, independently of how many other subscribers exist or how slowly they read. A subscriber that falls behind by more than the subscription depth (the one given by the first of the topic's current subscribers) is told exactly how many messages it missed and then continues with the oldest retained one, of which at least the depth are kept. Messages that do not decode are skipped; dropping a subscriber affects no other.",
  ["histories", "schedules"], "all sequences of subscribe/drop/receive/deliver over several topics, depths and subscribers, raw and typed",
  "Tests cover one lag scenario; exactness quantifies over histories.",
  ["host_client/mod.rs", "host_client/util.rs"], [("broadcast_list", "host_client/util.rs"), ("subscribe_multi*", "host_client/mod.rs")],
  ["subscription recv results"])

p("C09", "Closing or losing the connection ends everything promptly and for good",
  "After close() on any clone, a transport send or receive error, or the last client being dropped, both I/O workers stop and nothing more is put on the wire; every pending request fails with the closed error (unless its response had already arrived), every subscription first yields its already queued messages and then ends, and waiters for closure wake. From then on every request, publish and subscription attempt on every clone fails with a closed error instead of hanging, and the client reports itself closed.",
  ["fault_sequences", "crash_points", "schedules", "histories"], "the shutdown cause at any point of any history and task interleaving, including a blocked send or a full subscriber queue",
  "Tests close at two or three scripted points; the guarantee is for any point and any schedule.",
  ["host_client/mod.rs", "host_client/util.rs"], [("Stopper, out_worker/in_worker select on cancel, subscription purge", "host_client/util.rs")],
  ["results of all futures, wire log, worker tasks"])

p("C10", "The dispatcher runs exactly the right handler and answers every request once",
  "For any received frame with a long enough key, the dispatcher invokes exactly the handler registered for that key, once, with the decoded message and the received header; for an endpoint exactly one reply is sent, with the response key at the server's key length, the request's sequence number and the handler's value, and for a topic nothing is sent. Unknown keys, too-short keys, undecodable requests and failed spawns each produce exactly one wire error of the matching kind carrying the request's sequence number and invoke no handler; an undecodable topic message is ignored silently.",
  ["inputs", "histories", "configurations"], "all frames (key, length, sequence, body) against generated dispatch tables, all handler kinds, all server key lengths",
  "Tests send well-formed frames to one dispatcher; the table is per key and per key length and includes hostile bodies.",
  ["server/dispatch_macro.rs", "server/mod.rs"], [("define_dispatch! matcher", "server/dispatch_macro.rs"), ("Sender::{reply,error}", "server/mod.rs")],
  ["handler invocation log, frames sent"])

p("C11", "The server loop survives every non-fatal fault and stops only on fatal ones",
  "While running, the server skips malformed frames, oversized frames and non-fatal receive or send errors and keeps handling every later valid frame in order. It returns exactly when receiving reports a closed connection, or when sending a reply ends in a closed connection or a timeout, identifying which direction failed; running it again afterwards continues with the next frame, and no message is handled twice.",
  ["fault_sequences", "histories"], "all sequences of frames, receive errors and send errors, with restarts",
  "Tests never inject transport errors into the server loop.",
  ["server/mod.rs", "server/impls/test_channels.rs"], [("Server::run", "server/mod.rs")],
  ["handler log, frames sent, return value"])

p("C12", "Schema discovery reports exactly the device's schema or an error",
  "When schema discovery on a client (one at a time, frames in order) succeeds, the report contains exactly the device's endpoints, incoming and outgoing topics (paths, keys, and a type whose schema reproduces each key) and all of the device's types plus the built-in primitives. If any schema message was lost, failed to send, or does not resolve to a reported type, an error is returned instead of an incomplete report; with a lossless prompt connection discovery succeeds.",
  ["inputs", "fault_sequences", "configurations"], "all device maps over generated type trees, all sets of lost or failed messages, all key lengths",
  "Tests query one fixed device without loss.",
  ["host_client/mod.rs", "server/mod.rs", "standard_icd.rs"], [("get_schema_report, SchemaReport::add_*", "host_client/mod.rs"), ("send_all_schemas", "server/mod.rs")],
  ["get_schema_report result"])

p("C13", "Type collection lists every distinct non-primitive type exactly once",
  "For any message type, the collected list of unique types contains the type itself and every type reachable through it (struct fields, enum variants of every shape, tuples, arrays, options, sequences, maps, nested to any depth), except bare primitives, each structurally distinct type exactly once. Merging several lists yields exactly the union without duplicates.",
  ["inputs", "programs"], "all type trees over the schema data model",
  "Unit tests collect about a dozen hand-written types; nesting shapes are unbounded.",
  ["uniques.rs"], [("type_chewer_*, unique_types_*_upper, merge_nty_lists, cruncher, is_prim, nty_eq", "uniques.rs")],
  ["returned lists"])

p("C14", "The ICD macros produce exactly the declared interface, consistently everywhere",
  "For any interface declared with the endpoint/topic list macros, the generated markers and lists contain exactly the declared entries in order with the declared path, the key of (path, type) and all types used, preceded by the standard entries for that direction unless those are omitted. A dispatcher for those lists gets a device map equal to the union of the lists and the smallest key length that keeps all incoming keys distinct and all outgoing keys (error replies included) distinct, and passes each declared message to its own handler; a dispatcher whose keys cannot be told apart at all, or that handles an entry its lists do not contain, is rejected at compile time. The embedded (no_std) and host builds of one interface agree on every key.",
  ["programs", "configurations"], "all interface declarations (generated programs), with and without std entries, in both build configurations",
  "Two fixed interfaces are compiled in tests; the macros quantify over all user programs.",
  ["macros.rs", "server/dispatch_macro.rs", "standard_icd.rs", "uniques.rs"], [("endpoints!/topics!/define_dispatch!", "macros.rs")],
  ["constants of compiled generated programs"])

p("C15", "The COBS accumulator recovers every frame from any chunking and resynchronises",
  "Feeding a byte stream to the accumulator in any chunks yields, in order and unmodified, exactly the frames whose encoded form (delimiter included) fits its buffer, and returns the unconsumed rest of each chunk correctly. A frame that is too large or malformed is reported, never delivered in whole or in part, and never costs the frames after its delimiter; what is delivered depends only on the byte stream, not on how it was chunked, and no input panics.",
  ["inputs", "histories"], "all byte streams, chunkings and buffer sizes",
  "There are no tests of the accumulator.",
  ["accumulator.rs"], [("raw::CobsAccumulator::feed", "accumulator.rs")],
  ["feed results"])

p("C16", "The serial transport carries every frame intact and reports a dead port",
  "Over a serial port, every frame the client sends appears on the wire as one COBS-encoded, zero-terminated packet, and every valid frame in the received byte stream, from the smallest header upwards, is delivered once, in order and unmodified, whatever the read chunk boundaries and whatever line noise or oversized packets come between. A port error or end of stream closes the client instead of hanging or spinning.",
  ["inputs", "fault_sequences", "histories"], "all frame sequences, read/write chunkings, noise bursts and error points",
  "The serial transport has no tests (it needs a port).",
  ["host_client/serial.rs", "accumulator.rs"], [("SerialWireRx::receive, SerialWireTx::send", "host_client/serial.rs")],
  ["bytes written to and frames delivered from a simulated port"])

p("C17", "The USB server sends frames as correctly delimited packets despite timeouts",
  "Each frame the USB server sends is split into maximum-size packets in order, ended by a short packet or, when its length is a multiple of the packet size, by exactly one empty packet, so that the host can always reassemble exactly the sent frames. After a send that was interrupted by a timeout or error, the next frame is still delimited from the partial one, a message that does not fit the buffer is refused without sending anything, and a send on a disconnected or stalled endpoint returns an error of the right kind instead of blocking forever.",
  ["inputs", "fault_sequences", "histories"], "all sequences of frame lengths and endpoint stalls, disconnects and errors, per embassy-usb version",
  "The embedded transports have no tests.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("send_all, pending_frame, timeouts", "server/impls/embassy_usb_v0_4.rs")],
  ["packets seen by a simulated endpoint"])

p("C18", "The USB server reassembles exactly the frames the host sent",
  "The USB server's receiver returns, in order and unmodified, every frame of the received packet stream that fits the buffer, a frame being ended by the first packet shorter than the maximum packet size. A frame too large for the buffer is reported as such and skipped completely, so that the next frame is received intact, and disconnects are reported as a closed connection; no packet sequence panics.",
  ["inputs", "fault_sequences", "histories"], "all packet sequences and buffer sizes, disconnects at any packet",
  "The embedded transports have no tests.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("EUsbWireRx::receive", "server/impls/embassy_usb_v0_4.rs")],
  ["receive results"])

p("C19", "USB log messages always arrive decodable, in order and maximally complete",
  "Every log message the USB server emits (plain or formatted, any key length, any text) is one frame on the logging topic that the host decodes as a valid string: the full text when it fits the buffer, otherwise, for formatted messages, as long a whole-character prefix as fits followed by \"...\" and, for plain ones, an error with nothing sent. Log frames carry consecutive sequence numbers, and no text length or buffer size panics.",
  ["inputs", "configurations"], "all texts (multi-byte, boundary lengths), argument splits, buffer sizes and key lengths",
  "The embedded transports have no tests.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs", "macros.rs"], [("send_log_str/send_log_fmt and varint length back-patching", "server/impls/embassy_usb_v0_4.rs")],
  ["packets seen by a simulated endpoint"])

p("C20", "Client and server interoperate end to end under concurrency",
  "With a real client connected to a real dispatching server, any mix of concurrent requests from several clones, client-to-server topics and server-to-client topics completes: each request returns exactly its handler's answer (or the proper wire error), each published message is handled exactly once in order, and each server topic and log message reaches every subscriber, at every server key length, configured sequence width and handler kind.",
  ["schedules", "histories", "configurations"], "all workloads, task schedules, key lengths and sequence widths",
  "Tests run a few scripted exchanges sequentially.",
  ["host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/dispatch_macro.rs", "server/impls/test_channels.rs", "host_client/test_channels.rs"],
  [("HostClient <-> Server over channels", "server/impls/test_channels.rs")],
  ["request results, handler log, subscriber messages"])

p("C21", "The USB host transport delimits sent frames and rides out recoverable errors",
  "Every frame the USB host client sends is submitted as one bulk transfer, followed by an empty transfer exactly when the frame length is a multiple of the endpoint's maximum packet size (always, if that size is unknown), in order. Every completed IN transfer is delivered once, in order and unmodified; recoverable transfer errors are survived without losing, duplicating or reordering data the device sends after the recovery, while a disconnect or persistent errors close the client.",
  ["inputs", "fault_sequences", "histories"], "all frame sequences and transfer result sequences (stall, unknown, fault, disconnect, cancel)",
  "The nusb transport has no tests (it needs a device).",
  ["host_client/raw_nusb.rs"], [("NusbWireTx::send_inner, NusbWireRx::recv_inner", "host_client/raw_nusb.rs")],
  ["transfers submitted to and frames delivered from a simulated device"])

p("C22", "The WebUSB host transport frames messages like the native USB transport",
  "Every frame the WebUSB client sends reaches the device whole, in order and delimited: one transfer per frame, followed by an empty transfer whenever the frame may fill its packets exactly (its length is a multiple of 8, the smallest bulk packet size). Every received transfer is delivered once and in order, with empty ones ignored. A transfer in either direction that is rejected, throws, or completes with stall or babble closes the client. Connecting uses the first already paired device with the vendor id, otherwise the one the user picks under a filter for it, opens it, claims the given interface and uses the given endpoints and transfer length, or fails with an error.",
  ["inputs", "fault_sequences"], "all frame sequences and transfer results in a browser",
  "The WebUSB transport has no tests and only compiles for wasm32.",
  ["host_client/webusb.rs"], [("WebUsbWire", "host_client/webusb.rs")])

path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
