T.update({
 "C04": ("stateful property-based testing: generated histories against a model of outstanding requests", "mock wire, deterministic executor; random op sequences incl. stale/duplicate/foreign frames, cancellations"),
 "C05": ("stateful property-based testing: wire-level oracle over generated histories", "random interleavings of requests, responses at all key lengths, clones"),
 "C06": ("stateful property-based testing: wire-level oracle over generated histories", "random interleavings incl. sequence wrap-around at 1-byte width, caller-chosen numbers"),
 "C07": ("stateful property-based testing: queue reference model over generated histories and schedules", "virtual time; random interleavings of arrivals, reads, drops, replacements"),
 "C08": ("stateful property-based testing: per-subscriber reference model over generated histories", "random interleavings with lag, late joiners, drops"),
 "C09": ("stateful property-based testing: fault injection at generated points of a history", "close/drop/send error/receive error at every generated point"),
 "C10": ("property-based testing: reference dispatcher over generated frames", "all key lengths, crafted collisions, malformed payloads, failed spawns"),
 "C11": ("stateful property-based testing: fault injection against a reference server loop", "generated sequences of frames and transport faults"),
})
T.update({
 "C12": ("stateful property-based testing: generated device interfaces with fault injection, exact-report oracle", "generated schemas (leaked at run time), losses, send errors, gaps, retries; virtual time"),
 "C13": ("property-based testing: reference collector over generated type graphs", "generated types of every schema shape with near-duplicates; exact const-generic sizes up to 48"),
 "C15": ("property-based testing: reference COBS codec over generated streams and chunkings", "capacities 2..600; oversized, malformed and exact-fit packets in any chunking"),
 "C20": ("stateful property-based testing: generated concurrent scripts, deterministic and multi-threaded schedules", "real client and server over the crate's channel transports; single-threaded seeded schedules plus real threads"),
})
T.update({
 "C16": ("stateful property-based testing: simulated serial port with generated chunking, noise and faults against a reference COBS stream decoder", "stand-in for tokio-serial substituted at build time; reads in generated chunks, partial writes, end of stream and errors at generated points"),
 "C21": ("stateful property-based testing: simulated USB bus with generated transfers and faults against a transfer-level model", "stand-in for nusb substituted at build time; packet sizes 8..512, stalls, error runs, halt failures, slow endpoints"),
})
T.update({
 "C17": ("stateful property-based testing: simulated USB endpoint with generated delays, stalls and errors, host-side reassembly oracle in virtual time", "both embassy-usb versions; sequences of sends from one or several tasks, cancellation, changed timeouts"),
 "C18": ("stateful property-based testing: reference reassembler over generated packet streams", "both embassy-usb versions; all buffer sizes, oversized and exact-fit frames, disconnects, both driver behaviours on overflow"),
 "C19": ("property-based testing: host decoder as oracle over generated texts and buffers", "both embassy-usb versions; multi-byte texts around the capacity, all key lengths, sequence wrap"),
})
T.update({
 "C14": ("property-based testing over generated programs: random interface declarations compiled in both build configurations, run, and compared with a schema-level reference", "declarations with crafted key collisions at 1, 2 and 4 bytes, cfg rows, lifetimes, omitted standard entries; faulty declarations that must be rejected"),
})
T.update({
 "C22": ("stateful property-based testing: simulated browser USB with generated transfers and faults, device-side packet reassembly as oracle", "stand-ins for the web crates substituted at build time, transport built natively through a guarded hook; packet sizes 8..512, failures in both directions, slow endpoints, device selection"),
})
