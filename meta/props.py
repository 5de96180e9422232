"""The properties. gen.py turns this into properties.jsonl and MANIFEST.json."""

ENUM = "exhaustive enumeration on the real code against an independent reference model"
SCHED = "stateless model checking of the real code under a controlled scheduler"

def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a, "technique": technique, "note": note}

PROPS = [
P("C01", "Frames encode and decode without loss and to the RSocket wire layout",
  "Every frame of every kind, with any legal stream id, initial request count, flag combination, metadata and data, is encoded to exactly the number of bytes it announces and to the RSocket byte layout, and decoding those bytes gives back the same frame: kind, stream id, flags, counts, error code, metadata and data.",
  ["inputs"], "all frame kinds x stream ids x request counts x flag words x metadata and data lengths, up to and past the 24-bit length limit",
  "the two frame tests encode one or two payload fragments; they never decode what they encode nor touch the other kinds, flags or lengths",
  ["go/internal/frames/types.go", "go/internal/frames/frame_header.go", "go/internal/frames/payload.go", "go/internal/frames/request_payload.go", "go/internal/frames/request_n.go", "go/internal/frames/cancel.go", "go/internal/frames/error.go", "go/internal/frames/util.go", "go/internal/u24/u24.go"],
  [("Encode/Decode of each frame type", "go/internal/frames"), ("24-bit lengths", "go/internal/u24/u24.go")],
  ENUM, "Every value of the stated grid is encoded and decoded by the real code and compared with a separately written rendering of the RSocket layout; values outside the grid are not covered."),

P("C02", "Malformed frame bytes are refused with an error and never crash the decoder",
  "Whatever bytes a peer sends, decoding a frame or reading frames from a connection ends in a well-formed frame or an error: it never panics, never reads outside the bytes of that frame, never loops and never returns a frame that the bytes do not describe. "
  "Frames before the damage are delivered unharmed.",
  ["inputs"], "all short byte strings as frame bodies, all combinations of declared and actual lengths on a connection",
  "no test decodes anything but well-formed frames",
  ["go/internal/frames", "go/transport/rsocket/decoder.go", "go/transport/rsocket/tcp_conn.go", "go/internal/u24/u24.go"],
  [("length checks in each Decode", "go/internal/frames"), ("length-prefixed scanning", "go/transport/rsocket/decoder.go")],
  ENUM, "Exhaustive over the alphabet and lengths in the evidence; the oracle for well-formedness is independent of the code."),

P("C03", "Fragmenting and reassembling a message gives back the same message",
  "A request or payload sent with a fragment size limit becomes a sequence of frames of which none exceeds the limit, all on the same stream, every one but the last marked as followed by another, the first carrying the original kind and initial count and only the last the completion mark; joining the metadata and data of the sequence in order gives exactly the original metadata and data.",
  ["inputs"], "all kinds, flags, size limits and metadata and data lengths around every boundary",
  "the tests fragment two fixed messages and look at the number of pieces",
  ["go/internal/frames/payload.go", "go/internal/frames/request_payload.go"],
  [("Fragments", "go/internal/frames/payload.go"), ("Fragments", "go/internal/frames/request_payload.go")],
  ENUM, "Exhaustive for limits and lengths in the evidence, boundary neighbourhoods beyond; the sequences are re-read by an independent parser."),

P("C04", "A connection delivers exactly the frames sent, however the bytes are split",
  "The frames read from a byte stream are the ones written to it, complete, in order, each once, whatever the sizes in which the stream hands over its bytes, including empty reads and data that arrives together with the end of the stream; a frame already delivered is not changed by later reads, and a stream that ends inside a frame is reported as such. "
  "Written frames reach the stream unmodified once flushed, and a write error is reported.",
  ["inputs", "fault_sequences"], "all frame sequences, cut points, truncations, empty reads, stream ends and failing writes within the bounds",
  "no test reads from or writes to a connection",
  ["go/transport/rsocket/decoder.go", "go/transport/rsocket/tcp_conn.go", "go/transport/rsocket/misc.go"],
  [("length-based decoder", "go/transport/rsocket/decoder.go"), ("buffered connection", "go/transport/rsocket/tcp_conn.go")],
  ENUM, "Every cut point and truncation of the sequences listed in the evidence, real decoder and connection over an in-memory stream."),

P("C05", "Stream ids are never zero, keep their parity and are never handed out twice",
  "A peer opens streams under ids of its own parity (odd for the side that connects, even for the side that accepts), between 1 and 2^31-1, and no id is handed out twice while the id space has not been used up, however many callers open streams at once and wherever the counter stands, the wrap around included.",
  ["schedules", "histories"], "all interleavings of concurrent openers and all counter positions around the wrap",
  "the tests take ten ids from one thread at the start of the range",
  ["go/internal/socket/stream_id.go", "go/handler/handler.go", "go/handler/caller.go"],
  [("atomic counter and mask", "go/internal/socket/stream_id.go")],
  SCHED, "Every interleaving within the preemption bound at statement granularity, every counter position listed."),

P("C06", "The stream registry behaves as a map from ids to live streams",
  "Looking a stream up finds exactly the stream registered under that id and not yet removed, and nothing for any other id, after any history of registrations, lookups and removals, including concurrent ones; every operation takes effect atomically between its call and its return.",
  ["schedules", "histories"], "all operation histories up to a depth and all interleavings of small concurrent programs",
  "the registry has no test",
  ["go/proxy/lookup.go"],
  [("sorted list with a lock", "go/proxy/lookup.go")],
  SCHED, "All histories of the stated depth against a map; all interleavings within the preemption bound checked for linearizability by brute force."),

P("C07", "The event queue hands over every value once, in order, and then ends",
  "The unbounded queue behind sequential event delivery hands each accepted value to its consumer exactly once, in the order in which each producer put it, without loss when producers, consumer and disposal run concurrently; after disposal the consumer is told of the end instead of waiting for ever, and producers never block or panic.",
  ["schedules"], "all interleavings of producers, consumer and disposal within the bounds",
  "the two tests use one producer and a consumer that runs afterwards",
  ["go/internal/buffer/unbounded.go"],
  [("backlog and channel under a mutex", "go/internal/buffer/unbounded.go")],
  SCHED, "Every schedule within the preemption bound, statement-level switches inside the queue."),

P("C09", "A request/response gets exactly one outcome, the one its own handler gave",
  "Every request/response call ends in exactly one outcome: the response or the error that the handler called for that very request produced, or an error when the operation does not exist or the request does not name one. "
  "The handler is called exactly once with the metadata and data sent, whoever waits for the response (callbacks, Block, or Async and Notify) is told exactly once, nobody is told before there is an answer, and calls running at the same time in either direction never get each other's answers; this holds for every interleaving of the goroutines involved.",
  ["schedules", "histories"], "all ways to answer, name the operation and wait, for one to three concurrent calls in both directions, and all interleavings within the preemption bound",
  "the repository has no test that makes a call; races between a reply and its registration show under particular schedules only",
  ["go/handler/handler.go", "go/handler/caller.go", "go/proxy/mono.go", "go/proxy/mono_host.go", "go/proxy/lookup.go", "go/rx/mono"],
  [("request and reply frames", "go/handler/handler.go"), ("pending call", "go/proxy/mono.go")],
  SCHED, "Two real handlers over an in-memory connection that encodes and decodes every frame; a monitor checks each frame against the protocol."),

P("C10", "A request/stream delivers what its handler emits, as asked for, until it ends",
  "The subscriber of a request/stream gets the values its handler emits, in order, each once and unchanged, followed by the same end (completion or error with its message), which comes once and last; it never gets more values than it asked for, what it asks for reaches the handler in full and never in excess, and once it cancels the handler is told so and nothing more is delivered. "
  "This holds for every interleaving, for streams running at the same time, and whether the handler emits from the callback that takes the demand or from goroutines of its own.",
  ["schedules", "histories"], "all sources, subscribers, ways and moments to cancel and ends, one or two streams, and all interleavings within the preemption bound",
  "the repository has no test that opens a stream; demand that arrives before the handler has returned, or a cancellation that meets the request, need particular schedules",
  ["go/handler/handler.go", "go/handler/caller.go", "go/proxy/flux.go", "go/proxy/responder.go", "go/rx/flux"],
  [("stream frames", "go/handler/handler.go"), ("requester side", "go/proxy/flux.go"), ("responder side", "go/proxy/responder.go")],
  SCHED, "Two real handlers over an in-memory connection; every value, end, demand and cancellation is compared with what the other side did, and a monitor checks credits on the wire."),

P("C11", "A request/channel carries both directions, which end independently",
  "In a request/channel both sides get the values the other emits, in order, each once and unchanged, never more than asked for, with the same end; one direction completing leaves the other running, an error of the response or its cancellation ends both and tells the other side's source and subscriber, and a handler that cancels its input stops the requester's source without touching the response. "
  "A handler that returns its input as its response sends back exactly what it gets. All of this holds for every interleaving.",
  ["schedules", "histories"], "all pairs of sources, subscribers, ways and moments to cancel and ends in the two directions, and all interleavings within the preemption bound",
  "the repository has no test that opens a channel",
  ["go/handler/handler.go", "go/handler/caller.go", "go/proxy/flux.go", "go/proxy/responder.go", "go/rx/flux"],
  [("channel frames", "go/handler/handler.go"), ("requester side", "go/proxy/flux.go"), ("responder side", "go/proxy/responder.go")],
  SCHED, "As for C10, with a source and a subscriber at both ends."),

P("C12", "A fire and forget request reaches its handler once and nothing comes back",
  "A fire and forget request calls the handler of its operation exactly once with the metadata and data sent, and calls nothing when the operation does not exist or is not named; nothing is ever sent back for it, and requests of other kinds made at the same time get their own answers.",
  ["schedules", "histories"], "all ways to name the operation, one to three concurrent calls of this and other kinds in both directions, and all interleavings within the preemption bound",
  "the repository has no test that makes such a call",
  ["go/handler/handler.go", "go/handler/caller.go"],
  [("handleFireAndForget", "go/handler/handler.go")],
  SCHED, "Two real handlers over an in-memory connection with a protocol monitor."),

P("C13", "A mono settles once and every listener hears the outcome",
  "A single result (a mono) is settled exactly once, with a value or an error, whoever settles it first and however many goroutines settle, subscribe, wait and register listeners at once; each subscriber, each waiting goroutine and each completion listener is told that same outcome exactly once, whether it came before or after the result, mapping and flat mapping carry the value or the failure on, and nobody waits for ever on a settled mono.",
  ["schedules", "histories"], "all histories of settling, subscribing, waiting and notifying for every kind of mono, and all interleavings of small concurrent programs, within the preemption bound",
  "the tests use one goroutine at a time, in one order",
  ["go/rx/mono/mono.go", "go/rx/mono/mono_host.go", "go/rx/mono/processor.go"],
  [("mono creation and settlement", "go/rx/mono/mono.go"), ("processor", "go/rx/mono/processor.go")],
  SCHED, "All histories to the stated depth against a model, and all interleavings within the preemption bound with every shared field access as a switching point."),

P("C14", "A flux delivers in order, within its demand, and ends once",
  "A stream of values (a flux) gives its subscriber the values in the order they were emitted, asks its source for no more and no less than the subscriber requested, and ends with exactly one of completion, error or cancellation, after which the subscriber hears nothing more; every completion listener is told once, and this holds for created, ready made, mapped and processor fluxes whichever goroutines emit, request, cancel, subscribe and wait at once.",
  ["schedules", "histories"], "all histories of request, emit, complete, fail, cancel, subscribe and notify for every kind of flux, and all interleavings of small concurrent programs, within the preemption bound",
  "the tests use one goroutine at a time, in one order",
  ["go/rx/flux/flux.go", "go/rx/flux/flux_host.go", "go/rx/flux/processor.go", "go/rx/flux/slice.go", "go/rx/flux/response.go"],
  [("flux creation, demand and end", "go/rx/flux/flux.go"), ("processor", "go/rx/flux/processor.go")],
  SCHED, "All histories to the stated depth against a reference model of demand and order, and all interleavings within the preemption bound with every shared field access as a switching point."),

P("C15", "A flow runs its steps in order and settles once",
  "A flow runs its first step once, every following step once after the tasks awaited by the step before it have ended, and never a later step after a step failed; its result is settled exactly once with the value, error or finally the steps chose, whether awaited tasks are local or already done, finish together or from several goroutines, succeed or fail.",
  ["schedules", "histories"], "all short programs of steps over all task kinds, counts and outcomes, and all interleavings of their ends, within the preemption bound",
  "the tests await a fixed set of tasks that end one after another",
  ["go/rx/flow/flow.go", "go/rx/await/await.go"],
  [("step driver", "go/rx/flow/flow.go"), ("await groups", "go/rx/await/await.go")],
  SCHED, "All programs of the grid in the evidence, all interleavings within the preemption bound."),

P("C16", "MessagePack values round trip, in exactly the size computed for them",
  "Every typed value written through the MessagePack writer (integers of every width, floats, strings, byte strings, booleans, nil and their nullable forms, times, array and map headers) is standard MessagePack for that value, takes exactly the bytes the size computation announced, and is read back as the same value by every reader that can hold it, leaving the following value unharmed; a reader that cannot hold it reports an error. "
  "Writing into a buffer that is too small is an error and never touches memory outside it.",
  ["inputs"], "all 16-bit integers, neighbourhoods of all powers of two, all lengths around every format boundary, all foreign encodings of the same value, all short sequences and truncated buffers",
  "the tests check integer ranges and one echo of a fixed structure",
  ["go/msgpack/encoder.go", "go/msgpack/decoder.go", "go/msgpack/sizer.go", "go/msgpack/data_reader.go", "go/msgpack/format.go", "go/msgpack/codec.go"],
  [("Encoder, Sizer and Decoder written in parallel", "go/msgpack")],
  ENUM, "Exhaustive over the grids in the evidence; encodings are judged by a MessagePack decoder written independently of the repository."),

P("C17", "Dynamically typed values round trip through MessagePack or are refused",
  "A value of unknown type (nil, booleans, numbers, strings, byte strings, times and slices, maps and pointers of these, nested to any depth) is written as the MessagePack for that value in exactly the size computed, and reads back as an equal value; a value that MessagePack cannot represent is reported as an error and never silently dropped or corrupted.",
  ["inputs"], "all leaves, container types, size classes and nestings within the bounds",
  "one test echoes one fixed structure",
  ["go/msgpack/encoder.go", "go/msgpack/decoder.go", "go/msgpack/sizer.go", "go/msgpack/codec.go"],
  [("WriteAny/ReadAny", "go/msgpack/encoder.go, sizer.go, decoder.go")],
  ENUM, "Exhaustive over the stated leaves, container types, sizes and nesting depths, judged by an independent decoder."),

P("C18", "Decoding arbitrary bytes as MessagePack is safe, exact and bounded",
  "For any bytes, every MessagePack reader and the skip operation either consume exactly one well-formed value and return what it denotes, or report an error: none panics, reads past the input, exhausts the stack or allocates memory out of proportion to the input. "
  "Skipping a value stops at the same byte as reading it.",
  ["inputs"], "all short byte strings, every length format with every declared and real length, deep nesting",
  "no test decodes malformed input",
  ["go/msgpack/decoder.go", "go/msgpack/data_reader.go", "go/msgpack/codec.go"],
  [("bounds checks in the data reader", "go/msgpack/data_reader.go"), ("Decoder", "go/msgpack/decoder.go")],
  ENUM, "Exhaustive over the byte strings in the evidence; values and stop positions compared with an independent decoder."),

P("C19", "Operation tables survive encoding and are read safely from any bytes",
  "A table of operations (direction, type, index, namespace and name of each) written by one side is read by the other as the same table, whatever the names, indexes, order and number of entries, and has the documented byte layout; a table that is cut short or whose counts or lengths do not fit the bytes is refused with an error, never a panic, an out of bounds read or an allocation out of proportion to the input.",
  ["inputs"], "all operation kinds, indexes and name lengths around the boundaries, all small tables, all truncations, all single byte changes and all short byte strings",
  "the operations package has no test",
  ["go/operations/operatons.go"],
  [("ToBytes and FromBytes", "go/operations/operatons.go")],
  ENUM, "Exhaustive for the grid in the evidence, against a separately written reader and writer of the layout."),

P("C20", "Port data keeps its flags, port name and data across the wire",
  "Data sent to a named port with any combination of the next and complete flags is read back with the same flags, port and data, and has the documented byte layout; port data that is cut short or announces a longer name than its bytes hold is refused and never crashes the reader.",
  ["inputs"], "all flag bytes, port name lengths and data lengths around the boundaries, all announced and real lengths",
  "port data has no test",
  ["go/invoke/portio.go"],
  [("Encode and DecodePortIO", "go/invoke/portio.go")],
  ENUM, "Exhaustive for the grid in the evidence, against an independent rendering of the layout."),

P("C21", "Each registered operation has its own id, and each id reaches its own handler",
  "Registering operations for import or export gives every (kind, namespace, operation) its own position within its kind; the operation table, and what a guest announces to its host, names exactly the registered operations with those positions, a lookup by position gives the handler registered for it and nothing for a position never assigned, and handlers of one kind are never reachable as another, after any history of registrations.",
  ["histories"], "all histories of imports and exports over the four kinds with equal and similar names, all positions",
  "the registration tables have no test",
  ["go/invoke/handlers.go", "go/operations/operatons.go", "go/transport/wasmrs/guest/guest.go"],
  [("import and export tables", "go/invoke/handlers.go")],
  ENUM, "All histories to the stated depth against a list model, every position tried after every step."),

P("C24", "Instance handles always give the instance they were issued for, or an error",
  "A handle given out for an object gives back that object until it is removed, and no other object; a handle that was never issued, or that was removed, or bytes that are not a handle, are refused with an error whatever else happens meanwhile, a garbage collection included, and handles of different live objects differ under concurrent registration, lookup and removal.",
  ["schedules", "histories", "inputs"], "all histories with forged and stale handles, all interleavings of small concurrent programs, a collection at every point",
  "no test registers an instance",
  ["go/invoke/instances.go", "go/transform/transform.go"],
  [("instance table", "go/invoke/instances.go")],
  SCHED, "All histories of the stated depth; all interleavings within the preemption bound, linearizability by brute force; the runtime's own collector runs at every switching point of the stale lookups."),

P("C25", "UUIDs keep their text and wire forms, and generated ones differ",
  "A UUID is written in every documented text form and read back as the same value, and text or bytes that are not a UUID are refused and never misread; generated random UUIDs carry the version and variant marks, use every byte of the random source once, fail when the source fails, and differ between callers however many generate at once; the clock used for time based UUIDs never repeats a reading.",
  ["inputs", "schedules", "fault_sequences"], "all byte values at every position in all text forms, all single character damage, all lengths, all histories with a failing source, all interleavings of concurrent generation",
  "the package has no test here",
  ["go/types/uuid/uuid.go", "go/types/uuid/version4.go", "go/types/uuid/time.go", "go/types/uuid/marshal.go", "go/types/uuid/util.go"],
  [("Parse, String and marshalling", "go/types/uuid/uuid.go"), ("random pool under a mutex", "go/types/uuid/version4.go"), ("clock sequence", "go/types/uuid/time.go")],
  SCHED, "Exhaustive text grids against an independent parser and every schedule within the preemption bound for generation."),

P("C26", "Payload transforms and conversions keep values and report every failure",
  "Turning a typed value into payload bytes and back gives the same value for every transform, slice, codec and nullable conversion; an error of the value itself, of its size computation, of its encoder or of its decoder is reported to the caller and never replaced by a zero value, a partial slice or a panic, whatever the payload bytes are.",
  ["inputs", "fault_sequences"], "all transforms with all sample values and all foreign payloads, every truncation, all slices of sound and failing items, every conversion with value, absence and error",
  "transforms have no test",
  ["go/transform/transform.go", "go/msgpack/codec.go", "go/msgpack/convert/convert.go"],
  [("ToPayload and FromPayload", "go/transform/transform.go"), ("codec helpers", "go/msgpack/codec.go"), ("conversions", "go/msgpack/convert/convert.go")],
  ENUM, "Exhaustive over the transforms, values and byte strings in the evidence, judged by an independent decoder."),

P("C27", "Custom sections of a WebAssembly module are found, and bad modules refused",
  "Reading a module gives exactly the wanted custom sections with their bytes, wherever they stand among other sections and however long they are, and leaves the rest out; a module that is cut short, is no module or whose announced sizes do not fit is refused with an error or read as far as it is sound, never a panic, an endless loop or an allocation out of proportion to the input.",
  ["inputs"], "all short section sequences, all truncations, all single byte damage, all announced sizes and length encodings",
  "the reader has no test",
  ["go/transport/wasmrs/customsections/customsections.go"],
  [("section scan", "go/transport/wasmrs/customsections/customsections.go")],
  ENUM, "Exhaustive for the grid in the evidence, against an independent section reader."),
P("C22", "Requests through the mesh reach the module that exports the operation",
  "A request made through the mesh, by the program or by a loaded module through its import, reaches exactly the module that exports that namespace, name and type of operation and was loaded last, under the index it gave it, with the request's data and remaining metadata, and gets that module's answer, whatever the order in which modules were loaded or reloaded; a request nobody serves ends with an error. What is pending at a reloaded module can still be answered for a while and is ended at last; the caller's payload is left as it was.",
  ["histories", "schedules"], "all sequences of loads and reloads up to a depth with every combination of tables, all interleavings of a load with a request or another load",
  "the mesh has no test",
  ["go/transport/wasmrs/mesh/mesh.go", "go/transport/wasmrs/host"],
  [("linking of exports and imports", "go/transport/wasmrs/mesh/mesh.go")],
  SCHED, "The real mesh and host instances with scripted modules on a fake engine; every history to the stated depth, every schedule within the preemption bound.",
  state=[("exports", "where each operation is served", "go/transport/wasmrs/mesh/mesh.go"), ("unsatisfied", "imports nobody serves yet", "go/transport/wasmrs/mesh/mesh.go")]),

P("C23", "Host and guest exchange exactly the frames sent, within shared buffers",
  "Frames pass between a host instance and its guest through the shared buffers unchanged, each once and in the order sent, however they are batched; nothing is written outside the guest's buffers, the guest is never called while it runs, and what was delivered does not change when the buffers are reused. A frame that does not fit, a broken frame, a guest that fails or exports nothing usable, and closing the instance at any moment end what depends on them with an error, and leave nobody waiting.",
  ["schedules", "inputs", "fault_sequences"], "all frame sizes around the buffer size, all batchings, all interleavings of senders, guest and closing, every failure of the guest",
  "nothing in the host package has a test",
  ["go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/host/host.go", "go/transport/wasmrs/host/caller.go"],
  [("send and receive loops over guest memory", "go/transport/wasmrs/host/instance.go")],
  SCHED, "The real host instance against a scripted guest on a fake engine whose memory moves at each call; every interleaving within the preemption bound.",
  state=[("pos", "bytes of the send buffer in use", "go/transport/wasmrs/host/instance.go"), ("guestStreams, hostStreams", "what waits for an answer", "go/transport/wasmrs/host/instance.go")]),

P("C31", "Requests between a host and its guest are answered as their handlers say",
  "Between a host and a guest, in either direction, also several at once and also when a handler makes a request of its own to answer, every request gets the outcome, values, order and demand of its handler, cancelling reaches the other side, nothing is delivered twice or to another request, and no call is left waiting.",
  ["schedules", "histories"], "all ways to answer and wait for requests of every kind from either side, all interleavings of host goroutines with guest turns",
  "no test runs a host with a guest",
  ["go/transport/wasmrs/guest", "go/transport/wasmrs/host", "go/proxy", "go/rx"],
  [("guest's frame loop", "go/transport/wasmrs/guest"), ("host instance", "go/transport/wasmrs/host/instance.go")],
  SCHED, "The guest's packages are compiled as for WebAssembly under a second import path and run natively on a real host instance; every interleaving within the preemption bound, no preemption where so stated."),

P("C08", "Frames of concurrent senders are never mixed on a connection",
  "Whatever goroutines send at the same time on one connection, with or without flushing, and also while it is being flushed or ends, the bytes on the connection are whole frames, each with its length, each sent once, those of one sender in the order it sent them, and the other side reads exactly these; a frame that was sent with flush is on the connection when Send returns, and Send reports a frame that could not be written.",
  ["schedules", "fault_sequences"], "all interleavings of senders, flushers and the end of the connection, all frame lengths around the size of the write buffer, all failing writes",
  "no test sends from two goroutines",
  ["go/transport/rsocket/transport.go", "go/transport/rsocket/tcp_conn.go"],
  [("Send and Flush", "go/transport/rsocket/transport.go"), ("buffered writes", "go/transport/rsocket/tcp_conn.go")],
  SCHED, "The real transport on an in-memory connection, every interleaving of statements within the preemption bound."),

P("C28", "A server serves every connection until it is closed",
  "A listening server hands every connection it accepts to its acceptor and serves the requests on it, whatever becomes of other connections, at the same time or before, and lets go of a connection that ends. Closing it, by Close, by its context or by a listener that fails, at any moment and also twice or from several goroutines, ends Listen with the right error, closes the listener and every connection, also those accepted meanwhile, and leaves no goroutine; a server that was closed before it listens does not listen.",
  ["schedules", "histories", "fault_sequences"], "all histories of connections and ways to end them, all interleavings with closing the server",
  "no test runs a server",
  ["go/transport/rsocket/tcp_transport.go", "go/transport/rsocket/transport.go", "go/transport/rsocket/types.go"],
  [("Listen, Close and the set of transports", "go/transport/rsocket/tcp_transport.go")],
  SCHED, "The real server and clients on an in-memory network, every interleaving of statements within the preemption bound.",
  state=[("m", "transports that are being served", "go/transport/rsocket/tcp_transport.go")]),

P("C29", "When a connection ends, everything on it ends",
  "Frames that arrive are handed to the handler one at a time, in order, each once, and those that arrived before the other side closed are all handed over. However a connection ends, closed by either side, by a context, by a failure of the network, of a write or of the handler, or by bytes that are no frame, and whenever that happens, Start returns the reason, the connection is closed, every pending request ends with an error exactly once, sources on either side are cancelled, inputs of handlers end, requests made later fail, and no goroutine is left.",
  ["schedules", "fault_sequences"], "all kinds of requests from either side with every way to end at every point of every interleaving",
  "no test ends a connection with requests pending",
  ["go/transport/rsocket/transport.go", "go/transport/rsocket/tcp_conn.go", "go/handler/handler.go", "go/proxy"],
  [("Start and the read loop", "go/transport/rsocket/transport.go"), ("end of all streams", "go/handler/handler.go")],
  SCHED, "Two real handlers and transports on an in-memory connection, every interleaving of statements within the preemption bound."),
P("C30", "Handlers run in the context of the request they serve",
  "A handler is given a context of the request it serves: on a guest and on a connection it names the stream of exactly this request and holds the values and the cancellation of the connection; a request a guest makes for one that is pending at its host is served by the host in the context which the program gave that one, through any number of modules of a mesh, and also when the guest answers right after it; one that names no pending request gets the context of none.",
  ["histories", "schedules"], "all sequences of requests made for two pending requests, of answers and of cancelling, batched in every way, all kinds of requests, all interleavings",
  "no test looks at the context of a handler",
  ["go/proxy/stream.go", "go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/guest/guest.go", "go/handler/handler.go", "go/transport/wasmrs/mesh/mesh.go"],
  [("context of a stream", "go/proxy/stream.go"), ("parent of a request", "go/transport/wasmrs/host/instance.go")],
  SCHED, "Scripted modules and the real guest on the real host instance, two connected handlers and a mesh; every sequence to the depth, every schedule within the preemption bound."),

P("C32", "No sequence of frames from the other side does harm",
  "Whatever frames the other side of a connection sends, well-formed or broken, for known, unknown, finished or already used stream ids and in whatever order, a handler, a host instance and a guest never panic or block, answer exactly as the protocol says, and touch no request but the one a frame names: a request keeps its values, outcome and demand, nothing is delivered after its end or twice, and what arrived for a stream that is no longer there is ignored.",
  ["histories", "schedules", "inputs"], "all sequences of frames up to a depth over two stream ids with local actions in between, on every kind of endpoint; all interleavings of two frames with local actions",
  "no test sends an unexpected frame",
  ["go/handler/handler.go", "go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/guest/guest.go", "go/proxy"],
  [("frame dispatch of a connection", "go/handler/handler.go"), ("frame dispatch of a host", "go/transport/wasmrs/host/instance.go"), ("frame dispatch of a guest", "go/transport/wasmrs/guest/guest.go")],
  SCHED, "A reference model of a peer's state is stepped with the real handler, host instance and guest over every sequence to the depth; schedules within the preemption bound."),

P("C33", "What is over leaves nothing behind",
  "A request that has ended in both directions, however it was made, answered, refused, failed or cancelled, and a connection that has ended, are forgotten by both sides: everything made for it, its handlers' and callers' callbacks, sources, payloads and contexts, can be reclaimed while the endpoint lives on, so that no number of requests or connections makes it grow, and no number of reloads of its modules a mesh; and its stream id reaches a handler again if the other side uses it anew.",
  ["histories", "schedules"], "all ways of making, answering, refusing and ending requests of every kind from either side of a connection and of a host with its guest, all ways to end connections of a server, all interleavings; modules with every selection of imports and exports, reloaded",
  "tests end before a leak matters, and none looks for one",
  ["go/handler", "go/proxy", "go/rx", "go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/guest", "go/transport/rsocket", "go/transport/wasmrs/mesh/mesh.go"],
  [("registry of live streams", "go/proxy/lookup.go"), ("removal when both directions have ended", "go/proxy/responder.go"), ("transports of a server", "go/transport/rsocket/tcp_transport.go")],
  SCHED, "Weak references are taken of every object of a request; after it ended and others followed, none may be reachable from the real handlers, host, guest or server.",
  state=[("guestStreams, hostStreams", "live streams", "go/handler/handler.go"), ("m", "transports that are being served", "go/transport/rsocket/tcp_transport.go")]),
P("C34", "Typed clients and services agree, and components answer from their ports",
  "Over a connection, the typed clients hand their services exactly the arguments given and return exactly what the service returned, its values in order, its end or its error; an argument or answer that does not decode as its type is an error and runs no service; fields come in any order and unknown ones are skipped. A component answers on its ports, after the values of its inputs, what it computes from them (a text joined or greeted, the count of each word that counts, the most frequent first), marks the end of each output and ends; a message it cannot read, an input that fails and one that ends without the value it needs end it with an error.",
  ["inputs", "schedules"], "all arguments, encodings and orders of fields, lists of words, port messages and ends of a small domain, all ways to answer and to wait, all interleavings",
  "no test runs a typed client against its service, or a component, over a connection",
  ["go/transport/wasmrs/example", "go/transport/wasmrs/mesh/modules", "go/example/greeter", "go/transform", "go/invoke", "go/rx"],
  [("wrappers of services", "go/transport/wasmrs/example/greeting.go"), ("ports of a component", "go/transport/wasmrs/example/wordfrequency/generated.go"), ("counting words", "go/transport/wasmrs/example/wordfrequency/wordfrequency.go")],
  SCHED, "The typed clients call the typed services over two connected handlers; what each side sees is compared with what the other gave, and component outputs with an independent computation."),
P("C35", "The commands pass documents through unchanged and record operations in place",
  "wasmrs invoke loads its modules in any order, runs the named operation exactly once with what the JSON document on its input means (integers stay integers, texts, lists and maps are as given), linked to the modules that serve its imports, and prints exactly the answer as JSON, compact or indented; a document that is not JSON, an unknown operation, a module that fails and an answer that does not decode are errors that print no answer, and what is not a document runs nothing. wasmrs-ops adds to a module the section of the operations it exports and imports, leaves every other byte of the file as it was, prints the table, changes nothing on a second run, and leaves a file it cannot serve untouched.",
  ["inputs", "schedules"], "all documents, spellings, answers, modules in either order, subsets of sections, operation tables and cuts of small domains, all interleavings of the command with its modules",
  "no test runs the commands",
  ["go/transport/wasmrs/cmd", "go/transport/wasmrs/mesh", "go/transport/wasmrs/customsections"],
  [("invoke", "go/transport/wasmrs/cmd/wasmrs/commands/invoke.go"), ("recording of operations", "go/transport/wasmrs/cmd/wasmrs-ops/main.go")],
  SCHED, "Copies of the commands, taken from the tree at build time, run on modules the harness plays; documents, frames, printed text and files are compared with independent codecs."),
P("C36", "The Rust and the Go implementation speak one wire format",
  "Every frame the Go side writes is read by the Rust side as the same frame, and the other way round: kind, stream id, flags, counts, error code, metadata and data, byte for byte in the RSocket layout; an operation table written by either gives the other the same operations, and each name its own index in each direction; an operation index survives as metadata. Bytes that are no frame, no table or no metadata, cut short anywhere or of an unknown kind, are refused by the Rust side with an error and never make it panic.",
  ["inputs"], "all frame values and tables of the stated grids, all frame kinds with all flag patterns, every cut and every changed byte",
  "the Rust tests compare one sample frame per kind and are not run with the Go side",
  ["rust/crates/wasmrs/src/frames", "rust/crates/wasmrs/src/operations.rs", "rust/crates/wasmrs/src/util.rs", "go/internal/frames", "go/operations"],
  [("Rust frames", "rust/crates/wasmrs/src/frames/mod.rs"), ("Rust operation lists", "rust/crates/wasmrs/src/operations.rs"), ("Go frames", "go/internal/frames/frame_header.go")],
  ENUM, "The Rust crate is built from its sources and driven through a pipe; every answer is compared with the independent renderings and with the Go implementation."),
P("C37", "A server and its clients meet at the configured address",
  "Given the same network and address, by argument or by RSOCKET_NETWORK and RSOCKET_ADDRESS or their defaults, over TCP or a Unix socket, with TLS or without, a client connects to the server that listens there, and only then; the acceptor is told each connection once; requests and channels made by either side are answered by the other side of that same connection, silent or leaving peers notwithstanding; NewClient and Connect fail where nobody listens, Listen fails at a taken address and after Close; Connect and Start return when the connection ends and not before; after Close or cancellation of the server, Listen returns without error, every connection and pending request ends, and another server can take the address.",
  ["inputs", "histories"], "all histories of the operations of one server after the other and any clients, on every kind of network, to the stated depth",
  "the tests of the repository open no connection",
  ["go/transport/rsocket/init.go", "go/transport/rsocket/tcp_transport.go", "go/transport/rsocket/transport.go"],
  [("environment", "go/transport/rsocket/init.go"), ("listen, dial, close", "go/transport/rsocket/tcp_transport.go"), ("Start", "go/transport/rsocket/transport.go")],
  ENUM, "Every history up to the bound runs against the operating system's loopback; what has not happened after 15 s counts as not happening."),
]

NOT_APPLICABLE = {}
NOTES = "Every check is one Go program built into the repository's module by a build overlay, run by /verif/check.sh; see DESIGN.md."
