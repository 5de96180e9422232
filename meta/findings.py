#!/usr/bin/env python3
"""Writes known_findings.json: one entry per repaired defect (by commit subject) and per defect left in place."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # (property, commit subject, what failed)
 ("C01", "fix: set the follows flag when encoding request frames", "request frames marked as followed were encoded without the flag"),
 ("C02", "fix: refuse truncated frames instead of panicking while decoding them", "decoding a truncated frame indexed past its end and panicked"),
 ("C03", "fix: do not repeat the metadata in later fragments of a request", "the metadata of a request was sent again in later fragments"),
 ("C04", "fix: give every received frame its own bytes", "the bytes of a delivered frame were overwritten by later reads"),
 ("C04", "fix: deliver complete frames that arrive together with the end of the stream", "a complete frame read together with EOF was dropped"),
 ("C04", "fix: return an error instead of panicking on a frame too long for the wire", "writing a frame longer than 16 MiB panicked"),
 ("C06", "fix: forget a stream that is removed from the ends of the registry", "removing the first or last stream left it registered; lookups raced with changes"),
 ("C05", "fix: never hand out stream ID zero when the server counter wraps", "the accepting side handed out id 0 after 2^30 streams"),
 ("C18", "fix: refuse msgpack lengths that overflow the buffer offset", "a length near 2^32 overflowed the offset"),
 ("C16", "fix: size a 255 byte msgpack binary as it is encoded", "a 255 byte binary was sized one byte away from its encoding"),
 ("C17", "fix: write one nil for a nil value", "a nil map or array was written as nil and a header"),
 ("C17", "fix: encode and decode times held in any values", "times inside dynamically typed values were lost"),
 ("C18", "fix: read msgpack extension lengths as plain integers", "extension lengths were read as MessagePack values"),
 ("C16", "fix: read signed integers and doubles from every format that can hold them", "valid encodings of small integers were refused"),
 ("C18", "fix: skip exactly one msgpack value of every format and report truncation", "skip stopped at the wrong byte"),
 ("C18", "fix: do not trust msgpack lengths and map keys from the input", "declared lengths allocated memory; unhashable keys panicked"),
 ("C18", "fix: refuse msgpack values nested deep enough to exhaust the stack", "deep nesting exhausted the stack and ended the process"),
 ("C17", "fix: report any values that cannot be encoded instead of dropping them", "unencodable values were dropped silently"),
 ("C26", "fix: convert absent nillable values to nil", "converting an absent nillable value dereferenced nil"),
 ("C26", "fix: report slice and codec transform errors instead of ignoring them", "decoding errors of slices and codecs were ignored"),
 ("C26", "fix: report values that a codec could not write", "errors of a codec's size computation and encoder were ignored"),
 ("C19", "fix: refuse truncated operation tables instead of panicking", "a truncated table panicked; a huge count allocated memory"),
 ("C20", "fix: give the next and complete flags of port data their own bits", "the next and complete flags shared a bit, so one was read as both"),
 ("C20", "fix: refuse truncated port data instead of panicking", "truncated port data panicked"),
 ("C24", "fix: do not turn instance handles from outside into pointers", "a stale or forged handle was converted to a pointer, which aborted the process at the next collection"),
 ("C25", "fix: refuse a UUID with other characters in place of its braces", "text with arbitrary characters in place of the braces was accepted"),
 ("C27", "fix: read an empty custom section at the end of a module and check section sizes", "an empty last section was lost and section sizes were trusted"),
 ("C13", "fix: settle a mono once and tell every listener when goroutines race", "racing goroutines settled a mono twice, lost listeners or left waiters blocked"),
 ("C14", "fix: end a flux once and keep its demand right when goroutines race", "a flux signalled after its end, lost demand under races, and cancellation told no listener"),
 ("C15", "fix: run every step of a flow once when its tasks are already done or end together", "a step ran twice or never when awaited tasks ended together or early"),
 ("C15", "fix: start a local mono or flux that is awaited", "an awaited local mono or flux was never subscribed, so the flow hung"),
 ("C13", "fix: tell every waiting subscriber of a mono processor", "a processor told only the last of several waiting subscribers"),
 ("C10", "fix: keep the streams of requests in step with frames that arrive at any time", "frames that arrived before a handler had returned, or after one direction had ended, were lost or crossed; streams were never removed; Cancel frames were not passed on"),
 ("C29", "fix: write frames whole, and end everything that belongs to a connection with it", "frames of concurrent senders interleaved on the connection; pending requests were left waiting when it ended"),
 ("C10", "fix: send nothing for a flux that was cancelled before its request", "a request sent while its subscriber cancelled was never cancelled at the responder"),
 ("C23", "fix: take frames of a guest one by one, each with its own bytes, and answer broken ones", "frames of a guest were handled inside its own call, which could block it for good, shared the buffer it reuses, and broken ones panicked"),
 ("C23", "fix: let a host instance be closed at any time and never wait for itself", "closing panicked senders, left requests waiting and could deadlock"),
 ("C23", "fix: report values and answers that cannot be sent", "values larger than the guest's buffer were written past it or lost"),
 ("C23", "fix: report a guest that fails or exports nothing usable", "a guest that trapped or lacked exports crashed the host or left requests waiting"),
 ("C23", "fix: let handlers be set while requests arrive", "handler tables were read and written without a lock, and ids past the table panicked"),
 ("C31", "fix: take broken frames of a host without trapping", "a broken frame made the guest trap"),
 ("C22", "fix: route mesh requests by name and type to the module loaded last", "operations of one name but different types, reloads and load orders were routed wrongly or to nil"),
 ("C04", "fix: report a connection that ends inside a frame", "a connection that ended inside a frame was taken for one that ended between frames"),
 ("C23", "fix: end requests that are made while an instance is being closed", "a request made while the instance closed was never ended"),
 ("C32", "fix: do not serve a stream request whose id is in use", "a stream request that reused the id of a pending request took its place or removed it, so that it never ended"),
 ("C10", "fix: cancel nothing that could not be requested", "after a stream or channel request that could not be sent, a cancel for it was"),
 ("C30", "fix: run every handler in the context of its request", "stream and channel handlers were not told which stream they serve, so what a guest requested for them ran in no context; a response or fire and forget request lost its context when its parent was answered right after it"),
 ("C35", "fix: pass integers to invoked operations as integers", "integers of the document reached the module as floating point numbers, which its arguments do not decode from, and large ones changed their value"),
 ("C35", "fix: record operations without rewriting the rest of the module", "the data count section and the later kinds of names were lost, and custom sections moved to the end"),
 ("C36", "fix: refuse incomplete or unknown frames and operation lists in the Rust decoder", "the Rust decoder panicked on cut or unknown frames and operation lists"),
 ("C36", "fix: skip the reserved bytes of an operation in the Rust decoder", "the reserved bytes of an operation were read as the start of the next one"),
]
SILENT = "the component %s answers nothing, not even an error, when %s"
KNOWN = [  # dicts: property, key, what
 dict(property="C34", key=c + " " + w, what=SILENT % (n, w))
 for c, n, w in [
  ("concat", "concat", "its input ends without a value"),
  ("concat", "concat", "its input fails"),
  ("greeter", "greeter", "its input ends without a value"),
  ("greeter", "greeter", "its input fails"),
  ("words", "word-frequency", "its input fails"),
 ]
] + [
 dict(property="C34", key="greeting uppercase", what="Uppercase of the greeting client names no operation, so it fails"),
]
try:
    from extra_findings import FIXED2, KNOWN2
    FIXED += FIXED2; KNOWN += KNOWN2
except ImportError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = {"findings": [dict(k, status="known") for k in KNOWN],
       "fixed": ["fixed: property=%s %s %s" % (p, h[s], w) for p, s, w in FIXED]}
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
missing = [s for s in h if s.startswith("fix:") and s not in [x[1] for x in FIXED]]
print("unrecorded:", missing)
