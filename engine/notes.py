"""technique and level_note per claimed property; reason per property that is not claimed"""
TRUST = " Assumes rustc's MIR and callee resolution, documented behaviour of library containers, locks, channels and serde, and that user handlers are arbitrary."
AI = "abstract interpretation of MIR (virtually inlined CFG, provenance terms) with a typestate automaton"
NOTES = {}
def n(ids, tech, note):
    for i in ids.split():
        NOTES[i] = (tech, note + TRUST)
n("C01", AI + ": pending/answered typestate over the request loop", "Every abstract path of Server::run (spawned tasks included): each received request is answered by one response with the request's own id.")
n("C02", AI + ": provenance of response payloads", "Every abstract path from a handler outcome to the response: Err leads to an error payload containing that error, Ok to a result derived from that value.")
n("C04", AI + ": provenance of lookup keys, handler arguments and results", "Every path to a handler invocation.")
n("C10 C11 C13", AI + ": validation labels established by branch facts before dispatch", "Every abstract path of the axum handlers found from the router construction.")
n("C12", AI + ": provenance of replayed and recorded events", "Every path of the GET and POST handlers and of every EventStore implementation.")
n("C14 C15 C16", AI + ": labels established by comparisons and table operations before a token or code is stored", "Every abstract path of every OAuthProvider implementation in the crate.")
n("C17", AI + ": provenance of the returned authentication context", "Every success path of every AuthMiddleware implementation.")
n("C18", "provenance analysis of identifiers over MIR (random source required)", "Every store of a code, token, client credential or session, and every generator.")
n("C05 C06 C08 C44", AI + ": gates, table entries and message construction on every path of each client operation", "Every public async operation of Client, send_request inlined.")
n("C07", AI + ": state commits against validation labels", "Every path of the client's initialize, every write of the client's state in the crate, and every path of the server's initialize handling.")
n("C09", AI + ": provenance of completed entries; comparison labels", "Every function of the protocol engine that touches the pending table and every client operation; the client's own missing comparison is a known finding.")
n("C19", AI + ": closed-marks against the gates of send and receive", "Every path of close, send and receive of every Transport implementation that holds a connection.")
n("C20", AI + ": write/flush typestate over one lock guard; provenance of header and body", "Every path of the stdio send, every frame built in a WebSocket transport, every use of standard output in the crate, and every Transport::send; the client WebSocket transport's undelivered sends are a known finding.")
n("C22", AI + ": provenance of allocation sizes, escalated to callers", "Every sized allocation in the crate whose size can come from received data, and every WebSocket accept.")
n("C40", AI + ": request-builder typestate (headers attached before send)", "Every HTTP request built by the two HTTP clients, with every outcome of their optional state.")
n("C45", AI + ": provenance of delivered messages, owed-element automaton", "Every path of the HTTP clients' answer handling, spawned stream readers included.")
n("C24", "whole-crate lock-order analysis over MIR (guard liveness dataflow, interprocedural acquisition summaries)", "Every lock acquisition in the crate with every lock held there, including guards moved into closures and callees; locks are identified by the field that owns them, so two instances of one type are not told apart.")
n("C25", "whole-crate effect analysis over MIR (guard liveness dataflow, interprocedural effect summaries)", "Every call made while a guard is live, with what it may run or wait for; a known finding covers the streamable HTTP server's own mutex.")
n("C28 C29 C30 C31", AI + ": table operations, deliveries and notifications against the labels and keys they need", "Every function of the manager and the server methods that wrap it (private helpers inlined); dropping the caller's future is outside the analysed paths.")
n("C32", AI + ": limits and ages established by branch facts between append and return; provenance of recorded and replayed events", "Every function of the in-memory store and of the resumption manager.")
n("C33", AI + ": limit, expiry and key labels under one lock guard", "Every function of the session manager and its middleware.")
n("C03", "table extraction from MIR (encoder matches, derived decoders and serializers) compared entry by entry; " + AI, "Every kind of request and notification in both directions; that each kind's own fields survive encoding is not covered (N01).")
n("C34", AI + ": owed-middleware automaton over the chain's loop", "Every path of the four chain functions and of what changes the chain.")
n("C35", AI + ": provenance of answers, permits held at the handler call, owed-element automaton", "Every path of batch processing, its attempts and the server's batch handler.")
n("C37", AI + ": gates, recorded outcomes and loop budgets established by branch facts", "Every path of the recovery executor, the circuit breaker, the retry helper and the reconnection manager. Counters and state are read under separate locks; interleavings of concurrent recorders are not covered, nor are delays (N05).")
n("C38", AI + ": labels of a path established by the pattern comparisons, debounce and table facts before it is passed on", "Every path of the watcher's start with its spawned tasks inlined, and of every function of the watcher. What the operating system reports is arbitrary; symbolic links are not resolved.")
n("C39", "table extraction from MIR, decided at every boundary number; " + AI + ": provenance of code, message and data", "Every path of the decoder, the conversions, the named constructors, the accessors and every From impl of the error types. The text of an error is what its Display writes, whatever that is.")
n("C41", AI + ": provenance of requests and results; loop-progress check on the control-flow graph", "Every path of discovery, code exchange and token refresh. What the HTTP library sends for a request is assumed; the issuer named in the metadata is not compared with the one asked.")
n("C43", AI + ": effects on what self owns, per path", "Every path of the builder's setters and build, of the dynamic manager's functions and of the configuration builder. That listing and lookup use the same tables is C04; listeners are told the static capabilities with the latest change, not the accumulated ones (as documented in the code).")
n("C27", AI + ": owed-delivery automaton (what is taken out of a table must be handed over), forked tasks included", "Every path of the batchers' and debouncers' functions and the tasks they start. Cancelling the caller of add or flush itself, and the length of the intervals, are not covered; a closed receiver ends the obligation.")
n("C42", AI + ": where cut offsets come from, relative to the very text that is cut", "Every cut, character count, byte-to-character conversion and decoding in the crate. That the printer's whitespace lands outside strings, and that what UTF-8 libraries find is right, are not examined.")
n("C21", AI + ": failures met and not yet answered for, per path; unread-result dataflow", "Every path of every function of the library that returns a Result, and every Result-typed value. Functions that cannot fail (background tasks, reader loops, HTTP handlers that answer with a status) may skip what they cannot use: what they owe is decided in C02, C19, C27 and C45. A look at a failure that stores or forwards it counts as surfacing it.")
n("C23", AI + ": provenance of operands of panicking operations; interval and length facts for indices, slices and arithmetic", "Every panicking operation of the crate's code that received data can reach, with the functions it is handed to. Overflow in release builds wraps and is not a panic there; allocation failure, stack overflow and panics inside dependencies on valid calls are not covered.")
n("C26", "whole-crate analysis of guard lifetimes over MIR: " + AI + " on every path, private helpers inlined", "Every write to a value behind one of the library's locks, and every atomic, with the reads it depends on. Dependence is by branch or by value on the same path; a decision taken in one public operation and acted on by the caller in another is the caller's.")
n("C36", "effect confinement over the crate's syntax and MIR; " + AI + " with linear bounds for pointers and lengths", "Every unsafe block and function of the crate: target-feature functions only behind the matching detection, every wide load and store within its slice. That the vector code computes what the scalar code does is N04.")
NA = {}
for i in range(1, 44):
    NA[f"C{i:02d}"] = "check under construction"
NA.update({
 "N01": "equality of values after serde encode/decode quantifies over unbounded data and derive-generated code; no sound static argument in reach decides value equality (C03 covers the method-name tables)",
 "N02": "equality of parse results over all chunkings is a functional property of buffer contents at run time, not of program structure",
 "N03": "functional inverse relation between expansion and matching over all strings; needs value reasoning about regex and percent-encoding",
 "N04": "functional equivalence of vectorised and scalar code over all inputs; needs a solver or testing (C36 decides the structural part: feature guards, bounds)",
 "N05": "numeric bound over floating-point arithmetic with runtime configuration",
 "N06": "real-time property of timers",
 "N07": "ordering of concurrent histories through sockets and the async runtime; no static argument in reach orders completions",
})
