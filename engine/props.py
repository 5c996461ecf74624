#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over if isinstance(over, list) else [over], text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

I, S, H, F, C, G = "inputs", "schedules", "histories", "fault_sequences", "crash_points", "configurations"

p("C01", "Every request is answered exactly once, with its own id",
  "Whenever the server takes in a request (on a connection, in an HTTP POST, or as an element of a batch), it produces exactly one response, success or error, and that response carries the id of that very request. No code path answers with a made-up, default or other request's id, drops the answer, or answers twice.",
  [I, F, H], "all requests (every method, valid or failing), all handler outcomes, all failure paths of serialisation and dispatch",
  "Tests send a handful of methods and mostly success paths; error paths of dispatch and of batch elements are not compared by id.",
  ["src/server/mod.rs", "src/server/batch.rs", "src/server/streamable_http_server.rs", "src/utils/parallel_batch.rs"],
  [("one response per handled request", "Server::handle_transport_message"), ("response construction", "Server::create_response / success_response"), ("batch element answers", "server::batch::process_batch_request"), ("HTTP POST answer", "streamable_http_server::handle_post_request")],
  observe=["JSONRPCResponse.id"])
p("C02", "A failed operation is answered as an error, a successful one as a result",
  "If handling a request fails, the response is a JSON-RPC error carrying that failure's text; if it succeeds, the response is a result carrying the value produced by that handling. A failure is never turned into an empty or default success, and a success never into an error.",
  [I, F], "all requests and all ways a handler, serialiser or lookup can fail",
  "Tests exercise few handler failures; a swallowed error on one method's path would go unnoticed.",
  ["src/server/mod.rs", "src/server/batch.rs"],
  [("Result to payload mapping", "Server::create_response"), ("error propagation", "Server::handle_call_tool, handle_get_prompt, handle_read_resource ...")])
p("C03", "Method names and operations agree across encoder, decoder and dispatcher",
  "For every request and notification kind the wire method name written when sending equals the one recognised when receiving, different kinds of one direction have different names, each kind is written with its own parameters, and a message is decoded from the method and parameters received; leaving the parameters out and sending empty ones mean the same. The dispatcher answers each list request with the result of that very operation.",
  [I], "all request and notification kinds in both directions",
  "Tests cover a few methods one way; they do not compare the encoder's table with the decoder's.",
  ["src/shared/protocol_helpers.rs", "src/types/protocol.rs", "src/server/mod.rs"],
  [("encoder tables", "protocol_helpers::create_request / create_notification"), ("decoder tables", "serde tags on ClientRequest, ServerRequest, ClientNotification, ServerNotification"), ("dispatcher", "Server::process_client_request")])
p("C04", "Tools and prompts run only under the exact name requested",
  "A tool call or prompt request invokes the handler registered under exactly the requested name, with the arguments of that request, and the value it returns is what is sent back. An unknown name yields an error and invokes no handler.",
  [I, G], "all registries, all requested names and arguments",
  "Tests register one or two tools; mixing up lookup key, arguments or result on an unusual path is not visible to them.",
  ["src/server/mod.rs"],
  [("lookup by requested name", "Server::handle_call_tool, Server::handle_get_prompt")])
p("C05", "The client sends no operation before it is initialized",
  "Every client operation other than initialization itself fails locally, with nothing written to the transport, until the initialization handshake has completed. Cancellation and progress notices, which concern requests already made, are exempt.",
  [H, G], "all client operations, in every order relative to initialization",
  "Tests check one or two operations; each of the operations has its own gate.",
  ["src/client/mod.rs"], [("gate", "Client::ensure_initialized called by each public operation")],
  state=[("initialized", "handshake finished", "Client.initialized")])
p("C06", "The client uses only capabilities the server advertised",
  "Each client operation that needs a server capability is refused locally, before anything is sent, when the server did not advertise that very capability (tools, prompts, resources, completions, logging, sampling, resource subscription), and is not refused when it did.",
  [I, G], "all combinations of advertised capabilities and client operations",
  "Tests check one capability; a wrong capability name for one operation silently weakens or blocks it.",
  ["src/client/mod.rs"], [("capability gate", "Client::assert_capability")])
p("C07", "The handshake commits only after the server's answer was validated",
  "The client becomes initialized, and records the server's capabilities and version, only after receiving a well-formed successful initialize answer whose protocol version the client supports; a second initialization is refused without sending anything. The server itself only answers with a protocol version from its supported list, and records a client as initialized only on an initialize request.",
  [H, F, I], "all initialize answers (errors, unsupported versions, malformed bodies) and all call orders",
  "Tests use well-behaved mock servers.",
  ["src/client/mod.rs", "src/server/mod.rs"], [("version check before state update", "Client::initialize"), ("server side", "Server::handle_request")])
p("C08", "Client bookkeeping for a request is released however the request ends",
  "The client's record of an in-flight request is removed on every way the request can end: success, error answer, send failure, receive failure. Nothing is registered without being released.",
  [F, H], "all failure points while a request is in flight",
  "Tests never inspect the pending table after a transport failure.",
  ["src/client/mod.rs"], [("insert/remove pairing", "Client::send_request")],
  state=[("active requests", "requests in flight", "Client.active_requests")])
p("C09", "Answers are matched to requests by id",
  "A response completes only the request with the same id (and, where several transports share one engine, only if it arrived on the transport that request was sent on); a response for an unknown id or the wrong transport completes nothing and leaves every pending request pending.",
  [H, S, I], "all orders of registrations, completions and cancellations, all response ids",
  "Tests use a single in-order exchange.",
  ["src/shared/protocol.rs", "src/client/mod.rs"], [("pending table keyed by id and transport", "Protocol::complete_request*"), ("client response handling", "Client::send_request")])
p("C44", "A client operation does exactly what it was asked",
  "Each client operation sends exactly one request, of its own kind and with the caller's arguments unchanged, and returns exactly what the answer to it contains: the result when a well-formed result came back, an error carrying the server's message and data when an error came back, and never success without a received result.",
  [I, F], "all client operations, arguments and answers",
  "Tests call each operation once with a fixed answer; a dropped argument or a swallowed error of one operation is not visible to them.",
  ["src/client/mod.rs"], [("request construction and answer handling", "Client's public operations, Client::send_request")])
p("C10", "HTTP requests run only inside a valid session",
  "On a session-enabled HTTP server, a non-initialize message is processed only if it carries the id of a live session; otherwise it is refused with a client error and never reaches the server. Only a successful initialize establishes a session, re-initialization of an initialized session is refused, and in stateless mode no session is created.",
  [I, H, G], "all header combinations, message kinds and session histories",
  "Tests try some header/message combinations; the gate has to hold on every path to dispatch.",
  ["src/server/streamable_http_server.rs"], [("session gate", "handle_post_request: process_init_session / validate_non_init_session")],
  state=[("sessions", "live sessions", "ServerState.sessions")])
p("C11", "HTTP requests pass header and protocol-version validation first",
  "The HTTP endpoint parses and processes a POST body only after its Content-Type and Accept headers were accepted, opens an event stream only if the client accepts event streams, and processes a non-initialize message only after its protocol-version header was checked against the supported and negotiated versions.",
  [I], "all header combinations on POST and GET",
  "Tests sample a few header combinations.",
  ["src/server/streamable_http_server.rs"], [("validation before parse and dispatch", "validate_headers, validate_protocol_version, handle_get_sse")])
p("C12", "Stored events are replayed only to the session they belong to",
  "Reconnecting with a last-event id replays only events recorded for the same session or stream, after that event, and nothing when the id is unknown or belongs to another session.",
  [I, H], "all interleavings of sessions' events and all presented event ids",
  "Tests replay with one session only.",
  ["src/server/streamable_http_server.rs"], [("event store replay", "EventStore::replay_events_after, handle_get_sse")])
p("C13", "A terminated HTTP session is gone everywhere",
  "Terminating a session removes it from the session table and drops its open event stream, only for the session named by the request; an unknown session is answered with not-found and changes nothing.",
  [H, I], "all session histories", "Tests delete one session and do not look at the stream table.",
  ["src/server/streamable_http_server.rs"], [("removal", "handle_delete_session")])
p("C14", "An authorization code is redeemed at most once and only by its owner",
  "A token is issued for an authorization code only if that code was present and is consumed by the attempt, has not expired, was issued to the presenting client for the same redirect URI, and its PKCE challenge (when one was given) is met by the presented verifier. Each failed condition refuses the exchange.",
  [I, S, H], "all codes, clients, redirect URIs and verifiers, and concurrent redemptions of one code",
  "Tests cover the success path and one failure.",
  ["src/server/auth/oauth2.rs"], [("checks before token creation", "InMemoryOAuthProvider::exchange_code")])
p("C15", "Access tokens are honoured only while live; refresh tokens are single-use",
  "Token validation succeeds only for a token that was issued, not revoked and not expired. A refresh token yields a new token only if it was issued and is consumed atomically by the refresh; revocation removes the token from every table in which it is accepted.",
  [I, S, H], "all token histories and concurrent refreshes", "Tests run sequential happy paths.",
  ["src/server/auth/oauth2.rs"], [("token tables", "InMemoryOAuthProvider::validate_token / refresh_token / revoke_token")])
p("C16", "Authorization codes are created only for valid requests",
  "An authorization code is created only with the client, redirect URI, scopes, user and PKCE challenge passed in, and an authorization request is accepted only if its client exists, its redirect URI and response type are registered for that client, and all its scopes are supported.",
  [I], "all authorization requests", "Tests cover two cases.",
  ["src/server/auth/oauth2.rs"], [("request validation", "InMemoryOAuthProvider::validate_authorization")])
p("C17", "Authentication middleware denies by default",
  "Bearer, client-credential, scope and composite authentication return an authenticated context only after the credential was actually verified by the provider or the inner middleware; missing, malformed or rejected credentials never produce an authenticated context (at most an anonymous one without scopes, where authentication was configured as optional), and a scope middleware admits only contexts holding the required scopes.",
  [I, F], "all request credentials and all provider outcomes", "Tests cover few header shapes.",
  ["src/server/auth/middleware.rs"], [("verification before success", "AuthMiddleware::authenticate implementations")])
p("C18", "Security identifiers are freshly random",
  "Session ids, authorization codes, access and refresh tokens, client ids and secrets generated by the library come from a cryptographic-strength random source on every generation, never from counters, clocks or request data.",
  [I], "all generations", "Tests only check that two values differ.",
  ["src/server/auth/oauth2.rs", "src/server/streamable_http_server.rs", "src/shared/session.rs", "src/server/elicitation.rs"],
  [("UUID v4 / RNG generators", "generate_token, session id generators")])
p("C19", "A closed transport neither sends nor receives",
  "Once a connection-holding transport (stdio, WebSocket client and server, HTTP) has been closed, every later send and receive fails before touching the underlying stream, and closing marks it as closed on every path. When the stdio transport reads the end of its input, or the queue a WebSocket server receives from has ended, the caller gets an error; at the end of standard input the transport is marked closed too.",
  [H, S], "all call orders on all transports", "Tests call close once and rarely use the transport afterwards.",
  ["src/shared/stdio.rs", "src/shared/websocket.rs", "src/shared/http.rs", "src/server/transport/websocket.rs"],
  [("closed flag / connection state", "Transport::send, receive, close implementations")])
p("C20", "Framed messages are written whole, in one piece and with the right length",
  "On the stdio transport each message is written as a length header that counts exactly the body's bytes, the separator, and the body, then flushed, all under one exclusive hold of the output stream, so concurrent senders cannot interleave; a failed write is reported to the sender; nothing else in the library writes to standard output. On WebSocket connections each message goes out as one text frame holding the whole serialised message. No transport reports a send as successful without having handed the message on.",
  [S, F, I], "all interleavings of senders and all write failures", "Tests write one message.",
  ["src/shared/stdio.rs", "src/shared/websocket.rs", "src/server/transport/websocket.rs"], [("single guard over header, body and flush", "StdioTransport::send / write path")])
p("C21", "Transport and protocol failures are surfaced, not swallowed",
  "An operation that can fail never reports success over a step that failed: when reading, writing, sending, serialising or parsing a message, or a call to a handler, middleware, store, provider or transport fails inside such an operation, the failure is returned, answered with, recorded or followed by another attempt; it is not passed over, replaced by an empty value or merely logged. Nor is the outcome of any call that can fail thrown away without a look. Exempt are credential checks whose failure is itself an answer, the hand-over of a message to an in-process queue, and three best-effort steps: telling the server that a closed HTTP session is over, opening the optional HTTP event stream, and storing events for later resumption.",
  [F, I], "all I/O and delivery failures", "Tests do not inject I/O faults.",
  ["src/shared", "src/server", "src/client", "src/utils", "src/error"], [("error discipline", "every function returning Result")])
p("C22", "No peer-controlled length drives an unbounded allocation",
  "The amount of memory reserved up front for an incoming message is never taken from a length announced by the peer without an upper bound check, and a WebSocket server accepts connections only with the frame and message size limits of its configuration.",
  [I], "all announced lengths", "Tests use small messages.",
  ["src/shared/stdio.rs", "src/server/transport/websocket.rs"], [("length check before allocation", "StdioTransport::read_message_body")])
p("C23", "Peer input cannot make the library panic",
  "No sequence of bytes, headers or messages received from a peer reaches a panicking operation (unwrap or expect of a failable result, out-of-range index or slice, division by zero, explicit panic) in the code that receives, parses, dispatches or stores it.",
  [I], "all byte sequences and messages a peer may send", "Property tests sample some parsers; most input-handling code is only tested with valid input.",
  ["src/shared", "src/server", "src/client", "src/types", "src/utils"], [("fallible handling", "input-handling functions")])
p("C24", "Locks are always acquired in one global order",
  "No two code paths acquire the library's internal locks in opposite orders, and no path acquires a non-reentrant lock it already holds, so no schedule of concurrent calls deadlocks the library on its own locks.",
  S, "all schedules of concurrent calls", "Deadlocks need particular interleavings that the single-threaded tests never produce.",
  ["src"], [("lock order", "all RwLock/Mutex acquisitions")])
p("C25", "No internal lock is held while waiting on a peer or running user code",
  "While the library runs a user-supplied handler or callback, or waits for the remote peer, a queue, a timer or another task, it holds no internal lock, except the one that serialises access to the very transport or queue it is using, or to the value a caller's function was handed in to modify.",
  S, "all schedules; arbitrarily slow or re-entrant handlers", "Tests' handlers return at once and never call back.",
  ["src/server", "src/client", "src/shared", "src/utils"], [("guard scopes", "all handler, callback and transport awaits")])
p("C26", "Check-then-act on shared tables is atomic",
  "Where the library decides on the content of a shared table and then updates that table on the strength of that decision (uniqueness, limits, single use, read-modify-write), the check and the update happen under one uninterrupted hold of that table's lock.",
  S, "all schedules of concurrent callers", "Needs an interleaving between check and update.",
  ["src/server", "src/client", "src/shared", "src/utils"], [("single guard for check and update", "session, token, stream and registry tables")])
p("C27", "Batched and debounced notifications are delivered once, none lost",
  "Every notification accepted by a batcher or debouncer is put among the pending ones, under its own subject, or sent. A pending one is superseded only by a newer one of the same subject, and with merging enabled only when there is no room left to merge. Whatever is taken out of the pending ones is sent (or returned by flush) and nothing else is, also when a timer is aborted; whatever stays pending has a timer or the periodic task to flush it, and stopping flushes everything. Notifications of different kinds, tokens, resources, or loggers and levels have different subjects.",
  [S, H], "all interleavings of adds, timers and flushes", "Tests use one timer and one flush.",
  ["src/server/notification_debouncer.rs", "src/utils/batching.rs"], [("take under lock, then send", "flush functions"), ("subjects", "notification_key")])
p("C28", "Resource updates go exactly to current subscribers",
  "A subscription is recorded under exactly the resource and session given, unsubscribing removes exactly that subscription, dropping a session removes all of its subscriptions, and an update notification is sent only when the resource still has a subscriber.",
  [H, I], "all subscribe, unsubscribe and update histories", "Tests use one resource and one session.",
  ["src/server/subscriptions.rs"], [("subscription table", "SubscriptionManager")])
p("C29", "Cancelling a request cancels that request and only that one",
  "Cancelling a request marks the cancellation token registered for that id as cancelled, removes it from the table and notifies the peer with that id; tokens of other requests are untouched, and clearing cancels every token that it forgets.",
  [H, S], "all cancellation histories", "Tests cancel a single request.",
  ["src/server/cancellation.rs"], [("token table", "CancellationManager")])
p("C30", "An answer completes only its own elicitation; ended ones leave nothing pending",
  "Each elicitation waits under its own id, which no other pending elicitation has; a response completes only the elicitation whose id it carries, unchanged, and is refused when none is waiting; when sending fails or the wait times out the pending entry is removed and the caller gets an error, never a made-up answer; cancelling completes only the named elicitation (all of them on shutdown), with an answer that says so.",
  [H, F, S], "all response orders, failures and timeouts", "Tests cover one success.",
  ["src/server/elicitation.rs"], [("pending table", "ElicitationManager")])
p("C31", "Root registrations are validated, recorded and announced",
  "Only file roots are accepted; an accepted root is listed as given until it is unregistered; unregistering takes out one root registered under that URI and nothing else; every change of the list is followed by a list-changed notification when a callback is set; a refused registration changes nothing.",
  [H, I], "all registration histories", "Tests register one root.",
  ["src/server/roots.rs"], [("roots list", "RootsManager")])
p("C32", "Retained events stay bounded and a session resumes with its own events",
  "Every event stored is followed by enforcement of the configured count and age limits before the store call returns, discarding only from the old end and only what the limits ask for; each message is recorded once, under a fresh id, with its own session, direction and the next sequence number; a replay starts right behind the named event; and what a session resumes or re-sends are its own events only.",
  [H, I], "all store histories", "Tests store a few events.",
  ["src/shared/event_store.rs"], [("limit enforcement", "InMemoryEventStore::store_event / cleanup")])
p("C33", "Expired, removed or surplus sessions are never accepted",
  "The session manager and its middleware accept a session only if it exists and is not expired, refuse to create sessions beyond the configured limit even under concurrent creation, and lookups never bring back a session that was removed; only expired or named sessions are removed.",
  [H, S], "all session histories and interleavings", "Tests use fresh sessions.",
  ["src/shared/session.rs"], [("expiry and limit checks", "SessionManager, SessionMiddleware")])
p("C34", "Middleware runs in order and a refusal stops everything",
  "Processing a message through a middleware chain runs, on that message, the hook of its direction and kind of every middleware, in the order in which they were added; as soon as one middleware fails, no later one runs and its failure is returned.",
  [G, F], "all chains and all failures", "Tests use one middleware.",
  ["src/shared/middleware.rs"], [("chain traversal", "MiddlewareChain")])
p("C35", "Batches keep one answer per request, in order, with its id",
  "Processing a batch yields exactly one answer for every request in it, in the batch's order, each with its own request's id, also when elements fail or time out; while a request of a batch runs, it holds a permit of the configured concurrency bound, which admits at least one; and packing and unpacking a batch loses nothing.",
  [I, S, F], "all batches, all completion orders and failures", "Tests use small uniform batches.",
  ["src/utils/parallel_batch.rs", "src/server/batch.rs", "src/shared/batch.rs"], [("index-sorted results", "parallel_batch::process_batch_parallel")])
p("C36", "Unsafe code is confined and guarded by CPU feature detection",
  "Unsafe code exists only in the SIMD modules, every routine that needs a CPU feature is reachable only after that feature was detected at run time or is guaranteed by the build, and every wide memory read or write touches only the bytes of the slice it was computed from.",
  [I, G], "all inputs and all CPUs", "Tests run on one CPU with AVX2.",
  ["src/simd/mod.rs", "src/utils/json_simd.rs", "src/lib.rs"], [("detection before dispatch", "simd entry points")])
p("C37", "An open circuit lets no attempt through; retries are bounded",
  "While an operation's circuit breaker is open, or the reconnection circuit is, the operation is not attempted before the timeout has passed since it opened. Outcomes of attempts made under a circuit breaker, and of connection attempts, are recorded as what they were; the circuit opens when the counted failures reach the configured threshold and closes only after the configured number of successes. No operation is retried, and no reconnection attempted, beyond the configured number; after a success there is no further attempt, and success is reported only for one.",
  [H, F], "all failure histories", "Tests step through one short history.",
  ["src/error/recovery.rs", "src/shared/reconnect.rs"], [("breaker gate", "RecoveryExecutor, ReconnectManager"), ("bounded loops", "retry_fixed, retry_exponential, with_retry, reconnect_with")])
p("C38", "The resource watcher stays inside its directory and its limits",
  "A file event is passed on only for a path inside the watched directory that matches none of the ignore patterns (all of which are tried, whatever the include patterns say) and matches an include pattern. It is announced, under the URI of that path, only if that URI is tracked, and only after its debounce time; an event leaves the pending ones exactly when it is processed. Tracked resources never exceed the configured maximum.",
  [I, H], "all paths and patterns", "Tests use one temporary directory.",
  ["src/server/resource_watcher.rs"], [("filter before event", "ResourceWatcher")])
p("C39", "Error codes and contents survive conversion",
  "A received JSON-RPC error becomes a protocol error with its own message and data and the code decoded from its number. Every named code is decoded from its own number, a number outside the reserved server range (-32099 to -32000) without a name is kept, and one inside it becomes itself or the internal error. An error converted for the peer carries its own code, message and data, or its own text; the named constructors make an error of their kind with what they were given; wrapping an underlying error keeps its text.",
  [I], "all error codes and errors", "Tests try a few codes.",
  ["src/error/mod.rs", "src/client/mod.rs", "src/shared/protocol.rs"], [("code table", "ErrorCode::from_i32"), ("conversion", "Error::from_jsonrpc_error")])
p("C40", "Every HTTP client request carries its session, version and credentials",
  "Every HTTP request of the streamable HTTP client (POST, GET stream, DELETE) is built with the negotiated protocol version, the current session id, the configured authentication and extra headers and, when a stream is resumed, the last event id; the session id is taken only from the server's response and forgotten on termination; non-success statuses are reported as errors. The plain HTTP transport sends its configured headers with every request and reports non-success statuses as errors.",
  [H, F], "all request kinds and histories", "Tests talk to one local server without auth.",
  ["src/shared/streamable_http.rs", "src/shared/http.rs"], [("common request builder", "StreamableHttpTransport::build_request*")])
p("C45", "Every message in an HTTP answer is delivered to the receiver",
  "Whatever messages the answer to an HTTP request of the client carries (one JSON message, a batch, or the message events of an event stream) are all handed to the receiving side, each one unchanged, unless handing over fails, which is reported; a message event is recognised whether or not its type is spelled out, and its id is remembered as the last event id. An empty acknowledgement is not an error, and an answer that cannot be parsed is one.",
  [I], "all answers: single messages, batches, event streams, empty bodies", "Tests use single-message answers.",
  ["src/shared/streamable_http.rs", "src/shared/http.rs"], [("answer handling", "StreamableHttpTransport::send_with_options / start_sse, HttpTransport::send_request")])
p("C41", "OAuth client flows yield credentials only from successful answers",
  "Discovery metadata and tokens are returned to the application only when parsed, as a whole, from the body of an HTTP answer with a success status to that very request; any other outcome is an error. Discovery asks the issuer's well-known address, at most the configured number of times. A token request is sent once, to the given endpoint, with the grant's own parameters exactly as the caller gave them (verifier and scope exactly when given); the client secret is sent, as basic authentication, exactly when there is one and nowhere else.",
  [F, I], "all HTTP outcomes", "No test runs against a failing authorization server.",
  ["src/client/auth.rs"], [("status check before parse", "OidcDiscoveryClient, TokenExchangeClient")])
p("C42", "Text is cut only at character boundaries and decoded only as a whole",
  "Whatever text arrives, non-ASCII text included, the library neither panics on it nor garbles it when it scans or formats it: a text is cut only at an end of itself, where something was just found in it, or at an offset known to lie in ASCII; byte counts are never used to count characters; a single byte becomes a character only if it is ASCII; received bytes are decoded only once complete or up to the end of a line. The fast JSON parser hands exactly its input to the JSON parser; the fast printer writes every byte of the serialized value once and otherwise adds whitespace only.",
  [I], "all texts, in particular non-ASCII", "Tests use ASCII.",
  ["src/utils/json_simd.rs", "src/shared/sse_parser.rs", "src/shared/uri_template.rs", "src/shared/context.rs", "src/shared/http.rs"], [("byte and character discipline", "SSE parser, request context, URI templates, HTTP event stream, JSON formatter")])
p("C43", "Building and reconfiguring a server changes exactly what was asked",
  "A setter of the server builder stores what it was given under its own name and leaves everything else unchanged (registering sampling also advertises it); the built server has everything that was set, under its name and version. A dynamic addition, replacement or removal changes its own table only, with the given name and handler, and tells every capability listener the server's capabilities with the one that changed; removing succeeds exactly when the name was there. A tool or prompt counts as known exactly when the dynamic table or the server has it. A reload removes the previous dynamic tools and prompts first and adds everything the new configuration has.",
  [H, I], "all sequences of builder and manager calls", "Tests build two configurations and make one change each.",
  ["src/server/mod.rs", "src/server/dynamic.rs"], [("setters", "ServerBuilder"), ("dynamic tables", "DynamicServerManager")])
# ---- not decided by static analysis (see MANIFEST not_applicable)
p("N01", "Wire messages survive an encode/decode round trip unchanged",
  "Serialising any protocol message and parsing it back yields an equal message.",
  I, "all values of all protocol types", "Value-level equality over unbounded data.",
  ["src/types"], [("serde derives", "src/types/*.rs")])
p("N02", "SSE parsing does not depend on how the stream is cut into chunks",
  "Feeding the same event stream in any partition into chunks yields the same events.",
  I, "all streams and partitions", "Sampled partitions only.",
  ["src/shared/sse_parser.rs"], [("buffering", "SseParser::feed")])
p("N03", "URI templates expand and match consistently",
  "Expanding a template and matching the result against it returns the values it was expanded with.",
  I, "all templates and values", "Value-level equality.",
  ["src/shared/uri_template.rs"], [("expand/match", "UriTemplate")])
p("N04", "SIMD routines compute the same result as their scalar fallbacks",
  "Every vectorised routine returns the same value as its scalar counterpart on every input.",
  I, "all inputs", "Numerical/functional equality.",
  ["src/simd/mod.rs", "src/utils/json_simd.rs"], [("vector and scalar twins", "src/simd/mod.rs")])
p("N05", "Backoff delays grow and stay within the configured maximum",
  "Computed reconnect and retry delays are non-decreasing without jitter and never exceed the configured maximum.",
  [I, H], "all configurations and attempt counts", "Numeric bound over floating-point arithmetic.",
  ["src/shared/reconnect.rs", "src/error/recovery.rs"], [("delay computation", "calculate_delay, retry_exponential")])
p("N06", "Debounced notifications arrive within the configured delays",
  "A pending notification is delivered no earlier than the quiet interval and no later than the maximum wait.",
  S, "all timings", "Timing.",
  ["src/server/notification_debouncer.rs"], [("timers", "NotificationDebouncer")])
p("N07", "Messages are delivered in the order they were sent",
  "For each connection, messages are received by the peer in the order in which the sender's calls completed.",
  [S, H], "all schedules", "Ordering of histories.",
  ["src/shared", "src/server"], [("per-connection serialisation", "transports")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
