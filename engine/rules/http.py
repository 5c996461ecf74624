"""The streamable HTTP server (C10 - C13)"""
from lib import *
from linr import Lin

OKSTATUS = {"OK", "ACCEPTED", "CREATED", "NO_CONTENT"}


def handlers(F):
    """functions handed to axum's method routers, discovered from the router construction"""
    out = {}
    for b in F.bodies.values():
        for bb in b["blocks"]:
            if not bb or bb["t"]["k"] != "call":
                continue
            f = bb["t"]["f"]
            if f[0] != "k" or not str(f[1].get("fn", "")).startswith("axum::routing::"):
                continue
            m = f[1]["fn"].rsplit("::", 1)[-1]
            for a in bb["t"]["args"]:
                if a[0] == "k" and a[1].get("k"):
                    out.setdefault(m, []).append(a[1]["k"])
    for m in ("post", "get", "delete"):
        if len(out.get(m, [])) != 1:
            raise Anchor(f"axum {m} handler ({out.get(m)})")
    return {m: v[0] for m, v in out.items()}


class Http(PathRule):
    """auto = frozenset of labels established on the path"""

    init = frozenset()
    max_depth = 12

    def is_opaque(self, ip, key):
        return key.endswith("server::Server::handle_request")

    def has(self, st, *lab):
        return lab in st.auto

    def add(self, st, *lab):
        st.auto = st.auto | {lab}

    def sets(self, st, kind):
        return [l for l in st.auto if l[0] == kind]

    def on_fact(self, ip, st, t, o, fr, line):
        one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
        if isinstance(o, frozenset):
            if t.op == "fld" and t.args[1] == "session_id_generator":
                self.add(st, "gen", one)
            if o <= {"Request", "Response", "Notification"} and contains(t, lambda x: x.op == "in" and x.args[0] == "body"):
                self.add(st, "msg", "Request" if one == "Request" else "other" if "Request" not in o else "?")
            if one == "Server" and t.op == "fld" and t.args[1] == "request":
                self.add(st, "kind", "other")
            if "Initialize" in o and one and t.op in ("fld", "call", "dc") and contains(t, lambda x: x.op == "dc" and x.args[1] == "Client"):
                self.add(st, "kind", "init")
            if len(o) > 4 and "Initialize" not in o and "CallTool" in o:
                self.add(st, "kind", "other")
            if t.op == "call" and "HeaderMap" in t.args[0] and len(t.args[1]) > 1 and one:
                self.add(st, "hdr", hname(t.args[1][1]), one == "Some")
            if t.op == "call" and t.args[0].endswith("HeaderValue::to_str") and one == "Err":
                for h in ("MCP_SESSION_ID", "MCP_PROTOCOL_VERSION"):
                    if header_of(t, h):
                        self.add(st, "hdr", h, False)
            p = presence(t)
            if p and one in ("Some", "None", "Occupied", "Vacant"):
                self.add(st, "known", p[0], p[1], one in ("Some", "Occupied"))
                if p[2] == "entry" and one == "Vacant":
                    self.add(st, "vacant", p[0], p[1])
            if t.op == "fld" and t.args[1] == "protocol_version" and one:
                self.add(st, "negver", one)
            if t.op == "await" and t.args[0].op == "call" and t.args[0].args[0].endswith("handle_request"):
                pass
        if isinstance(o, bool):
            p = presence(t)
            if p:
                self.add(st, "known", p[0], p[1], o)
                if not o and p[2] in ("contains_key", "contains"):
                    self.add(st, "vacant", p[0], p[1])
            if t.op == "fld" and t.args[1] == "initialized":
                key = None
                for x in subterms(t):
                    q = presence(x)
                    if q and q[0] == "sessions":
                        key = q[1]
                self.add(st, "inited", key, o)
            if o and t.op in ("call", "op"):
                lits = {lit(x) for x in subterms(t) if x.op in ("c", "k")}
                if header_of(t, "CONTENT_TYPE") and any(isinstance(l, str) and l.startswith("application/json") for l in lits):
                    self.add(st, "ctype")
                if header_of(t, "ACCEPT"):
                    if any(isinstance(l, str) and l.startswith("text/event-stream") for l in lits):
                        self.add(st, "accept", "sse")
                    if any(isinstance(l, str) and l.startswith("application/json") for l in lits):
                        self.add(st, "accept", "json")
                if header_of(t, "MCP_PROTOCOL_VERSION"):
                    hv = lambda x: x.op == "call" and "HeaderMap" in x.args[0] and header_of(x, "MCP_PROTOCOL_VERSION")
                    if member_fact(t, o, supported_versions, hv):
                        self.add(st, "versup")
                    if member_fact(t, o, lambda x: x.op == "fld" and x.args[1] == "protocol_version", hv):
                        self.add(st, "vereq")
                if contains(t, lambda x: x.op == "call" and x.args[0].endswith("get_stream_for_event")):
                    for s in (t.args[1:] if t.op == "op" else t.args[1]):
                        self.add(st, "owner", s)

    def after_call(self, ip, st, c, res):
        n = tail(c)
        if n in ("insert", "remove", "remove_entry") and is_coll(c, n) and c.args:
            col = coll_name(c.args[0])
            key = c.args[1] if len(c.args) > 1 else None
            base = c.args[0]
            if base.op == "call" and base.args[0].endswith("entry"):
                pass
            if col in ("sessions", "sse_streams"):
                self.add(st, n if n != "remove_entry" else "remove", col, key)
                self.on_change(ip, st, n, col, key, c)
        if n == "insert" and "VacantEntry" in path_of(c):
            for x in subterms(c.args[0]):
                q = presence(x)
                if q and q[0] in ("sessions", "sse_streams"):
                    self.add(st, "insert", q[0], q[1])
                    self.on_change(ip, st, "insert", q[0], q[1], c)
        self.late(ip, st, c, res)

    def on_change(self, ip, st, op, col, key, c):
        pass

    def late(self, ip, st, c, res):
        pass

    def keys(self, st):
        """session keys the path has validated or created"""
        ks = [l[2] for l in self.sets(st, "known") if l[1] == "sessions" and l[3]]
        ks += [l[2] for l in self.sets(st, "insert") if l[1] == "sessions"]
        return ks


def inkeys(v, ks):
    return any(all(x in alts(k) or x is k for x in alts(v)) for k in ks)


def statuses(v):
    """status constants of a response value; None when it is not one of the plain forms"""
    out = set()
    for a in alts(v):
        st = [x.args[0].rsplit("::", 1)[-1] for x in subterms(a) if x.op == "k" and "StatusCode::" in x.args[0]]
        out |= set(st) if st else {None}
    return out


def gate(r, st):
    """'' when the session gate was passed on this path, else why not"""
    mode = "None" if r.has(st, "gen", "None") else "Some" if r.has(st, "gen", "Some") else None
    if mode == "None":
        return ""
    if mode is None:
        return "without looking at whether sessions are enabled"
    kind = "init" if r.has(st, "kind", "init") else "other"
    known = [l[2] for l in r.sets(st, "known") if l[1] == "sessions" and l[3]]
    fromhdr = [k for k in known if header_of(k, "MCP_SESSION_ID")]
    if kind == "other":
        return "" if fromhdr else "without the request's session id having been found in the session table"
    ins = [l[2] for l in r.sets(st, "insert") if l[1] == "sessions"]
    if any(not header_of(k, "MCP_SESSION_ID") for k in ins):
        return ""
    if any(r.has(st, "inited", k, False) for k in fromhdr):
        return ""
    if fromhdr:
        return "without the named session having been found uninitialised"
    return "without a session having been created or found"


def c10(ctx):
    H = handlers(ctx.F)
    ctx.rule("gate", "every path of the POST handler that hands a message to the server or accepts it has, when sessions are enabled, found the request's own session id in the session table (or, for initialize, created a fresh session / found that session uninitialised)")
    ctx.rule("stateless", "no session is created on a path where sessions are disabled")
    ctx.rule("establish", "a session is marked initialised only on the initialize path after the server answered, and only the request's own session")
    ctx.rule("own-session", "with sessions enabled, the session id returned and the stream a response is routed to are the validated session's")
    ctx.rule("stream-gate", "the GET handler opens a stream only for a session found in the table or freshly created")
    ctx.rule("refusal", "a message that was not handed to the server is answered with an error status unless it is a notification or response that passed the gate")

    class R(Http):
        n = 0

        def on_call(self, ip, st, c):
            if c.is_("server::Server::handle_request"):
                self.n += 1
                w = gate(self, st)
                self.add(st, "dispatched")
                k = "init" if self.has(st, "kind", "init") else "other"
                ctx.test(not w, "gate", ("dispatch", k), f"dispatch:{k}", where(c.frame, c.line), f"a {k} request reaches the server {w}", backtrace(c.frame, c.line))
            n = tail(c)
            if n == "insert" and "HeaderMap" in path_of(c) and len(c.args) == 3 and hname(c.args[1]) == "MCP_SESSION_ID" and self.has(st, "gen", "Some"):
                ks = self.keys(st)
                v = c.args[2]
                good = contains(v, lambda x: any(x is k for k in ks))
                ctx.test(good, "own-session", "header", "header", where(c.frame, c.line), f"the response names session `{show(v)[:120]}`, which this path has not validated or created", backtrace(c.frame, c.line))
            if n in ("get", "get_mut", "remove") and is_map(c, n) and coll_name(c.args[0]) == "sse_streams" and self.has(st, "gen", "Some"):
                fr_hdr = header_of(c.args[1], "MCP_SESSION_ID")
                good = inkeys(c.args[1], self.keys(st))
                ctx.test(good, "own-session", "stream", "stream", where(c.frame, c.line), f"a response is routed to the stream of `{show(c.args[1])[:120]}`, which this path has not validated", backtrace(c.frame, c.line))
            return None

        def on_change(self, ip, st, op, col, key, c):
            if col == "sessions" and op == "insert":
                ctx.test(self.has(st, "gen", "Some") and not self.has(st, "gen", "None"), "stateless", root_fn(c.frame.key), f"insert:{root_fn(c.frame.key).rsplit('::',1)[-1]}", where(c.frame, c.line), "a session is created although sessions may be disabled", backtrace(c.frame, c.line))
                ctx.test(not header_of(key, "MCP_SESSION_ID"), "gate", ("create", root_fn(c.frame.key)), "client-chosen-id", where(c.frame, c.line), "a session is created under an id chosen by the client", backtrace(c.frame, c.line))

        def on_store(self, ip, st, base, fieldn, val, fr, line):
            if fieldn == "initialized" and lit(val) is True and fr is not None:
                ks = self.keys(st)
                mine = any(q and q[0] == "sessions" and inkeys(q[1], ks) for q in (presence(x) for x in subterms(base)))
                good = self.has(st, "kind", "init") and self.has(st, "dispatched") and (mine or self.has(st, "gen", "None"))
                ctx.test(good, "establish", root_fn(fr.key), "initialized", where(fr, line), "a session is marked initialised outside the answered initialize request of that session", backtrace(fr, line))

        def on_return(self, ip, st, v):
            if self.has(st, "dispatched"):
                return
            s = statuses(v)
            if s & OKSTATUS or None in s:
                w = gate(self, st)
                ctx.test(self.has(st, "msg", "other") and not self.has(st, "msg", "Request"), "refusal", "request-dropped", "request-dropped", ip.root.where(), f"a request can be answered with {s & OKSTATUS or 'a success'} without reaching the server")
                ctx.test(not w, "gate", "accept", "accept", ip.root.where(), f"a message is accepted {w}")
            else:
                ctx.ok("refusal", tuple(sorted(s)), ip.root.where())

    r = R(ctx)
    run_entry(ctx, r, H["post"])
    if not r.n:
        raise Anchor("the POST handler never reaches Server::handle_request")
    ctx.floor("gate", 4)
    ctx.floor("own-session", 2)
    ctx.floor("establish", 1)

    class G(Http):
        def on_call(self, ip, st, c):
            if c.is_("Sse::<S>::new", "Sse::new") or (tail(c) == "new" and "::Sse" in path_of(c)):
                if self.has(st, "gen", "None"):
                    return None
                ks = self.keys(st)
                ins = [l[2] for l in self.sets(st, "insert") if l[1] == "sse_streams"]
                good = any(inkeys(k, ks) for k in ins) and self.has(st, "gen", "Some")
                ctx.test(good, "stream-gate", "open", "stream-gate", where(c.frame, c.line), "an event stream is opened for a session that was neither found in the table nor created", backtrace(c.frame, c.line))
                vac = any(l[1] == "sse_streams" and any(inkeys(k, [l[2]]) for k in ins) for l in self.sets(st, "vacant"))
                ctx.test(vac, "stream-gate", "one", "stream-replaced", where(c.frame, c.line), "an event stream is registered without checking that the session has none", backtrace(c.frame, c.line))

        def on_change(self, ip, st, op, col, key, c):
            if col == "sessions" and op == "insert":
                ctx.test(self.has(st, "gen", "Some") and not self.has(st, "gen", "None"), "stateless", "get", "insert:get", where(c.frame, c.line), "a session is created although sessions may be disabled", backtrace(c.frame, c.line))
                ctx.test(not header_of(key, "MCP_SESSION_ID"), "stream-gate", "create", "client-chosen-id", where(c.frame, c.line), "a session is created under an id chosen by the client", backtrace(c.frame, c.line))

    run_entry(ctx, G(ctx), H["get"])
    ctx.floor("stream-gate", 2)
    ctx.floor("stateless", 2)


def c11(ctx):
    H = handlers(ctx.F)
    ctx.rule("content-type", "a POST message is accepted or dispatched only after its Content-Type was found to be JSON")
    ctx.rule("accept", "a POST message is accepted or dispatched only after its Accept header was found to allow JSON or event streams; a stream is opened only if Accept allows event streams")
    ctx.rule("version", "a non-initialize message carrying a protocol version is dispatched only if that version is supported and equals the session's negotiated version")
    ctx.rule("version-reply", "the protocol-version header of a response comes from the session's negotiated version or the default")

    class R(Http):
        def sink(self, st, what, site, tr=()):
            ctx.test(self.has(st, "ctype"), "content-type", what, f"ctype:{what}", site, f"a message is {what} without its Content-Type having been found to be application/json", tr)
            ctx.test(bool(self.sets(st, "accept")), "accept", what, f"accept:{what}", site, f"a message is {what} without its Accept header having been accepted", tr)
            if not self.has(st, "kind", "init"):
                if self.has(st, "hdr", "MCP_PROTOCOL_VERSION", False):
                    ctx.ok("version", (what, "absent"), site)
                    return
                good = self.has(st, "versup")
                ctx.test(good, "version", (what, "supported"), f"version-supported:{what}", site, f"a message is {what} without its protocol version having been found in the supported list", tr)
                if self.has(st, "gen", "None"):
                    return
                good = self.has(st, "vereq") or self.has(st, "negver", "None") or any(l[1] == "sessions" and not l[3] for l in self.sets(st, "known"))
                ctx.test(good, "version", (what, "negotiated"), f"version-negotiated:{what}", site, f"a message is {what} without its protocol version having been compared with the session's negotiated version", tr)

        def on_call(self, ip, st, c):
            if c.is_("server::Server::handle_request"):
                self.add(st, "dispatched")
                self.sink(st, "dispatched", where(c.frame, c.line), backtrace(c.frame, c.line))
            if tail(c) == "insert" and "HeaderMap" in path_of(c) and len(c.args) == 3 and hname(c.args[1]) == "MCP_PROTOCOL_VERSION":
                bad = header_of(c.args[2], "MCP_PROTOCOL_VERSION")
                ctx.test(not bad, "version-reply", "reply", "echo", where(c.frame, c.line), "the response echoes the client's protocol-version header instead of the negotiated version")
            return None

        def on_return(self, ip, st, v):
            if self.has(st, "dispatched"):
                return
            s = statuses(v)
            if s & OKSTATUS or None in s:
                self.sink(st, "accepted", ip.root.where())

    run_entry(ctx, R(ctx), H["post"])
    ctx.floor("content-type", 2)
    ctx.floor("accept", 2)
    ctx.floor("version", 4)

    class G(Http):
        def on_call(self, ip, st, c):
            if tail(c) == "new" and "::Sse" in path_of(c):
                ctx.test(self.has(st, "accept", "sse"), "accept", "stream", "accept:stream", where(c.frame, c.line), "an event stream is opened for a client whose Accept header was not found to allow it", backtrace(c.frame, c.line))

    n = ctx.count("accept")
    run_entry(ctx, G(ctx), H["get"])
    if ctx.count("accept") == n:
        raise Anchor("the GET handler opens no event stream")


def c12(ctx):
    F = ctx.F
    H = handlers(F)
    ctx.rule("handler", "stored events are sent on a stream only when the presented last-event id was found to belong to that stream's session")
    ctx.rule("store-scope", "replay_events_after returns only events read from the stream the last event is recorded under, and nothing for an unknown id")
    ctx.rule("store-after", "replay starts strictly after the presented event")
    ctx.rule("record", "events are recorded under the id of the session they are sent to, under one event id in every table")

    class G(Http):
        def on_call(self, ip, st, c):
            n = tail(c)
            if n == "send" and len(c.args) == 2 and has_call(c.args[1], "replay_events_after"):
                ins = [l[2] for l in self.sets(st, "insert") if l[1] == "sse_streams"]
                owner = [l[1] for l in self.sets(st, "owner")]
                good = any(inkeys(o, ins) or any(inkeys(k, [o]) for k in ins) for o in owner)
                if not good:  # Option comparison: Some(session) == stream
                    good = any(contains(o, lambda x: any(x is y for k in ins for y in alts(k))) for o in owner)
                ctx.test(good, "handler", "replay", "replay-unchecked", where(c.frame, c.line), "stored events are replayed without the last-event id having been found to belong to this session", backtrace(c.frame, c.line))
            if n == "store_event" and len(c.args) >= 4:
                ins = [l[2] for l in self.sets(st, "insert") if l[1] == "sse_streams"] + self.keys(st)
                good = inkeys(c.args[1], ins)
                ctx.test(good, "record", "get", "record:get", where(c.frame, c.line), f"an event is recorded under `{show(c.args[1])[:100]}`, not under the stream's session", backtrace(c.frame, c.line))
            return None

    run_entry(ctx, G(ctx), H["get"], inline_spawn=True)

    class P(Http):
        def on_call(self, ip, st, c):
            if tail(c) == "store_event" and len(c.args) >= 4:
                good = inkeys(c.args[1], self.keys(st)) or self.has(st, "gen", "None")
                ctx.test(good, "record", "post", "record:post", where(c.frame, c.line), f"an event is recorded under `{show(c.args[1])[:100]}`, not under the validated session", backtrace(c.frame, c.line))
            return None

    run_entry(ctx, P(ctx), H["post"], inline_spawn=True)
    ctx.floor("handler", 1)
    ctx.floor("record", 2)

    impls = [k for k in F.bodies if "streamable_http_server::EventStore>::replay_events_after" in k and F.bodies[k]["kind"] == "fn"]
    if not impls:
        raise Anchor("no EventStore implementation")

    class E(PathRule):
        def on_return(self, ip, st, v):
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                val = a.args[3][0] if is_adt(a, "Result") else a
                for x in alts(val):
                    src = [y for y in subterms(x) if y.op == "fld" and y.args[1] == "events"]
                    if not src:
                        ctx.ok("store-scope", "empty", ip.root.where())
                        continue
                    good = False
                    allgood = True
                    for y in subterms(x):
                        p = presence(y)
                        if p and p[0] == "events":
                            k = p[1]
                            owner = [presence(z) for z in subterms(k)]
                            if any(q and q[0] == "event_to_stream" and contains_last(q[1]) for q in owner):
                                good = True
                            else:
                                allgood = False
                        if y.op == "call" and y.args[0].rsplit("::", 1)[-1] in ("values", "iter", "values_mut", "into_iter", "keys") and y.args[1] and coll_name(y.args[1][0]) == "events" and MAPS.search(y.args[0]) and "HashMap" in y.args[0]:
                            allgood = False
                    ctx.test(good and allgood, "store-scope", "events", "scope", ip.root.where(), f"replay returns `{show(x)[:300]}`, not only events of the stream the last event belongs to")
                    for y in subterms(x):
                        s = None
                        if is_adt(y, "RangeFrom") or is_adt(y, "Range"):
                            s = y.args[3][0]
                        elif y.op == "call" and y.args[0].rsplit("::", 1)[-1] in ("skip", "split_off", "nth") and len(y.args[1]) == 2:
                            s = y.args[1][1]
                        for z in alts(s) if s is not None else ():
                            ctx.test(starts_after(z, y), "store-after", "range", "after", ip.root.where(), f"replay starts at `{show(z)[:120]}`, not after the presented event")

    def starts_after(z, y):
        """z is one more than the position of an element, or the number of elements; or what is skipped is all up to that element"""
        if z.op == "call" and z.args[0].rsplit("::", 1)[-1] == "len":
            return True
        if lit(z) == 1 and y.op == "call":
            return contains(y.args[1][0], lambda q: q.op == "call" and q.args[0].rsplit("::", 1)[-1] in ("skip_while", "find", "position"))
        e = {t: c for t, c in Lin({}, lambda q: q).expr(z).items() if c}
        return e.pop(None, 0) == 1 and len(e) == 1 and list(e.values()) == [1] and any(q.op == "call" and q.args[0].rsplit("::", 1)[-1] in ("position", "rposition") for q in subterms(next(iter(e))))

    def contains_last(v):
        return contains(v, lambda x: x.op == "in" and x.args[0] == "last_event_id")

    for k in impls:
        run_entry(ctx, E(ctx), k)
    ctx.floor("store-scope", 2)

    class S(PathRule):
        n = 0

        def after_call(self, ip, st, c, res):
            if is_coll(c, "insert") and coll_name(c.args[0]) == "event_to_stream":
                good = inp(c.args[1], "event_id") and inp(c.args[2], "stream_id")
                ctx.test(good, "record", "event_to_stream", "store:event_to_stream", where(c.frame, c.line), f"event_to_stream maps `{show(c.args[1])[:60]}` to `{show(c.args[2])[:60]}`")
            if is_coll(c, "push") and contains(c.args[0], lambda x: x.op == "fld" and x.args[1] == "events"):
                tgt = any(p and p[0] == "events" and inp(p[1], "stream_id") for p in (presence(x) for x in subterms(c.args[0])))
                good = tgt and c.args[1].op == "agg" and inp(c.args[1].args[3][0], "event_id") and inp(c.args[1].args[3][1], "message")
                ctx.test(good, "record", "events", "store:events", where(c.frame, c.line), f"events of `{show(c.args[0])[:100]}` receive `{show(c.args[1])[:100]}`")

    def inp(v, name):
        return v.op == "in" and v.args[0] == name

    for k in F.bodies:
        if "streamable_http_server::EventStore>::store_event" in k and F.bodies[k]["kind"] == "fn":
            run_entry(ctx, S(ctx), k)
    ctx.floor("record", 4)


def c13(ctx):
    H = handlers(ctx.F)
    ctx.rule("removed", "a DELETE answered with success has removed the named session from the session table and its event stream from the stream table")
    ctx.rule("only-named", "only the session named by the request's header is removed")
    ctx.rule("unknown", "with sessions enabled, nothing is removed from the stream table and no callback runs unless the session was found; the answer is not a success")

    class D(Http):
        def found(self, st):
            return any(l[1] == "sessions" and l[3] for l in self.sets(st, "known"))

        def on_call(self, ip, st, c):
            if c.path in FN_CALL and c.args and contains(c.args[0], lambda x: x.op == "fld" and x.args[1] == "on_session_closed"):
                self.add(st, "callback")
                ctx.test(self.found(st) or self.has(st, "gen", "None"), "unknown", "callback", "callback", where(c.frame, c.line), "the session-closed callback runs for a session that was not found", backtrace(c.frame, c.line))
            return None

        def on_change(self, ip, st, op, col, key, c):
            if op == "remove":
                ctx.test(header_of(key, "MCP_SESSION_ID"), "only-named", col, f"key:{col}", where(c.frame, c.line), f"`{show(key)[:100]}` is removed from {col}")
                if col == "sse_streams":
                    ctx.test(self.found(st) or self.has(st, "gen", "None"), "unknown", "stream", "stream", where(c.frame, c.line), "a stream is dropped for a session that was not found", backtrace(c.frame, c.line))

        def on_return(self, ip, st, v):
            s = statuses(v)
            if s & OKSTATUS or None in s:
                for col in ("sessions", "sse_streams"):
                    ctx.test(any(l[1] == col for l in self.sets(st, "remove")), "removed", col, f"left:{col}", ip.root.where(), f"DELETE can succeed without removing the session from {col}")
                ctx.test(self.found(st) or self.has(st, "gen", "None"), "unknown", "answer", "answer", ip.root.where(), "DELETE succeeds for a session that was not found")
            else:
                ctx.ok("unknown", tuple(sorted(s)), ip.root.where())

    run_entry(ctx, D(ctx), H["delete"])
    ctx.floor("removed", 2)
    ctx.floor("only-named", 2)
    ctx.floor("unknown", 3)


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13}
