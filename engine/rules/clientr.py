"""The client (C05 - C09, C44) and the protocol engine's pending table (C09)"""
from lib import *

CAP = {
    "SetLoggingLevel": "logging",
    "ListTools": "tools",
    "CallTool": "tools",
    "ListPrompts": "prompts",
    "GetPrompt": "prompts",
    "ListResources": "resources",
    "ListResourceTemplates": "resources",
    "ReadResource": "resources",
    "Subscribe": "resources",
    "Unsubscribe": "resources",
    "Complete": "completions",
    "CreateMessage": "sampling",
    "Ping": None,
}
OPS = {
    "ping": "Ping",
    "set_logging_level": "SetLoggingLevel",
    "list_tools": "ListTools",
    "call_tool": "CallTool",
    "list_prompts": "ListPrompts",
    "get_prompt": "GetPrompt",
    "list_resources": "ListResources",
    "list_resource_templates": "ListResourceTemplates",
    "read_resource": "ReadResource",
    "subscribe_resource": "Subscribe",
    "unsubscribe_resource": "Unsubscribe",
    "complete": "Complete",
    "create_message": "CreateMessage",
    "initialize": "Initialize",
}
SELF = lambda v: v.op == "in" and v.args[0] == "self"


def client_fns(F):
    """functions of the client no other client function calls: the public surface"""
    fns = {k for k, b in F.bodies.items() if b["kind"] == "fn" and re.match(r"pmcp::client::Client::<T>::\w+$", k)}
    called = set()
    for k, b in F.bodies.items():
        if not k.startswith("pmcp::client::Client::<T>::"):
            continue
        for bb in b["blocks"]:
            if bb and bb["t"]["k"] == "call":
                f = bb["t"]["f"]
                if f[0] == "k" and f[1].get("k") in fns and root_fn(k) != f[1]["k"]:
                    called.add(f[1]["k"])
    return sorted(fns - called)


class Cl(Labels):
    def on_fact(self, ip, st, t, o, fr, line):
        one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
        if isinstance(o, bool) and t.op == "fld" and t.args[1] == "initialized" and SELF(t.args[0]):
            self.add(st, "init", o)
        if one and t.op == "fld" and t.args[1] in ("server_capabilities", "capabilities") and SELF(t.args[0]):
            self.add(st, t.args[1], one)
        if one and t.op == "fld" and contains(t.args[0], lambda x: x.op == "fld" and x.args[1] == "server_capabilities" and SELF(x.args[0])):
            self.add(st, "cap", t.args[1], one)
        if isinstance(o, bool) and contains(t, lambda x: x.op == "fld" and x.args[1] == "subscribe" and contains(x, lambda y: y.op == "fld" and y.args[1] == "server_capabilities")):
            self.add(st, "subscribe", o)
        if one in ("Ok", "Err") and t.op == "await" and t.args[0].op == "call":
            n = t.args[0].args[0]
            if n.endswith("Transport::receive"):
                self.add(st, "recv", one)
            if n.endswith("Transport::send"):
                self.add(st, "sent", one)
        if one and t.op == "fld" and t.args[1] == "payload" and has_call(t, "Transport::receive"):
            self.add(st, "payload", one)
        if one and t.op == "fld" and t.args[1] == "data" and has_call(t, "Transport::receive"):
            self.add(st, "data", one)
        if one and t.op == "call" and t.args[0].endswith("from_value") and has_call(t, "Transport::receive"):
            self.add(st, "parsed", one)
        if o is True:
            if member_fact(t, o, supported_versions, lambda x: x.op == "fld" and x.args[1] == "protocol_version"):
                self.add(st, "version")
            e = eqfact(t, o)
            if e:
                self.add(st, "eq", *e)

    def on_await(self, ip, st, fut, fr, line):
        if fut.op != "call":
            return
        if fut.args[0].endswith("Transport::send"):
            for m in alts(fut.args[1][1]):
                self.on_send(ip, st, m, fr, line)
        if fut.args[0].endswith("Transport::receive"):
            self.on_recv(ip, st, fr, line)

    def on_send(self, ip, st, m, fr, line):
        pass

    def on_recv(self, ip, st, fr, line):
        pass


def kind(m):
    """(Request|Notification, variant, value) of a transport message term"""
    if not is_adt(m, "TransportMessage"):
        return ("?", "?", m)
    if m.args[1] == "Request":
        r = field(m, "request")
        c = r.args[3][0] if r is not None and r.op == "agg" and r.args[3] else None
        return ("Request", c.args[1] if c is not None and c.op == "agg" else "?", c)
    n = m.args[3][0] if m.args[3] else None
    if n is not None and n.op == "agg":
        if n.args[1] == "Client" and n.args[3] and n.args[3][0].op == "agg":
            return (m.args[1], n.args[3][0].args[1], n.args[3][0])
        return (m.args[1], n.args[1], n)
    return (m.args[1], "?", n)


UNGATED = {("Request", "Initialize"), ("Notification", "Initialized"), ("Notification", "Cancelled"), ("Notification", "Progress")}


def each(ctx, mk_rule):
    fns = client_fns(ctx.F)
    if len(fns) < 15:
        raise Anchor(f"client operations ({len(fns)} found)")
    for k in fns:
        if ctx.F.bodies[k].get("async") or any(ctx.F.bodies[x]["kind"] == "coroutine" for x in ctx.F.kids(k)):
            run_entry(ctx, mk_rule(k.rsplit("::", 1)[-1]), k)


def c05(ctx):
    ctx.rule("gate", "every path of a client operation that hands a message to the transport has found the client initialized first (the handshake itself, cancellation and progress notices aside)")

    class R(Cl):
        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def on_send(self, ip, st, m, fr, line):
            k = kind(m)
            if k[:2] in UNGATED:
                if k[:2] == ("Notification", "Initialized"):
                    ctx.test(self.name == "initialize", "gate", (self.name, "handshake"), f"{self.name}:initialized", where(fr, line), f"{self.name} announces the end of the handshake", backtrace(fr, line))
                return
            ctx.test(self.has(st, "init", True), "gate", (self.name, k[1]), f"{self.name}:{k[1]}", where(fr, line), f"{self.name} sends a {k[1]} {k[0].lower()} without the client having been found initialized", backtrace(fr, line))

    each(ctx, R)
    ctx.floor("gate", 14)


def c06(ctx):
    ctx.rule("needs", "a request that needs a server capability is sent only after that very capability was found among the server's advertised ones (subscribing also needs the subscribe flag)")
    ctx.rule("not-refused", "a request is refused for lack of a capability only when the client is not initialized or that capability is missing")

    class R(Cl):
        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def on_send(self, ip, st, m, fr, line):
            k = kind(m)
            if k[0] != "Request" or k[1] == "Initialize":
                return
            self.add(st, "did-send")
            site, tr = where(fr, line), backtrace(fr, line)
            if k[1] not in CAP:
                ctx.bad("needs", k[1], f"unknown:{k[1]}", site, f"{self.name} sends a {k[1]} request; no capability is known for it", tr)
                return
            cap = CAP[k[1]]
            if cap is None:
                ctx.ok("needs", k[1], site)
                return
            ctx.test(self.has(st, "cap", cap, "Some"), "needs", k[1], f"{k[1]}:{cap}", site, f"{self.name} sends {k[1]} without the server's `{cap}` capability having been found", tr)
            if k[1] == "Subscribe":
                ctx.test(self.has(st, "subscribe", True), "needs", (k[1], "flag"), "subscribe-flag", site, "a subscription is sent although the server was not found to support subscriptions", tr)

        def on_return(self, ip, st, v):
            if self.has(st, "did-send") or self.name not in OPS or self.name == "initialize":
                return
            cap = CAP[OPS[self.name]]
            ok = self.has(st, "init", False) or (cap and (self.has(st, "cap", cap, "None") or self.has(st, "server_capabilities", "None")))
            if self.name == "subscribe_resource":
                ok = ok or self.has(st, "subscribe", False) or self.has(st, "cap", "subscribe", "None")
            err = all(is_adt(a, "Result") and a.args[1] == "Err" for a in alts(v))
            ctx.test(bool(ok), "not-refused", self.name, f"refused:{self.name}", ip.root.where(), f"{self.name} can be refused although the client is initialized and the server advertises {cap}")
            ctx.test(err, "not-refused", (self.name, "error"), f"silent:{self.name}", ip.root.where(), f"{self.name} reports success without having sent anything")

    each(ctx, R)
    ctx.floor("needs", 13)
    ctx.floor("not-refused", 13)


def c07(ctx):
    F = ctx.F
    ctx.rule("commit", "the client marks itself initialized and records the server's capabilities and identity only after the initialize answer was a result, was parsed, and its protocol version was found in the supported list")
    ctx.rule("from-answer", "what is recorded is what that answer contains")
    ctx.rule("once", "an initialized client sends no second initialize request")
    ctx.rule("complete", "a successful initialization has recorded all of it and announced the end of the handshake")
    ctx.rule("only-here", "nothing else in the client marks it initialized or changes the recorded capabilities")
    ctx.rule("server-version", "the server answers initialize with a protocol version from its supported list")
    ctx.rule("server-record", "the server records a client as initialized, and its capabilities, only while handling that client's initialize request")
    STATE = ("initialized", "server_capabilities", "server_version")

    class R(Cl):
        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def on_send(self, ip, st, m, fr, line):
            k = kind(m)
            if k[:2] == ("Request", "Initialize"):
                ctx.test(self.has(st, "init", False), "once", self.name, f"{self.name}:twice", where(fr, line), "initialize is sent without the client having been found uninitialized", backtrace(fr, line))
                v = field(k[2].args[3][0], "protocol_version") if k[2].op == "agg" and k[2].args[3][0].op == "agg" else None
                ctx.test(v is not None and v.op == "k" and v.args[0].endswith("LATEST_PROTOCOL_VERSION"), "once", "version", "requested-version", where(fr, line), f"the client requests protocol version `{show(v) if v is not None else '?'}`")
            if k[:2] == ("Notification", "Initialized"):
                self.add(st, "announced")

        def on_store(self, ip, st, base, f, val, fr, line):
            if f in STATE and SELF(base) and fr is not None:
                site, tr = where(fr, line), backtrace(fr, line)
                if self.name != "initialize":
                    ctx.bad("only-here", (self.name, f), f"{self.name}:{f}", site, f"{self.name} changes the client's `{f}`", tr)
                    return
                good = self.has(st, "payload", "Result") and self.has(st, "parsed", "Ok") and self.has(st, "version")
                ctx.test(good, "commit", f, f"commit:{f}", site, f"`{f}` is recorded before the server's answer was validated", tr)
                if f == "initialized":
                    ctx.test(lit(val) is True, "from-answer", f, f"value:{f}", site, f"initialized becomes `{show(val)}`")
                else:
                    src = {"server_capabilities": "capabilities", "server_version": "server_info"}[f]
                    v = ip.snap(st, val)
                    v = v.args[3][0] if is_adt(v, "Option") and v.args[1] == "Some" else v
                    ctx.test(v.op == "fld" and v.args[1] == src and has_call(v, "from_value"), "from-answer", f, f"value:{f}", site, f"`{f}` becomes `{show(v)[:120]}`, not the answer's {src}")
                self.add(st, "stored", f)

        def on_return(self, ip, st, v):
            if self.name != "initialize":
                return
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                for f in STATE:
                    ctx.test(self.has(st, "stored", f), "complete", f, f"missing:{f}", ip.root.where(), f"initialization succeeds without recording {f}")
                ctx.test(self.has(st, "announced"), "complete", "announced", "unannounced", ip.root.where(), "initialization succeeds without the initialized notification having been sent")

    each(ctx, R)
    for f, n in (("commit", 3), ("from-answer", 3), ("once", 2), ("complete", 4)):
        ctx.floor(f, n)
    # synchronous functions of the client that write the state
    n = 0
    for k, b in F.bodies.items():
        if not re.match(r"pmcp::client::Client::<T>::\w+", k) or root_fn(k).endswith("::initialize"):
            continue
        n += 1
        for bb in b["blocks"]:
            for s in bb["s"] if bb else ():
                if s[0] == "=" and len(s[1]) > 1 and s[1][-1][0] == "." and s[1][-1][2] in STATE and "Client" in str(s[1][-1]):
                    ctx.bad("only-here", (root_fn(k), s[1][-1][2]), f"{root_fn(k).rsplit('::',1)[-1]}:{s[1][-1][2]}", f"{b['file']}:{s[3]} in {root_fn(k)}", f"{root_fn(k)} changes the client's `{s[1][-1][2]}`")
    ctx.ok("only-here", f"{n} bodies")
    # server
    supported = set()
    b = F.bodies.get("pmcp::SUPPORTED_PROTOCOL_VERSIONS")
    if b is None:
        raise Anchor("SUPPORTED_PROTOCOL_VERSIONS")

    class K(PathRule):
        def on_return(self, ip, st, v):
            supported.update(lit(x) for x in subterms(v) if isinstance(lit(x), str) and re.match(r"\d{4}-\d\d-\d\d$", str(lit(x))))

    ip = Interp(F, K(ctx))
    ip.run("pmcp::SUPPORTED_PROTOCOL_VERSIONS")
    consts = {}

    class Sv(Labels):
        n = 0

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "dc" and t.args[1] == "Client" or (isinstance(o, frozenset) and t.op == "fld" and t.args[0].op == "dc" and t.args[0].args[1] == "Client"):
                self.add(st, "kind", "Initialize" if o == frozenset(["Initialize"]) else "other" if "Initialize" not in o else "?")
            if member_fact(t, o, supported_versions, lambda x: x.op == "fld" and x.args[1] == "protocol_version"):
                self.add(st, "version")

        def on_store(self, ip, st, base, f, val, fr, line):
            nm = coll_name(base) if f == "*" else f
            if fr is None or nm not in ("initialized", "client_capabilities") or not contains(base, SELF):
                return
            good = self.has(st, "kind", "Initialize")
            ctx.test(good, "server-record", nm, f"{nm}:where", where(fr, line), f"the server records `{nm}` while handling something that is not an initialize request", backtrace(fr, line))
            if nm == "client_capabilities":
                v = ip.snap(st, val)
                v = v.args[3][0] if is_adt(v, "Option") and v.args[1] == "Some" else v
                ctx.test(v.op == "fld" and v.args[1] == "capabilities" and contains(v, lambda x: x.op == "in" and x.args[0] == "request"), "server-record", "value", "capabilities", where(fr, line), f"the recorded client capabilities are `{show(v)[:120]}`")
            self.add(st, "stored", nm)

        def on_agg(self, ip, st, v, fr, line):
            if is_adt(v, "InitializeResult"):
                self.n += 1
                pv = ip.snap(st, field(v, "protocol_version"))
                pv = pv.args[3][0] if pv.op == "agg" and len(pv.args[3]) == 1 else pv
                for x in alts(pv):
                    good = lit(x) in supported or (x.op == "k" and x.args[0].endswith(("LATEST_PROTOCOL_VERSION", "DEFAULT_PROTOCOL_VERSION"))) or (self.has(st, "version") and contains(x, lambda y: y.op == "fld" and y.args[1] == "protocol_version"))
                    ctx.test(good, "server-version", "answer", "version", where(fr, line), f"the server answers initialize with version `{show(x)[:100]}`, which is not known to be in its supported list", backtrace(fr, line))
                cp = ip.snap(st, field(v, "capabilities"))
                ctx.test(cp.op == "fld" and cp.args[1] == "capabilities" and SELF(cp.args[0]), "server-version", "capabilities", "caps", where(fr, line), f"the server advertises `{show(cp)[:100]}` instead of its own capabilities")
                for nm in ("initialized", "client_capabilities"):
                    ctx.test(self.has(st, "stored", nm), "server-record", ("before", nm), f"{nm}:unrecorded", where(fr, line), f"initialize is answered without `{nm}` having been recorded")

    r = Sv(ctx)
    run_entry(ctx, r, need1(F, "server::Server::handle_request"))
    if not r.n or not supported:
        raise Anchor("the server's initialize answer")
    ctx.floor("server-record", 3)


def c08(ctx):
    ctx.rule("released", "on every way a client operation can end, what it entered into the table of active requests has been removed again")
    ctx.rule("registered", "a request is entered into the table under the id it is sent with, before it is sent")

    class R(Cl):
        n = 0

        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if is_map(c, "insert") and coll_name(c.args[0]) == "active_requests":
                self.add(st, "ins", c.args[1])
            if is_map(c, "remove", "remove_entry") and coll_name(c.args[0]) == "active_requests":
                st.auto = frozenset(l for l in st.auto if not (l[0] == "ins" and l[1] is c.args[1]))

        def on_send(self, ip, st, m, fr, line):
            if is_adt(m, "TransportMessage") and m.args[1] == "Request":
                ctx.test(any(l[1] is field(m, "id") for l in self.sets(st, "ins")), "registered", self.name, f"{self.name}:unregistered", where(fr, line), f"{self.name} sends a request that is not in the table of active requests under its id", backtrace(fr, line))
                self.add(st, "did-send")

        def on_return(self, ip, st, v):
            left = self.sets(st, "ins")
            how = "ok" if any(is_adt(a, "Result") and a.args[1] == "Ok" for a in alts(v)) else "err"
            sent = tuple(sorted(l[1] for l in self.sets(st, "sent"))) + tuple(sorted(l[1] for l in self.sets(st, "recv")))
            if not self.has(st, "did-send") and not left:
                return
            ctx.test(not left, "released", (self.name, how) + sent, f"{self.name}:leak", ip.root.where(), f"{self.name} can end ({how}; transport outcomes {sent}) with its request still in the table of active requests")

    each(ctx, R)
    ctx.floor("registered", 14)
    ctx.floor("released", 28)


def c09(ctx):
    F = ctx.F
    ctx.rule("client-match", "a client operation accepts an answer only after comparing its id with the request's id")
    ctx.rule("by-id", "the engine completes a pending request only with the entry stored under the given id, after comparing the entry's transport with the answering transport")
    ctx.rule("payload", "what the waiting caller receives is the given response")
    ctx.rule("kept", "an entry that was taken out but not completed is put back; no other entry is touched")
    ctx.rule("registered", "registering stores, under the given id and the engine's own transport, the sender whose receiver is returned")

    class R(Cl):
        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def on_send(self, ip, st, m, fr, line):
            if is_adt(m, "TransportMessage") and m.args[1] == "Request":
                self.add(st, "id", field(m, "id"))

        def on_return(self, ip, st, v):
            if not self.sets(st, "id"):
                return
            ids = [l[1] for l in self.sets(st, "id")]
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                good = False
                for l in self.sets(st, "eq"):
                    for x, y in ((l[1], l[2]), (l[2], l[1])):
                        if x.op == "fld" and x.args[1] == "id" and has_call(x, "Transport::receive") and y in ids:
                            good = True
                ctx.test(good, "client-match", self.name, "client:send_request", ip.root.where(), "the client takes the next response it receives as the answer to its request without comparing ids")

    each(ctx, R)
    ctx.floor("client-match", 13)

    fns = [k for k, b in F.bodies.items() if b["kind"] == "fn" and re.search(r"protocol::Protocol::\w+$", k) and uses_field(F, k, "pending_requests")]
    if len(fns) < 4:
        raise Anchor(f"functions of the protocol engine using the pending table: {fns}")
    IDS = isin("id")

    class P(Labels):
        init = frozenset()

        def __init__(self, name, can):
            self.ctx, self.name, self.can = ctx, name, can

        def on_fact(self, ip, st, t, o, fr, line):
            e = eqfact(t, o)
            if e:
                self.add(st, "eq", *e)
            q = presence(t) if t.op == "call" else None
            if q and q[0] == "pending_requests" and isinstance(o, frozenset) and len(o) == 1:
                self.add(st, "entry", q[2], next(iter(o)), t)

        def after_call(self, ip, st, c, res):
            n = tail(c)
            site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            if is_map(c, "insert", "remove", "remove_entry", "clear", "retain", "drain", "get_mut", "entry") and coll_name(c.args[0]) == "pending_requests":
                if n in ("clear", "retain", "drain"):
                    ctx.bad("kept", (self.name, n), f"{self.name}:{n}", site, f"{self.name} removes other requests from the pending table", tr)
                    return
                k = c.args[1]
                ctx.test(IDS(k), "kept", (self.name, n, "key"), f"{self.name}:{n}:key", site, f"{self.name} touches the pending entry of `{show(k)[:80]}`", tr)
                if n == "insert":
                    v = c.args[2]
                    put = entry_of("pending_requests", IDS)(v)
                    if put:
                        self.add(st, "putback")
                    elif v.op == "agg":
                        tid = field(v, "transport_id")
                        ctx.test(tid is not None and tid.op == "fld" and tid.args[1] == "transport_id" and SELF(tid.args[0]), "registered", "transport", f"{self.name}:transport", site, f"a request is registered for transport `{show(tid)[:80]}`", tr)
                        ch = [x for x in subterms(v) if x.op == "call" and x.args[0].endswith("oneshot::channel")]
                        self.add(st, "chan", ch[0] if ch else None)
                    else:
                        ctx.bad("kept", (self.name, "insert"), f"{self.name}:insert", site, f"{self.name} stores `{show(v)[:80]}` in the pending table", tr)
            if n == "send" and "oneshot::Sender" in path_of(c):
                own = entry_of("pending_requests", IDS)
                ctx.test(contains(c.args[0], own), "by-id", (self.name, "sender"), f"{self.name}:sender", site, f"{self.name} answers `{show(c.args[0])[:100]}`, which is not the entry stored under the given id", tr)
                rem = any(l[1] in ("remove", "remove_entry") and l[2] == "Some" for l in self.sets(st, "entry"))
                ctx.test(rem, "by-id", (self.name, "taken"), f"{self.name}:taken", site, f"{self.name} completes an entry it has not taken out of the table", tr)
                tr_ok = False
                for l in self.sets(st, "eq"):
                    for a, b in ((l[1], l[2]), (l[2], l[1])):
                        if a.op == "fld" and a.args[1] == "transport_id" and contains(a, lambda x: own(x)) and (isin("transport_id")(b) or (b.op == "fld" and b.args[1] == "transport_id" and SELF(b.args[0]))):
                            tr_ok = True
                ctx.test(tr_ok, "by-id", (self.name, "transport"), f"{self.name}:transport", site, f"{self.name} completes a request without the answering transport having been compared with the one it was sent on", tr)
                ctx.test(isin("response")(c.args[1]), "payload", self.name, f"{self.name}:payload", site, f"{self.name} hands `{show(c.args[1])[:100]}` to the waiting caller", tr)
                self.add(st, "completed")

        def on_spawn(self, ip, st, task, c):
            if contains(task, entry_of("pending_requests", IDS)):
                self.add(st, "completed")

        def on_return(self, ip, st, v):
            took = any(l[1] in ("remove", "remove_entry") and l[2] == "Some" for l in self.sets(st, "entry"))
            if self.can:
                bad = took and not self.has(st, "completed") and not self.has(st, "putback")
                ctx.test(not bad, "kept", (self.name, "end"), f"{self.name}:lost", ip.root.where(), f"{self.name} can end with a pending request removed but not answered")
                for a in alts(v):
                    x = a.args[3][0] if is_adt(a, "Result") and a.args[1] == "Ok" else None
                    if x is not None and isinstance(lit(x), bool):
                        ctx.test(lit(x) == self.has(st, "completed"), "payload", (self.name, lit(x)), f"{self.name}:return", ip.root.where(), f"{self.name} returns {lit(x)} although it has {'not ' if lit(x) else ''}completed a request")
            for l in self.sets(st, "chan"):
                same = l[1] is not None and contains(v, lambda x: x is l[1])
                ctx.test(same, "registered", "receiver", f"{self.name}:receiver", ip.root.where(), "the returned receiver does not belong to the stored sender")

    for k in fns:
        name = k.rsplit("::", 1)[-1]
        run_entry(ctx, P(name, "response" in [n for n, _ in F.bodies[k]["dbg"]]), k, inline_spawn=True)
    ctx.floor("by-id", 6)
    ctx.floor("payload", 2)
    ctx.floor("registered", 2)
    ctx.floor("kept", 4)


def uses_field(F, key, f):
    import json

    return f'"{f}"' in json.dumps(F.bodies[key]["blocks"])


def c44(ctx):
    ctx.rule("request", "each client operation sends exactly one request, of its own kind")
    ctx.rule("arguments", "the request carries the caller's arguments unchanged")
    ctx.rule("result", "an operation succeeds only with a result answer, and what it returns is what that answer contains")
    ctx.rule("error", "an error answer is returned as an error carrying its message and data; a parsed result is never turned into an error")

    class R(Cl):
        def __init__(self, name):
            self.ctx, self.name = ctx, name

        def on_send(self, ip, st, m, fr, line):
            k = kind(m)
            if k[0] != "Request":
                return
            site, tr = where(fr, line), backtrace(fr, line)
            want = OPS.get(self.name)
            ctx.test(want == k[1], "request", self.name, f"{self.name}:{k[1]}", site, f"{self.name} sends a {k[1]} request", tr)
            ctx.test(not self.has(st, "did-send"), "request", (self.name, "once"), f"{self.name}:twice", site, f"{self.name} sends more than one request", tr)
            self.add(st, "did-send")
            params = [n for n, pl in ip.root.body.get("dbg", ()) if n != "self"]
            body = k[2]
            vals = list(body.args[3]) if body is not None and body.op == "agg" else []
            if len(vals) == 1 and vals[0].op == "agg" and vals[0].args[0] not in ("closure",):
                inner = vals[0]
                pairs = list(zip(inner.args[2], inner.args[3]))
            elif body is not None and body.op == "agg":
                pairs = list(zip(body.args[2], body.args[3]))
            else:
                pairs = []
            for f, x in pairs:
                if self.name == "initialize" and f in ("protocol_version", "client_info"):
                    continue
                whole = x.op == "in" and (f == "0" or x.args[0] == f)
                # an Option parameter may have been taken apart and rebuilt
                reb = is_adt(x, "Option") and contains(x, lambda y: y.op == "in" and y.args[0] == f) and not contains(x, lambda y: y.op in ("call", "op"))
                ctx.test(whole or reb, "arguments", (self.name, f), f"{self.name}:{f}", site, f"{self.name} sends `{f}` = `{show(x)[:100]}` instead of the caller's argument", tr)

        def on_return(self, ip, st, v):
            if self.name not in OPS:
                return
            site = ip.root.where()
            for a in alts(v):
                if not is_adt(a, "Result"):
                    ctx.test(a.op == "call" and a.args[0].endswith("from_value") and has_call(a, "Transport::receive") and self.has(st, "payload", "Result"), "result", (self.name, "opaque"), f"{self.name}:opaque", site, f"{self.name} returns `{show(a)[:120]}`")
                    continue
                if a.args[1] == "Ok":
                    ctx.test(self.has(st, "did-send") and self.has(st, "payload", "Result"), "result", self.name, f"{self.name}:result", site, f"{self.name} can succeed without having received a result")
                    p = a.args[3][0]
                    unit = p.op == "agg" and p.args[0] == "tuple" and not p.args[3]
                    if not unit:
                        for x in alts(p):
                            good = x.op == "fld" and x.args[0].op == "dc" and x.args[0].args[0].op == "call" and x.args[0].args[0].args[0].endswith("from_value") and contains(x, lambda y: y.op == "dc" and y.args[1] == "Result") and has_call(x, "Transport::receive")
                            ctx.test(good, "result", (self.name, "value"), f"{self.name}:value", site, f"{self.name} returns `{show(x)[:120]}`, not what the answer contains")
                else:
                    if self.has(st, "payload", "Error"):
                        e = a.args[3][0]
                        good = all(contains(e, lambda y, f=f: y.op == "fld" and y.args[1] == f and has_call(y, "Transport::receive")) for f in ("message", "data") if not (f == "data" and self.has(st, "data", "None")))
                        whole = contains(e, lambda y: y.op == "fld" and y.args[0].op == "dc" and y.args[0].args[1] == "Error")
                        ctx.test(good and whole, "error", self.name, f"{self.name}:error", site, f"{self.name} turns the server's error into `{show(e)[:160]}`")
                    elif self.has(st, "payload", "Result") and (self.has(st, "parsed", "Ok") or not self.sets(st, "parsed")) and self.name != "initialize":
                        ctx.bad("error", (self.name, "spurious"), f"{self.name}:spurious", site, f"{self.name} can fail although a well-formed result was received")

    each(ctx, R)
    ctx.floor("request", 28)
    ctx.floor("arguments", 12)
    ctx.floor("result", 14)
    ctx.floor("error", 14)


CHECKS = {"C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C44": c44}
