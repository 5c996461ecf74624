"""Server side: request loop, dispatch, responses (C01, C02, C04, C43 server part)"""
from lib import *

HANDLERS = {
    "CallTool": "server::ToolHandler::handle",
    "GetPrompt": "server::PromptHandler::handle",
    "ListResources": "server::ResourceHandler::list",
    "ReadResource": "server::ResourceHandler::read",
    "CreateMessage": "server::SamplingHandler::create_message",
}


def is_recv(v):
    return v.op == "await" and v.args[0].op == "call" and v.args[0].args[0].endswith("Transport::receive")


class ServerLoop(PathRule):
    """follows one request at a time through Server::run: auto = (state, id term, request term, variant, handler outcome)"""

    max_depth = 18
    init = ("idle", None, None, None, None)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.received = 0
        self.sent = 0

    def on_fact(self, ip, st, t, o, fr, line):
        if not isinstance(o, frozenset):
            return
        if t.op == "fld" and t.args[0].op == "dc" and is_recv(t.args[0].args[0]):
            if o == frozenset(["Request"]):
                rq = mk("dc", t, "Request")
                st.auto = ("pending", rq, None, None, None)
                self.received += 1
            return
        s = st.auto
        if s[0] != "pending":
            return
        # which request
        root = s[1]
        if len(o) == 1 and t.op in ("fld", "dc", "call", "await"):
            n = next(iter(o))
            if t.op == "fld" and t.args[1] == "request" and t.args[0] is root:
                st.auto = (s[0], root, None, n, None)
                return
            if t.op == "fld" and t.args[0].op == "dc" and t.args[0].args[1] == "Client" and contains(t, lambda x: x is root) and s[3] == "Client":
                st.auto = (s[0], root, t, n, None)
                return
        # handler outcome
        if t.op == "await" and t.args[0].op == "call" and any(t.args[0].args[0].endswith(h) for h in HANDLERS.values()) and len(o) == 1:
            st.auto = s[:4] + ((next(iter(o)), t),)

    def on_spawn(self, ip, st, task, c):
        if st.auto[0] == "pending" and contains(task, lambda x: x is st.auto[1]):
            st.auto = self.init  # the task owns the request now

    def on_task_end(self, ip, st, val, fr):
        self.at_end(ip, st, fr, fr.line or fr.body["line"])

    def on_return(self, ip, st, val):
        self.at_end(ip, st, ip.root, ip.root.body["line"])

    def at_end(self, ip, st, fr, line):
        pass

    def on_await(self, ip, st, fut, fr, line):
        if fut.op != "call":
            return
        n = fut.args[0]
        if n.endswith("Transport::receive"):
            self.on_receive(ip, st, fr, line)
            st.auto = self.init
        elif n.endswith("Transport::send"):
            msg = fut.args[1][1] if len(fut.args[1]) > 1 else TOP
            for m in alts(msg):
                if is_adt(m, "TransportMessage") and m.args[1] == "Response":
                    self.sent += 1
                    self.on_response(ip, st, m.args[3][0], fr, line)
                elif not (is_adt(m, "TransportMessage")):
                    self.on_unknown(ip, st, m, fr, line)
        elif any(n.endswith(h) for h in HANDLERS.values()):
            self.on_handler(ip, st, fut, fr, line)

    def on_receive(self, ip, st, fr, line):
        pass

    def on_response(self, ip, st, resp, fr, line):
        pass

    def on_unknown(self, ip, st, m, fr, line):
        pass

    def on_handler(self, ip, st, fut, fr, line):
        pass


def loop(ctx, rule):
    key = need1(ctx.F, "server::Server::run")
    run_entry(ctx, rule, key, inline_spawn=True)
    if not rule.received:
        raise Anchor("no request is ever received in Server::run")


# ----------------------------------------------------------------------------------------------- C01


def c01(ctx):
    ctx.rule("exactly-one", "in Server::run every request taken from the transport is answered by exactly one Response before the next message is received or the task ends")
    ctx.rule("same-id", "the id of a sent Response is the id of the request being answered (the very term, for every path)")
    ctx.rule("only-requests", "a Response is sent only while a request is pending")

    class R(ServerLoop):
        def on_receive(self, ip, st, fr, line):
            site = where(fr, line)
            if st.auto[0] == "pending":
                ctx.bad("exactly-one", ("recv", root_fn(fr.key)), "dropped-request", site, f"the next message is received although the previous request ({st.auto[3]}) has not been answered", backtrace(fr, line))
            else:
                ctx.ok("exactly-one", ("recv", root_fn(fr.key)), site)

        def at_end(self, ip, st, fr, line):
            site = where(fr, line)
            if st.auto[0] == "pending":
                ctx.bad("exactly-one", ("end", root_fn(fr.key)), f"end-without-answer:{st.auto[3]}", site, f"the task can end without answering a received request ({st.auto[3]})", backtrace(fr, line))
            else:
                ctx.ok("exactly-one", ("end", root_fn(fr.key)), site)

        def on_response(self, ip, st, resp, fr, line):
            site = where(fr, line)
            s = st.auto
            if s[0] != "pending":
                ctx.bad("only-requests", root_fn(fr.key), f"unsolicited:{s[0]}", site, "a Response is sent although no request is pending (second answer, or an answer to something that is not a request)", backtrace(fr, line))
                return
            ctx.ok("only-requests", root_fn(fr.key), site)
            want = mk("fld", s[1], "id", "")
            got = field(resp, "id")
            good = got is not None and all(g.op == "fld" and g.args[0] is s[1] and g.args[1] == "id" for g in alts(got))
            ctx.test(good, "same-id", (root_fn(fr.key), s[3]), f"wrong-id:{s[3]}", site, f"the response to {s[3]} carries id `{show(got) if got is not None else '?'}` instead of the request's id", backtrace(fr, line))
            st.auto = ("done",) + s[1:]

        def on_unknown(self, ip, st, m, fr, line):
            ctx.bad("same-id", (root_fn(fr.key), "unknown"), "unknown-message", where(fr, line), f"a message of unknown kind is sent: {show(m)[:200]}", backtrace(fr, line))

    r = R(ctx)
    loop(ctx, r)
    ctx.floor("exactly-one", 2)
    ctx.floor("same-id", 10, "one instance per request kind")


# ----------------------------------------------------------------------------------------------- C02


def payload(resp):
    p = field(resp, "payload")
    if p is not None and p.op == "agg":
        return p.args[1], p.args[3][0] if p.args[3] else TOP
    return None, TOP


def c02(ctx):
    ctx.rule("failure", "a request whose handler failed, or that has no handler, is answered with an error payload built from that failure (or a tool result flagged is_error)")
    ctx.rule("success", "a request whose handler succeeded is answered with a result payload built from the handler's value (an error only if serialising it failed)")
    seen = set()

    class R(ServerLoop):
        def on_response(self, ip, st, resp, fr, line):
            s = st.auto
            if s[0] != "pending":
                return
            var, oc = s[3], s[4]
            seen.add(var)
            kind, val = payload(resp)
            site = where(fr, line)
            tr = backtrace(fr, line)
            st.auto = ("done",) + s[1:]
            if kind is None:
                ctx.bad("success", var, f"unknown-payload:{var}", site, f"the payload of the response to {var} is not known: {show(resp)[:200]}", tr)
                return
            if var == "Server":
                ctx.test(kind == "Error", "failure", var, "server-request", site, "a server-to-client request received by the server is answered with a success result", tr)
                return
            ser = contains(val, lambda x: x.op == "dc" and x.args[1] == "Err" and x.args[0].op == "call" and "serde_json" in x.args[0].args[0])
            iserr = [field(x, "is_error") for x in subterms(val) if is_adt(x, "CallToolResult")]
            if var in HANDLERS:
                if oc is None:
                    if var == "ListResources":
                        return
                    ctx.test(kind == "Error" or any(lit(e) is True for e in iserr), "failure", (var, "absent"), f"absent:{var}", site, f"{var} without a registered handler is answered with a success result", tr)
                elif oc[0] == "Err":
                    err = mk("dc", oc[1], "Err")
                    good = kind == "Error" and contains(val, lambda x: x is err)
                    good = good or any(lit(e) is True for e in iserr)
                    ctx.test(good, "failure", (var, "err"), f"err:{var}", site, f"the handler of {var} failed, but the response is {kind} with `{show(val)[:160]}`", tr)
                else:
                    okv = mk("dc", oc[1], "Ok")
                    good = kind == "Result" and contains(val, lambda x: x is okv) and all(lit(e) is False for e in iserr)
                    ctx.test(good or (kind == "Error" and ser), "success", (var, "ok"), f"ok:{var}", site, f"the handler of {var} succeeded, but the response is {kind} with `{show(val)[:160]}`", tr)
            elif var == "ElicitInputResponse":
                fail = contains(val, lambda x: x.op == "dc" and x.args[1] == "Err")
                ctx.ok("failure", (var, kind), site)
            else:
                ctx.test(kind == "Result" or ser, "success", var, f"plain:{var}", site, f"{var} is always answered successfully, but here the response is {kind} `{show(val)[:160]}`", tr)

    r = R(ctx)
    loop(ctx, r)
    for v in HANDLERS:
        if v not in seen:
            raise Anchor(f"no response for {v} found")
    ctx.floor("failure", 9)
    ctx.floor("success", 10)


# ----------------------------------------------------------------------------------------------- C04

LOSSY = ("filter", "take", "skip", "step_by", "filter_map", "take_while", "skip_while", "find", "nth", "find_map", "flat_map", "dedup", "truncate", "map_while", "zip")


def lossy(v):
    return [x for x in subterms(v) if x.op == "call" and x.args[0].rsplit("::", 1)[-1] in LOSSY and "terator" in x.args[0]]


def get_call(v):
    """v is the value found in a map: returns (map, key)"""
    while True:
        if v.op == "fld" and v.args[0].op == "dc" and v.args[0].args[1] == "Some":
            v = v.args[0].args[0]
            continue
        if v.op == "call" and v.args[0].rsplit("::", 1)[-1] in ("get", "get_mut") and len(v.args[1]) == 2:
            return v.args[1]
        if v.op == "call" and v.args[0].endswith("Index::index") and len(v.args[1]) == 2:
            return v.args[1]
        if v.op == "phi":
            rs = [get_call(x) for x in v.args[0]]
            return rs[0] if rs and all(r is not None and r == rs[0] for r in rs) else None
        return None


def strip_some(v):
    while v.op == "fld" and v.args[0].op == "dc" and v.args[0].args[1] == "Some":
        v = v.args[0].args[0]
    return v


def same(v, w):
    return v is w or (v.op == w.op == "fld" and v.args[0] is w.args[0] and v.args[1] == w.args[1])


def c04(ctx):
    ctx.rule("lookup", "tools/call and prompts/get run the handler stored in the matching table under exactly the requested name")
    ctx.rule("arguments", "the handler receives the request's own arguments / uri / cursor / parameters, unchanged")
    ctx.rule("context", "the handler's context carries the request id of the request being served")
    ctx.rule("listing", "tools/list and prompts/list name every key of the table used for lookup (no element of the iteration is dropped)")
    ctx.rule("registration", "the builder stores each handler under exactly the name it was given and build() moves all tables into the server")
    lists = {}

    class R(ServerLoop):
        def on_handler(self, ip, st, fut, fr, line):
            s = st.auto
            if s[0] != "pending" or s[2] is None:
                return
            site, tr = where(fr, line), backtrace(fr, line)
            var = s[3]
            h = [k for k, v in HANDLERS.items() if fut.args[0].endswith(v)][0]
            ctx.test(h == var, "lookup", (var, "kind"), f"wrong-handler-kind:{var}:{h}", site, f"a {var} request is given to the handler for {h}", tr)
            if h != var:
                return
            recv, args = fut.args[1][0], fut.args[1][1:]
            req = mk("fld", mk("dc", s[2], var), "0", "")

            def rf(v, n):
                # v is request.<n>
                return all(x.op == "fld" and x.args[1] == n and x.args[0].op == "fld" and x.args[0].args[1] == "0" and x.args[0].args[0] is mk("dc", s[2], var) for x in alts(v))

            table = {"CallTool": "tools", "GetPrompt": "prompts"}.get(var)
            if table:
                g = get_call(recv)
                good = g is not None and g[0].op == "fld" and g[0].args[1] == table and rf(g[1], "name")
                ctx.test(good, "lookup", (var, "name"), f"lookup:{var}", site, f"the handler for {var} is `{show(recv)[:160]}`, not the entry of `{table}` under the requested name", tr)
            else:
                f = {"ListResources": "resources", "ReadResource": "resources", "CreateMessage": "sampling"}[var]
                good = all(strip_some(x).op == "fld" and strip_some(x).args[1] == f for x in alts(recv))
                ctx.test(good, "lookup", (var, "slot"), f"lookup:{var}", site, f"the handler for {var} is `{show(recv)[:160]}`, not the registered `{f}` handler", tr)
            if var in ("CallTool", "GetPrompt"):
                good = rf(args[0], "arguments")
            elif var == "ReadResource":
                good = rf(args[0], "uri")
            elif var == "ListResources":
                good = rf(args[0], "cursor")
            else:
                good = all(x.op == "fld" and x.args[0] is mk("dc", s[2], var) for x in alts(args[0]))
            ctx.test(good, "arguments", var, f"args:{var}", site, f"the handler for {var} receives `{show(args[0])[:160]}` instead of the request's own value", tr)
            idt = mk("fld", s[1], "id", "")
            ex = field(args[-1], "request_id") if args[-1].op == "agg" else None
            good = ex is not None and contains(ex, lambda x: x.op == "fld" and x.args[0] is s[1] and x.args[1] == "id")
            ctx.test(good, "context", var, f"ctx:{var}", site, f"the context given to the handler of {var} has request_id `{show(ex)[:120] if ex is not None else '?'}`", tr)

        def on_agg(self, ip, st, v, fr, line):
            for n, fld, tab in (("ListToolsResult", "tools", "tools"), ("ListPromptsResult", "prompts", "prompts")):
                if is_adt(v, n) and st.auto[0] == "pending":
                    x = ip.snap(st, field(v, fld))
                    site = where(fr, line)
                    good = contains(x, lambda y: y.op == "fld" and y.args[1] == tab and y.args[0].op == "in") and not lossy(x)
                    lists[n] = 1
                    ctx.test(good, "listing", n, f"listing:{n}", site, f"{n}.{fld} is `{show(x)[:200]}`, which is not the complete key set of self.{tab}", backtrace(fr, line))

        def after_call(self, ip, st, c, res):
            # loops over the table must not skip elements: name inserted on every iteration is checked by `listing`
            pass

    r = R(ctx)
    loop(ctx, r)
    for v in ("lookup", "arguments", "context"):
        ctx.floor(v, 5)
    ctx.floor("listing", 2)
    for tab in ("tools", "prompts"):
        src = lambda t, tab=tab: contains(t, lambda y: y.op == "fld" and y.args[1] == tab and y.args[0].op == "in")
        e = EachElement(ctx, "listing", tab + "-loop", f"listing-skips:{tab}", src, lambda c: tail(c) in ("push", "push_back", "insert", "extend"), f"the loop over self.{tab} can skip an entry of the listing")
        run_entry(ctx, e, need1(ctx.F, "server::Server::handle_request"))

    # builder
    class B(PathRule):
        def __init__(self, ctx, tab):
            super().__init__(ctx)
            self.tab = tab
            self.init = False
            self.ins = 0

        def after_call(self, ip, st, c, res):
            if is_map(c, "insert") and len(c.args) == 3:
                tgt = base_of(c.args[0])
                if tgt.op == "fld" and tgt.args[1] == self.tab:
                    good = contains_in(c.args[1], "name") and contains_in(c.args[2], "handler") and only_into(c.args[1], "name")
                    ctx.test(good, "registration", self.tab, f"insert:{self.tab}", where(c.frame, c.line), f"`{self.tab}` is filled with key `{show(c.args[1])[:80]}` and value `{show(c.args[2])[:80]}`")
                    st.auto = True
                    self.ins += 1

        def on_return(self, ip, st, v):
            ctx.test(st.auto, "registration", self.tab + "-always", f"not-registered:{self.tab}", ip.root.where(), f"a path through the builder returns without storing the handler in `{self.tab}`")

    for fn, tab in (("ServerBuilder::tool", "tools"), ("ServerBuilder::prompt", "prompts")):
        run_entry(ctx, B(ctx, tab), need1(ctx.F, "server::" + fn))

    class Bd(PathRule):
        n = 0

        def on_agg(self, ip, st, v, fr, line):
            if is_adt(v, "server::Server"):
                self.n += 1
                for f in ("tools", "prompts", "resources", "sampling", "capabilities"):
                    x = ip.snap(st, field(v, f))
                    good = x.op == "fld" and x.args[1] == f and x.args[0].op == "in"
                    ctx.test(good, "registration", "build-" + f, f"build:{f}", where(fr, line), f"build() stores `{show(x)[:120]}` in Server.{f}")

    run_entry(ctx, Bd(ctx), need1(ctx.F, "server::ServerBuilder::build"))
    ctx.floor("registration", 8)


def base_of(v):
    while v.op == "mut":
        v = v.args[0]
    return v


def contains_in(v, name):
    return contains(v, lambda x: x.op == "in" and x.args[0] == name)


def only_into(v, name):
    """v is the parameter, possibly through an (unresolved generic) Into/AsRef/ToString conversion"""
    if v.op == "in":
        return v.args[0] == name
    if v.op == "call":
        return v.args[0].rsplit("::", 1)[-1] in ("into", "from", "to_string", "to_owned", "as_ref") and any(only_into(x, name) for x in v.args[1])
    return False


CHECKS = {"C01": c01, "C02": c02, "C04": c04}
