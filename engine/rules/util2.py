"""Method tables, middleware, batches, recovery, watcher, error conversion: C03, C34, C35, C37, C38, C39"""
from lib import *
from lib import exactly as plainly
from lib import plainly as _plainly
from rules.util import methods, name, empty_fact, param, strip, tbl, bare
from rules.server import ServerLoop, loop

ENUMS = {
    ("Request", "Client"): "ClientRequest",
    ("Request", "Server"): "ServerRequest",
    ("Notification", "Client"): "ClientNotification",
    ("Notification", "Server"): "ServerNotification",
}


def enum_names(F, suffix):
    ks = [k for k in F.enums if k.endswith("types::protocol::" + suffix)]
    if len(ks) != 1:
        raise Anchor(suffix)
    e = F.enums[ks[0]]
    return [e[i] for i in sorted(e)] if isinstance(e, dict) else list(e)


def text(v):
    """the text a term stands for, when it is a literal"""
    p = fmt_pieces(v)
    while len(p) == 1 and p[0][0] == "arg" and p[0][1].op == "call" and name(p[0][1].args[0]) in ("to_string", "to_owned", "from", "into", "clone", "as_str") and p[0][1].args[1]:
        p = fmt_pieces(p[0][1].args[1][0])
    return p[0][1] if len(p) == 1 and p[0][0] == "lit" else None


def c03(ctx):
    F = ctx.F
    ctx.rule("encoder", "every kind of request and notification is written under one method name of its own, with its own parameters")
    ctx.rule("decoder", "the name a kind is written under is the one it is recognised by, and no two kinds of one table share a name")
    ctx.rule("read", "what is decoded is the received message's own method and parameters, and a kind handled by name is handled under its own name")
    ctx.rule("blank", "leaving parameters out and sending empty ones is the same: a message is refused only after both forms were tried")
    ctx.rule("dispatch", "each list request is answered with the result of that very operation")
    enc = {}  # (table, variant) -> {literal: where}
    for fn, outer in (("protocol_helpers::create_request", "Request"), ("protocol_helpers::create_notification", "Notification")):
        for key in need(F, fn):
            encoder(ctx, key, outer, enc)
    for outer in ("Request", "Notification"):
        for v in enum_names(F, outer):
            t = ENUMS.get((outer, v))
            for k in [(t, x) for x in enum_names(F, t)] if t else [(outer, v)]:
                got = enc.get(k, {})
                ctx.test(len(got) == 1 and None not in got, "encoder", k, f"encoder:{k[0]}::{k[1]}", next(iter(got.values()), "protocol_helpers"), f"{k[0]}::{k[1]} is written under {sorted(map(str, got)) or 'no method name'}")
    dec, ser = {}, {}
    for t in ENUMS.values():
        names = enum_names(F, t)
        dec[t] = decoder(ctx, t, names)
        ser[t] = serializer(ctx, t, names)
        back = {}
        for v in names:
            e = next(iter(enc.get((t, v), {None: 0})))
            for s in dec[t].get(v, ()):
                back.setdefault(s, []).append(v)
            w = where_of(F, t)
            ctx.test(e is not None and e in dec[t].get(v, ()), "decoder", (t, v), f"decoder:{t}::{v}", w, f"{t}::{v} is written as `{e}`, but recognised by {sorted(dec[t].get(v, ()))}")
            if ser[t] is not None:
                ctx.test(ser[t].get(v) == {e}, "decoder", (t, v, "serialize"), f"serialize:{t}::{v}", w, f"{t}::{v} is written as `{e}` by the protocol helpers, but as {sorted(map(str, ser[t].get(v, ())))} by its Serialize implementation")
        for s, vs in back.items():
            ctx.test(len(vs) == 1, "decoder", (t, s), f"shared:{t}:{s}", where_of(F, t), f"`{s}` names {vs}")
        wr = {}
        for v in names:
            for s in enc.get((t, v), ()):
                wr.setdefault(s, []).append(v)
        for s, vs in wr.items():
            ctx.test(len(vs) == 1, "encoder", (t, s), f"written-twice:{t}:{s}", where_of(F, t), f"`{s}` is written for {vs}")
    reader(ctx, enc)
    dispatcher(ctx)
    ctx.floor("encoder", 50)
    ctx.floor("decoder", 60)
    ctx.floor("read", 6)
    ctx.floor("blank", 4)
    ctx.floor("dispatch", 4)


def where_of(F, t):
    for k, b in F.bodies.items():
        if t in k and b.get("derived"):
            return f"{b['file']}:{b['line']} in {t}"
    return t


def encoder(ctx, key, outer, enc):
    arg = [n for n, pl in ctx.F.bodies[key].get("dbg", []) if len(pl) == 1 and pl[0] <= ctx.F.bodies[key]["args"]][-1]

    class R(PathRule):
        init = (None, None, None)  # outer variant, inner variant, inner term

        def on_fact(self, ip, st, t, o, fr, line):
            if not isinstance(o, frozenset) or len(o) != 1 or not contains_in(t, arg):
                return
            v = next(iter(o))
            if st.auto[0] is None and t.op == "in":
                st.auto = (v, None, None)
            elif st.auto[0] is not None and st.auto[1] is None and ENUMS.get((outer, st.auto[0])):
                if v in enum_names(ctx.F, ENUMS[(outer, st.auto[0])]):
                    st.auto = (st.auto[0], v, t)

        def on_return(self, ip, st, v):
            o, i, t = st.auto
            k = (ENUMS.get((outer, o)), i) if ENUMS.get((outer, o)) else (outer, o)
            for a in alts(v):
                m, p = field(a, "method"), field(a, "params")
                if m is None:
                    ctx.bad("encoder", key, f"shape:{outer}", ctx.F.bodies[key]["file"], f"{name(key)} returns `{show(a)[:120]}`, whose method is not known")
                    continue
                for x in alts(m):
                    enc.setdefault(k, {}).setdefault(text(x), f"{ctx.F.bodies[key]['file']} in {name(key)}")
                if i is not None:
                    # a kind with a payload carries that payload
                    own = lambda y: (y.op == "dc" and y.args[0] is t and y.args[1] == i)
                    has = payloads(ctx.F, ENUMS[(outer, o)], i)
                    if has:
                        ctx.test(p is not None and contains(ip.snap(st, p), own), "encoder", k + ("params",), f"params:{k[0]}::{k[1]}", f"{ctx.F.bodies[key]['file']} in {name(key)}", f"{k[0]}::{k[1]} is written with the parameters `{show(p)[:160]}`, not with its own")

    run_entry(ctx, R(ctx), key)


def payloads(F, t, v):
    """variant v of t carries data: some body projects a field out of it"""
    c = F.__dict__.setdefault("_payloads", {})
    if t not in c:
        c[t] = set()
        for k, b in F.bodies.items():
            if b.get("derived") and k.endswith(f"types::protocol::{t} as std::clone::Clone>::clone"):
                import json

                for m in re.finditer(r'\["v", "(\w+)"\], \["\."', json.dumps(b["blocks"])):
                    c[t].add(m.group(1))
    return v in c[t]


def contains_in(v, n):
    return contains(v, lambda x: x.op == "in" and x.args[0] == n)


def decoder(ctx, t, names):
    """variant -> names recognised for it (derived Deserialize: the n-th name selects the n-th variant)"""
    out = {}
    ks = [k for k in ctx.F.bodies if f"types::protocol::{t}>::deserialize::__FieldVisitor as" in k and k.endswith("visit_str") and "__Seed" not in k]
    if not ks:
        raise Anchor(f"the derived decoder of {t}")
    for k in ks:

        class R(PathRule):
            def on_fact(self, ip, st, f, o, fr, line):
                if o is True and f.op in ("op", "call"):
                    for x in subterms(f):
                        if x.op == "c" and isinstance(lit(x), str):
                            st.auto = lit(x)

            def on_return(self, ip, st, v):
                for a in alts(v):
                    if is_adt(a, "Result") and a.args[1] == "Ok":
                        m = re.match(r"__field(\d+)$", str(a.args[3][0].args[1])) if a.args[3][0].op == "agg" else None
                        if m and st.auto is not None and int(m.group(1)) < len(names):
                            out.setdefault(names[int(m.group(1))], set()).add(st.auto)
                        else:
                            ctx.bad("decoder", t, f"decoder-shape:{t}", where_of(ctx.F, t), f"the decoder of {t} accepts a name as `{show(a)[:120]}`")

        run_entry(ctx, R(ctx), k)
    return out


def serializer(ctx, t, names):
    ks = [k for k in ctx.F.bodies if k.endswith(f"types::protocol::{t}>::serialize") and ctx.F.bodies[k]["kind"] == "fn"]
    if not ks:
        return None
    out = {}

    class R(PathRule):
        max_depth = 2

        def on_fact(self, ip, st, f, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and f.op == "in" and next(iter(o)) in names:
                st.auto = next(iter(o))

        def on_call(self, ip, st, c):
            if tail(c) == "serialize_field" and len(c.args) == 3 and lit(c.args[1]) == "method" and st.auto:
                v = ip.snap(st, c.args[2])
                n = field(v, "variant_name") if v.op == "agg" else None
                out.setdefault(st.auto, set()).add(text(n) if n is not None else text(v))

    run_entry(ctx, R(ctx), ks[0])
    return out


def reader(ctx, enc):
    F = ctx.F
    own = {}
    for (t, v), ls in enc.items():
        if t == "Notification":
            own[v] = set(ls)

    class R(Labels):
        def __init__(self, ctx, key):
            super().__init__(ctx)
            self.key = key

        def on_fact(self, ip, st, f, o, fr, line):
            if isinstance(o, frozenset) and f.op == "fld" and f.args[1] == "params" and self.msg(f.args[0]):
                self.add(st, "blank" if o == {"None"} else "given")
            elif isinstance(o, frozenset) and self.own(f, "params") and not okof(f) is None:
                if o == {"Null"}:
                    self.add(st, "blank")
                elif not o & {"Null", "Object"}:
                    self.add(st, "full")
            s = empty_fact(f, o)
            if s and self.own(s[0], "params"):
                self.add(st, "blank" if s[1] else "full")
            e = eqfact(f, o)
            if e is None and f.op == "call" and name(f.args[0]) == "eq" and o is True and len(f.args[1]) == 2:
                e = f.args[1]
            if e:
                for a, b in (e, e[::-1]):
                    if isinstance(lit(b), str) and self.own(a, "method"):
                        self.add(st, "named", lit(b))

        def own(self, v, f):
            return contains(v, lambda x: x.op == "fld" and x.args[1] == f and self.msg(x.args[0])) and not contains(v, lambda x: x.op == "c" and isinstance(lit(x), str) and lit(x) not in ("method", "params", ""))

        def kind(self, v):
            """which parameters the decoding is tried with"""
            ks = set()
            for a in alts(v):
                x = [y for y in subterms(a) if is_adt(y, "Value")]
                if self.own(a, "params"):
                    ks.add("own")
                elif any(y.args[1] == "Null" for y in x):
                    ks.add("null")
                elif any(y.args[1] == "Object" for y in x) and not contains(a, lambda y: y.op == "in"):
                    ks.add("empty")
                else:
                    return None
            return "own" if "own" in ks else ks.pop() if len(ks) == 1 else None

        def msg(self, v):
            """the received message: the parameter, or what was parsed from it"""
            while True:
                if v.op == "in":
                    return True
                if okof(v) is not None:
                    v = okof(v)
                elif v.op == "mut":
                    v = v.args[0]
                elif v.op == "call" and name(v.args[0]) in ("from_value", "map_err", "branch") and v.args[1]:
                    v = v.args[1][0]
                else:
                    return False

        def after_call(self, ip, st, c, res):
            if tail(c) in ("from_value", "deserialize"):
                fs = [f for f in c.frame.chain() if f.parent is not None and f.body["kind"] != "std"]
                for l in self.sets(st, "now"):
                    self.add(st, "tried", (fs[-1].key, fs[-1].line) if fs else None, l[1])
                st.auto = frozenset(l for l in st.auto if l[0] != "now")
            if tail(c) == "insert" and len(c.args) == 3 and text(c.args[1]) in ("method", "params"):
                f = text(c.args[1])
                v = ip.snap(st, c.args[2])
                if f == "params" and self.kind(v):
                    st.auto = frozenset(l for l in st.auto if l[0] != "now") | {("now", self.kind(v))}
                    ctx.test(self.kind(v) == "own" or ("blank",) in st.auto, "read", (self.key, f), f"{name(self.key)}:blank-params", where(c.frame, c.line), f"{name(self.key)} decodes the message with blank parameters though it has some", backtrace(c.frame, c.line))
                    return
                good = self.own(v, f) and (f != "method" or _plainly(v, lambda x: x.op == "fld" and x.args[1] == f and self.msg(x.args[0]), EXACT | {"to_value"}))
                ctx.test(good, "read", (self.key, f), f"{name(self.key)}:{f}", where(c.frame, c.line), f"{name(self.key)} decodes `{show(v)[:160]}` as the {f} of the message, which is not the received {f}", backtrace(c.frame, c.line))

        def on_return(self, ip, st, v):
            for t in {l[1] for l in self.sets(st, "tried")}:
                if any(is_adt(a, "Result") and a.args[1] == "Err" for a in alts(v)):
                    kinds = {l[2] for l in self.sets(st, "tried") if l[1] == t}
                    ctx.test(("full",) in st.auto or len(kinds) > 1, "blank", (self.key, t), f"{name(self.key)}:{name(t[0]) if t else ''}", f"{F.bodies[self.key]['file']} in {name(self.key)}", f"{name(self.key)} refuses a message with no parameters or empty ones after decoding it in only one of these two forms ({', '.join(kinds)})")
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Ok":
                    for x in subterms(a):
                        if is_adt(x, "protocol::Notification") and x.args[1] in own:
                            ctx.test(any(l[1] in own[x.args[1]] for l in self.sets(st, "named")), "read", (self.key, x.args[1]), f"{name(self.key)}:{x.args[1]}", f"{F.bodies[self.key]['file']} in {name(self.key)}", f"a notification is read as {x.args[1]} without its method being {sorted(own[x.args[1]])}")

    for k in need(F, "protocol_helpers::parse_request") + need(F, "protocol_helpers::parse_notification"):
        run_entry(ctx, R(ctx, k), k)


LISTS = {"ListTools": "ListToolsResult", "ListPrompts": "ListPromptsResult", "ListResources": "ListResourcesResult", "ListResourceTemplates": "ListResourceTemplatesResult"}


def dispatcher(ctx):
    class R(ServerLoop):
        def on_response(self, ip, st, resp, fr, line):
            pass

        def on_agg(self, ip, st, v, fr, line):
            for var, n in LISTS.items():
                if is_adt(v, n) and st.auto[0] == "pending" and st.auto[2] is not None:
                    ctx.test(st.auto[3] == var, "dispatch", (var, n), f"dispatch:{n}", where(fr, line), f"a {n} is produced for a {st.auto[3]} request", backtrace(fr, line))

    loop(ctx, R(ctx))



# ----------------------------------------------------------------------------------------------- C34


def c34(ctx):
    ctx.rule("each", "every middleware of the chain sees the message, in the configured order, before the function succeeds")
    ctx.rule("hook", "the hook that is run is the one of this direction and kind, on the very message being processed")
    ctx.rule("stop", "after one middleware failed no later one runs and its failure is returned")
    ctx.rule("add", "a middleware is added at the end of the chain")
    F = ctx.F
    ms = methods(F, "middleware::MiddlewareChain")
    table = "middlewares"
    runs = 0
    for key in ms:
        n = name(key)
        hook = {"process_request": "on_request", "process_response": "on_response", "process_send": "on_send", "process_receive": "on_receive"}.get(n)
        if hook is None:
            continue
        runs += 1
        msg = next(iter([x for x, pl in F.bodies[key].get("dbg", []) if pl == [2]]), "arg2")

        class R(Labels):
            def turn(self, c):
                return tail(c) in ("next", "next_back") and contains(c.args[0], lambda x: x.op == "fld" and x.args[1] == table)

            def on_call(self, ip, st, c):
                if self.turn(c) and any(l[0] == "owed" for l in st.auto):
                    ctx.bad("each", n, f"skipped:{n}", where(c.frame, c.line), f"{n} goes on to the next middleware without having run the current one", backtrace(c.frame, c.line))
                if self.turn(c):
                    it = strip(c.args[0])
                    good = tail(c) == "next"
                    while it.op == "call" and it.args[1] and name(it.args[0]) in ("by_ref", "fuse", "enumerate", "cloned", "copied", "peekable", "inspect", "take"):
                        # taking the first len() of them is taking all
                        if name(it.args[0]) == "take" and not (len(it.args[1]) == 1 or (it.args[1][1].op == "call" and name(it.args[1][1].args[0]) == "len" and tbl(it.args[1][1].args[1][0]) == table)):
                            break
                        it = strip(it.args[1][0])
                    if is_adt(it, "Range") and lit(it.args[3][0]) == 0 and it.args[3][1].op == "call" and name(it.args[3][1].args[0]) == "len":
                        it = strip(it.args[3][1].args[1][0])  # by position
                    ctx.test(good and it.op == "fld" and it.args[1] == table, "each", (n, "order"), f"order:{n}", where(c.frame, c.line), f"{n} goes through `{show(c.args[0])[:160]}`, which is not the whole chain in its order", backtrace(c.frame, c.line))

            def on_fact(self, ip, st, t, o, fr, line):
                if not isinstance(o, frozenset):
                    return
                if t.op == "call" and name(t.args[0]) in ("next", "next_back") and contains(t, lambda x: x.op == "fld" and x.args[1] == table):
                    st.auto = frozenset(l for l in st.auto if l[0] != "owed")
                    if o == {"Some"}:
                        self.add(st, "owed", t)
                    elif o == {"None"}:
                        self.add(st, "through")
                if t.op == "await" and t.args[0].op == "call" and "Middleware::on_" in t.args[0].args[0] and o == {"Err"}:
                    self.add(st, "failed", t)

            def on_await(self, ip, st, fut, fr, line):
                if fut.op != "call" or "Middleware::on_" not in fut.args[0]:
                    return
                h = name(fut.args[0])
                site, tr = where(fr, line), backtrace(fr, line)
                ctx.test(not self.sets(st, "failed"), "stop", (n, "next"), f"runs-on:{n}", site, f"{n} runs a middleware after an earlier one failed", tr)
                ctx.test(h == hook and plainly(fut.args[1][1], isin(msg)), "hook", n, f"hook:{n}", site, f"{n} runs {h} on `{show(fut.args[1][1])[:100]}` instead of {hook} on its own message", tr)
                mw = fut.args[1][0]
                for l in self.sets(st, "owed"):
                    if contains(mw, lambda x: x is l[1]):
                        st.auto = st.auto - {l}
                        return
                ctx.bad("each", (n, "who"), f"who:{n}", site, f"{n} runs `{show(mw)[:120]}`, which is not the middleware whose turn it is", tr)

            def on_return(self, ip, st, v):
                site = f"{F.bodies[key]['file']}:{F.bodies[key]['line']} in {n}"
                for a in alts(v):
                    ok = is_adt(a, "Result") and a.args[1] == "Ok"
                    err = is_adt(a, "Result") and a.args[1] == "Err"
                    fs = self.sets(st, "failed")
                    if fs:
                        good = err and any(contains(a, lambda x: x.op == "dc" and x.args[1] == "Err" and x.args[0] is l[1]) for l in fs) or any(a is l[1] for l in fs)
                        ctx.test(good, "stop", (n, "return"), f"swallowed:{n}", site, f"{n} returns `{show(a)[:120]}` although a middleware failed")
                    else:
                        ctx.test(("through",) in st.auto and not self.sets(st, "owed") and not err, "each", (n, "all"), f"partial:{n}", site, f"{n} can end with `{show(a)[:80]}` before every middleware has run")

        run_entry(ctx, R(ctx), key)

    class A(PathRule):
        def after_call(self, ip, st, c, res):
            if c.args and is_coll(c, tail(c)) and tail(c) in ("push", "push_front", "push_back", "insert", "extend", "append", "remove", "clear", "pop", "truncate", "swap_remove", "reverse", "sort_by_key", "rotate_right", "rotate_left", "swap", "retain") and tbl(c.args[0]) == table:
                ctx.test(tail(c) in ("push", "push_back"), "add", (root_fn(c.frame.key), tail(c)), f"{name(root_fn(c.frame.key))}:{tail(c)}", where(c.frame, c.line), f"the chain is changed by {tail(c)}", backtrace(c.frame, c.line))

    for key in ms:
        if "add" in name(key) or not name(key).startswith("process"):
            run_entry(ctx, A(ctx), key)
    ctx.floor("each", 8)
    ctx.floor("hook", 4)
    ctx.floor("stop", 4)
    ctx.floor("add", 1)


# ----------------------------------------------------------------------------------------------- C35

UNORDERED = ("buffer_unordered", "try_buffer_unordered", "for_each_concurrent", "select_all", "rev", "join_next", "next_completed", "sort_unstable", "sort", "reverse", "shuffle", "swap", "rotate_left", "rotate_right", "swap_remove", "into_values", "into_keys", "select_next_some")
DROPS = ("filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "dedup", "dedup_by", "dedup_by_key", "truncate", "pop", "retain", "find", "flatten", "zip", "drain", "chunks", "last", "nth")


def c35(ctx):
    F = ctx.F
    ctx.rule("each", "every request of the batch becomes exactly one attempt, and every attempt's answer exactly one answer")
    ctx.rule("order", "answers keep the order of the requests")
    ctx.rule("own", "the answer of an attempt is what the handler returned for that very request, or an error carrying that request's id")
    ctx.rule("bound", "while a request is being handled, a permit of the configured bound is held, and the bound admits at least one")
    ctx.rule("shape", "packing and unpacking a batch keeps every request and answer")
    batch = need1(F, "utils::parallel_batch::process_batch_parallel")
    single = need1(F, "shared::batch::process_batch_request")
    server = need1(F, "server::batch::<impl pmcp::server::Server>::handle_batch_request") if F.find("server::batch::<impl pmcp::server::Server>::handle_batch_request", one=False) else need1(F, "handle_batch_request")
    tasks = []

    def handled(v):
        """the awaited handler call inside an answer"""
        return [x for x in subterms(v) if x.op == "call" and re.search(r"Fn(Once|Mut)?(<.*>)?>?::call(_once|_mut)?$", x.args[0])]

    class Run(Labels):
        """process_batch_parallel: the pipeline"""

        def after_call(self, ip, st, c, res):
            if tail(c) in ("push", "push_back", "insert", "spawn") and c.args:
                for a in alts(ip.snap(st, c.args[-1])):
                    for x in subterms(a):
                        if x.op == "agg" and x.args[0] == "coroutine" and x not in tasks:
                            tasks.append(x)
            if path_of(c).endswith("Semaphore::new"):
                n = c.args[0]
                ctx.test(any(x.op == "fld" and x.args[1] == "max_concurrency" for x in subterms(n)), "bound", "configured", "bound", where(c.frame, c.line), f"the bound is `{show(n)[:80]}`, not the configured one")
                one = (n.op == "call" and name(n.args[0]) in ("max", "clamp") and any(isinstance(lit(y), int) and lit(y) >= 1 for y in n.args[1])) or any(l[1] is n for l in self.sets(st, "positive"))
                ctx.test(one, "bound", "one", "bound-zero", where(c.frame, c.line), f"a bound of zero is passed on: `{show(n)[:80]}` permits admit no request, and no answer is ever given")

        def on_fact(self, ip, st, t, o, fr, line):
            if t.op == "op" and t.args[0] in ("Gt", "Lt", "Eq", "Ge") and isinstance(o, bool):
                for x, k in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                    if (t.args[0] == "Eq" and lit(k) == 0 and not o) or (o and t.args[0] == "Gt" and x is t.args[1] and isinstance(lit(k), int)) or (o and t.args[0] == "Lt" and x is t.args[2] and isinstance(lit(k), int)):
                        self.add(st, "positive", x)

        def on_return(self, ip, st, v):
            site = f"{F.bodies[batch]['file']}:{F.bodies[batch]['line']} in process_batch_parallel"
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Ok":
                    bad = [x for x in subterms(a) if x.op == "call" and name(x.args[0]) in UNORDERED and from_batch(x)]
                    keyed = [x for x in subterms(a) if x.op == "mut" for cc in x.args[1] if name(cc[0]) in ("sort_by_key", "sort_unstable_by_key", "sort_by", "sort_unstable_by", "sort_by_cached_key") ]
                    ctx.test(not bad or keyed, "order", "pipeline", "order", site, f"the answers are collected through {sorted({name(x.args[0]) for x in bad})}, which does not keep the order of the requests")
                    lost = [x for x in subterms(a) if x.op == "call" and name(x.args[0]) in DROPS and from_batch(x)]
                    lost += [x for x in subterms(a) if x.op == "mut" for cc in x.args[1] if name(cc[0]) in DROPS]
                    ctx.test(not lost, "each", "pipeline", "lost", site, f"requests or answers can get lost in {sorted({name(x.args[0]) for x in lost})}")
                    for x in subterms(a):
                        if x.op == "mut":
                            for cc in x.args[1]:
                                if name(cc[0]) in ("reverse", "rotate_left", "rotate_right", "swap", "swap_remove", "sort", "sort_unstable"):
                                    ctx.bad("order", "pipeline", f"order:{name(cc[0])}", site, f"the answers are put in another order by {name(cc[0])}")
                    self.key(ip, a, site)

        def key(self, ip, a, site):
            """a sort uses the position given by enumerate"""

        def on_leave(self, ip, st, fr, v):
            if fr.body["kind"] == "closure" or "{closure" in fr.key.rsplit("::", 1)[-1]:
                for x in alts(v):
                    # the key closure of a sort over the answers
                    if contains(x, lambda y: y.op == "call" and name(y.args[0]) == "closure-arg" and any(z.op == "call" and name(z.args[0]).startswith("sort") for z in y.args[1])):
                        y = x
                        while y.op == "call" and name(y.args[0]) in ("clone", "deref") and y.args[1]:
                            y = y.args[1][0]
                        good = y.op == "fld" and y.args[1] == "0" and y.args[0].op == "call" and name(y.args[0].args[0]) == "closure-arg"
                        good = good or (y.op == "call" and name(y.args[0]) in ("cmp",) and len(y.args[1]) == 2 and all(z.op == "fld" and z.args[1] == "0" for z in y.args[1]))
                        ctx.test(good, "order", "sort", "sort-key", where(fr, fr.body["line"]), f"the answers are sorted by `{show(x)[:120]}`, not by their requests' position")

    def from_batch(x):
        return contains(x, lambda y: y.op == "in" and y.args[0] in ("requests", "batch")) or contains(x, lambda y: y.op == "agg" and y.args[0] == "coroutine")

    run_entry(ctx, Run(ctx), batch)
    if not tasks:
        raise Anchor("the attempts of process_batch_parallel")
    each(ctx, F, batch, lambda t: contains(t, lambda y: y.op == "in" and y.args[0] == "requests") and not contains(t, lambda y: y.op == "await"), "requests")
    each(ctx, F, batch, lambda t: contains(t, lambda y: y.op == "await"), "answers")
    each(ctx, F, single, lambda t: contains(t, lambda y: y.op == "in"), "requests")

    for t in tasks:
        body = t.args[1]

        def of_request(v, t=t):
            """v is the request this attempt is for"""
            return v.op == "fld" and contains(v, lambda y: y.op == "call" and name(y.args[0]) in ("next",)) and not (v.op == "fld" and v.args[1] == "id")

        class Att(Labels):
            def on_fact(self, ip, st, f, o, fr, line):
                pass

            def after_call(self, ip, st, c, res):
                if tail(c) in ("acquire", "acquire_owned", "acquire_many"):
                    self.add(st, "permit", res)

            def on_drop(self, ip, st, val, fr, line):
                p = strip(val)
                st.auto = frozenset(l for l in st.auto if not (l[0] == "permit" and p is l[1] and p is not strip_mut(val)))

            def on_await(self, ip, st, fut, fr, line):
                if handled(fut):
                    ctx.test(bool(self.sets(st, "permit")), "bound", "held", "no-permit", where(fr, line), "a request is handled without a permit being held", backtrace(fr, line))
                    for h in handled(fut):
                        a = h.args[1][1]
                        good = a.op == "agg" and len(a.args[3]) >= 1 and plainly(a.args[3][0], of_request)
                        ctx.test(good, "own", "given", "given", where(fr, line), f"the handler is given `{show(a)[:120]}`, not the request of this attempt", backtrace(fr, line))

            def on_return(self, ip, st, v):
                site = f"{F.bodies[body]['file']}:{F.bodies[body]['line']} in process_batch_parallel"
                for a in alts(v):
                    r = a
                    if a.op == "agg" and a.args[0] == "tuple":
                        idx = [x for x in a.args[3] if not answer(x)]
                        rs = [x for x in a.args[3] if answer(x)]
                        r = rs[0] if len(rs) == 1 else None
                        ctx.test(r is not None and all(x.op == "fld" and x.args[1] == "0" for x in idx), "own", "position", "position", site, f"an attempt yields `{show(a)[:160]}`, which is not its request's position with its answer")
                    if r is None:
                        continue
                    for x in alts(r):
                        j = [y for y in [x] if is_adt(y, "JSONRPCResponse")]
                        if j:
                            i = field(x, "id")
                            good = i is not None and plainly(i, lambda y: y.op == "fld" and y.args[1] == "id" and of_request(y.args[0]))
                            ctx.test(good, "own", "made", "made-id", site, f"an attempt is answered with id `{show(i)[:80] if i is not None else '?'}`, not with its request's id")
                        else:
                            ctx.test(bool(handled(x)), "own", "returned", "returned", site, f"an attempt yields `{show(x)[:120]}`, which is not the handler's answer")

        ip = Interp(F, Att(ctx))
        ip.run(body, [t, TOP])
        ctx.ran(ip, batch)

    # one batch element on the server
    class Srv(PathRule):
        def on_agg(self, ip, st, v, fr, line):
            if v.args[0] == "closure" and root_fn(v.args[1]) == server and any(F.bodies[k]["kind"] == "coroutine" for k in F.kids(v.args[1])):
                closures.append(ip.snap(st, v))

    closures = []
    run_entry(ctx, Srv(ctx), server)
    seen = []

    class El(Labels):
        req = staticmethod(lambda v: contains(v, lambda y: y.op == "in" and y.args[0] not in ("self", "server")))

        def on_return(self, ip, st, v):
            site = f"{F.bodies[server]['file']}:{F.bodies[server]['line']} in handle_batch_request"
            for a in alts(v):
                if a.op == "agg" and a.args[0] == "coroutine":
                    if a not in seen:
                        seen.append(a)
                    continue
                if is_adt(a, "JSONRPCResponse"):
                    i = field(a, "id")
                    ctx.test(plainly(i, lambda y: y.op == "fld" and y.args[1] == "id"), "own", "unparseable", "unparseable-id", site, f"a batch element that cannot be parsed is answered with id `{show(i)[:80]}`")
                elif a.op == "await" and a.args[0].op == "call" and name(a.args[0].args[0]) == "handle_request":
                    i = a.args[0].args[1][1]
                    good = contains(i, lambda y: y.op == "call" and name(y.args[0]) == "parse_request") or plainly(i, lambda y: y.op == "fld" and y.args[1] == "id")
                    ctx.test(good, "own", "element", "element-id", site, f"a batch element is handled under the id `{show(i)[:100]}`")
                else:
                    ctx.bad("own", "element", "element", site, f"a batch element is answered with `{show(a)[:120]}`")

        def is_opaque(self, ip, key):
            return key.endswith(("Server::handle_request", "protocol_helpers::parse_request")) or name(root_fn(key)) in ("handle_request", "parse_request")

    for x in dict.fromkeys(closures):
        ip = Interp(F, El(ctx))
        ip.run(x.args[1], [x, mk("in", "req")])
        ctx.ran(ip, server)
    for a in list(seen):
        ip = Interp(F, El(ctx))
        ip.run(a.args[1], [a, TOP])
        ctx.ran(ip, server)

    shape(ctx)
    ctx.floor("each", 4)
    ctx.floor("order", 1)
    ctx.floor("own", 5)
    ctx.floor("bound", 3)
    ctx.floor("shape", 5)


def answer(v):
    return any(is_adt(x, "JSONRPCResponse") or (contains(x, lambda y: y.op == "await") and not (x.op == "fld" and x.args[1] == "0" and x.args[0].op == "fld")) for x in alts(v)) and not (v.op == "fld" and contains(v, lambda y: y.op == "call" and name(y.args[0]) == "next") and not contains(v, lambda y: y.op == "await"))


def items(v):
    """the iteration steps a stored value is made from"""
    out = []
    for a in alts(v):
        if a.op == "agg":
            for x in a.args[3]:
                out += items(x)
            continue
        while a.op in ("fld", "dc", "mut"):
            a = a.args[0]
        if a.op == "call" and name(a.args[0]) == "next":
            out.append(a)
    return out


def each(ctx, F, key, src, what):
    e = EachElement(ctx, "each", (name(key), what), f"skips:{name(key)}:{what}", src, lambda c: tail(c) in ("push", "push_back", "insert", "spawn"), f"{name(key)} can leave out one of the {what}")
    run_entry(ctx, e, key)

    class Twice(PathRule):
        init = 0

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and t.op == "call" and name(t.args[0]) == "next" and src(t):
                st.auto = 0

        def after_call(self, ip, st, c, res):
            if tail(c) in ("push", "push_back", "spawn") and c.args and any(src(x) for x in items(c.args[-1])):
                ctx.test(st.auto == 0, "each", (name(key), what, "once"), f"twice:{name(key)}:{what}", where(c.frame, c.line), f"{name(key)} enters one of the {what} twice", backtrace(c.frame, c.line))
                st.auto = 1

    run_entry(ctx, Twice(ctx), key)


def shape(ctx):
    F = ctx.F

    class U(Labels):
        def __init__(self, ctx, key):
            super().__init__(ctx)
            self.key = key

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "in":
                self.add(st, "is", next(iter(o)))
            if t.op == "call" and name(t.args[0]) == "len":
                if isinstance(o, int):
                    self.add(st, "len", o)
                elif isinstance(o, tuple):
                    for k in o[1]:
                        self.add(st, "not", k)
            s = empty_fact(t, o)
            if s and s[1]:
                self.add(st, "len", 0)
            e = eqfact(t, o)
            if e:
                for a, b in (e, e[::-1]):
                    if a.op == "call" and name(a.args[0]) == "len" and isinstance(lit(b), int):
                        self.add(st, "len", lit(b))

        def on_return(self, ip, st, v):
            n = name(self.key)
            site = f"{F.bodies[self.key]['file']}:{F.bodies[self.key]['line']} in {n}"
            root = lambda x: x.op == "in"
            if n == "from_responses":
                for a in alts(v):
                    x = a.args[3][0] if is_adt(a, "BatchResponse") else TOP
                    whole = plainly(x, root) and not contains(x, lambda y: y.op == "call" and name(y.args[0]) == "next")
                    empty = x.op == "call" and name(x.args[0]) in ("new", "with_capacity", "default")
                    one = contains(x, root)
                    good = (a.args[1] == "Batch" and (whole or (("len", 0) in st.auto and empty))) or (a.args[1] == "Single" and ("len", 1) in st.auto and one) if is_adt(a, "BatchResponse") else False
                    ctx.test(good, "shape", (n, a.args[1] if is_adt(a, "BatchResponse") else "?", whole), f"{n}", site, f"{n} packs `{show(a)[:120]}`, which does not hold every answer")
            else:
                is_ = {l[1] for l in self.sets(st, "is")}
                for a in alts(v):
                    own = lambda y: y.op == "dc" and y.args[0].op == "in"
                    good = contains(a, own)
                    if is_ == {"Batch"}:
                        good = plainly(a, lambda y: y.op == "fld" and own(y.args[0]))
                    ctx.test(good, "shape", (n, tuple(sorted(is_))), f"{n}", site, f"{n} gives `{show(a)[:120]}` for a {'/'.join(sorted(is_))}")

    for ty, n in (("BatchResponse", "from_responses"), ("BatchRequest", "into_requests"), ("BatchResponse", "into_responses")):
        for key in need(F, f"shared::batch::{ty}::{n}"):
            run_entry(ctx, U(ctx, key), key)


CHECKS = {"C03": c03, "C34": c34, "C35": c35}
