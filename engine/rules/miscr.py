"""C39 error conversion"""
from lib import *
from rules.util import methods, name, strip
from rules.recoverr import cmp_fact, oriented, turn
from rules.loops import endless

RANGE = (-32099, -32000)
CODES = {"parse": -32700, "invalid_request": -32600, "method_not_found": -32601, "invalid_params": -32602}


def i32(v):
    v = lit(v) if not isinstance(v, int) else v
    if not isinstance(v, int) or isinstance(v, bool):
        return None
    return v - (1 << 32) if v >= 1 << 31 else v


def c39(ctx):
    F = ctx.F
    ctx.rule("table", "a number decodes to the error code that has that number; only a number of the reserved server range that has no name may decode to the internal error")
    ctx.rule("accessors", "the number of a code, the code of an error and the comparison with a code are about the code the error was made with")
    ctx.rule("decode", "an error answer becomes an error with the decoded code and with the answer's own message and data")
    ctx.rule("encode", "an error sent to the peer carries its own code, message and data, or the text of the error")
    ctx.rule("make", "the named constructors make an error of their kind, with the given code, message and data")
    ctx.rule("wrap", "wrapping an underlying error keeps its text")
    dec = need1(F, "error::ErrorCode::from_i32")
    named = {}
    for k, b in F.bodies.items():
        if b["kind"] == "const" and re.search(r"error::ErrorCode::[A-Z_]+$", k):
            named[k] = value(F, k)
    if len(named) < 9 or None in named.values():
        raise Anchor(f"error code constants ({named})")
    if len(set(named.values())) < len(named):
        ctx.bad("table", "distinct", "distinct", "src/error/mod.rs", f"two error codes have the same number: {named}")
    ctx.ok("table", "distinct")
    NAMED.update(named)

    def number(v, code):
        """what number the code v stands for: an int, "same" for the decoded one, None if not known"""
        if v.op == "k":
            return named.get(v.args[0])
        if is_adt(v, "ErrorCode") and v.args[3]:
            x = v.args[3][0]
            return "same" if x is code else i32(x)
        return None

    # ---- the table
    paths = []

    class T(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if contains(t, lambda x: x is self.code):
                self.add(st, "c", t, o if not isinstance(o, (list, set)) else frozenset(o))

        def on_return(self, ip, st, v):
            for a in alts(v):
                paths.append((a, [l[1:] for l in self.sets(st, "c")], ip.root.where(), st))

    r = T(ctx)
    r.code = mk("in", "code")
    run_entry(ctx, r, dec, args=[r.code])
    points = {RANGE[0], RANGE[1]} | set(named.values())
    for _, cs, _, _ in paths:
        for t, o in cs:
            points |= {x for x in (i32(y) for y in subterms(t) if y.op == "c") if x is not None}
            points |= {x for x in (i32(y) for y in (o[1] if isinstance(o, tuple) else [o])) if x is not None}
    points = sorted(p for q in points for p in (q - 1, q, q + 1))
    for v, cs, w, st in paths:
        n = number(v, r.code)
        if n == "same":
            ctx.ok("table", ("path", show(v), str(sorted(map(str, cs)))), w)
            continue
        if n is None:
            f = mk("fld", v, "0", None)
            n = "same" if any(e and {x for x in e} >= {r.code} and any(fieldish(x, v) for x in e) for e in (eqfact(t, o) for t, o in cs if o is True)) else None
            if n is None:
                ctx.bad("table", ("path", show(v)), "unknown", w, f"a number decodes to `{show(v)[:100]}`, which is not known to be its code")
            continue
        for p in points:
            if not all(holds(t, o, r.code, p) is not False for t, o in cs):
                continue
            free = n == -32603 and RANGE[0] <= p <= RANGE[1] and p not in named.values()
            ctx.test(n == p or free, "table", ("point", p, n), f"{p}:{n}", w, f"the number {p} decodes to the error code {n}")
    for k, n in named.items():
        got = [number(v, r.code) for v, cs, _, _ in paths if all(holds(t, o, r.code, n) is not False for t, o in cs)]
        ctx.test(bool(got), "table", ("named", name(k)), f"missing:{name(k)}", "src/error/mod.rs", f"no path of the decoder handles {name(k)}")

    # ---- accessors
    class A(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "in" and t.args[0] == "self":
                self.add(st, "kind", next(iter(o)))
            e = eqfact(t, o)
            if e:
                self.add(st, "eq", e)

        def on_return(self, ip, st, v):
            for a in alts(v):
                self.check(ip, st, a, ip.root.where())

    code_of = lambda x: x.op == "fld" and x.args[1] == "code" and contains(x, lambda y: y.op == "in" and y.args[0] == "self")

    class Num(A):
        def check(self, ip, st, a, w):
            ctx.test(a.op == "fld" and a.args[1] == "0" and a.args[0].op == "in", "accessors", "number", "number", w, f"the number of a code is `{show(a)[:80]}`")

    class Code(A):
        def check(self, ip, st, a, w):
            if is_adt(a, "Option") and a.args[1] == "Some":
                ctx.test(code_of(a.args[3][0]), "accessors", "code", "code", w, f"the code of an error is `{show(a)[:80]}`")
            else:
                ctx.test(is_adt(a, "Option") and not self.has(st, "kind", "Protocol"), "accessors", "no-code", "no-code", w, f"the code of a protocol error is `{show(a)[:80]}`")

    class Is(A):
        def check(self, ip, st, a, w):
            t = lit(a) if isinstance(lit(a), bool) else st.facts.get(a)
            eq = lambda x, y: (code_of(x) and y.op == "in" and y.args[0] == "code") or (fieldof(x, code_of) and fieldof(y, lambda z: z.op == "in" and z.args[0] == "code"))
            same = any(eq(*e) or eq(*reversed(e)) for _, e in self.sets(st, "eq"))
            if t is True:
                ctx.test(same, "accessors", "is", "is", w, "an error counts as having a code its own was not compared with")
            elif t is None:
                e = (a.args[1], a.args[2]) if a.op == "op" and a.args[0] == "Eq" else None
                ctx.test(e is not None and (eq(*e) or eq(*reversed(e))), "accessors", "is", "is", w, f"whether an error has a code is decided by `{show(a)[:100]}`")
            else:
                ctx.test(not same, "accessors", "is-not", "is-not", w, "an error does not count as having the code it was made with")

    run_entry(ctx, Num(ctx), need1(F, "error::ErrorCode::as_i32"))
    run_entry(ctx, Code(ctx), need1(F, "error::Error::error_code"))
    run_entry(ctx, Is(ctx), need1(F, "error::Error::is_error_code"))

    # ---- decode
    class D(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "fld" and t.args[1] == "data":
                self.add(st, "data", next(iter(o)))

        def is_opaque(self, ip, key):
            return key == dec

        def on_return(self, ip, st, v):
            w = ip.root.where()
            err = ip.root_args[0] if hasattr(ip, "root_args") else None
            for a in alts(v):
                ok = is_adt(a, "Error") and a.args[1] == "Protocol"
                ctx.test(ok, "decode", "kind", "kind", w, f"an error answer becomes `{show(a)[:100]}`")
                if not ok:
                    continue
                c, m, d = (field(a, f) for f in ("code", "message", "data"))
                of = lambda x, f: x is not None and x.op == "fld" and x.args[1] == f and x.args[0].op == "in"
                for x in alts(c):
                    good = (x.op == "call" and x.args[0] == dec and of(x.args[1][0], "code")) or (is_adt(x, "ErrorCode") and of(x.args[3][0], "code"))
                    ctx.test(good, "decode", "code", "code", w, f"the code of a received error becomes `{show(x)[:80]}`")
                ctx.test(of(strip(m), "message"), "decode", "message", "message", w, f"the message of a received error becomes `{show(m)[:80]}`")
                same = of(strip(d), "data") or (is_adt(d, "Option") and self.has(st, "data", d.args[1]) and all(of(strip(x), "data") for x in d.args[3]))
                ctx.test(same, "decode", "data", "data", w, f"the data of a received error becomes `{show(d)[:80]}`")

    run_entry(ctx, D(ctx), need1(F, "error::Error::from_jsonrpc_error"))

    # ---- encode
    class E(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "in":
                self.add(st, "kind", next(iter(o)))
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "fld" and t.args[1] == "data":
                self.add(st, "data", next(iter(o)))

        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                if not is_adt(a, "JSONRPCError"):
                    ctx.bad("encode", "kind", "kind", w, f"an error is sent as `{show(a)[:100]}`")
                    continue
                c, m, d = (field(a, f) for f in ("code", "message", "data"))
                if self.has(st, "kind", "Protocol"):
                    ctx.test(contains(c, lambda x: x.op == "fld" and x.args[1] == "code") and not contains(c, lambda x: x.op in ("op", "call")), "encode", "code", "code", w, f"the code of a protocol error is sent as `{show(c)[:80]}`")
                    ctx.test(exactly(m, lambda x: x.op == "fld" and x.args[1] == "message"), "encode", "message", "message", w, f"the message of a protocol error is sent as `{show(m)[:80]}`")
                    ctx.test((is_adt(d, "Option") and d.args[1] == "None" and self.has(st, "data", "None")) or exactly(d, lambda x: x.op == "fld" and x.args[1] == "data"), "encode", "data", "data", w, f"the data of a protocol error is sent as `{show(d)[:80]}`")
                else:
                    ctx.test(text_of(m, lambda x: x.op == "in"), "encode", "text", "text", w, f"an error is sent with the text `{show(m)[:80]}`, not its own")

    run_entry(ctx, E(ctx), need1(F, "JSONRPCError as std::convert::From<pmcp::error::Error>>::from"))

    # ---- constructors
    class M(PathRule):
        def on_return(self, ip, st, v):
            w = ip.root.where()
            n = self.n
            for a in alts(v):
                if not is_adt(a, "Error"):
                    ctx.bad("make", n, n, w, f"{n} makes `{show(a)[:100]}`")
                    continue
                vals = list(zip(a.args[2], a.args[3]))
                ctx.test(any(text_of(x, lambda y: y.op == "in" and y.args[0] in ("message", "method", "resource", "uri")) for _, x in vals), "make", (n, "message"), f"{n}:message", w, f"the text given to Error::{n} is not what the error says: `{show(a)[:120]}`")
                for f, x in vals:
                    if f == "code":
                        if n in CODES:
                            ok = number(x, TOP) == CODES[n]
                        elif n in ("protocol", "protocol_with_data"):
                            ok = x.op == "in" and x.args[0] == "code"
                        else:
                            ok = number(x, TOP) is not None
                        ctx.test(ok, "make", (n, "code"), f"{n}:code", w, f"Error::{n} makes an error with the code `{show(x)[:60]}`")
                    if f == "data":
                        ok = (is_adt(x, "Option") and x.args[1] == "None") if n != "protocol_with_data" else (is_adt(x, "Option") and x.args[1] == "Some" and x.args[3][0].op == "in")
                        ctx.test(ok, "make", (n, "data"), f"{n}:data", w, f"Error::{n} makes an error with the data `{show(x)[:60]}`")

    for k in methods(F, "error::Error"):
        b = F.bodies[k]
        if any(n in ("message", "method", "resource", "uri") and pl in ([1], [2], [3]) for n, pl in b.get("dbg", [])):
            m = M(ctx)
            m.n = name(k)
            run_entry(ctx, m, k)

    # ---- wrapping
    class W(PathRule):
        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                ok = text_of(a, lambda x: x.op == "in")
                ctx.test(ok, "wrap", ip.root.key, ip.root.key, w, f"an underlying error is wrapped as `{show(a)[:100]}`, which does not contain it or its text")

    for k, b in sorted(F.bodies.items()):
        if b["kind"] == "fn" and re.match(r"<pmcp::error::\w+ as std::convert::From<.*>>::from$", k):
            run_entry(ctx, W(ctx), k)
    ctx.floor("table", 20)
    ctx.floor("accessors", 4)
    ctx.floor("decode", 4)
    ctx.floor("encode", 4)
    ctx.floor("make", 12)
    ctx.floor("wrap", 5)


NAMED = {}


def fieldof(x, pred):
    return x.op == "fld" and x.args[1] == "0" and pred(x.args[0])


def fieldish(x, v):
    return x.op == "fld" and strip(x.args[0]) is strip(v)


def value(F, key):
    """the number of an error code constant"""
    v = Interp(F, Rule()).eval_promoted(key)
    while v.op == "agg" and v.args[3]:
        v = v.args[3][0]
    if v.op == "call" and v.args[1]:
        v = v.args[1][0]
    return i32(v)


def text_of(v, pred):
    """v is, or holds, the text of a value satisfying pred (complete: not cut)"""
    for a in alts(v):
        if a.op == "agg" and a.args[0] not in ("closure",):
            if not any(text_of(x, pred) for x in a.args[3]):
                return False
            continue
        if exactly(a, pred):
            continue
        p = fmt_pieces(a)
        if p and any(k != "lit" and plainly(x, pred, EXACT | {"to_string"}) for k, x in p):
            continue
        if not (a.op == "call" and name(a.args[0]) in ("to_string", "into", "from", "format", "new") and a.args[1] and text_of(a.args[1][-1], pred)):
            return False
    return True


def holds(t, o, code, p):
    """does the branch fact (t, o) hold of the number p? None: not decided"""

    def num(x):
        while x.op == "fld" and x.args[1] == "0" or x.op == "cast":
            x = x.args[0]
        return p if x is code else i32(x) if x.op == "c" else NAMED.get(x.args[0]) if x.op == "k" else None

    if t is code:
        if isinstance(o, tuple) and o[0] == "!=":
            return p not in {i32(x) for x in o[1]}
        return p == i32(o) if isinstance(o, int) else None
    if t.op == "call" and name(t.args[0]) == "contains" and len(t.args[1]) == 2 and t.args[1][1] is code and isinstance(o, bool):
        r = t.args[1][0]
        b = [num(x) for x in (r.args[1] if r.op == "call" else r.args[3] if r.op == "agg" else ())][:2]
        if len(b) == 2 and None not in b:
            inc = "RangeInclusive" in (r.args[0] or "")
            return (b[0] <= p <= b[1] if inc else b[0] <= p < b[1]) == o
        return None
    f = cmp_fact(t, o)
    if f:
        a, b = num(f[1]), num(f[2])
        if a is not None and b is not None:
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}.get(f[0])
    return None


# --------------------------------------------------------------------------- C41

WANT = {
    "exchange_code": ("authorization_code", {"code": "code", "client_id": "client_id", "redirect_uri": "redirect_uri"}, {"code_verifier": "code_verifier"}),
    "refresh_token": ("refresh_token", {"refresh_token": "refresh_token", "client_id": "client_id"}, {"scope": "scope"}),
}


def sent(v):
    """the request builder a response term answers"""
    for x in subterms(v):
        if x.op == "await" and x.args[0].op == "call" and name(x.args[0].args[0]) in ("send", "execute"):
            return x
    return None


def body_of(v):
    """v is what was parsed, as a whole, from the body of a response: that response (the awaited send)"""
    while True:
        if v.op == "await" and v.args[0].op == "call" and name(v.args[0].args[0]) in ("send", "execute"):
            return v
        if v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] == "Ok":
            v = v.args[0].args[0]
        elif v.op in ("await", "mut"):
            v = v.args[0]
        elif v.op == "call" and name(v.args[0]) in READ and v.args[1]:
            v = v.args[1][0]
        else:
            return None


READ = {"json", "from_slice", "from_str", "bytes", "text", "from_value", "as_ref", "deref", "as_str", "as_bytes", "error_for_status", "to_vec", "as_slice", "text_with_charset"}


def c41(ctx):
    F = ctx.F
    ctx.rule("answer", "metadata or tokens are returned only when they were parsed, as a whole, from the body of an answer with a success status; anything else is an error")
    ctx.rule("request", "the request goes to the given endpoint with the grant's own parameters, each of them the caller's")
    ctx.rule("secret", "the client secret is sent, as basic authentication of this client, exactly when there is one, and nowhere else")
    ctx.rule("bounded", "discovery is attempted again only in a turn counted against the configured number of attempts")
    ctx.rule("tried-once", "a token request is sent once per call")

    class O(Labels):
        max_depth = 12

        def limit(self, v):
            return all(plainly(a, lambda x: x.op == "fld" and x.args[1] == "max_retries", EXACT) for a in alts(v))

        def on_fact(self, ip, st, t, o, fr, line):
            if t.op == "call" and name(t.args[0]) == "is_success" and o is True:
                s = sent(t)
                if s is not None and contains(t, lambda x: x.op == "call" and name(x.args[0]) == "status"):
                    self.add(st, "success", s)
            if o == frozenset(["Ok"]) and t.op == "call" and name(t.args[0]) == "error_for_status":
                self.add(st, "success", sent(t))
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "in":
                self.add(st, "given", t.args[0], next(iter(o)))
            if o == frozenset(["Some"]) and turn(t, self.limit):
                self.add(st, "turn")
            f = cmp_fact(t, o)
            if f and ((f[0] in ("Lt", "Le") and self.limit(f[2]) and not self.limit(f[1])) or (f[0] in ("Gt", "Ge") and self.limit(f[1]) and not self.limit(f[2]))):
                lo = f[1] if f[0] in ("Lt", "Le") else f[2]
                start = 0 if f[0] in ("Lt", "Gt") else 1
                if not any(isinstance(lit(x), int) and lit(x) < start for x in alts(lo)):
                    self.add(st, "turn")

        def on_call(self, ip, st, c):
            if name(path_of(c)) not in ("send", "execute") or "reqwest" not in path_of(c):
                return
            w, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            rq = c.args[-1]
            calls = [x for x in subterms(rq) if x.op == "call"]
            url = [x for x in calls if name(x.args[0]) in ("get", "post", "request") and "Client" in x.args[0]]
            if self.n == "discover":
                p = fmt_pieces(url[0].args[1][-1]) if len(url) == 1 and name(url[0].args[0]) == "get" else []
                good = len(p) == 2 and p[0][0] != "lit" and plainly(p[0][1], isin("issuer_url"), PLAIN | {"trim_end_matches", "strip_suffix"}) and p[1] == ("lit", "/.well-known/openid-configuration")
                ctx.test(good, "request", "url", "url", w, f"discovery asks `{show(rq)[:160]}`, not the issuer's well-known address", tr)
                loose = endless(F, c.frame, c.block)
                ctx.test(("turn",) in st.auto, "bounded", w, "uncounted", w, "a discovery request is sent without the number of attempts having been compared with the configured one", tr)
                ctx.test(not loose, "bounded", (w, "counted"), "endless", w, f"discovery can be repeated in {loose[0].key.split('::')[-2] if loose else ''} without the attempt being counted", tr)
                st.auto = st.auto - {("turn",)}
                return
            grant, must, may = WANT[self.n]
            ctx.test(not self.emptyset(st, "did"), "tried-once", self.n, f"{self.n}:again", w, f"{self.n} sends its request more than once", tr)
            ctx.test(not endless(F, c.frame, c.block), "tried-once", (self.n, "loop"), f"{self.n}:loop", w, f"{self.n} sends its request in a loop", tr)
            self.add(st, "did")
            ep = len(url) == 1 and name(url[0].args[0]) == "post" and plainly(url[0].args[1][-1], isin("token_endpoint"), EXACT)
            ctx.test(ep, "request", (self.n, "endpoint"), f"{self.n}:endpoint", w, f"{self.n} sends its request to `{show(url[0])[:100] if url else '?'}`", tr)
            form = [x for x in calls if name(x.args[0]) == "form"]
            got, whole = self.pairs(form[0].args[1][1]) if len(form) == 1 else ({}, False)
            ctx.test(whole, "request", (self.n, "form"), f"{self.n}:form", w, f"the parameters of {self.n} are `{show(form[0].args[1][1])[:120] if form else 'absent'}`, not a known list", tr)
            if not whole:
                return
            ctx.test([lit(x) for x in got.get("grant_type", [])] == [grant], "request", (self.n, "grant_type"), f"{self.n}:grant_type", w, f"{self.n} asks with grant type {[show(x) for x in got.get('grant_type', [])]}", tr)
            for k, p in {**must, **may}.items():
                vs = got.get(k, [])
                if k in may:
                    some = self.given(st, p)
                    ctx.test(bool(vs) == (some == "Some") if some else not vs, "request", (self.n, k, "when"), f"{self.n}:{k}:when", w, f"{self.n} {'sends' if vs else 'does not send'} `{k}` although the caller gave {'one' if some == 'Some' else 'none'}", tr)
                else:
                    ctx.test(len(vs) == 1, "request", (self.n, k, "once"), f"{self.n}:{k}:once", w, f"{self.n} sends `{k}` {len(vs)} times", tr)
                for x in vs:
                    ctx.test(exactly(x, isin(p)), "request", (self.n, k), f"{self.n}:{k}", w, f"{self.n} sends `{k}` = `{show(x)[:80]}`", tr)
            for k, vs in got.items():
                ctx.test(k in must or k in may or k == "grant_type" or all(lit(x) is not None for x in vs), "request", (self.n, "other"), f"{self.n}:other:{k}", w, f"{self.n} also sends `{k}`", tr)
            auth = [x for x in calls if name(x.args[0]) == "basic_auth"]
            some = self.given(st, "client_secret")
            ctx.test(len(auth) == (1 if some == "Some" else 0), "secret", (self.n, "when", some), f"{self.n}:secret-when", w, f"{self.n} {'does not authenticate' if some == 'Some' else 'authenticates'} the client although the caller gave {'a' if some == 'Some' else 'no'} secret", tr)
            for a in auth:
                u, pw = a.args[1][1:3]
                ctx.test(exactly(u, isin("client_id")) and contains(pw, lambda x: x.op == "in" and x.args[0] == "client_secret") and is_adt(pw, "Option") and exactly(pw.args[3][0], isin("client_secret")) if is_adt(pw, "Option") and pw.args[3] else exactly(u, isin("client_id")) and exactly(pw, isin("client_secret")), "secret", (self.n, "what"), f"{self.n}:secret", w, f"{self.n} authenticates as `{show(u)[:60]}` with `{show(pw)[:60]}`", tr)
            for x in calls:
                if name(x.args[0]) in ("header", "get", "post", "form", "query", "bearer_auth", "body", "json"):
                    own = [a for a in x.args[1][1:]]
                    ctx.test(not any(contains(a, lambda y: y.op == "in" and y.args[0] == "client_secret") for a in own), "secret", (self.n, "elsewhere", name(x.args[0])), f"{self.n}:secret:{name(x.args[0])}", w, f"{self.n} puts the client secret into {name(x.args[0])}", tr)

        def given(self, st, p):
            g = {l[2] for l in self.sets(st, "given") if l[1] == p}
            return next(iter(g)) if len(g) == 1 else None

        def pairs(self, v):
            """({key: [values]}, whole): the list of key/value pairs v is"""
            got, items = {}, []
            while v.op == "call" and name(v.args[0]) in ("deref", "as_slice", "as_ref", "clone", "into_vec", "from") and v.args[1]:
                v = v.args[1][0]
            if v.op == "mut":
                for c, a in v.args[1]:
                    if name(c) == "push" and len(a) == 1:
                        items.append(a[0])
                    elif name(c) == "insert" and len(a) == 2:
                        items.append(agg("tuple", None, ("0", "1"), a))
                    elif name(c) == "extend" and len(a) == 1 and a[0].op == "agg" and a[0].args[0] in ("array", "std::option::Option"):
                        items += list(a[0].args[3])
                    elif name(c) not in ("reserve", "as_slice", "iter"):
                        return {}, False
                v = v.args[0]
            if v.op == "agg" and v.args[0] == "array":
                items += list(v.args[3])
            elif not (v.op == "call" and name(v.args[0]) in ("new", "with_capacity")):
                return {}, False
            for i in items:
                if not (i.op == "agg" and i.args[0] == "tuple" and len(i.args[3]) == 2):
                    return {}, False
                ks = lit(i.args[3][0])
                if not isinstance(ks, str):
                    return {}, False
                got.setdefault(ks, []).append(i.args[3][1])
            return got, True

        def emptyset(self, st, k):
            return bool(self.sets(st, k)) or (k,) in st.auto

        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                p = a.args[3][0] if is_adt(a, "Result") else a
                for x in alts(p):
                    s = body_of(x)
                    ctx.test(s is not None, "answer", (self.n, "body"), f"{self.n}:body", w, f"{self.n} returns `{show(x)[:120]}`, which is not what an answer's body was parsed to")
                    ctx.test(s is not None and ("success", s) in st.auto, "answer", (self.n, "status"), f"{self.n}:status", w, f"{self.n} returns what an answer contains without its status having been found a success")

    for ty, ops in (("client::auth::OidcDiscoveryClient", ["discover"]), ("client::auth::TokenExchangeClient", ["exchange_code", "refresh_token"])):
        for op in ops:
            r = O(ctx)
            r.n = op
            run_entry(ctx, r, need1(F, f"{ty}::{op}"))
    ctx.floor("answer", 6)
    ctx.floor("request", 14)
    ctx.floor("secret", 6)
    ctx.floor("bounded", 2)
    ctx.floor("tried-once", 4)


CHECKS = {"C39": c39, "C41": c41}
