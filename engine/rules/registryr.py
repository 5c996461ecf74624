"""C43 building and reconfiguring a server"""
from lib import *
from rules.util import methods, name, strip, tbl, MUTATE

PURE = {"len", "is_empty", "contains_key", "get", "keys", "values", "iter", "clone", "fmt", "deref", "as_ref", "is_some", "is_none", "as_str", "into", "reserve", "drop", "eq", "ne", "as_deref", "read"}
self_ = isin("self")


def own(v, depth=0):
    """path of field names below self, or None"""
    p = []
    while v.op == "fld":
        p.append(v.args[1])
        v = v.args[0]
    return p[::-1] if v.op == "in" and v.args[0] == "self" else None


def given(v, p):
    """v is the parameter p, converted at most"""
    while v.op == "call" and name(v.args[0]) in ("into", "from", "to_string", "to_owned", "new", "clone") and v.args[1]:
        v = v.args[1][0]
    return v.op == "in" and v.args[0] == p


def read(ip, st, v, f):
    """content of field f of v now"""
    o = own(v)
    for k, x in st.heap.items():
        if k.op == "fld" and k.args[1] == f and (k.args[0] is v or o is not None and own(k.args[0]) == o):
            return x
    return ip.fld(st, v, f, "")


def some(v, pred):
    return is_adt(v, "Option") and v.args[1] == "Some" and pred(v.args[3][0])


BUILD = {  # setter -> (its own field, parameter)
    "name": "name", "version": "version", "capabilities": "capabilities", "tool": "tools", "prompt": "prompts", "resources": "resources", "sampling": "sampling",
}
CAPOF = {"tool": "tools", "prompt": "prompts", "resources": "resources", "sampling": "sampling"}


class Effects(Labels):
    """("do", table path, operation, arguments): changes made to what self owns"""

    def change(self, st, path, op, args, w, tr):
        self.add(st, "do", tuple(path), op, tuple(args))

    def target(self, v):
        p = own(v)
        if p is None:
            x = strip(v)
            p = own(x)
        return p

    def after_call(self, ip, st, c, res):
        n = tail(c)
        if c.frame.body["kind"] == "std" or not c.args or n in PURE or n not in MUTATE | {"entry", "get_mut", "get_or_insert", "iter_mut", "values_mut"}:
            return
        p = self.target(c.args[0])
        if p:
            self.change(st, p, n, [ip.snap(st, a) for a in c.args[1:]], where(c.frame, c.line), None)

    def on_store(self, ip, st, b, f, v, fr, line):
        if not fr or fr.body["kind"] == "std":
            return
        p = self.target(b)
        if p is None or (not p and f == "*"):
            return
        self.change(st, p + ([f] if f != "*" else []), "=", [ip.snap(st, v)], where(fr, line), None)


def c43(ctx):
    F = ctx.F
    ctx.rule("setter", "a setter of the builder stores what it was given under its own name and leaves everything else as it was (registering may advertise the matching capability)")
    ctx.rule("built", "the server is built from all of what was set, or not at all")
    ctx.rule("dynamic", "a dynamic change is made to its own table only, with the name and handler it was given; removing an unknown name is an error, removing a known one is not")
    ctx.rule("told", "every capability listener is told the server's capabilities with the one that changed, on every path of a successful change")
    ctx.rule("known", "a tool or prompt counts as known exactly when the dynamic table or the server has it")
    ctx.rule("reload", "reloading removes the previous tools and prompts before it adds any, and adds everything the new configuration has")

    # ---- builder
    ty = "server::ServerBuilder"
    fields = set()

    class New(PathRule):
        def on_agg(self, ip, st, v, fr, line):
            if is_adt(v, ty):
                fields.update(v.args[2])

    run_entry(ctx, New(ctx), need1(F, ty + "::new"))
    if len(fields) < 7:
        raise Anchor("fields of ServerBuilder")

    def value_ok(n, f, x, base):
        """may field f be x after setter n?"""
        if x is base:
            return True
        if f == "capabilities" and n in CAPOF:
            if is_adt(x, "ServerCapabilities"):
                return all(y is mk("fld", base, g, "") or (own(y) == ["capabilities", g]) or (g == CAPOF[n] and some(y, lambda z: True)) for g, y in zip(x.args[2], x.args[3]))
            return False
        if f != BUILD[n]:
            return False
        if n in ("tool", "prompt"):
            return x.op == "mut" and x.args[0] is base and all(name(c) == "insert" and len(a) == 2 and given(a[0], "name") and given(a[1], "handler") for c, a in x.args[1])
        if n == "capabilities":
            return given(x, "capabilities")
        return some(x, lambda y: given(y, n if n in ("name", "version") else "handler"))

    class S(Effects):
        def on_return(self, ip, st, v):
            w = ip.root.where()
            n = self.n
            for a in alts(v):
                mine = False
                for f in sorted(fields):
                    x = ip.snap(st, read(ip, st, a, f))
                    for y in alts(x):
                        p = own(y)
                        if p == [f]:
                            continue
                        b = self.base(y, f)
                        ok = value_ok(n, f, y, b)
                        ctx.test(ok, "setter", (n, f), f"{n}:{f}", w, f"after ServerBuilder::{n}, `{f}` is `{show(y)[:120]}`")
                        mine |= ok and f == BUILD[n]
                for _, p, op, args in self.sets(st, "do"):
                    if op == "=":
                        ok = len(p) == 1 and value_ok(n, p[0], args[0], None) or (p == ("capabilities", CAPOF.get(n)) and some(args[0], lambda z: True))
                        mine |= len(p) == 1 and p[0] == BUILD[n] and ok
                    else:
                        ok = n in ("tool", "prompt") and p == (BUILD[n],) and op == "insert" and len(args) == 2 and given(args[0], "name") and given(args[1], "handler")
                        mine |= ok
                    ctx.test(ok, "setter", (n, p, op), f"{n}:{'.'.join(p)}:{op}", w, f"ServerBuilder::{n} changes `{'.'.join(p)}` ({op} {', '.join(show(x)[:60] for x in args)})")
                ctx.test(mine, "setter", (n, "stores"), f"{n}:stores", w, f"a path of ServerBuilder::{n} returns without having stored what it was given")
                if n == "sampling":
                    c = ip.snap(st, read(ip, st, read(ip, st, a, "capabilities"), "sampling"))
                    ctx.test(all(some(y, lambda z: True) for y in alts(c)), "setter", (n, "advertises"), "sampling:advertise", w, f"after ServerBuilder::sampling, the advertised sampling capability is `{show(c)[:100]}`")

        def base(self, y, f):
            while y.op == "mut":
                y = y.args[0]
            return y if own(y) == [f] else None

    for n in BUILD:
        r = S(ctx)
        r.n = n
        run_entry(ctx, r, need1(F, f"{ty}::{n}"))

    class Bd(Labels):
        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                s = a.args[3][0] if is_adt(a, "Result") else a
                for s in alts(s):
                    ctx.test(is_adt(s, "server::Server"), "built", "server", "server", w, f"build() returns `{show(s)[:100]}`")
                    if not is_adt(s, "server::Server"):
                        continue
                    i = field(s, "info")
                    for f in sorted(fields):
                        x = field(i, f) if f in ("name", "version") and i is not None else field(s, f)
                        x = ip.snap(st, x) if x is not None else None
                        if f in ("name", "version"):
                            ok = x is not None and all(y.op == "fld" and y.args[1] == "0" and own(strip(y)) == [f] for y in alts(x))
                        elif f.endswith("_manager"):
                            ok = x is not None and contains(x, lambda y: own(y) == [f])
                        else:
                            ok = x is not None and all(own(y) == [f] for y in alts(x))
                        ctx.test(ok, "built", f, f"built:{f}", w, f"the built server's `{f}` is `{show(x)[:100] if x is not None else 'absent'}`, not what was set")

    run_entry(ctx, Bd(ctx), need1(F, ty + "::build"))

    # ---- dynamic manager
    dy = "dynamic::DynamicServerManager"
    # function -> (table, change, capability, capability afterwards)
    DYN = {
        "add_tool": ("dynamic_tools", "insert", "tools", True),
        "remove_tool": ("dynamic_tools", "remove", None, None),
        "add_prompt": ("dynamic_prompts", "insert", "prompts", True),
        "remove_prompt": ("dynamic_prompts", "remove", None, None),
        "set_resource_handler": ("dynamic_resources", "set", "resources", True),
        "remove_resource_handler": ("dynamic_resources", "unset", "resources", False),
        "set_sampling_handler": ("dynamic_sampling", "set", "sampling", True),
        "remove_sampling_handler": ("dynamic_sampling", "unset", "sampling", False),
    }
    CAPS = ("tools", "prompts", "resources", "sampling")
    listeners = lambda t: contains(t, lambda y: y.op == "fld" and y.args[1] == "capability_listeners")

    class D(Effects):
        def change(self, st, p, op, args, w, tr):
            if p[0] in ("server", "capability_listeners"):
                return  # a private copy of the capabilities; listeners are not touched by these functions
            table, kind, _, _ = DYN[self.n]
            if kind == "insert":
                ok = op == "insert" and len(args) == 2 and given(args[0], "name") and given(args[1], "handler")
            elif kind == "remove":
                ok = op in ("remove", "remove_entry") and len(args) == 1 and given(args[0], "name")
            elif kind == "set":
                ok = op in ("=", "insert", "replace") and (given(args[0], "handler") or some(args[0], lambda x: given(x, "handler")))
            else:
                ok = op == "take" or op == "=" and is_adt(args[0], "Option") and args[0].args[1] == "None"
            ok = ok and tuple(p) == (table,)
            ctx.test(ok, "dynamic", (self.n, "change"), f"{self.n}:{'.'.join(p)}:{op}", w, f"DynamicServerManager::{self.n} changes `{'.'.join(p)}` ({op} {', '.join(show(x)[:60] for x in args)})")
            if ok:
                self.add(st, "done")

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "call" and name(t.args[0]) in ("remove", "remove_entry") and tbl(t.args[1][0]) == DYN[self.n][0]:
                self.add(st, "had", next(iter(o)))
            elif isinstance(o, frozenset) and o == {"None"} and t.op == "call" and t.args[0].endswith("::next") and listeners(t):
                self.add(st, "told")

        def on_call(self, ip, st, c):
            if c.path.startswith("std::ops::Fn") and name(c.path) in ("call", "call_mut", "call_once") and c.args and listeners(c.args[0]):
                w, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
                _, _, cap, on = DYN[self.n]
                a = c.args[1]
                for a in alts(a.args[3][0] if a.op == "agg" and a.args[0] == "tuple" else a):
                    for f in CAPS:
                        for x in alts(ip.snap(st, read(ip, st, a, f))):
                            if f == cap:
                                ok = some(x, lambda z: True) if on else is_adt(x, "Option") and x.args[1] == "None"
                            else:
                                ok = own(x) == ["server", "capabilities", f]
                            ctx.test(ok, "told", (self.n, f), f"{self.n}:{f}", w, f"after {self.n} the listeners are told that the {f} capability is `{show(x)[:100]}`", tr)
                self.add(st, "call")

        def on_return(self, ip, st, v):
            w = ip.root.where()
            had = {l[1] for l in self.sets(st, "had")}
            for a in alts(v):
                err = is_adt(a, "Result") and a.args[1] == "Err"
                if DYN[self.n][1] == "remove":
                    ctx.test(had == ({"None"} if err else {"Some"}), "dynamic", (self.n, "result", err), f"{self.n}:{'err' if err else 'ok'}", w, f"{self.n} {'fails' if err else 'succeeds'} on a path where the name was {'found' if 'Some' in had else 'absent' if had else 'not looked up'}")
                else:
                    ctx.test(not err, "dynamic", (self.n, "result", err), f"{self.n}:fails", w, f"a path of {self.n} fails")
                if not err:
                    ctx.test(self.has(st, "done"), "dynamic", (self.n, "done"), f"{self.n}:not-done", w, f"a path of {self.n} succeeds without having changed {DYN[self.n][0]}")
                    ctx.test(self.has(st, "told"), "told", (self.n, "all"), f"{self.n}:not-told", w, f"a path of {self.n} succeeds without having gone through the capability listeners")

    for n in DYN:
        r = D(ctx)
        r.n = n
        key = need1(F, f"{dy}::{n}")
        run_entry(ctx, r, key)
        e = EachElement(ctx, "told", (n, "each"), f"{n}:skips", lambda t: t.op == "call" and listeners(t), lambda c: c.path.startswith("std::ops::Fn") and c.args and listeners(c.args[0]), f"{n} can leave out a listener")
        run_entry(ctx, e, key)

    # ---- lookups
    class H(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, bool) and t.op == "call" and name(t.args[0]) in ("contains_key", "has_tool", "has_prompt"):
                self.note(st, t, o)

        def note(self, st, t, o):
            if len(t.args[1]) == 2 and exactly(t.args[1][1], isin("name")):
                p = own(strip(t.args[1][0]))
                if p:
                    self.add(st, "in", p[-1] if p[0] != "server" or len(p) > 1 else "server", o)

        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                fs = {(l[1], l[2]) for l in self.sets(st, "in")}
                r = lit(a) if isinstance(lit(a), bool) else st.facts.get(a)
                if r is None and a.op == "call" and name(a.args[0]) == "contains_key":
                    both = []
                    for o in (True, False):
                        p = own(strip(a.args[1][0])) if exactly(a.args[1][1], isin("name")) else None
                        both.append((o, fs | ({(p[-1], o)} if p else set())))
                elif r is None:
                    ctx.bad("known", self.n, f"{self.n}:answer", w, f"{self.n} answers `{show(a)[:100]}`")
                    continue
                else:
                    both = [(r, fs)]
                for o, f in both:
                    if o:
                        ok = any((t, True) in f for t in self.tabs)
                    else:
                        ok = all((t, False) in f for t in self.tabs)
                    ctx.test(ok, "known", (self.n, o), f"{self.n}:{o}", w, f"{self.n} answers {o} having found {sorted(f)}")

    for n, k, tabs in (
        ("has_tool", dy, ["dynamic_tools", "tools"]),
        ("has_prompt", dy, ["dynamic_prompts", "prompts"]),
        ("has_tool", "server::Server", ["tools"]),
        ("has_prompt", "server::Server", ["prompts"]),
    ):
        r = H(ctx)
        r.n, r.tabs = f"{name(k)}::{n}", tabs
        run_entry(ctx, r, need1(F, f"{k}::{n}"))

    class G(Labels):
        def on_return(self, ip, st, v):
            for a in alts(v):
                ctx.test(own(strip(a)) == [self.t], "known", self.t, f"get:{self.t}", ip.root.where(), f"the dynamic entries are reported as `{show(a)[:100]}`")

    for n, t in (("get_dynamic_tools", "dynamic_tools"), ("get_dynamic_prompts", "dynamic_prompts")):
        r = G(ctx)
        r.t = t
        run_entry(ctx, r, need1(F, f"{dy}::{n}"))

    # ---- reload
    cfg = lambda v, f: contains(v, lambda x: x.op == "fld" and x.args[1] == f and x.args[0].op == "in" and x.args[0].args[0] == "config")

    class R(Effects):
        def is_opaque(self, ip, key):
            return key.endswith("::update_capabilities")

        def change(self, st, p, op, args, w, tr):
            t = tuple(p)
            if t[0] in ("server", "capability_listeners"):
                return
            src = {"dynamic_tools": "tools", "dynamic_prompts": "prompts", "dynamic_resources": "resources", "dynamic_sampling": "sampling"}.get(t[0]) if len(t) == 1 else None
            if op == "clear" and src in ("tools", "prompts"):
                ctx.test(not self.has(st, "put", src), "reload", ("clear", src), f"clear:{src}", w, f"the {src} just added are removed again")
                self.add(st, "cleared", src)
                return
            if src in ("tools", "prompts"):
                ok = op == "insert" and len(args) == 2 and cfg(args[0], src) and cfg(args[1], src) and args[1].op == "fld" and args[1].args[1] == "handler" and exactly_elem(args[0], args[1])
                ctx.test(self.has(st, "cleared", src), "reload", ("before", src), f"not-cleared:{src}", w, f"{src} are added before the previous ones are removed")
                self.add(st, "put", src)
            elif src:
                none = op == "take" or op == "=" and is_adt(args[0], "Option") and args[0].args[1] == "None"
                ok = none or op in ("=", "insert", "replace") and cfg(args[0], src)
                if not none:
                    self.add(st, "put", src)
            else:
                ok = False
            ctx.test(ok, "reload", ("put", t), f"put:{'.'.join(t)}:{op}", w, f"reloading changes `{'.'.join(t)}` ({op} {', '.join(show(x)[:60] for x in args)})")

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1:
                if t.op == "fld" and t.args[1] in ("resources", "sampling") and cfg(t, t.args[1]):
                    self.add(st, "cfg", t.args[1], next(iter(o)))
                if t.op == "call" and t.args[0].endswith("::next") and o == {"None"}:
                    for f in ("tools", "prompts"):
                        if cfg(t, f):
                            self.add(st, "through", f)

        def on_return(self, ip, st, v):
            w = ip.root.where()
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                for f in ("tools", "prompts"):
                    ctx.test(self.has(st, "cleared", f), "reload", ("cleared", f), f"kept:{f}", w, f"the previous {f} are not removed on a path of a reload")
                    ctx.test(self.has(st, "through", f), "reload", ("through", f), f"unread:{f}", w, f"a reload succeeds without having gone through the {f} of the configuration")
                for f in ("resources", "sampling"):
                    ctx.test(self.has(st, "put", f) if self.has(st, "cfg", f, "Some") or not self.has(st, "cfg", f, "None") else True, "reload", ("put", f), f"unset:{f}", w, f"a reload succeeds without having taken the {f} handler of the configuration")

    def exactly_elem(k, h):
        e = h.args[0]
        return e.op == "fld" and e.args[1] == "1" and k.op == "fld" and k.args[1] == "0" and k.args[0] is e.args[0]

    rl = need1(F, f"{dy}::reload_configuration")
    run_entry(ctx, R(ctx), rl)
    for f in ("tools", "prompts"):
        e = EachElement(ctx, "reload", ("each", f), f"skips:{f}", lambda t, f=f: t.op == "call" and cfg(t, f), lambda c, f=f: tail(c) == "insert" and len(c.args) == 3 and tbl(c.args[0]) == "dynamic_" + f, f"a reload can leave out one of the {f}")
        run_entry(ctx, e, rl)

    class Cb(Effects):
        def on_return(self, ip, st, v):
            w = ip.root.where()
            mine = False
            for _, p, op, args in self.sets(st, "do"):
                f = self.f
                if f in ("tools", "prompts"):
                    ok = op == "insert" and p == ("config", f) and len(args) == 2 and given(args[0], "name") and all(field(x, "handler") is not None and given(field(x, "handler"), "handler") and given(field(x, "info"), "info") for x in alts(args[1]))
                else:
                    ok = op == "=" and p == ("config", f) and some(args[0], lambda x: given(x, "handler"))
                mine |= ok
                ctx.test(ok, "setter", ("config", f, p), f"config:{f}:{'.'.join(p)}", w, f"the configuration builder's {f} changes `{'.'.join(p)}` ({op})")
            ctx.test(mine, "setter", ("config", f, "stores"), f"config:{f}:stores", w, f"a path of the configuration builder returns without having stored its {f}")

    for n, f in (("tool", "tools"), ("prompt", "prompts"), ("resources", "resources"), ("sampling", "sampling")):
        r = Cb(ctx)
        r.f = f
        run_entry(ctx, r, need1(F, f"dynamic::DynamicConfigBuilder::{n}"))
    ctx.floor("setter", 14)
    ctx.floor("built", 8)
    ctx.floor("dynamic", 20)
    ctx.floor("told", 20)
    ctx.floor("known", 8)
    ctx.floor("reload", 8)


CHECKS = {"C43": c43}
