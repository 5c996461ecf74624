"""The resource watcher: C38"""
from lib import *
from rules.util import methods, name, tbl, strip
from rules.recoverr import cmp_fact, oriented


def c38(ctx):
    F = ctx.F
    ctx.rule("filter", "a file event is passed on only for a path inside the watched directory that no ignore pattern matches and some include pattern does")
    ctx.rule("all-ignores", "every ignore pattern is tried on the path before it is accepted, whatever the include patterns say")
    ctx.rule("known", "an update is announced only for a tracked resource, under the URI of the very path that changed")
    ctx.rule("taken", "an event leaves the pending ones exactly when it is processed, and is not processed before its debounce time has passed")
    ctx.rule("limit", "a resource is tracked only below the configured maximum, decided under the hold of the table it is put in")
    start = need1(F, "resource_watcher::ResourceWatcher::start")

    def elem(v, fields):
        """v is an element of the list `fields` of the configuration, taken from the whole list"""
        for a in alts(v):
            n = [x for x in subterms(a) if x.op == "call" and name(x.args[0]) in ("next", "closure-arg", "elem")]
            if not n:
                return False
            src = strip(n[0].args[1][0]) if n[0].args[1] else TOP
            while src.op == "call" and name(src.args[0]) in ("any", "all", "iter", "into_iter", "find", "position", "cloned", "copied", "map", "as_slice") and src.args[1]:
                src = strip(src.args[1][0])
            if not (src.op == "fld" and src.args[1] in fields):
                return False
        return True

    IGN, INC = ("ignore_patterns",), ("patterns",)

    def glob(t):
        return t.op == "call" and name(t.args[0]) in ("glob_match", "glob_match_with_captures", "matches", "is_match", "matches_path")

    class R(Labels):
        def rel(self, v):
            """the path below base_dir of the path being looked at: returns that path's term"""
            for x in subterms(v):
                if x.op == "call" and name(x.args[0]) == "strip_prefix" and len(x.args[1]) == 2 and contains(x.args[1][1], lambda y: y.op == "fld" and y.args[1] == "base_dir"):
                    return x.args[1][0]
            return None

        def forget(self, st):
            st.auto = frozenset(l for l in st.auto if l[0] not in ("inside", "owed", "tried", "ignored", "included", "through"))

        def on_fact(self, ip, st, t, o, fr, line):
            if o == frozenset(["Ok"]):
                ps = [self.rel(a) if a.op == "call" and name(a.args[0]) == "strip_prefix" else None for a in alts(t)]
                if all(p is not None for p in ps):
                    for p in ps:
                        for a in alts(p):
                            self.add(st, "inside", strip(a))
            if isinstance(o, frozenset) and t.op == "call" and name(t.args[0]) == "next":
                if elem(mk("call", "elem", (t,), 0), IGN) or elem(t, IGN):
                    if o == {"Some"}:
                        self.owe(st, fr, line)
                        self.add(st, "owed")
                    else:
                        self.owe(st, fr, line)
                        self.add(st, "through")
            if t.op == "op" and t.args[0] in ("any", "all") and isinstance(o, bool) and o == (t.args[0] == "all") and elem(mk("call", "elem", (t.args[1],), 0), IGN):
                q, neg = t.args[2], o
                while q.op == "un" and q.args[0] == "Not":
                    q, neg = q.args[1], not neg
                if glob(q) and not neg and elem(q.args[1][0], IGN) and self.rel(q.args[1][1]) is not None:
                    self.add(st, "through")
            u = t
            while u.op == "un" and u.args[0] == "Not" and isinstance(o, bool):
                u, o = u.args[1], not o
            if isinstance(o, bool) and glob(u) and len(u.args[1]) == 2 and self.rel(u.args[1][1]) is not None:
                if elem(u.args[1][0], IGN):
                    st.auto = st.auto - {("owed",)}
                    self.add(st, "tried")
                    if o:
                        self.add(st, "ignored")
                elif elem(u.args[1][0], INC) and o:
                    self.add(st, "included")
            if isinstance(o, bool) and u.op == "call" and name(u.args[0]) == "contains_key" and o and tbl(u.args[1][0]) == "resources":
                self.add(st, "known", u.args[1][1])
            q = presence(t)
            if q and q[0] == "resources" and o == frozenset(["Some"]):
                self.add(st, "known", q[1])
            f = oriented(cmp_fact(t, o), lambda v: contains(v, lambda x: x.op == "fld" and x.args[1] == "timestamp") and contains(v, lambda x: x.op == "call" and name(x.args[0]) in ("now", "elapsed")), lambda v: contains(v, lambda x: x.op == "fld" and x.args[1] == "debounce"))
            if f and f[0] in ("Ge", "Gt"):
                self.add(st, "due")

        def owe(self, st, fr, line):
            if ("owed",) in st.auto:
                ctx.bad("all-ignores", "pattern", "ignore-skipped", where(fr, line), "an ignore pattern is passed over without being tried on the path", backtrace(fr, line))
                st.auto = st.auto - {("owed",)}

        def vetted(self, st, path):
            ins = {l[1] for l in self.sets(st, "inside")}
            return all(strip(a) in ins for a in alts(path)) and ("included",) in st.auto and ("ignored",) not in st.auto and ("through",) in st.auto

        def picked(self, st, v):
            """v is taken from a list that only vetted paths were put in"""
            if not (v.op == "call" and name(v.args[0]) in ("next", "next_back", "pop", "pop_front") and v.args[1]):
                return False
            src = v.args[1][0]
            while src.op == "call" and name(src.args[0]) in ("into_iter", "iter", "drain") and src.args[1]:
                src = src.args[1][0]
            if src.op == "call" and name(src.args[0]) == "new" and not src.args[1]:
                return True  # nothing can be taken from it
            if src.op != "mut" or src.args[0].op != "call" or name(src.args[0].args[0]) not in ("new", "with_capacity"):
                return False
            good = {l[1] for l in self.sets(st, "vetted")} - {l[1] for l in self.sets(st, "unvetted")}
            put = [(name(c), a) for c, a in src.args[1] if name(c) not in ("next", "next_back", "reserve", "pop", "pop_front", "clear")]
            return bool(put) and all(n in ("push", "push_back") and len(a) == 1 and all(strip(y) in good for y in alts(a[0])) for n, a in put)

        def accepted(self, st, path, w, tr):
            ins = {l[1] for l in self.sets(st, "inside")}
            ok = all(strip(a) in ins for a in alts(path))
            if all(self.picked(st, strip(a)) for a in alts(path)):
                for x in (("filter", "inside"), ("filter", "patterns"), ("all-ignores", "through")):
                    ctx.ok(*x, w)
                return
            ctx.test(ok, "filter", "inside", "inside", w, f"an event for `{show(path)[:80]}` is passed on without that path having been found inside the watched directory", tr)
            ctx.test(("included",) in st.auto and ("ignored",) not in st.auto, "filter", "patterns", "patterns", w, "an event is passed on although an ignore pattern matched its path or no include pattern did", tr)
            ctx.test(("through",) in st.auto, "all-ignores", "through", "ignores-not-all", w, "an event is passed on before every ignore pattern was tried on its path", tr)

        def on_call(self, ip, st, c):
            k = tail(c)
            w, tr = where(c.frame, c.line), None
            if k in ("next", "pop", "pop_front", "recv") and c.args and not elem(mk("call", "elem", (ip.snap(st, c.args[0]),), 0), IGN + INC):
                self.forget(st)
            if k in ("send", "try_send", "send_timeout", "blocking_send", "insert", "push", "push_back", "entry") and c.args:
                v = ip.snap(st, c.args[-1])
                for a in alts(v):
                    if is_adt(a, "FileEvent"):
                        self.accepted(st, field(a, "path"), w, backtrace(c.frame, c.line))
                    for x in subterms(a):
                        if is_adt(x, "ResourceUpdatedParams"):
                            self.announced(st, field(x, "uri"), w, backtrace(c.frame, c.line))
            if k in ("push", "push_back") and len(c.args) == 2 and contains(c.args[1], lambda x: x.op == "fld" and x.args[1] == "paths"):
                x = ip.snap(st, c.args[1])
                for a in alts(x):
                    self.add(st, "vetted" if self.vetted(st, x) else "unvetted", strip(a))
            if k == "push" and c.frame.body["kind"] == "closure" or (k in ("push", "push_back") and ("in-retain",) in st.auto):
                self.add(st, "pushed")

        def announced(self, st, uri, w, tr):
            ctx.test(any(l[1] is uri or strip(l[1]) is strip(uri) for l in self.sets(st, "known")), "known", "tracked", "untracked", w, f"an update of `{show(uri)[:80]}` is announced without that URI having been found among the tracked resources", tr)
            p = fmt_pieces(uri)
            def taken(v):
                while v.op in ("fld", "dc"):
                    v = v.args[0]
                return v.op == "call" and name(v.args[0]) in ("next", "next_back", "pop", "pop_front", "closure-arg", "elem", "recv")

            def changed(v):
                return plainly(v, taken, EXACT | {"display", "to_string_lossy", "to_str", "into_owned", "as_path", "to_path_buf"})

            own = len(p) == 2 and p[0] == ("lit", "file://") and changed(p[1][1])
            ctx.test(own, "known", "uri", "uri", w, f"an update is announced for `{show(uri)[:100]}`, which is not the URI of the changed path", tr)

        def on_enter(self, ip, st, fr):
            if fr.body["kind"] == "closure" and fr.parent is not None and self.retained(fr):
                st.auto = frozenset(l for l in st.auto if l[0] not in ("pushed", "due")) | {("in-retain",)}

        def retained(self, fr):
            return fr.key in RET

        def truth(self, st, v):
            if isinstance(lit(v), bool):
                return lit(v)
            if v.op == "un" and v.args[0] == "Not":
                x = self.truth(st, v.args[1])
                return None if x is None else not x
            x = st.facts.get(v)
            return x if isinstance(x, bool) else None

        def on_leave(self, ip, st, fr, v):
            if fr.body["kind"] == "closure" and self.retained(fr):
                w = where(fr, fr.body["line"])
                for a in alts(v):
                    keep = self.truth(st, a)
                    if keep is not False:
                        ctx.test(("pushed",) not in st.auto, "taken", "kept", "twice", w, "an event is processed and stays among the pending ones")
                    if keep is not True:
                        ctx.test(("pushed",) in st.auto, "taken", "dropped", "lost", w, "an event leaves the pending ones without being processed")
                if ("pushed",) in st.auto:
                    ctx.test(("due",) in st.auto, "taken", "due", "early", w, "an event is processed before its debounce time has passed")
                st.auto = st.auto - {("in-retain",)}

    RET = set()

    class Pre(PathRule):
        def on_call(self, ip, st, c):
            if tail(c) == "retain" and c.args and tbl(c.args[0]) == "pending_events":
                for x in subterms(ip.snap(st, c.args[1])):
                    if x.op == "agg" and x.args[0] == "closure":
                        RET.add(x.args[1])

    run_entry(ctx, Pre(ctx), start, inline_spawn=True)
    run_entry(ctx, R(ctx), start, inline_spawn=True)

    class L(Labels):
        def __init__(self, ctx, key):
            super().__init__(ctx)
            self.n = name(key)

        def on_fact(self, ip, st, t, o, fr, line):
            ln = lambda v: v.op == "call" and name(v.args[0]) == "len" and tbl(v.args[1][0]) == "resources"
            f = oriented(cmp_fact(t, o), ln, lambda v: plainly(v, lambda x: x.op == "fld" and x.args[1] == "max_resources", EXACT))
            if f and f[0] == "Lt":
                self.add(st, "room", guard(f[1].args[1][0]))
            q = presence(t)
            if q and q[0] == "resources" and (o is True or o == frozenset(["Some"])) and q[2] in ("contains_key", "get", "get_mut"):
                self.add(st, "there", guard(t.args[1][0]), strip(q[1]))

        def after_call(self, ip, st, c, res):
            if c.args and is_coll(c, "insert", "entry", "extend", "push", "try_insert") and tbl(c.args[0]) == "resources":
                w, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
                g = guard(c.args[0])
                if tail(c) == "extend":
                    ctx.bad("limit", (self.n, "extend"), f"{self.n}:extend", w, "resources are added in bulk without each one being counted", tr)
                    return
                ok = any(l[1] is g for l in self.sets(st, "room")) or any(l[1] is g and strip(c.args[1]) is l[2] for l in self.sets(st, "there"))
                ctx.test(ok, "limit", (self.n, w), self.n, w, f"{self.n} tracks a resource without the number of tracked ones having been found below the maximum under the same hold of the table", tr)
                st.auto = frozenset(l for l in st.auto if l[0] != "room")

    def guard(v):
        while v.op == "mut" or (v.op == "call" and name(v.args[0]) in ("deref", "deref_mut") and v.args[1]):
            v = v.args[0] if v.op == "mut" else v.args[1][0]
        return v

    for k in methods(F, "resource_watcher::ResourceWatcher"):
        run_entry(ctx, L(ctx, k), k)
    ctx.floor("filter", 2)
    ctx.floor("all-ignores", 1)
    ctx.floor("known", 2)
    ctx.floor("taken", 3)
    ctx.floor("limit", 1)


CHECKS = {"C38": c38}
