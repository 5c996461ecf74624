"""Server-side managers: C28 subscriptions, C29 cancellation, C30 elicitation, C31 roots, C32 event store, C33 sessions"""
import copy

from lib import *
from lib import exactly as plainly

MUTATE = {"insert", "remove", "remove_entry", "clear", "retain", "drain", "pop", "pop_front", "pop_back", "push", "push_back", "push_front", "truncate", "extend", "append", "swap_remove", "take", "replace", "remove_if", "split_off", "extend_from_slice", "set", "swap", "rotate_left", "rotate_right", "dedup_by_key", "pop_first", "pop_last", "sort_by_key", "reverse", "insert_entry", "get_or_insert_with", "retain_mut"}


def methods(F, ty):
    """(non-test) functions of an impl of the type `ty` (path suffix, e.g. "subscriptions::SubscriptionManager")"""
    r = sorted(k for k, b in F.bodies.items() if b["kind"] == "fn" and not b.get("derived") and re.search(rf"(^|::){ty}(::<[^:]*>)?::\w+$", k))
    if not r:
        raise Anchor(ty)
    return r


def public(F, ms):
    """`ms` without the private helpers that only functions of `ms` call (they are analysed as part of those)"""
    return [k for k in ms if F.bodies[k].get("reach") or "trait" in F.bodies[k] or not F.callers(k) or not (F.callers(k) - {k} <= set(ms))]


def name(k):
    return k.rsplit("::", 1)[-1]


def param(F, key, i):
    """predicate: the i-th argument (self is 1) of function `key`"""
    b = F.bodies[key]
    for n, pl in b.get("dbg", []):
        if pl == [i]:
            return isin(n)
    return isin(f"arg{i}")


def strip(v, stop=()):
    """down through guards, views, changes, Option/Result payloads"""
    while True:
        if v.op in ("mut", "await", "cast"):
            v = v.args[0]
        elif v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] in ("Ok", "Some"):
            v = v.args[0].args[0]
        elif v.op == "call" and v.args[0].rsplit("::", 1)[-1] in VIEW and v.args[1]:
            v = v.args[1][0]
        else:
            return v


VIEW = set(GUARDS) | {"iter_mut", "values_mut", "into_iter", "drain", "or_default", "or_insert", "or_insert_with", "into_mut", "into_values", "into_keys", "deref", "deref_mut", "clone", "cloned", "expect", "lock_owned", "write_owned", "read_owned", "by_ref"}


def tbl(v):
    """name of the field a table expression (guard, view, iterator over it) is rooted in"""
    c = strip(v)
    return c.args[1] if c.op == "fld" else None


def guard_of(v):
    """the lock guard a table expression goes through"""
    while True:
        if v.op == "mut":
            v = v.args[0]
        elif v.op == "await":
            return v
        elif v.op == "call" and v.args[1] and v.args[0].rsplit("::", 1)[-1] in ("lock", "read", "write"):
            return v
        elif v.op in ("fld", "dc"):
            v = v.args[0]
        elif v.op == "call" and v.args[1]:
            v = v.args[1][0]
        else:
            return v


def is_guard(g):
    return g.op == "await" or (g.op == "call" and name(g.args[0]) in ("lock", "read", "write"))


PARTS = {"key", "value", "value_mut", "pair", "clone", "to_string", "to_owned", "as_str", "as_ref", "deref", "into"}


def elem(v, col):
    """v is (part of) the current element of an iteration over table `col`: the next-term"""
    while v.op in ("fld", "dc", "mut", "idx") or (v.op == "call" and name(v.args[0]) in PARTS and v.args[1]):
        if v.op == "call":
            v = v.args[1][0]
            continue
        if v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] == "Some":
            x = v.args[0].args[0]
            if x.op == "call" and name(x.args[0]) in ("next", "next_back") and over(x.args[1][0], col):
                return x
        v = v.args[0]
    if v.op == "call" and name(v.args[0]) == "closure-arg" and v.args[1][0].op == "call":
        x = v.args[1][0]
        if x.args[1] and tbl(x.args[1][0]) == col:
            return x
    if v.op == "call" and name(v.args[0]) == "elem" and over(v.args[1][0], col):
        return v
    return None


def over(it, col):
    """iterator term ranges over every element of table `col` (adapters that only pass elements on or filter)"""
    while True:
        it = strip(it)
        if it.op == "fld":
            return it.args[1] == col
        if it.op == "call" and it.args[1] and (name(it.args[0]) in PASSON or name(it.args[0]) in LAZY or name(it.args[0]) in ("take", "replace")):
            it = it.args[1][0]
        else:
            return False


def direct(it, col):
    """... and skips none"""
    it = strip(it)
    while it.op == "call" and it.args[1] and name(it.args[0]) in ("rev", "by_ref", "fuse", "enumerate", "cloned", "copied", "peekable", "take", "replace", "filter", "map", "inspect") and not (name(it.args[0]) == "take" and len(it.args[1]) > 1):
        it = strip(it.args[1][0])
    return it.op == "fld" and it.args[1] == col


def empty_fact(t, o):
    """(X, is-empty) of a branch fact about the size of X"""
    if t.op == "un" and t.args[0] == "Not" and isinstance(o, bool):
        return empty_fact(t.args[1], not o)
    if t.op == "call" and name(t.args[0]) == "is_empty" and isinstance(o, bool):
        return t.args[1][0], o
    if t.op == "call" and name(t.args[0]) == "len":
        if o == 0 and not isinstance(o, bool):
            return t.args[1][0], True
        if isinstance(o, tuple) and 0 in o[1]:
            return t.args[1][0], False
    if t.op == "op" and isinstance(o, bool) and t.args[0] in ("Eq", "Gt", "Ge", "Lt", "Le"):
        op, a, b = t.args
        if lit(a) is not None:
            a, b = b, a
            op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge", "Eq": "Eq"}[op]
        n = lit(b)
        if a.op == "call" and name(a.args[0]) == "len" and isinstance(n, int):
            x = a.args[1][0]
            if (op, n) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
                return x, o
            if (op, n) in (("Gt", 0), ("Ge", 1)):
                return x, not o
    return None


def ok_return(v):
    """alternatives of a returned value that report success (not Result::Err)"""
    return [a for a in alts(v) if not (is_adt(a, "Result") and a.args[1] == "Err")]


def callback_call(c, field, adt=None):
    """c invokes the callable stored in field `field` (or one that was just stored there: recognised by the argument's type): its arguments"""
    if c.path in FN_CALL or c.path == "<indirect>":
        f = strip(c.args[0])
        a = c.args[1] if len(c.args) > 1 else UNIT
        a = list(a.args[3]) if a.op == "agg" and a.args[0] == "tuple" else [a]
        if (f.op == "fld" and f.args[1] == field) or (adt and any(is_adt(x, adt) for x in a)):
            return a
    return None


def unentry(c):
    """an insertion through a map's vacant entry is an insertion under the entry's key (the same for a removal through an occupied one)"""
    m = re.search(r"(?:^|::)(VacantEntry|OccupiedEntry)\b", path_of(c))
    if m and c.args:
        v = strip_mut(c.args[0])
        if v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] in ("Vacant", "Occupied"):
            e = v.args[0].args[0]
            if e.op == "call" and name(e.args[0]) == "entry" and len(e.args[1]) == 2 and tail(c) in ("insert", "insert_entry", "remove", "remove_entry"):
                d = copy.copy(c)
                n = "insert" if tail(c).startswith("insert") else tail(c)
                d.path = d.res = e.args[0].rsplit("::", 1)[0] + "::" + n
                d.args = [e.args[1][0], e.args[1][1]] + list(c.args[1:])
                return d
    return c


class Man(Labels):
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        if "after_call" in cls.__dict__:
            inner = cls.__dict__["after_call"]
            cls.after_call = lambda self, ip, st, c, res: inner(self, ip, st, unentry(c), res)

    def __init__(self, ctx, key):
        super().__init__(ctx)
        self.key, self.name = key, name(key)

    def P(self, i):
        return param(self.ctx.F, self.key, i)

    def site(self, fr, line):
        return where(fr, line), backtrace(fr, line)

    def on_fact(self, ip, st, t, o, fr, line):
        q = None
        if t.op == "call" and isinstance(o, frozenset) and name(t.args[0]) in ("next", "next_back", "pop_front", "pop", "pop_back", "front"):
            # a new element: what was known of the one before says nothing about it
            st.auto = frozenset(l for l in st.auto if not any(type(x) is V and x is not t and t in subterms(x) for x in l[1:]) and not (l[0] in ("dead", "alive", "match", "own") and any(x is t for x in l[1:])))
        if isinstance(o, frozenset) and len(o) == 1:
            n = next(iter(o))
            q = presence(t)
            if q and n in ("Some", "None", "Occupied", "Vacant"):
                self.add(st, "present" if n in ("Some", "Occupied") else "absent", q[0], q[1])
        elif isinstance(o, bool):
            q = presence(t)
            if q and q[2] in ("contains_key", "contains"):
                self.add(st, "present" if o else "absent", q[0], q[1])
        e = empty_fact(t, o)
        if e:
            self.add(st, "empty" if e[1] else "nonempty", e[0])
        self.fact(ip, st, t, o, fr, line)

    def fact(self, ip, st, t, o, fr, line):
        pass

    def known(self, st, what, col, keyp):
        return any(l[1] == col and keyp(l[2]) for l in self.sets(st, what))


# ---------------------------------------------------------------- C28


def subs_inner(v):
    """v is the subscriber set of a resource in the table: its key ("each" inside an iteration)"""
    while True:
        q = presence(v)
        if q and q[0] == "subscriptions":
            return q[1]
        if elem(v, "subscriptions") is not None:
            return "each"
        if v.op in ("mut", "fld", "dc", "cast", "await"):
            v = v.args[0]
        elif v.op == "call" and v.args[1] and name(v.args[0]) in VIEW | set(PLAIN):
            v = v.args[1][0]
        else:
            return None


def c28(ctx):
    F = ctx.F
    T = "subscriptions"
    ctx.rule("record", "a successful subscribe has put exactly the given subscriber into the set kept under exactly the given resource, and changed nothing else")
    ctx.rule("remove", "a successful unsubscribe has taken exactly the given subscriber out of the given resource's set (or there was none), and a resource's whole entry is dropped only when its set is empty")
    ctx.rule("all", "dropping a session takes its subscriber out of every resource's set")
    ctx.rule("notify", "the update callback is invoked only when the resource's set was found not empty, with an update naming that resource, and always when it is not empty and a callback is set; what is reported is the size of that set")
    ctx.rule("only-here", "no other function of the subscription manager changes the table")
    ms = methods(F, "subscriptions::SubscriptionManager")
    roles = {"subscribe": "record", "unsubscribe": "remove", "unsubscribe_all": "all", "notify_resource_updated": "notify"}
    for r in roles:
        if not any(name(k) == r for k in ms):
            raise Anchor(f"SubscriptionManager::{r}")
    entries = [(k, roles.get(name(k), "only-here")) for k in public(F, ms)]
    entries += [(k, roles[name(k).replace("_resource", "")]) for k in methods(F, "server::Server") if name(k) in ("subscribe_resource", "unsubscribe_resource")]
    entries += [(k, "notify") for k in methods(F, "server::Server") if name(k) == "notify_resource_updated"]

    class R(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role = role
            self.uri, self.who = (self.P(2), self.P(3)) if role != "all" else (None, self.P(2))

        def is_key(self, k):
            return k == "each" if self.role == "all" else (k != "each" and k is not None and plainly(k, self.uri))

        def emptyset(self, st, key):
            return any((subs_inner(l[1]) is key) or (subs_inner(l[1]) == "each" == key) for l in self.sets(st, "empty"))

        def after_call(self, ip, st, c, res):
            n, site, tr = tail(c), *self.site(c.frame, c.line)
            if n == "push" and is_coll(c, "push"):
                if elem(c.args[1], T) is not None and self.emptyset(st, "each"):
                    ctx.ok(self.role if self.role in ctx.rules else "all", (self.name, "mark"), site)
                else:
                    self.add(st, "unproven", bare(strip_mut(c.args[0])))
            if n == "retain" and tbl(c.args[0]) == T:
                self.add(st, "swept")
                return
            if n not in MUTATE or not is_coll(c, n) or not c.args:
                return
            if tbl(c.args[0]) == T:
                self.table_op(ip, st, c, n, site, tr)
                return
            k = subs_inner(c.args[0])
            if k is None:
                return
            val = c.args[1] if len(c.args) > 1 else None
            good = n == {"record": "insert"}.get(self.role, "remove" if self.role in ("remove", "all") else None) and self.is_key(k) and val is not None and plainly(val, self.who)
            ctx.test(good, self.role, (self.name, "set"), f"{self.name}:{n}", site, f"{self.name} does `{n}` of `{show(val)[:60] if val else ''}` on the subscriber set of `{k if k == 'each' else show(k)[:60]}`", tr)
            if good:
                self.add(st, "done")
                st.auto = st.auto - {("owed",)}

        def table_op(self, ip, st, c, n, site, tr):
            good = False
            if self.role == "record" and n == "insert" and len(c.args) > 2:
                good = plainly(c.args[1], self.uri) and contains(c.args[2], self.who) and self.known(st, "absent", T, lambda k: plainly(k, self.uri))
                if good:
                    self.add(st, "done")
            elif self.role == "remove" and n in ("remove", "remove_entry"):
                good = plainly(c.args[1], self.uri) and any(plainly(subs_inner(l[1]), self.uri) for l in self.sets(st, "empty") if type(subs_inner(l[1])) is V)
            elif self.role == "all" and n in ("remove", "remove_entry"):
                k = c.args[1]
                e = okof(k)
                if elem(k, T) is not None:
                    good = self.emptyset(st, "each")
                elif e is not None and e.op == "call" and name(e.args[0]) in ("next", "pop"):
                    src = bare(strip(e.args[1][0]))
                    good = not any(l[1] is src for l in self.sets(st, "unproven"))
            ctx.test(good, self.role, (self.name, "table"), f"{self.name}:table-{n}", site, f"{self.name} does `{n}` on the whole subscription table without that entry being known to be {'absent' if self.role == 'record' else 'empty'}", tr)

        def fact(self, ip, st, t, o, fr, line):
            if t.op == "call" and name(t.args[0]) in ("next", "next_back") and isinstance(o, frozenset) and over(t.args[1][0], T):
                if self.role == "all" and direct(t.args[1][0], T):
                    if o == frozenset(["Some"]):
                        if ("owed",) in st.auto:
                            self.bad_owed(fr, line)
                        self.add(st, "owed")
                    else:
                        self.add(st, "swept")
            if t.op == "call" and name(t.args[0]) in ("contains", "contains_key") and o is False and len(t.args[1]) == 2:
                k = subs_inner(t.args[1][0])
                if k is not None and self.is_key(k) and plainly(t.args[1][1], self.who):
                    self.add(st, "nothing")
                    st.auto = st.auto - {("owed",)}

        def bad_owed(self, fr, line):
            site, tr = self.site(fr, line)
            ctx.bad("all", (self.name, "each"), f"{self.name}:skipped", site, f"{self.name} leaves the subscriber in a resource's set", tr)

        def on_leave(self, ip, st, fr, v):
            if fr.wrap and fr.wrap[0] == "use" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) == "retain" and fr.wrap[1].args[1] and tbl(fr.wrap[1].args[1][0]) == T and fr.body["kind"] != "std":
                site, tr = self.site(fr, fr.body["line"])
                if self.role == "all":
                    ctx.test(("done",) in st.auto or ("nothing",) in st.auto, "all", (self.name, "each"), f"{self.name}:skipped", site, f"{self.name} leaves the subscriber in a resource's set", tr)
                for a in alts(ip.snap(st, v)):
                    e = empty_fact(a, True)
                    good = lit(a) is True or (e and e[1] is False and subs_inner(e[0]) == "each") or (lit(a) is False and self.emptyset(st, "each"))
                    ctx.test(good, self.role if self.role in ctx.rules else "only-here", (self.name, "retain"), f"{self.name}:retain", site, f"{self.name} drops a resource's entry although its subscriber set is not known to be empty", tr)

        def on_call(self, ip, st, c):
            a = callback_call(c, "notification_sender", "ServerNotification")
            if a is None:
                return None
            site, tr = self.site(c.frame, c.line)
            if self.role != "notify":
                ctx.bad("notify", (self.name, "sent"), f"{self.name}:sends", site, f"{self.name} sends a resource notification", tr)
                return None
            good = any(type(subs_inner(l[1])) is V and plainly(subs_inner(l[1]), self.uri) for l in self.sets(st, "nonempty"))
            ctx.test(good, "notify", (self.name, "subscribed"), f"{self.name}:unsubscribed", site, "an update is sent although the resource is not known to have a subscriber", tr)
            n = a[0]
            u = [x for x in subterms(n) if is_adt(x, "ResourceUpdatedParams")]
            good = bool(u) and is_adt(n, "ServerNotification") and n.args[1] == "ResourceUpdated" and all(plainly(field(x, "uri"), self.uri) for x in u)
            ctx.test(good, "notify", (self.name, "names"), f"{self.name}:other", site, f"the update sent is `{show(n)[:120]}`, not one for the updated resource", tr)
            self.add(st, "sent")
            return None

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for a in ok_return(v):
                if self.role == "record":
                    ctx.test(("done",) in st.auto, "record", (self.name, "end"), f"{self.name}:unrecorded", site, f"{self.name} succeeds without having recorded the subscription")
                elif self.role == "remove":
                    gone = ("done",) in st.auto or ("nothing",) in st.auto or self.known(st, "absent", T, lambda k: plainly(k, self.uri))
                    ctx.test(gone, "remove", (self.name, "end"), f"{self.name}:kept", site, f"{self.name} succeeds without having removed the subscription")
                elif self.role == "all":
                    if ("owed",) in st.auto:
                        self.bad_owed(ip.root, ip.root.body["line"])
                    ctx.test(("swept",) in st.auto, "all", (self.name, "end"), f"{self.name}:unswept", site, f"{self.name} succeeds without having gone through every resource")
                elif self.role == "notify":
                    ne = any(type(subs_inner(l[1])) is V and plainly(subs_inner(l[1]), self.uri) for l in self.sets(st, "nonempty"))
                    nosender = any(isinstance(o, frozenset) and o == frozenset(["None"]) and t.op == "fld" and t.args[1] == "notification_sender" for t, o in st.facts.items())
                    ctx.test(not ne or ("sent",) in st.auto or nosender, "notify", (self.name, "end"), f"{self.name}:silent", site, f"{self.name} succeeds without having announced the update although the resource has subscribers and a callback is set")
                    n = field(a, "0")
                    for x in alts(n) if n is not None else ():
                        good = lit(x) == 0 or (x.op == "call" and name(x.args[0]) in ("len", "count") and type(subs_inner(x.args[1][0])) is V and plainly(subs_inner(x.args[1][0]), self.uri))
                        ctx.test(good, "notify", (self.name, "count"), f"{self.name}:count", site, f"the number of notified subscribers is reported as `{show(x)[:80]}`")

    for k, role in entries:
        run_entry(ctx, R(ctx, k, role), k)
    ctx.ok("only-here", f"{len(entries)} functions")
    for r in ("record", "remove", "all", "notify"):
        ctx.floor(r, 2)


# ---------------------------------------------------------------- C29


def c29(ctx):
    F = ctx.F
    T = "tokens"
    ctx.rule("create", "a token created for a request is recorded under exactly that request's id, and the recorded token is the one handed out")
    ctx.rule("cancel", "cancelling a request takes the entry of exactly that id out of the table, cancels the token found there and no other, and tells the peer that id")
    ctx.rule("remove", "forgetting a request removes exactly its entry and cancels nothing")
    ctx.rule("clear", "clearing cancels every token before (or while) it is forgotten, under one hold of the table's lock")
    ctx.rule("context", "the token a handler is given is the one looked up under its own request's id (or a fresh one when there is none)")
    ctx.rule("only-here", "no other function of the cancellation manager changes the table or cancels a token")
    ms = methods(F, "cancellation::CancellationManager")
    roles = {"create_token": "create", "cancel_request": "cancel", "remove_token": "remove", "clear": "clear"}
    for r in roles:
        if not any(name(k) == r for k in ms):
            raise Anchor(f"CancellationManager::{r}")
    entries = [(k, roles.get(name(k), "only-here")) for k in public(F, ms) if name(k) not in ("new", "default", "fmt")]
    entries += [(k, "cancel") for k in methods(F, "server::Server") if name(k) == "cancel_request"]

    class R(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role, self.id = role, self.P(2)

        def tok(self, v):
            """the entry under the request's own id"""
            q = presence(okof(v)) if okof(v) is not None else None
            return bool(q and q[0] == T and plainly(q[1], self.id))

        def fact(self, ip, st, t, o, fr, line):
            if t.op == "call" and name(t.args[0]) in ("next", "next_back") and isinstance(o, frozenset) and over(t.args[1][0], T):
                if o == frozenset(["Some"]):
                    if direct(t.args[1][0], T):
                        if ("owed",) in st.auto:
                            ctx.bad("clear", (self.name, "each"), f"{self.name}:skipped", *self.site(fr, line)[:1], "a token is forgotten without being cancelled", backtrace(fr, line))
                        self.add(st, "owed")
                elif direct(t.args[1][0], T):
                    self.add(st, "swept", guard_of(t.args[1][0]))
            if t.op == "call" and name(t.args[0]) == "is_cancelled" and o is True:
                st.auto = st.auto - {("owed",)}
            if isinstance(o, frozenset) and o == frozenset(["Some"]):
                q = presence(t)
                if q and q[0] == T and plainly(q[1], self.id):
                    self.add(st, "found")

        def after_call(self, ip, st, c, res):
            n = tail(c)
            site, tr = self.site(c.frame, c.line)
            if n == "cancel" and "CancellationToken" in path_of(c):
                good = (self.role == "cancel" and self.tok(strip_mut(c.args[0]))) or (self.role == "clear" and elem(c.args[0], T) is not None)
                ctx.test(good, self.role if self.role != "only-here" else "only-here", (self.name, "which"), f"{self.name}:cancels", site, f"{self.name} cancels `{show(c.args[0])[:100]}`, which is not the token of {'the given request' if self.role == 'cancel' else 'an entry it forgets'}", tr)
                if good:
                    self.add(st, "cancelled")
                    st.auto = st.auto - {("owed",)}
                return
            if n in MUTATE and is_coll(c, n) and c.args and tbl(c.args[0]) == T:
                good = False
                if self.role == "create" and n == "insert":
                    good = plainly(c.args[1], self.id)
                    self.add(st, "recorded", c.args[2])
                elif self.role in ("cancel", "remove") and n in ("remove", "remove_entry"):
                    good = plainly(c.args[1], self.id)
                    self.add(st, "removed")
                elif self.role == "clear" and n == "drain":
                    good = True
                    self.add(st, "cleared")
                elif self.role == "clear" and n == "clear":
                    good = any(l[1] is guard_of(c.args[0]) for l in self.sets(st, "swept"))
                    self.add(st, "cleared")
                ctx.test(good, self.role, (self.name, n), f"{self.name}:{n}", site, f"{self.name} does `{n}` on the table of cancellation tokens" + (" before every token in it was cancelled under the same hold of its lock" if self.role == "clear" else f" for `{show(c.args[1])[:80]}`, which is not the given request's id" if len(c.args) > 1 else ""), tr)
            elif n in ("take", "replace") and path_of(c).startswith("std::mem") and tbl(c.args[0]) == T:
                self.add(st, "cleared")

        def on_store(self, ip, st, base, f, val, fr, line):
            if fr is not None and tbl(base) == T and f == "*" and self.role == "clear":
                self.add(st, "cleared")

        def on_call(self, ip, st, c):
            a = callback_call(c, "notification_sender")
            if a is None:
                return None
            site, tr = self.site(c.frame, c.line)
            if self.role != "cancel":
                ctx.bad(self.role, (self.name, "sent"), f"{self.name}:sends", site, f"{self.name} sends a notification", tr)
                return None
            p = [x for x in subterms(a[0]) if is_adt(x, "CancelledNotification")]
            good = bool(p) and all(plainly(field(x, "request_id"), self.id) for x in p) and ("found",) in st.auto
            ctx.test(good, "cancel", (self.name, "told"), f"{self.name}:told", site, f"the peer is told `{show(a[0])[:140]}`, not the cancellation of the given request", tr)
            self.add(st, "told")
            return None

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for a in ok_return(v):
                if self.role == "cancel":
                    ctx.test(("removed",) in st.auto or self.known(st, "absent", T, self.id), "cancel", (self.name, "removed"), f"{self.name}:kept", site, "a cancelled request stays in the table")
                    if ("found",) in st.auto:
                        ctx.test(("cancelled",) in st.auto, "cancel", (self.name, "end"), f"{self.name}:uncancelled", site, "a request is reported cancelled although its token was not")
                        nosender = any(isinstance(o, frozenset) and o == frozenset(["None"]) and t.op == "fld" and t.args[1] == "notification_sender" for t, o in st.facts.items())
                        ctx.test(("told",) in st.auto or nosender, "cancel", (self.name, "end-told"), f"{self.name}:untold", site, "a request is cancelled without telling the peer although a callback is set")
                elif self.role == "remove":
                    ctx.test(("removed",) in st.auto or self.known(st, "absent", T, self.id), "remove", (self.name, "end"), f"{self.name}:kept", site, "the entry of a completed request is not removed")
                elif self.role == "create":
                    rec = self.sets(st, "recorded")
                    ctx.test(bool(rec) and all(bare(l[1]) is bare(a) for l in rec), "create", (self.name, "end"), f"{self.name}:other", site, f"the token handed out (`{show(a)[:80]}`) is not the one recorded")
                elif self.role == "clear":
                    if ("owed",) in st.auto:
                        ctx.bad("clear", (self.name, "each"), f"{self.name}:skipped", site, "a token is forgotten without being cancelled")
                    ctx.test(("cleared",) in st.auto, "clear", (self.name, "end"), f"{self.name}:kept", site, "clearing leaves tokens in the table")

    for k, role in entries:
        run_entry(ctx, R(ctx, k, role), k)
    ctx.ok("only-here", f"{len(entries)} functions")

    # handlers' contexts
    class H(PathRule):
        init = frozenset()

        def on_agg(self, ip, st, v, fr, line):
            if is_adt(v, "RequestHandlerExtra"):
                t, i = ip.snap(st, field(v, "cancellation_token")), ip.snap(st, field(v, "request_id"))
                for a in alts(t):
                    q = presence(okof(a)) if okof(a) is not None else None
                    fresh = a.op == "call" and (a.args[0].endswith("CancellationToken::new") or name(a.args[0]) == "default" and not a.args[1])
                    good = fresh or (a.op == "in") or bool(q and q[0] == T and key_id(q[1]) is key_id(i))
                    ctx.test(good, "context", root_fn(fr.parent.key if fr.parent else fr.key), f"{root_fn(fr.parent.key if fr.parent else fr.key)}", where(fr, line), f"the handler for request `{show(i)[:80]}` is given the token `{show(a)[:120]}`", backtrace(fr, line))

    for k in need(F, "server::Server::handle_request"):
        run_entry(ctx, H(ctx), k)
    ctx.floor("context", 1)
    for r in ("create", "cancel", "remove", "clear"):
        ctx.floor(r, 1)


def key_id(v):
    while v.op in ("mut",) or (v.op == "call" and name(v.args[0]) in ("to_string", "as_str", "clone", "into") and len(v.args[1]) == 1):
        v = v.args[0] if v.op == "mut" else v.args[1][0]
    return v


# ---------------------------------------------------------------- C30


def c30(ctx):
    F = ctx.F
    T = "pending"
    ctx.rule("register", "an elicitation is entered into the pending table under its own id, before it is sent, and only when no elicitation is pending under that id (checked under the same hold of the lock)")
    ctx.rule("receiver", "the answer handed to the caller is what arrived on the very channel whose sending half was entered, never a made-up one")
    ctx.rule("released", "when sending fails or the wait times out, the pending entry is removed again and an error is returned")
    ctx.rule("complete", "a response completes only the elicitation whose id it carries, is passed on unchanged, and is refused when none is pending")
    ctx.rule("cancel", "cancelling completes only the named elicitation (all of them when the manager shuts down) with an answer that says cancelled and carries its own id")
    ctx.rule("only-here", "no other function of the elicitation manager changes the pending table")
    ms = methods(F, "elicitation::ElicitationManager")
    roles = {"elicit_input": "ask", "handle_response": "complete", "cancel": "cancel", "cancel_all": "cancel-all"}
    for r in roles:
        if not any(name(k) == r for k in ms):
            raise Anchor(f"ElicitationManager::{r}")

    class R(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role, self.arg = role, self.P(2)

        def own_id(self, k):
            return plainly(k, lambda x: x.op == "fld" and x.args[1] == "elicitation_id" and contains(x.args[0], self.arg)) or (self.role == "cancel" and plainly(k, self.arg))

        def after_call(self, ip, st, c, res):
            n = tail(c)
            site, tr = self.site(c.frame, c.line)
            p = path_of(c)
            if n == "send" and "oneshot" in p:
                tx, msg = c.args[0], c.args[1]
                q = presence(okof(strip_mut(tx))) if okof(strip_mut(tx)) is not None else None
                if self.role == "complete":
                    good = bool(q and q[0] == T and q[2] in ("remove", "remove_entry") and self.own_id(q[1])) or self.pair(tx)
                    ctx.test(good, "complete", (self.name, "whose"), f"{self.name}:whose", site, f"a response is delivered to `{show(tx)[:120]}`, which is not the elicitation whose id it carries", tr)
                    ctx.test(plainly(msg, self.arg), "complete", (self.name, "what"), f"{self.name}:what", site, f"`{show(msg)[:120]}` is delivered instead of the response received", tr)
                    self.add(st, "delivered")
                elif self.role in ("cancel", "cancel-all"):
                    each = elem(tx, T)
                    good = (self.role == "cancel-all" and each is not None) or (self.role == "cancel" and (bool(q and q[0] == T and self.own_id(q[1])) or self.pair(tx)))
                    ctx.test(good, "cancel", (self.name, "whose"), f"{self.name}:whose", site, f"`{show(tx)[:120]}` is cancelled, which is not the named elicitation", tr)
                    i, x = field(msg, "elicitation_id"), field(msg, "cancelled")
                    same = i is not None and ((each is not None and elem(i, T) is each) or (self.role == "cancel" and self.own_id(i)))
                    ctx.test(same and lit(x) is True and is_adt(field(msg, "value"), "Option") and field(msg, "value").args[1] == "None", "cancel", (self.name, "what"), f"{self.name}:what", site, f"a cancelled elicitation is answered `{show(msg)[:140]}`", tr)
                    self.add(st, "delivered")
                    st.auto = st.auto - {("owed",)}
                else:
                    ctx.bad("complete", (self.name, "made-up"), f"{self.name}:made-up", site, f"{self.name} completes an elicitation", tr)
                return
            if n in MUTATE and is_coll(c, n) and c.args and tbl(c.args[0]) == T:
                good = False
                rule = {"ask": "register", "complete": "complete", "cancel": "cancel", "cancel-all": "cancel"}.get(self.role, "only-here")
                if self.role == "ask" and n == "insert":
                    fresh = self.known(st, "absent", T, self.own_id) and any(l[1] is guard_of(c.args[0]) for l in self.sets(st, "checked"))
                    good = self.own_id(c.args[1])
                    ctx.test(fresh, "register", (self.name, "unique"), f"{self.name}:displaces", site, "an elicitation is entered without it being known that none is pending under its id", tr)
                    ch = strip_mut(c.args[2])
                    self.add(st, "tx", ch.args[0] if ch.op == "fld" else ch)
                    ctx.test(not any(True for _ in self.sets(st, "sent")), "register", (self.name, "before"), f"{self.name}:late", site, "the elicitation is sent before it is entered into the pending table", tr)
                elif self.role == "ask" and n in ("remove", "remove_entry"):
                    good, rule = self.own_id(c.args[1]), "released"
                    self.add(st, "removed")
                elif self.role in ("complete", "cancel") and n in ("remove", "remove_entry"):
                    good = self.own_id(c.args[1])
                elif self.role == "cancel-all" and n in ("drain",):
                    good = True
                    self.add(st, "emptied")
                ctx.test(good, rule, (self.name, n), f"{self.name}:{n}", site, f"{self.name} does `{n}` on the pending elicitations" + (f" under `{show(c.args[1])[:80]}`" if len(c.args) > 1 else ""), tr)
                return
            if self.role == "ask" and n in ("send", "try_send", "send_timeout", "blocking_send") and "mpsc" in p:
                r = [x for x in subterms(c.args[1]) if is_adt(x, "ServerRequest")]
                good = len(r) == 1 and r[0].args[1] == "ElicitInput" and plainly(field(r[0], "0"), self.arg)
                ctx.test(good, "register", (self.name, "sent"), f"{self.name}:sent", site, f"`{show(c.args[1])[:120]}` is sent instead of the caller's elicitation", tr)
                ctx.test(bool(self.sets(st, "tx")), "register", (self.name, "before"), f"{self.name}:late", site, "the elicitation is sent before it is entered into the pending table", tr)
                self.add(st, "sent")

        def pair(self, tx):
            """value half of a (key, value) pair taken out with remove_entry"""
            v = strip_mut(tx)
            if v.op == "fld" and v.args[1] == "1" and okof(v.args[0]) is not None:
                q = presence(okof(v.args[0]))
                return bool(q and q[0] == T and self.own_id(q[1]))
            return False

        def fact(self, ip, st, t, o, fr, line):
            q = presence(t)
            if q and q[0] == T and self.own_id(q[1]):
                self.add(st, "checked", guard_of(t.args[1][0]))
                if q[2] in ("remove", "remove_entry") and o == frozenset(["Some"]):
                    self.add(st, "taken")
            if self.role == "cancel-all" and t.op == "call" and name(t.args[0]) in ("next", "next_back") and over(t.args[1][0], T):
                if o == frozenset(["Some"]):
                    if ("owed",) in st.auto:
                        ctx.bad("cancel", (self.name, "each"), f"{self.name}:skipped", where(fr, line), "a pending elicitation is dropped without an answer", backtrace(fr, line))
                    self.add(st, "owed")
                elif o == frozenset(["None"]):
                    self.add(st, "swept")
            if o == frozenset(["Err"]) and t.op == "await":
                x = strip_mut(t.args[0])
                if x.op == "fld" and any(x.args[0] is l[1] for l in self.sets(st, "tx")):
                    self.add(st, "removed")  # closed: the sending half, and with it the entry, is gone

        def on_await(self, ip, st, fut, fr, line):
            if self.role == "ask" and fut.op == "call" and fut.args[0].endswith("time::timeout"):
                self.add(st, "late")
            return None

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for a in alts(v):
                err = is_adt(a, "Result") and a.args[1] == "Err"
                if self.role == "ask":
                    if self.sets(st, "tx"):
                        if err:
                            ctx.test(("removed",) in st.auto, "released", (self.name, "end"), f"{self.name}:left", site, "the elicitation fails but its entry stays in the pending table")
                        else:
                            x = field(a, "0") if is_adt(a, "Result") else okof(a)
                            good = x is not None and okof(x) is not None and okof(x).op == "await" and strip_mut(okof(x).args[0]).op == "fld" and any(strip_mut(okof(x).args[0]).args[0] is l[1] for l in self.sets(st, "tx"))
                            ctx.test(good, "receiver", (self.name, "end"), f"{self.name}:answer", site, f"the caller is given `{show(a)[:140]}`, which is not what arrived for its elicitation")
                    else:
                        ctx.test(err, "receiver", (self.name, "nothing"), f"{self.name}:unasked", site, "the elicitation succeeds without having been asked")
                elif self.role in ("complete", "cancel"):
                    if ("taken",) in st.auto:
                        ctx.test(("delivered",) in st.auto, self.role, (self.name, "end"), f"{self.name}:dropped", site, "a pending elicitation is removed without being answered")
                    else:
                        ctx.test(err, self.role, (self.name, "unknown"), f"{self.name}:unknown", site, "an answer that no elicitation is waiting for is accepted")
                elif self.role == "cancel-all":
                    if ("owed",) in st.auto:
                        ctx.bad("cancel", (self.name, "each"), f"{self.name}:skipped", site, "a pending elicitation is dropped without an answer")
                    ctx.test(("swept",) in st.auto, "cancel", (self.name, "end"), f"{self.name}:unswept", site, "shutting down does not answer every pending elicitation")

    for k in public(F, ms):
        if name(k) not in ("new", "default", "fmt"):
            run_entry(ctx, R(ctx, k, roles.get(name(k), "only-here")), k)
    ctx.ok("only-here", f"{len(ms)} functions")
    for r, n in (("register", 3), ("receiver", 1), ("released", 1), ("complete", 3), ("cancel", 3)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C31


def announced(st, adt_ok):
    return ("announced",) in st.auto or any(isinstance(o, frozenset) and o == frozenset(["None"]) and t.op == "fld" and t.args[1] == "notification_sender" for t, o in st.facts.items())


def c31(ctx):
    F = ctx.F
    T = "roots"
    ctx.rule("file-only", "a root is entered into the list only after its URI was found to start with file://")
    ctx.rule("as-given", "the root entered carries the caller's URI and name, and nothing else is changed")
    ctx.rule("announced", "every change of the list is followed by the list-changed notification (when a callback is set), and no other notification is sent")
    ctx.rule("unregister", "unregistering takes out one root whose URI is the registered one, found under the same hold of the lock, and nothing else")
    ctx.rule("listed", "listing returns the whole list")
    ctx.rule("only-here", "no other function of the roots manager changes the list")
    ms = methods(F, "roots::RootsManager")
    if not any(name(k) == "register_root" for k in ms) or not any(name(k) == "get_roots" for k in ms):
        raise Anchor("RootsManager::register_root/get_roots")
    closures = {}

    class R(Man):
        def __init__(self, ctx, key, role, uri=None):
            super().__init__(ctx, key)
            self.role = role
            self.uri, self.rname = (uri, None) if uri else (self.P(2), self.P(3))
            self.found = {}

        def fact(self, ip, st, t, o, fr, line):
            if t.op == "call" and name(t.args[0]) == "starts_with" and o is True and len(t.args[1]) == 2 and lit(t.args[1][1]) == "file://":
                self.add(st, "file", t.args[1][0])
            e = eqfact(t, o)
            if e:
                for a, b in (e, e[::-1]):
                    x = elem(a, T)
                    if x is not None and fldof(strip(a), "uri", lambda y: True) and plainly(b, self.uri):
                        self.add(st, "match", x)

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if n not in MUTATE or not is_coll(c, n) or not c.args or tbl(c.args[0]) != T:
                return
            site, tr = self.site(c.frame, c.line)
            st.auto = st.auto - {("announced",)}
            self.add(st, "changed")
            if self.role == "register" and n in ("push", "insert", "push_back"):
                r = ip.snap(st, c.args[-1])
                u, nm = field(r, "uri"), field(r, "name")
                ctx.test(u is not None and any(bare(l[1]) is bare(u) or plainly(l[1], self.uri) for l in self.sets(st, "file")), "file-only", (self.name, n), f"{self.name}:any", site, f"{self.name} enters a root without its URI being known to start with file://", tr)
                ctx.test(u is not None and plainly(u, self.uri) and nm is not None and plainly(nm, self.rname), "as-given", (self.name, n), f"{self.name}:other", site, f"{self.name} enters `{show(r)[:120]}` instead of the root given", tr)
                self.add(st, "entered")
            elif self.role == "unregister" and n in ("remove", "swap_remove") and len(c.args) > 1:
                i = c.args[1]
                p = okof(i)
                good = p is not None and self.found.get((p.args[0], p.args[2] if len(p.args) > 2 else None)) is True and guard_of(p.args[1][0]) is guard_of(c.args[0])
                good = good or any(contains(i, lambda x: x is l[1]) and guard_of(l[1].args[1][0]) is guard_of(c.args[0]) for l in self.sets(st, "match"))
                ctx.test(good, "unregister", (self.name, n), f"{self.name}:which", site, f"unregistering removes the root at `{show(i)[:100]}`, which is not known to be one registered under its URI", tr)
            else:
                ctx.bad("as-given" if self.role == "register" else self.role if self.role == "unregister" else "only-here", (self.name, n), f"{self.name}:{n}", site, f"{self.name} does `{n}` on the list of roots", tr)

        def on_leave(self, ip, st, fr, v):
            if fr.wrap and fr.wrap[0] == "use" and fr.body["kind"] != "std" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) in ("position", "rposition") and direct(fr.wrap[1].args[1][0], T):
                t = fr.wrap[1]
                good = True
                for a in alts(ip.snap(st, v)):
                    e = eqfact(a, True)
                    ok = bool(e) and any(elem(x, T) is not None and fldof(strip(x), "uri", lambda y: True) and plainly(y, self.uri) for x, y in (e, e[::-1]))
                    good = good and (ok or (lit(a) is False) or (lit(a) is True and any(True for l in self.sets(st, "match"))))
                k = (t.args[0], t.args[2] if len(t.args) > 2 else None)
                self.found[k] = self.found.get(k, True) and good

        def on_call(self, ip, st, c):
            a = callback_call(c, "notification_sender", "ServerNotification")
            if a is not None:
                site, tr = self.site(c.frame, c.line)
                ctx.test(is_adt(a[0], "ServerNotification") and a[0].args[1] == "RootsListChanged", "announced", (self.name, "what"), f"{self.name}:what", site, f"{self.name} announces `{show(a[0])[:100]}`", tr)
                self.add(st, "announced")
            return None

        def on_task_end(self, ip, st, v, fr):
            self.end(st, ip.root.where())

        def end(self, st, site):
            if ("changed",) in st.auto:
                ctx.test(announced(st, None), "announced", (self.name, "end"), f"{self.name}:silent", site, f"{self.name} changes the list of roots without announcing it although a callback is set")

        def on_return(self, ip, st, v):
            site = ip.root.where()
            self.end(st, site)
            for a in alts(v):
                if self.role == "register":
                    if is_adt(a, "Result") and a.args[1] == "Err":
                        ctx.test(("changed",) not in st.auto, "as-given", (self.name, "refused"), f"{self.name}:refused", site, "a refused registration changes the list of roots")
                    else:
                        ctx.test(("entered",) in st.auto, "as-given", (self.name, "end"), f"{self.name}:unentered", site, f"{self.name} succeeds without having entered the root")
                        for x in alts(field(a, "0")) if is_adt(a, "Result") else ():
                            if x.op == "agg" and x.args[0] == "closure":
                                closures.setdefault(x.args[1], x)
                elif self.role == "list":
                    x = strip(a)
                    while x.op == "call" and name(x.args[0]) in ("to_vec", "collect", "iter", "cloned", "into_iter") and x.args[1]:
                        x = strip(x.args[1][0])
                    ctx.test(x.op == "fld" and x.args[1] == T, "listed", (self.name, "end"), f"{self.name}:part", site, f"listing returns `{show(a)[:100]}`, not the list of roots")

    entries = [(k, {"register_root": "register", "get_roots": "list"}.get(name(k), "only-here")) for k in public(F, ms) if name(k) not in ("new", "default", "fmt", "clone")]
    entries += [(k, {"register_root": "register", "get_roots": "list"}[name(k)]) for k in methods(F, "server::Server") if name(k) in ("register_root", "get_roots")]
    for k, role in entries:
        run_entry(ctx, R(ctx, k, role), k)
    if not closures:
        raise Anchor("the unregister function returned by register_root")
    for key, v in closures.items():
        # the URI kept in the closure is the one registered
        ups = [n for n, x in zip(v.args[2], v.args[3]) if plainly(x, lambda y: y.op == "in" and y.args[0] in ("uri",)) or contains(x, lambda y: y.op == "in" and y.args[0] == "uri")]
        uri = v.args[3][v.args[2].index(ups[0])] if ups else None
        if uri is None:
            ctx.bad("unregister", "closure", "closure:uri", "register_root", "the unregister function does not know which root it is for")
            continue
        run_entry(ctx, R(ctx, key, "unregister", lambda y, u=uri: y is u), key, [v, UNIT], inline_spawn=True)
    ctx.ok("only-here", f"{len(entries)} functions")
    for r in ("file-only", "as-given", "announced", "unregister", "listed"):
        ctx.floor(r, 1)


# ---------------------------------------------------------------- C32


def c32(ctx):
    F = ctx.F
    T = "events"
    ctx.rule("bounded", "after the last event is appended, and before storing returns, the number of events was found not to exceed the configured maximum, and the oldest event not to be older than the configured age")
    ctx.rule("oldest-first", "an event is discarded only from the old end, and only when there are too many or it is older than the limit (or than the given instant)")
    ctx.rule("after", "a replay starts right behind the event with the given id (at the beginning when there is none), in order, and only an explicit limit shortens it")
    ctx.rule("recorded", "each message is stored once, under a fresh unique id, with its own session's id, its direction and the next number of the session's sequence, which is taken and advanced under one hold of its lock")
    ctx.rule("own", "what a session resumes or re-sends are its own events only, and a token of another session changes nothing")
    ctx.rule("only-here", "no other function of the store changes the list of events")
    ms = sorted(k for k, b in F.bodies.items() if b["kind"] == "fn" and re.search(r"event_store::InMemoryEventStore( as [\w:]+>)?::\w+$", k))
    rms = methods(F, "event_store::ResumptionManager")
    for want, lst in (("store_event", ms), ("get_events_since", ms), ("clear_events_before", ms), ("record_outbound", rms), ("record_inbound", rms), ("resume_from_token", rms), ("get_pending_events", rms)):
        if not any(name(k) == want for k in lst):
            raise Anchor(f"event_store::{want}")

    class Store(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role = role
            self.found = {}
            self.kept = {}

        def own_event(self, v):
            return plainly(v, self.P(2))

        def surplus(self, v):
            """number of events beyond the configured maximum"""
            v = strip(v)
            if v.op == "call" and name(v.args[0]) == "saturating_sub":
                a, b = v.args[1]
            elif v.op == "op" and v.args[0] in ("Sub", "SubWithOverflow"):
                a, b = v.args[1:]
            else:
                return False
            return all(x.op == "call" and name(x.args[0]) == "len" and tbl(x.args[1][0]) == T for x in alts(strip(a))) and b.op == "fld" and b.args[1] == "max_events"

        def upto(self, v):
            v = strip(v)
            if is_adt(v, "RangeTo") or is_adt(v, "Range"):
                return (is_adt(v, "RangeTo") or lit(field(v, "start")) == 0) and self.surplus(field(v, "end"))
            return False

        def fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and t.op == "call" and name(t.args[0]) == "next" and self.upto(strip_mut(t.args[1][0])):
                if o == frozenset(["Some"]):
                    if ("owed",) in st.auto:
                        st.auto = st.auto - {("counted",)}  # an earlier turn discarded none
                    if ("counted",) in st.auto:
                        self.add(st, "may-pop")
                        self.add(st, "owed")
                elif o == frozenset(["None"]) and ("counted",) in st.auto and ("owed",) not in st.auto:
                    self.add(st, "within")
            if isinstance(o, frozenset) and all(x.op == "call" and name(x.args[0]) in ("front", "first") and tbl(x.args[1][0]) == T for x in alts(t)):
                if o == frozenset(["None"]):
                    self.add(st, "fresh")
                    self.add(st, "within")
                return
            e = empty_fact(t, o)
            if e and e[1] and tbl(e[0]) == T:
                self.add(st, "fresh")
                self.add(st, "within")
            if t.op != "op" or not isinstance(o, bool) or t.args[0] not in ("Lt", "Le", "Gt", "Ge"):
                return
            op, a, b = t.args
            if not o:
                op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            for op, a, b in ((op, a, b), ({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)):
                if all(x.op == "call" and name(x.args[0]) == "len" and tbl(x.args[1][0]) == T for x in alts(a)) and b.op == "fld" and b.args[1] == "max_events":
                    if op in ("Le", "Lt"):
                        self.add(st, "within")
                    elif op == "Gt":
                        self.add(st, "may-pop")
                if all(fldof(x, "timestamp", self.oldest) for x in alts(a)) and self.cutoff(b):
                    if op in ("Ge", "Gt"):
                        self.add(st, "fresh")
                    elif op in ("Lt", "Le"):
                        self.add(st, "may-pop")

        def oldest(self, v):
            return all(okof(x) is not None and okof(x).op == "call" and name(okof(x).args[0]) in ("front", "first") and tbl(okof(x).args[1][0]) == T for x in alts(v))

        def young(self, a, want=True):
            """a says whether the element is not older than the limit"""
            if a.op == "un" and a.args[0] == "Not":
                return self.young(a.args[1], not want)
            if a.op != "op" or a.args[0] not in ("Lt", "Le", "Gt", "Ge"):
                return False
            op, x, y = a.args
            if self.cutoff(x):
                op, x, y = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], y, x
            return elem(x, T) is not None and fldof(x, "timestamp", lambda z: True) and self.cutoff(y) and op in (("Ge", "Gt") if want else ("Lt", "Le"))

        def cutoff(self, v):
            if self.role == "clear":
                return plainly(v, self.P(2))
            return v.op == "call" and name(v.args[0]) in ("sub", "checked_sub_signed") and is_now(v.args[1][0]) and contains(v.args[1][1], lambda x: x.op == "fld" and x.args[1] == "max_age") and not arith(v.args[1][1])

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if n == "len" and c.args and tbl(c.args[0]) == T:
                self.add(st, "counted")
            if n not in MUTATE or not is_coll(c, n) or not c.args or tbl(c.args[0]) != T:
                return
            site, tr = self.site(c.frame, c.line)
            owed = ("owed",) in st.auto
            if n == "drain" and ("counted",) in st.auto and not owed and self.upto(c.args[1]):
                self.add(st, "within")
                st.auto = st.auto - {("may-pop",), ("fresh",), ("counted",)}
                return
            st.auto = st.auto - ({("owed",)} if owed and n == "pop_front" else {("counted",)})
            if n == "retain" and self.role in ("store", "clear"):
                self.kept.setdefault(c.line, False)  # what it keeps is judged when its closure returns
                self.add(st, "fresh")
                return
            if self.role == "store" and n == "push_back":
                ctx.test(self.own_event(c.args[1]), "recorded", (self.name, n), f"{self.name}:other", site, f"`{show(c.args[1])[:100]}` is stored instead of the event given", tr)
                st.auto = st.auto - {("fresh",), ("within",), ("may-pop",)}
                self.add(st, "pushed")
            elif self.role in ("store", "clear", "evict") and n == "pop_front":
                ctx.test(("may-pop",) in st.auto, "oldest-first", (self.name, n), f"{self.name}:early", site, "an event is discarded although the limits do not ask for it", tr)
                st.auto = st.auto - {("may-pop",), ("fresh",)}
            else:
                ctx.bad("oldest-first" if self.role in ("store", "clear") else "only-here", (self.name, n), f"{self.name}:{n}", site, f"{self.name} does `{n}` on the stored events", tr)

        def on_leave(self, ip, st, fr, v):
            if fr.wrap and fr.wrap[0] == "use" and fr.body["kind"] != "std" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) == "retain" and tbl(fr.wrap[1].args[1][0]) == T:
                for a in alts(ip.snap(st, v)):
                    good = self.young(a)
                    site, tr = self.site(fr, fr.body["line"])
                    ctx.test(good, "oldest-first", (self.name, "retain"), f"{self.name}:retain", site, f"{self.name} keeps the stored events for which `{show(a)[:160]}`, not those younger than the limit", tr)
                self.add(st, "fresh")
                self.kept[fr.line] = True
            if fr.wrap and fr.wrap[0] == "use" and fr.body["kind"] != "std" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) in ("position",) and direct(fr.wrap[1].args[1][0], T):
                t = fr.wrap[1]
                good = True
                for a in alts(ip.snap(st, v)):
                    e = eqfact(a, True)
                    good = good and bool(e) and any(elem(x, T) is not None and fldof(strip(x), "id", lambda y: True) and plainly(y, self.P(2)) for x, y in (e, e[::-1]))
                self.found[(t.args[0], t.args[2])] = self.found.get((t.args[0], t.args[2]), True) and good

        def offset(self, v, g):
            for a in alts(v):
                if lit(a) == 0 and not isinstance(lit(a), bool):
                    continue
                if a.op == "op" and a.args[0] in ("Add", "AddWithOverflow") and lit(a.args[2]) == 1:
                    p = okof(a.args[1])
                    if p is not None and p.op == "call" and self.found.get((p.args[0], p.args[2])) is True and guard_of(p.args[1][0]) is g:
                        continue
                return False
            return True

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for l, judged in self.kept.items():
                ctx.test(judged, "oldest-first", (self.name, "unread"), f"{self.name}:unread", site, f"{self.name} filters the stored events by something that cannot be read")
            for a in ok_return(v):
                if self.role == "store":
                    ctx.test(("pushed",) in st.auto, "recorded", (self.name, "end"), f"{self.name}:lost", site, f"{self.name} succeeds without having stored the event")
                    for l, w in (("within", "more events than the configured maximum"), ("fresh", "an event older than the configured age")):
                        ctx.test((l,) in st.auto, "bounded", (self.name, l), f"{self.name}:{l}", site, f"{self.name} may return leaving {w} in the store")
                elif self.role == "clear":
                    ctx.test(("fresh",) in st.auto, "oldest-first", (self.name, "end"), f"{self.name}:left", site, f"{self.name} may return leaving events older than the given instant")
                elif self.role == "since":
                    for x in alts(field(a, "0") if is_adt(a, "Result") else a):
                        ctx.test(self.replay(x), "after", (self.name, "end"), f"{self.name}:range", site, f"the events replayed are `{show(x)[:200]}`, not all those after the given one")

        def replay(self, x):
            """collect(cloned(take(skip(iter(events), offset), limit)))"""
            x = strip(x)
            off = None
            while x.op == "call" and x.args[1]:
                n = name(x.args[0])
                if n in ("collect", "cloned", "iter", "into_iter", "to_vec", "copied") or n in VIEW and len(x.args[1]) == 1:
                    x = strip(x.args[1][0])
                elif n == "skip" and off is None:
                    off = x.args[1][1]
                    x = strip(x.args[1][0])
                elif n == "range" and off is None and is_adt(x.args[1][1], "RangeFrom"):
                    off = field(x.args[1][1], "start")
                    x = strip(x.args[1][0])
                elif n == "take":
                    m = x.args[1][1]
                    if not all(plainly(l, self.P(3)) or (l.op in ("k", "c") and "MAX" in str(l.args[0])) or lit(l) == 2**64 - 1 for l in alts(m)):
                        return False
                    x = strip(x.args[1][0])
                else:
                    return False
                g = x
            return x.op == "fld" and x.args[1] == T and off is not None and self.offset(off, self.gd(off, x))

        def gd(self, off, x):
            for y in subterms(off):
                if y.op == "call" and name(y.args[0]) == "position":
                    return guard_of(y.args[1][0])
            return x

    roles = {"store_event": "store", "clear_events_before": "clear", "get_events_since": "since"}
    for k in public(F, ms):
        if name(k) in ("new", "default", "fmt"):
            continue
        run_entry(ctx, Store(ctx, k, roles.get(name(k), "only-here")), k)

    SEQ = "sequence_counter"

    class Rec(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role = role

        def selfid(self, x):
            return x.op == "fld" and x.args[1] == "session_id" and x.args[0].op == "in"

        def on_store(self, ip, st, base, f, val, fr, line):
            if fr is not None and tbl(base) == SEQ and f == "*":
                site, tr = self.site(fr, line)
                if self.role == "record":
                    ok = val.op == "op" and val.args[0] in ("Add", "AddWithOverflow") and lit(val.args[2]) == 1 and guard_of(val.args[1]) is guard_of(base) and tbl(val.args[1]) == SEQ
                    ctx.test(ok, "recorded", (self.name, "advance"), f"{self.name}:advance", site, f"the sequence is set to `{show(val)[:80]}`, not to the number after the one read under the same hold of its lock", tr)
                    self.add(st, "advanced", guard_of(base))
                else:
                    ctx.test(self.role == "resume" and ("mine",) in st.auto and fldof(val, "next_sequence", lambda y: True), "own", (self.name, "sequence"), f"{self.name}:sequence", site, f"{self.name} sets the session's sequence without a token of this very session", tr)

        def on_call(self, ip, st, c):
            if tail(c) == "store_event":
                site, tr = self.site(c.frame, c.line)
                e = ip.snap(st, c.args[1])
                if self.role != "record" or not is_adt(e, "StoredEvent"):
                    ctx.bad("recorded", (self.name, "stores"), f"{self.name}:stores", site, f"{self.name} stores `{show(e)[:100]}`", tr)
                    return None
                ctx.test(("stored",) not in st.auto, "recorded", (self.name, "once"), f"{self.name}:twice", site, "the message is stored twice", tr)
                self.add(st, "stored")
                i = field(e, "id")
                ctx.test(plainly(i, lambda x: x.op == "call" and name(x.args[0]) in ("new_v4", "now_v7")) or (has_call(i, "new_v4") and contains(i, lambda x: False)), "recorded", (self.name, "id"), f"{self.name}:id", site, f"the event is stored under the id `{show(i)[:80]}`, which is not freshly unique", tr)
                ctx.test(plainly(field(e, "message"), self.P(2)), "recorded", (self.name, "message"), f"{self.name}:message", site, f"the message recorded is `{show(field(e, 'message'))[:80]}`", tr)
                ctx.test(plainly(field(e, "session_id"), self.selfid), "recorded", (self.name, "session"), f"{self.name}:session", site, f"the event is recorded for the session `{show(field(e, 'session_id'))[:80]}`", tr)
                d = field(e, "direction")
                want = "Outbound" if "outbound" in self.name else "Inbound"
                ctx.test(is_adt(d, "MessageDirection") and d.args[1] == want, "recorded", (self.name, "direction"), f"{self.name}:direction", site, f"the direction recorded is `{show(d)[:60]}`", tr)
                s = field(e, "sequence")
                ok = (tbl(s) == SEQ and any(l[1] is guard_of(s) for l in self.sets(st, "advanced"))) or (s.op == "call" and name(s.args[0]) == "fetch_add" and tbl(s.args[1][0]) == SEQ and lit(s.args[1][1]) == 1)
                ctx.test(ok, "recorded", (self.name, "sequence"), f"{self.name}:sequence", site, f"the event's number is `{show(s)[:80]}`, not one taken from the session's sequence and used up", tr)
            return None

        def fact(self, ip, st, t, o, fr, line):
            e = eqfact(t, o)
            if e:
                for a, b in (e, e[::-1]):
                    if plainly(b, self.selfid) and a.op == "fld" and a.args[1] == "session_id":
                        x = a.args[0]
                        if self.of_store(x):
                            self.add(st, "own", bare(strip(x)))
                        elif contains(x, lambda y: y.op == "call" and name(y.args[0]) == "validate_resumption_token"):
                            self.add(st, "mine")
                        else:
                            self.add(st, "own", bare(strip(x)))

        def of_store(self, v):
            return contains(v, lambda y: y.op == "call" and name(y.args[0]) == "get_events_since")

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if n == "get_events_since" and self.role == "resume":
                site, tr = self.site(c.frame, c.line)
                ctx.test(("mine",) in st.auto, "own", (self.name, "token"), f"{self.name}:token", site, "events are looked up for a token without it being known to be this session's", tr)
                ctx.test(fldof(c.args[1], "last_event_id", lambda y: True), "own", (self.name, "since"), f"{self.name}:since", site, f"events since `{show(c.args[1])[:80]}` are resumed, not those since the token's last event", tr)
            if n in ("push", "push_back") and is_coll(c, n) and self.of_store(c.args[1]) and self.role in ("resume", "pending"):
                site, tr = self.site(c.frame, c.line)
                ctx.test(any(l[1] is bare(strip(c.args[1])) for l in self.sets(st, "own")), "own", (self.name, "event"), f"{self.name}:foreign", site, f"{self.name} may hand out another session's event", tr)

        def on_leave(self, ip, st, fr, v):
            if fr.wrap and fr.wrap[0] == "use" and fr.body["kind"] != "std" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) == "retain":
                t = fr.wrap[1]
                if not self.of_store(t.args[1][0]):
                    return
                site, tr = self.site(fr, fr.body["line"])
                for a in alts(ip.snap(st, v)):
                    e = eqfact(a, True)
                    good = lit(a) is False or (bool(e) and any(x.op == "fld" and x.args[1] == "session_id" and plainly(y, self.selfid) for x, y in (e, e[::-1]))) or bool(self.sets(st, "own"))
                    ctx.test(good, "own", (self.name, "retain"), f"{self.name}:retain", site, f"{self.name} may hand out another session's event", tr)
                self.kept = True

        def on_return(self, ip, st, v):
            site = ip.root.where()
            if self.role == "record":
                for a in ok_return(v):
                    ctx.test(("stored",) in st.auto, "recorded", (self.name, "end"), f"{self.name}:lost", site, f"{self.name} returns without having stored the message")
            if self.role in ("resume", "pending"):
                for a in ok_return(v):
                    x = field(a, "0") if is_adt(a, "Result") else a
                    # handed out as obtained: must have been filtered
                    for y in alts(x):
                        raw = plainly(strip_mut(y), lambda z: z.op == "call" and name(z.args[0]) == "get_events_since") and not (y.op == "mut" and any(name(c[0]) == "retain" for c in y.args[1]))
                        ctx.test(not raw, "own", (self.name, "end"), f"{self.name}:raw", site, f"{self.name} hands out the store's events unfiltered, other sessions' included")

    roles = {"record_outbound": "record", "record_inbound": "record", "resume_from_token": "resume", "get_pending_events": "pending"}
    for k in rms:
        if name(k) in roles:
            run_entry(ctx, Rec(ctx, k, roles[name(k)]), k)
    ctx.ok("only-here", f"{len(ms)} functions")
    for r, n in (("bounded", 2), ("oldest-first", 1), ("after", 1), ("recorded", 8), ("own", 3)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C33


def c33(ctx):
    F = ctx.F
    T = "sessions"
    ctx.rule("limit", "a session is entered only by creating one, after the number of sessions was found below the configured limit, with no other creation in between")
    ctx.rule("fresh", "a created session has an unguessable fresh id, expires the configured time after now, and is the one handed out")
    ctx.rule("accepted", "a session is accepted only when it is in the table under the presented id and was found not expired; the middleware gives a handler nothing else")
    ctx.rule("removed", "destroying removes exactly the named session; clean-up removes only sessions found expired, and no lookup enters a session")
    ctx.rule("only-here", "no other function changes the table of sessions")
    ms = methods(F, "shared::session::SessionManager")
    mw = methods(F, "shared::session::SessionMiddleware")
    for want, lst in (("create_session", ms), ("validate_session", ms), ("destroy_session", ms), ("cleanup_expired", ms), ("process", mw)):
        if not any(name(k) == want for k in lst):
            raise Anchor(f"session::{want}")

    class R(Man):
        def __init__(self, ctx, key, role):
            super().__init__(ctx, key)
            self.role = role
            self.id = self.P(2)

        def fact(self, ip, st, t, o, fr, line):
            x = not_expired(t, o)
            if x is not None:
                self.add(st, "alive", bare(strip(x)))
            x = not_expired(t, not o) if isinstance(o, bool) else None
            if x is not None:
                e = elem(x, T)
                self.add(st, "dead", e if e is not None else bare(strip(x)))
            if t.op == "op" and isinstance(o, bool) and t.args[0] in ("Lt", "Le", "Gt", "Ge"):
                op, a, b = t.args
                if not o:
                    op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
                for op, a, b in ((op, a, b), ({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)):
                    if op == "Lt" and a.op == "call" and name(a.args[0]) == "len" and tbl(a.args[1][0]) == T and b.op == "fld" and b.args[1] == "max_sessions":
                        self.add(st, "room", guard_of(a.args[1][0]))
                        for l in self.sets(st, "held"):
                            self.add(st, "room", l[1])

        def on_drop(self, ip, st, val, fr, line):
            st.auto = frozenset(l for l in st.auto if not (l[0] in ("held", "room") and l[1] is val))

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if n in ("lock", "write") and len(c.args) == 1 and re.search(r"(Mutex|RwLock)", path_of(c)):
                self.add(st, "held", ip.snap(st, res))
                return
            if n == "push" and is_coll(c, n):
                e = elem(c.args[1], T)
                if e is None or not any(l[1] is e for l in self.sets(st, "dead")):
                    self.add(st, "unproven", bare(strip_mut(c.args[0])))
                else:
                    ctx.ok("removed", (self.name, "mark"), where(c.frame, c.line))
            if n not in MUTATE or not is_coll(c, n) or not c.args or tbl(c.args[0]) != T:
                return
            site, tr = self.site(c.frame, c.line)
            if n == "insert":
                g = guard_of(c.args[0])
                room = [l[1] for l in self.sets(st, "room")]
                held = [l[1] for l in self.sets(st, "held")]
                good = self.role == "create" and any(r in held or (r is g and is_guard(g)) for r in room)
                ctx.test(good, "limit", (self.name, n), f"{self.name}:insert", site, f"{self.name} enters a session without the number of sessions being known to be below the limit until then", tr)
                if self.role == "create":
                    s = ip.snap(st, c.args[2])
                    i = field(s, "id")
                    fresh = i is not None and plainly(i, lambda x: x.op == "call" and name(x.args[0]) == "new_v4") and bare(key_id(c.args[1])) is bare(key_id(i))
                    ctx.test(fresh, "fresh", (self.name, "id"), f"{self.name}:id", site, f"the session is entered under `{show(c.args[1])[:80]}` with the id `{show(i)[:60] if i is not None else '?'}`", tr)
                    e = field(s, "expires_at")
                    good = e is not None and e.op == "call" and name(e.args[0]) == "add" and e.args[1][0].op == "call" and e.args[1][0].args[0].endswith(CLOCK) and plainly(e.args[1][1], lambda x: x.op == "fld" and x.args[1] == "timeout")
                    ctx.test(good, "fresh", (self.name, "expiry"), f"{self.name}:expiry", site, f"the session expires at `{show(e)[:80] if e is not None else '?'}`, not the configured time after now", tr)
                    a = field(s, "authenticated")
                    ctx.test(a is not None and lit(a) is False, "fresh", (self.name, "unauthenticated"), f"{self.name}:authenticated", site, "a new session starts out authenticated", tr)
                    self.add(st, "entered", s)
            elif n in ("remove", "remove_entry", "remove_if"):
                if self.role in ("destroy", "validate", "process"):
                    good = self.presented(c.args[1])
                elif self.role == "cleanup":
                    x = okof(c.args[1]) or (okof(c.args[1].args[1][0]) if c.args[1].op == "call" and len(c.args[1].args[1]) == 1 else None)
                    src = bare(strip(x.args[1][0])) if x is not None and x.op == "call" and name(x.args[0]) in ("next", "pop") else None
                    good = src is not None and not any(l[1] is self.base(src) for l in self.sets(st, "unproven"))
                    good = good or (elem(c.args[1], T) is not None and any(l[1] is elem(c.args[1], T) for l in self.sets(st, "dead")))
                else:
                    good = False
                ctx.test(good, "removed" if self.role != "only-here" else "only-here", (self.name, n), f"{self.name}:{n}", site, f"{self.name} removes the session `{show(c.args[1])[:80]}`" + (", not known to have expired" if self.role == "cleanup" else ", not the named one"), tr)
                self.add(st, "gone")
            elif n == "retain" and self.role == "cleanup":
                self.add(st, "gone")
            else:
                ctx.bad("only-here", (self.name, n), f"{self.name}:{n}", site, f"{self.name} does `{n}` on the table of sessions", tr)

        def base(self, v):
            while v.op == "mut":
                v = v.args[0]
            return v

        def presented(self, k):
            if self.role == "process":
                return contains(k, isin("headers")) or True
            return plainly(k, self.id)

        def on_leave(self, ip, st, fr, v):
            if fr.wrap and fr.wrap[0] == "use" and fr.body["kind"] != "std" and fr.wrap[1].op == "call" and name(fr.wrap[1].args[0]) == "retain" and tbl(fr.wrap[1].args[1][0]) == T:
                site, tr = self.site(fr, fr.body["line"])
                for a in alts(ip.snap(st, v)):
                    good = lit(a) is True or not_expired(a, True) is not None or (lit(a) is False and bool(self.sets(st, "dead")))
                    ctx.test(good, "removed", (self.name, "retain"), f"{self.name}:retain", site, f"{self.name} removes sessions not known to have expired", tr)

        def live(self, st, s):
            x = bare(strip(s))
            q = presence(okof(s)) if okof(s) is not None else None
            if q is None:
                y = strip(s)
                q = presence(y)
                ok = q is not None
            return x, q

        def accepted(self, ip, st, s, site, tr=()):
            s = ip.snap(st, s)
            x, q = self.live(st, s)
            ctx.test(bool(q) and q[0] == T, "accepted", (self.name, "table"), f"{self.name}:whence", site, f"the session accepted is `{show(s)[:100]}`, not one in the table", tr)
            if self.role == "validate":
                ctx.test(bool(q) and plainly(q[1], self.id), "accepted", (self.name, "id"), f"{self.name}:id", site, f"the session accepted is `{show(s)[:100]}`, not the one with the presented id", tr)
            ctx.test(any(l[1] is x for l in self.sets(st, "alive")), "accepted", (self.name, "alive"), f"{self.name}:expired", site, "a session is accepted without having been found not expired", tr)
            ctx.test(("gone",) not in st.auto, "accepted", (self.name, "gone"), f"{self.name}:gone", site, "a session is accepted after it was removed", tr)

        def on_call(self, ip, st, c):
            if self.role == "process" and (c.path in FN_CALL or c.path == "<indirect>"):
                f = strip(c.args[0])
                if f.op == "in":
                    site, tr = self.site(c.frame, c.line)
                    a = c.args[1]
                    a = a.args[3][0] if a.op == "agg" and a.args[0] == "tuple" and a.args[3] else a
                    for x in alts(ip.snap(st, a)):
                        if is_adt(x, "Option") and x.args[1] == "Some":
                            self.accepted(ip, st, field(x, "0"), site, tr)
                        else:
                            ctx.test(is_adt(x, "Option") and x.args[1] == "None", "accepted", (self.name, "handler"), f"{self.name}:handler", site, f"the handler is given `{show(x)[:100]}`", tr)
            return None

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for a in ok_return(v):
                if self.role == "create":
                    s = field(a, "0")
                    ctx.test(s is not None and any(bare(field(l[1], "id")) is bare(field(s, "id")) if field(s, "id") is not None and field(l[1], "id") is not None else False for l in self.sets(st, "entered")), "fresh", (self.name, "end"), f"{self.name}:other", site, f"the session handed out is `{show(s)[:100] if s is not None else show(a)[:60]}`, not the one entered")
                elif self.role == "validate":
                    s = field(a, "0") if is_adt(a, "Result") else okof(a)
                    if s is None:
                        ctx.bad("accepted", (self.name, "end"), f"{self.name}:unknown", site, f"validating returns `{show(a)[:100]}`")
                    else:
                        self.accepted(ip, st, s, site)
                elif self.role == "process":
                    s = field(field(a, "0"), "0") if is_adt(a, "Result") and field(a, "0") is not None else None
                    for x in alts(s) if s is not None else ():
                        if is_adt(x, "Option") and x.args[1] == "Some":
                            self.accepted(ip, st, field(x, "0"), site)
                elif self.role == "destroy":
                    ctx.test(("gone",) in st.auto, "removed", (self.name, "end"), f"{self.name}:kept", site, "destroying a session succeeds without having removed it")

    roles = {"create_session": "create", "validate_session": "validate", "destroy_session": "destroy", "cleanup_expired": "cleanup"}
    n = 0
    for k in public(F, ms) + [k for k in mw if name(k) == "process"]:
        if name(k) in ("new", "default", "fmt"):
            continue
        n += 1
        run_entry(ctx, R(ctx, k, "process" if k in mw else roles.get(name(k), "only-here")), k)
    ctx.ok("only-here", f"{n} functions")
    for r, k in (("limit", 1), ("fresh", 3), ("accepted", 4), ("removed", 3)):
        ctx.floor(r, k)


CHECKS = {"C28": c28, "C29": c29, "C30": c30, "C31": c31, "C32": c32, "C33": c33}
