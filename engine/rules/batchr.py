"""C27 batchers and debouncers"""
from lib import *
from rules.util import methods, name, strip
from rules.recoverr import cmp_fact, oriented

REMOVE = {"remove", "remove_entry", "drain", "clear", "retain", "pop", "truncate", "split_off", "swap_remove", "pop_front", "pop_back", "dedup", "retain_mut", "extract_if"}
TABLES = ("pending", "batches")
is_notif = isin("notification")


def root(v):
    """the table (field name) a term is rooted in"""
    while True:
        v = strip(v)
        if v.op == "dc":
            v = v.args[0]
            continue
        if v.op == "call" and name(v.args[0]) in ("entry", "get_mut", "or_insert_with", "or_default", "or_insert", "or_insert_with_key", "taken", "drain", "last_mut", "first_mut", "iter_mut", "index_mut") and v.args[1]:
            v = v.args[1][0]
        elif v.op == "fld" and v.args[1] not in TABLES and v.args[0].op in ("fld", "call", "dc", "await", "mut"):
            v = v.args[0]
        else:
            break
    return v.args[1] if v.op == "fld" and v.args[1] in TABLES else None


def from_site(v, s):
    """v is exactly what the call at site s gave"""
    while True:
        if v.op == "call" and len(v.args) > 2 and v.args[2] == s:
            return True
        if v.op == "phi":
            return all(from_site(x, s) for x in v.args[0])
        if v.op in ("mut", "await"):
            v = v.args[0]
        elif v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc":
            v = v.args[0].args[0]
        elif v.op == "call" and name(v.args[0]) in ("into_iter", "iter", "drain", "unwrap_or_default", "clone", "values", "into_values", "iter_mut", "collect", "rev", "from_iter", "into_boxed_slice") and v.args[1]:
            v = v.args[1][0]
        else:
            return False


def elem_of(v):
    """(site of the ::next call v is the element or the value of, v is the value)"""
    if v.op == "call" and name(v.args[0]) == "clone":
        v = v.args[1][0]
    if v.op == "fld" and v.args[1] == "1":
        v = v.args[0]
    x = okof(v)
    if x is not None and x.op == "call" and name(x.args[0]) == "next":
        return x
    return None


def c27(ctx):
    F = ctx.F
    ctx.rule("accepted", "a notification is accepted only by putting it among the pending ones, or by sending it")
    ctx.rule("subject", "a notification is looked up and stored under its own subject only, and a subject tells apart kinds, progress tokens, resources, and loggers and levels")
    ctx.rule("superseded", "a pending notification is replaced only when merging is off or there is no room left to merge")
    ctx.rule("sent", "everything taken out of the pending ones is sent, or returned to the caller, before the function or task ends")
    ctx.rule("due", "a timer that will flush the subject is started for what is left pending; the periodic task flushes in every round and, at the end, everything")
    ctx.rule("cancelled", "no task that may be aborted waits while it holds notifications it has taken")
    ctx.rule("filtered", "a notification stays pending exactly when it was not taken")
    keyfn = need1(F, "notification_debouncer::notification_key")
    sent_by = ("send", "try_send", "blocking_send", "send_timeout")

    class R(Labels):
        max_depth = 16

        def setup(self, ty, fn, accept, periodic):
            self.ty, self.fn, self.accept, self.periodic = ty, fn, accept, periodic
            self.id = f"{ty}::{fn}"
            self.tasks = self.kept = self.spawned = False
            self.waits, self.flushes, self.polls = [], [], set()

        def is_opaque(self, ip, key):
            return key == keyfn

        # ---- bookkeeping of what was taken
        def owe(self, st, s):
            self.add(st, "owed", s)

        def pay(self, st, pred):
            st.auto = frozenset(l for l in st.auto if not (l[0] == "owed" and pred(l[1])))

        def payelem(self, st, nx, part):
            st.auto = frozenset(l for l in st.auto if not (l[0] == "elem" and l[1] == nx.args[2] and (part is None or l[2] == part)))

        def subject(self, k):
            if self.ty == "MessageDebouncer":
                return exactly(k, isin("key", "key_clone"))
            x = k
            while x.op == "call" and name(x.args[0]) in ("clone", "to_string", "as_str", "deref", "borrow") and x.args[1]:
                x = x.args[1][0]
            return x.op == "call" and x.args[0] == keyfn and exactly(x.args[1][0], is_notif) or self.own_key(x)

        def own_key(self, x):
            """x is a key of the table itself, met while going over the table or a list of keys taken from it"""
            x = strip_clone(x)
            if x.op == "fld" and x.args[1] == "0":
                y = okof(x.args[0])
                if y is not None and y.op == "call" and name(y.args[0]) == "next" and root(strip_clone(y.args[1][0])):
                    return True
            y = okof(x)
            if y is None or y.op != "call" or name(y.args[0]) != "next":
                return False
            y = y.args[1][0]
            while y.op == "call" and name(y.args[0]) in ("into_iter", "iter", "drain", "clone", "collect", "from_iter", "keys", "rev") and y.args[1]:
                if name(y.args[0]) == "keys" and root(y.args[1][0]):
                    return True
                y = y.args[1][0]
            if y.op != "mut" or not y.args[1]:
                return False
            return all(name(p) in ("push", "push_back", "insert") and len(xs) == 1 and self.own_key(xs[0]) for p, xs in y.args[1])

        def holds_new(self, v):
            """v is the new notification, or a fresh pending entry for it"""
            for a in alts(v):
                if is_adt(a, "PendingNotification"):
                    a = field(a, "notification")
                elif a.op == "agg" and a.args[0] in ("array",) and len(a.args[3]) == 1:
                    a = a.args[3][0]
                if not exactly(a, is_notif):
                    return False
            return True

        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, bool):
                if t.op == "fld" and t.args[1] == "enable_merging":
                    self.add(st, "merging", o)
                f = oriented(cmp_fact(t, o), lambda v: contains(v, lambda x: x.op == "call" and name(x.args[0]) == "len" and contains(x, lambda y: y.op == "fld" and y.args[1] == "mergeable")), lambda v: v.op == "fld" and v.args[1] == "max_batch_size")
                if f:
                    self.add(st, "room" if f[0] == "Lt" else "full" if f[0] in ("Ge", "Gt") else "?")
                if t.op == "call" and name(t.args[0]) == "is_empty" and o:
                    x = t.args[1][0]
                    self.pay(st, lambda s: from_site(x, s))
                    e = elem_of(x)
                    if e is not None:
                        self.payelem(st, e, "value")
                return
            if not (isinstance(o, frozenset) and len(o) == 1):
                return
            o = next(iter(o))
            if o == "None":
                if t.op == "call" and name(t.args[0]) in ("get_mut", "get") and root(t) in TABLES:
                    self.add(st, "absent")
                if t.op == "call" and name(t.args[0]) == "next":
                    it = t.args[1][0]
                    self.pay(st, lambda s: from_site(it, s))
                    x = strip_clone(it)
                    if x.op == "fld" and x.args[1] == "mergeable":
                        e = elem_of(x.args[0])
                        if e is not None:
                            self.payelem(st, e, "mergeable")
                else:
                    self.pay(st, lambda s: from_site(t, s))
            if o == "Some" and t.op == "call" and name(t.args[0]) == "next":
                it = t.args[1][0]
                x = strip_clone(it)
                merged = x.op == "fld" and x.args[1] == "mergeable" and elem_of(x.args[0]) is not None
                if merged or any(l[0] == "owed" and from_site(it, l[1]) for l in st.auto):
                    for p in ["value"] if merged or self.ty != "NotificationDebouncer" else ["notification", "mergeable"]:
                        self.add(st, "elem", t.args[2], p)
            if o == "Err" and contains(t, lambda x: x.op == "call" and name(x.args[0]) in sent_by + ("reserve",)):
                # the receiver is gone: nothing can be delivered any more
                st.auto = frozenset(l for l in st.auto if l[0] not in ("owed", "elem")) | {("gone",)}

        def handed(self, st, v):
            """v was sent or moved to a list"""
            self.pay(st, lambda s: from_site(v, s))
            x = strip_clone(v)
            e = elem_of(x)
            if e is not None:
                self.payelem(st, e, "value")
                return True
            if x.op == "fld" and x.args[1] in ("notification", "mergeable"):
                e = elem_of(x.args[0])
                if e is not None:
                    self.payelem(st, e, x.args[1])
            return False

        def on_call(self, ip, st, c):
            if c.frame.body["kind"] == "std" and not (c.path.endswith("::next") or path_of(c).endswith("::next") or tail(c) == "push"):
                return
            w, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            n = tail(c)
            a = [ip.snap(st, x) for x in c.args]
            if c.path.endswith("poll_fn") and a and a[0].op == "agg":
                self.polls.add(a[0].args[1])
            if n in ("tick",):
                st.auto = frozenset(l for l in st.auto if l not in (("drained",), ("round",)))
            if n == "next" and a:
                # the next element is asked for: the one before must have been handed over
                me = c.site
                left = [l for l in st.auto if l[0] == "elem" and l[1] == me]
                if left:
                    self.lost(st, w, tr, left)
                return
            if c.path in ("std::mem::take", "std::mem::replace") and root(a[0]):
                self.take(ip, st, c, a, w, tr)
                return
            if not a:
                return
            if n in sent_by and len(a) == 2:
                v = a[1]
                if exactly(v, is_notif):
                    self.add(st, "placed")
                self.handed(st, v)
                self.add(st, "sent")
                return
            if n in ("push", "push_back") and len(a) == 2:
                if root(a[0]) and c.frame.body["kind"] != "std":
                    if self.accept:
                        ctx.test(self.holds_new(a[1]), "accepted", (self.id, "what"), f"{self.id}:what", w, f"{self.id} adds `{show(a[1])[:100]}` to the pending ones", tr)
                        self.add(st, "placed")
                    return
                e = elem_of(strip_clone(a[1]))
                b = strip_mut(a[0])
                taken = False
                if contains(a[1], lambda x: x.op == "closure-arg" or x.op == "call" and "closure-arg" in str(x.args[0])):
                    taken = True
                    self.add(st, "picked")
                if e is not None and any(l[0] == "elem" and l[1] == e.args[2] for l in st.auto):
                    taken = True
                    self.payelem(st, e, None)
                mine = [l[1] for l in st.auto if l[0] == "owed" and from_site(a[1], l[1])]
                if mine and b.op == "call" and len(b.args) > 2:
                    taken = True
                    self.pay(st, lambda s: s in mine)
                if taken and b.op == "call" and len(b.args) > 2:
                    self.owe(st, b.args[2])
                return
            if n == "abort" and not self.accept:
                return
            tb = root(a[0])
            if not tb:
                if n == "insert" and any(contains(x, lambda y: y.op == "call" and name(y.args[0]) == "spawn") for x in a[1:]):
                    self.kept = True
                return
            if n in ("insert", "entry", "get_mut", "get", "remove", "contains_key", "remove_entry") and len(a) >= 2 and tb in ("pending", "batches") and c.args and not (strip(a[0]).op == "call"):
                ctx.test(self.subject(a[1]), "subject", (self.id, n), f"{self.id}:{n}", w, f"{self.id} uses `{show(a[1])[:100]}` as the subject ({n})", tr)
            if n == "insert" and self.accept and len(a) == 3:
                ctx.test(self.holds_new(a[2]), "accepted", (self.id, "what"), f"{self.id}:what", w, f"{self.id} stores `{show(a[2])[:100]}`", tr)
                if self.ty != "MessageDebouncer":
                    ctx.test(self.has(st, "absent"), "superseded", (self.id, "insert"), f"{self.id}:insert", w, f"{self.id} replaces everything pending for a subject", tr)
                self.add(st, "placed")
            elif n == "or_insert_with" or n == "or_insert":
                pass
            elif n in REMOVE:
                self.take(ip, st, c, a, w, tr)

        def take(self, ip, st, c, a, w, tr):
            n = tail(c)
            if self.accept:
                # adding takes a full batch out: the notification just accepted is part of it
                pass
            if n in ("clear", "truncate", "dedup", "pop"):
                ctx.bad("sent", (self.id, n), f"{self.id}:{n}", w, f"{self.id} removes pending notifications without looking at them ({n})", tr)
                return
            if n in ("retain", "retain_mut", "extract_if"):
                self.add(st, "round")
                return
            self.owe(st, c.site)
            whole = n in ("take", "drain", "replace")
            self.flushes.append(whole or (len(a) > 1 and self.subject(a[1])))
            if whole:
                self.add(st, "drained")
            self.add(st, "round")
            self.add(st, "flushed")
            ctx.ok("sent", (self.id, c.line), w)

        def lost(self, st, w, tr, what):
            kinds = sorted({l[2] if l[0] == "elem" else "value" for l in what})
            ctx.bad("sent", (self.id, "lost"), f"{self.id}:lost:{','.join(kinds)}", w, f"{self.id} can drop a notification it took out of the pending ones ({', '.join(kinds)} not sent)", tr)
            st.auto = frozenset(l for l in st.auto if l not in what)

        def on_store(self, ip, st, b, f, v, fr, line):
            if not fr or fr.body["kind"] == "std" or not all(root(x) for x in alts(b)):
                return
            if self.accept and contains(v, is_notif) and not contains(v, lambda x: x.op == "call" and x.args[0] == keyfn):
                w, tr = where(fr, line), backtrace(fr, line)
                ctx.test(self.holds_new(v), "accepted", (self.id, "what"), f"{self.id}:what", w, f"{self.id} stores `{show(v)[:100]}`", tr)
                ok = self.has(st, "merging", False) or self.has(st, "full") and not self.has(st, "room")
                ctx.test(ok, "superseded", (self.id, "store"), f"{self.id}:store", w, f"{self.id} replaces a pending notification although it could be merged", tr)
                self.add(st, "placed")

        def on_await(self, ip, st, fut, fr, line):
            left = [l for l in st.auto if l[0] in ("owed", "elem")]
            if self.tasks_frame(fr):
                # the hand-over itself waits too: what it sends is already discharged, but not delivered yet
                busy = left or fut.op == "call" and name(fut.args[0]) in ("send",) and any(l == ("flushed",) for l in st.auto) and not self.has(st, "delivered")
                if busy:
                    self.waits.append((where(fr, line), backtrace(fr, line)))
            if left or fut.op == "call" and name(fut.args[0]) == "send":
                for g in fr.chain():
                    if g.key in self.polls:
                        ctx.bad("cancelled", (self.id, "select"), f"{self.id}:select", where(fr, line), f"{self.id} can be cancelled by a select while it delivers what it took out of the pending ones", backtrace(fr, line))

        def tasks_frame(self, fr):
            return any(g.wrap == "task" for g in fr.chain())

        def on_leave(self, ip, st, fr, v):
            if fr.body["kind"] != "std" and fr.wrap not in ("task",) and isinstance(self.truth(st, v), bool) and self.in_retain(fr):
                keep = self.truth(st, v)
                picked = self.has(st, "picked")
                ctx.test(keep != picked, "filtered", (self.id, keep), f"{self.id}:{'kept' if keep else 'dropped'}", fr.where(), f"{self.id} {'keeps a notification pending that it also sends' if keep else 'removes a pending notification without sending it'}")
                st.auto = frozenset(l for l in st.auto if l != ("picked",))

        def truth(self, st, v):
            if isinstance(lit(v), bool):
                return lit(v)
            if v.op == "un" and v.args[0] == "Not":
                x = self.truth(st, v.args[1])
                return not x if isinstance(x, bool) else None
            return st.facts.get(v)

        def in_retain(self, fr):
            return fr.body["kind"] == "closure" and fr.key in self.retains

        def after_call(self, ip, st, c, res):
            if tail(c) in ("retain", "retain_mut", "extract_if") and root(ip.snap(st, c.args[0])):
                a = ip.snap(st, c.args[1])
                if a.op == "agg" and a.args[0] == "closure":
                    self.retains.add(a.args[1])

        retains = frozenset()

        def end(self, ip, st, v, w):
            left = [l for l in st.auto if l[0] in ("owed", "elem")]
            left = [l for l in left if not (l[0] == "owed" and contains(v, lambda x: x.op == "call" and len(x.args) > 2 and x.args[2] == l[1]))]
            if left:
                self.lost(st, w, [], left)

        def on_spawn(self, ip, st, task, c):
            self.spawned = True
            self.add(st, "spawned")

        def on_task_end(self, ip, st, v, fr):
            self.tasks = True
            w = fr.where()
            self.end(ip, st, v, w)
            if self.periodic:
                ctx.test(self.has(st, "drained") or self.has(st, "gone"), "due", (self.id, "end"), f"{self.id}:end", w, f"the task of {self.id} can end without flushing what is still pending")

        def on_return(self, ip, st, v):
            w = ip.root.where()
            self.end(ip, st, v, w)
            for a in alts(v):
                err = is_adt(a, "Result") and a.args[1] == "Err"
                if not err and self.accept:
                    ctx.test(self.has(st, "placed"), "accepted", (self.id, "all"), f"{self.id}:dropped", w, f"{self.id} can report success without having stored or sent the notification")
                    if self.ty in ("MessageDebouncer", "NotificationBatcher"):
                        ctx.test(self.has(st, "spawned") or self.has(st, "flushed") or self.has(st, "sent"), "due", (self.id, "timer"), f"{self.id}:timer", w, f"{self.id} can leave a notification pending without a timer that will flush it")
                if self.fn == "flush":
                    ctx.test(self.has(st, "drained"), "due", (self.id, "all"), f"{self.id}:all", w, f"a path of {self.id} does not take everything pending")

    def strip_clone(v):
        while v.op == "call" and name(v.args[0]) in ("clone", "into_iter", "iter", "drain", "iter_mut") and v.args[1]:
            v = v.args[1][0]
        while v.op == "mut":
            v = v.args[0]
        return v

    filters = False
    for mod, ty, acc, per in (
        ("batching", "MessageBatcher", "add", "start_timer"),
        ("batching", "MessageDebouncer", "add", None),
        ("notification_debouncer", "NotificationDebouncer", "submit", "start"),
        ("notification_debouncer", "NotificationBatcher", "add", None),
    ):
        seen = set()
        for k in methods(F, f"{mod}::{ty}"):
            if name(k) in ("new", "default", "fmt", "stats"):
                continue
            r = R(ctx)
            r.setup(ty, name(k), name(k) == acc, name(k) == per)
            r.retains = set()
            run_entry(ctx, r, k, inline_spawn=True)
            seen.add(name(k))
            filters |= bool(r.retains)
            if r.accept and ty in ("MessageDebouncer", "NotificationBatcher"):
                ctx.test(any(r.flushes), "due", (r.id, "flushes"), f"{r.id}:flushes", F.bodies[k]["file"], f"the timer {r.id} starts never takes the subject's notifications")
            if r.kept:
                for w, tr in r.waits[:1]:
                    ctx.bad("cancelled", (r.id, "abort"), f"{r.id}:abort", w, f"the timer task of {r.id} may be aborted here after it took a notification out of the pending ones, which is then lost", tr)
                if not r.waits:
                    ctx.ok("cancelled", (r.id, "abort"))
            if r.periodic:
                ctx.test(r.spawned, "due", (r.id, "task"), f"{r.id}:task", F.bodies[k]["file"], f"{r.id} starts no task")
        if acc not in seen or per and per not in seen:
            raise Anchor(f"{ty}::{acc}/{per}")

    # ---- subjects
    keys = []

    class K(Labels):
        def on_fact(self, ip, st, t, o, fr, line):
            if isinstance(o, frozenset) and len(o) == 1 and t.op == "in":
                self.add(st, "kind", next(iter(o)))

        def on_return(self, ip, st, v):
            ks = [l[1] for l in self.sets(st, "kind")]
            for a in alts(v):
                keys.append((tuple(ks), fmt_pieces(a), ip.root.where()))

    run_entry(ctx, K(ctx), keyfn)
    NEED = {"Progress": ["progress_token"], "ResourceUpdated": ["uri"], "LogMessage": ["logger", "level"]}
    prefix = {}
    for ks, ps, w in keys:
        lits = ps[0][1] if ps and ps[0][0] == "lit" else ""
        args = [x for k, x in ps if k == "arg"]
        whole = len(ps) == 1
        ctx.test(bool(lits), "subject", ("prefix", ks), f"prefix:{ks}", w, f"the subject of {ks} does not start with its kind: `{[p[1] if p[0] == 'lit' else show(p[1]) for p in ps]}`")
        for k in ks:
            for n in NEED.get(k, []):
                ctx.test(any(exactly_dbg(x, n) for x in args), "subject", (k, n), f"{k}:{n}", w, f"the subject of {k} notifications does not contain their {n}")
            for k2, (l2, w2) in prefix.items():
                if k2 != k:
                    clash = lits == l2 or (not whole and l2.startswith(lits)) or (not w2 and lits.startswith(l2))
                    ctx.test(not clash, "subject", tuple(sorted((k, k2))), f"clash:{min(k, k2)}:{max(k, k2)}", w, f"notifications of kinds {k} and {k2} can have the same subject")
            prefix[k] = (lits, whole)
    ctx.test(len(prefix) >= 7, "subject", "kinds", "kinds", "src/server/notification_debouncer.rs", f"the subject of only {len(prefix)} kinds of notification was found")
    ctx.floor("accepted", 8)
    ctx.floor("superseded", 2)
    ctx.floor("sent", 6)
    ctx.floor("due", 8)
    ctx.floor("cancelled", 1)
    if filters:
        ctx.floor("filtered", 2)
    ctx.floor("subject", 15)


def exactly_dbg(x, n):
    while x.op == "call" and name(x.args[0]) in ("new_debug", "new_display", "clone", "as_str", "as_deref", "unwrap_or_default", "to_string") and x.args[1]:
        x = x.args[1][0]
    return x.op == "fld" and x.args[1] == n


CHECKS = {"C27": c27}
