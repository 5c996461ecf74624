"""C26 check and update of a shared table under one hold of its lock"""
from lib import *
from interp import Budget, Interp, Rule, subst
from rules.textr import base

name = lambda p: p.rsplit("::", 1)[-1]
LOCKS = {"lock", "read", "write", "lock_owned", "read_owned", "write_owned", "blocking_lock", "blocking_read", "blocking_write", "try_lock", "try_read", "try_write", "upgradable_read"}
KEYED = {"get", "get_mut", "contains_key", "contains", "get_key_value", "remove", "remove_entry", "insert", "get_or_insert_with", "swap_remove", "take"}
WHOLE = {"len", "is_empty", "iter", "values", "keys", "iter_mut", "values_mut", "any", "all", "find", "position", "count", "into_iter", "front", "back", "first", "last", "peek", "capacity", "is_full"}
WRITES = {"insert", "remove", "remove_entry", "push", "push_back", "push_front", "pop", "pop_front", "pop_back", "clear", "retain", "extend", "drain", "append", "swap_remove", "truncate", "replace", "take", "get_or_insert_with", "set"}
GROWS = {"insert", "push", "push_back", "push_front", "extend", "append"}
CLAIMS = {"remove", "remove_entry", "swap_remove", "take", "pop", "pop_front", "pop_back", "drain", "retain", "split_off", "replace", "extract_if", "recv", "try_recv", "next"}
ATOMIC = re.compile(r"sync::atomic::Atomic|atomic::Atomic")


def guard_of(x):
    """(lock, site) if x is the acquisition of a lock"""
    if x.op == "call" and name(x.args[0]) in LOCKS and x.args[1] and re.search(r"Mutex|RwLock|ReentrantLock", x.args[0]):
        return (x.args[1][0], x.args[2] if len(x.args) > 2 else None)
    return None


def through(v):
    """what a value was reached through, outermost last: steps from a guard"""
    steps = []
    while True:
        g = guard_of(v)
        if g:
            return g, steps[::-1]
        if v.op in ("await", "cast", "mut"):
            v = v.args[0]
        elif v.op == "fld":
            steps.append(("field", v.args[1]))
            v = v.args[0]
        elif v.op == "dc":
            v = v.args[0]
        elif v.op == "call" and v.args[1]:
            steps.append((name(v.args[0]), base(v.args[1][1]) if len(v.args[1]) > 1 else None))
            v = v.args[1][0]
        else:
            return None, None


def reads(t):
    """the reads of locked data in a term: (hold, steps), each as far as it goes"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        g, steps = through(x)
        if g:
            out.append((g, steps))
            y = x  # what else went into it: keys, not the object itself
            while not guard_of(y):
                if y.op == "call":
                    todo += [z for z in y.args[1][1:] if hasattr(z, "op")]
                    y = y.args[1][0]
                else:
                    y = y.args[0]
            continue
        for z in x.args:
            for q in (z if isinstance(z, (tuple, frozenset)) else (z,)):
                for r in (q if isinstance(q, tuple) else (q,)):
                    for w in (r if isinstance(r, tuple) else (r,)):
                        if hasattr(w, "op"):
                            todo.append(w)
    return out


def about(steps, noise=("0", "1")):
    """what is read: ("key", k, rest) | ("whole",) | ("field", f) | ("scalar",)"""
    rest = []
    kind = None
    for s, a in steps:
        if kind is None:
            if s == "field":
                if s == "field" and a in noise:
                    continue
                kind = ("field", a)
            elif s in KEYED and a is not None:
                kind = ("key", a)
            elif s in WHOLE:
                return ("whole",), []
        elif s == "field" and a not in noise:
            rest.append(a)
    return kind or ("scalar",), rest


def covers(F, outs):
    """the outcomes include every possible one"""
    if {True, False} <= outs:
        return True
    vs = set()
    for o in outs:
        if isinstance(o, frozenset):
            vs |= o
    if not vs:
        return False
    if {"Some", "None"} <= vs or {"Ok", "Err"} <= vs:
        return True
    return any(vs == set(t.values()) for t in F.enums.values())


def c26(ctx):
    F = ctx.F
    ctx.rule("one-hold", "what an update of a locked table rests on was read under the same hold of its lock (or is read again under it)")
    ctx.rule("atomic", "an atomic number is not written back from a value loaded before: read-modify-write is one operation")

    class R(Rule):
        init = frozenset()
        max_depth = 3

        def __init__(self):
            self.buf, self.out = [], []

        def say(self, ok, rule, fr, line, block, key, msg):
            self.out.append((ok, rule, (fr.key, block), f"{root_fn(fr.key)}:{key}", where(fr, line), msg, backtrace(fr, line)))

        def judge(self, ip, st, g, steps, op, key, vals, fr, line, block):
            """an update: under the hold g, of the part that `steps` leads to, operation op with key `key`"""
            lock, site = g
            target, rest = about(steps)
            if op in ("get_mut", "entry"):
                return
            stale, again, moved = {}, [], set()
            clears = op == "store" and vals and is_adt(vals[0], "Option") and vals[0].args[1] == "None"
            for f, o in st.facts.items():
                if f.op == "call" and name(f.args[0]) == "next":
                    continue  # the end of a loop
                if ("spent", f) in st.auto:
                    continue  # what it says was overwritten by this path itself
                for (l2, s2), steps2 in reads(f):
                    if l2 is not lock or not self.relevant(steps2, target, rest, op, key):
                        continue
                    if s2 == site:
                        again.append((self.plain(f, lock), about(steps2)))
                    elif steps2 and steps2[-1][0] in CLAIMS and op not in GROWS | {"store"} or self.mine(st, lock, key, target):
                        pass  # what was taken out is this call's alone
                    elif (clears or op in ("remove", "remove_entry")) and self.presence(f, o, steps2, target, key):
                        pass  # "remove it if it is there" is the same as "remove it"
                    else:
                        stale[f] = o
                        if steps2 and steps2[-1][0] in CLAIMS:
                            moved.add(f)  # taken out under one hold, put back under another
            for l in st.auto:
                if l[0] == "taken" and l[1] is lock and l[2] != site and op == "store" and not steps and any(h == l[1:] for v in list(vals) + [f for f in st.facts if ("spent", f) not in st.auto] for h, _ in reads(v)):  # what was taken out was looked at, or is put back
                    stale[mk("call", "take", (mk("in", "held"),), l[2])] = True
                    moved |= set(stale)
            for v in vals:
                for (l2, s2), steps2 in reads(v):
                    if l2 is lock and s2 != site and not any(x in CLAIMS for x, _ in steps2) and self.relevant(steps2, target, rest, op, key):
                        stale[v] = None
            for f in [f for f in stale if stale[f] is not None]:
                mine = [about(s2) for (l2, h), s2 in reads(f) if l2 is lock and h != site]
                if any(g is self.plain(f, lock) or w[0][0] == "key" and w in mine for g, w in again):
                    del stale[f]  # asked again under this hold
            n = F_lock(lock)
            at = (fr, block)
            self.buf.append((at, stale, moved, n, op, (fr.key, block), f"{root_fn(fr.key)}:{n}:{op}", where(fr, line), backtrace(fr, line)))

        def plain(self, t, lock):
            """the same question, whichever hold it was asked under"""
            return subst(t, {x: mk("in", "held") for x in subterms(t) if (g := guard_of(x.args[0] if x.op == "await" else x)) and g[0] is lock})

        def presence(self, f, o, steps2, target, key):
            if f.op == "op" or f.op == "disc":
                f = next((x for x in subterms(f) if x.op == "call"), f)
            last = steps2[-1] if steps2 else None
            return last is None or last[0] == "field" and target == last or last[0] in ("contains_key", "contains", "get", "is_some", "is_none") and (key is None or last[1] is key or last[1] is None)

        def relevant(self, steps2, target, rest, op, key):
            t2, rest2 = about(steps2)
            k = key if key is not None else target[1] if target[0] == "key" else None
            if target[0] == "field":
                if t2 != target:
                    return False
            elif t2[0] == "field":
                return False
            if rest:  # a field of an entry is set: only what was read of that field counts
                return bool(rest2) and rest2[0] == rest[0] and (t2[0] != "key" or k is None or t2[1] is k)
            if t2[0] == "key":
                return k is None or t2[1] is k
            if t2[0] == "whole":
                return op in GROWS
            return True

        def mine(self, st, lock, key, target):
            """this path itself put that entry there"""
            k = key if key is not None else target[1] if target[0] == "key" else None
            return k is not None and ("put", lock, k) in st.auto

        def on_call(self, ip, st, c):
            n = name(c.path)
            if not c.args:
                return
            fr = c.frame
            if ATOMIC.search(c.path) or "atomic" in c.path:
                if n in ("store", "swap"):
                    a = [ip.snap(st, x) for x in c.args]
                    cell = a[0]
                    old = [x for x in subterms(a[1]) if x.op == "call" and name(x.args[0]) == "load" and x.args[1] and x.args[1][0] is cell]
                    self.say(not old, "atomic", fr, c.line, c.block, f"{show(cell)[-40:]}", f"`{show(cell)[-60:]}` is set from a value of itself loaded before: concurrent updates are lost")
                return
            if n in ("insert", "or_insert", "or_insert_with", "insert_entry", "or_default", "or_insert_with_key") and "Entry" in c.path:
                g, steps = through(ip.snap(st, c.args[0]))
                for s, k in steps or ():
                    if s == "entry" and k is not None:
                        st.auto = st.auto | {("put", g[0], k)}
                return
            if n not in WRITES or n in ("take", "replace", "set") and not re.search(r"Option|Cell", c.path):
                return
            a = [ip.snap(st, x) for x in c.args]
            g, steps = through(a[0])
            if not g:
                return
            if n in ("take", "replace"):  # both look and change
                if n == "take" and not steps:
                    st.auto = st.auto | {("taken", g[0], g[1])} | {("spent", f) for f in st.facts if any((l2, s2) == g for (l2, s2), _ in reads(f))}
                return
            key = base(a[1]) if n in ("insert", "remove", "remove_entry", "swap_remove", "get_or_insert_with") and len(a) > 1 and re.search(r"Map|Set", c.path) else None
            self.judge(ip, st, g, steps, n, key, a[2:] if key is not None else a[1:], fr, c.line, c.block)
            if n == "insert" and key is not None:
                st.auto = st.auto | {("put", g[0], key)}

        def on_store(self, ip, st, b, f, v, fr, line):
            g, steps = through(b)
            if not g:
                return
            if f != "*":
                steps = steps + [("field", f)]
            self.judge(ip, st, g, steps, "store", None, [ip.snap(st, v)], fr, line, f"{line}")

    def F_lock(l):
        for x in [l]:
            while x.op in ("mut", "await", "dc", "cast") or x.op == "call" and x.args[1]:
                x = x.args[1][0] if x.op == "call" else x.args[0]
            if x.op == "fld":
                return x.args[1]
        return show(l)[-40:]

    locking = set()
    callees = {}
    for k, b in F.bodies.items():
        if b["kind"] not in ("fn", "closure", "coroutine") or b["file"].startswith("/"):
            continue
        for blk in b.get("blocks", []):
            t = blk and blk["t"]
            if t and t.get("k") == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k":
                fn = t["f"][1].get("fn") or ""
                if name(fn) in LOCKS and re.search(r"Mutex|RwLock", fn) or name(fn) in ("store", "swap") and "atomic" in fn:
                    locking.add(root_fn(k))
                for m in ("fn", "res", "r", "k"):
                    x = t["f"][1].get(m)
                    if isinstance(x, str) and x in F.bodies:
                        callees.setdefault(root_fn(k), set()).add(root_fn(x))
    roots = set(locking)
    for k, cs in callees.items():
        if len([c for c in cs if c in locking]) > 1 or k in locking:
            roots.add(k)
    done, over = 0, []
    bodies = sorted(x for k in roots if k in F.bodies and not F.bodies[k]["file"].startswith("/") for x in F.tree(k) if F.bodies[x]["kind"] in ("fn", "coroutine"))
    for k in bodies:
        for depth in (3, 1, 0):
            r = R()
            r.max_depth = depth
            ip = Interp(F, r, max_steps=120000)
            try:
                ip.run(k, None)
            except (Budget, RecursionError):
                continue
            ctx.ran(ip, k)
            done += 1
            for ok, rule, site, key, w, msg, tr in r.out:
                ctx.test(ok, rule, site, key, w, msg, tr)
            both = {}  # an update made whichever way a test went does not rest on it
            for at, stale, *_ in r.buf:
                for f, o in stale.items():
                    both.setdefault((at, f), set()).add(o)
            for at, stale, moved, n, op, site, key, w, tr in r.buf:
                bad = [f for f in stale if f in moved or not covers(F, both[at, f])]
                ctx.test(not bad, "one-hold", site, key, w, f"{op} on `{n}` rests on `{show(bad[0])[:120] if bad else ''}`, read under an earlier hold of its lock: others may have changed it since", tr)
            break
        else:
            over.append(k)
    ctx.floor("one-hold", 60)


CHECKS = {"C26": c26}
