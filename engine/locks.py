"""Lock identities, guard lifetimes, call graph and effect summaries over MIR (whole crate, flow-sensitive per body)."""
import re
from facts import FactError

HOLDER = re.compile(r"(Guard<|Guard$|dashmap::mapref::|dashmap::Entry|OwnedRwLock\w*Guard)")
LOCKTY = re.compile(r"(RwLock|Mutex|DashMap|DashSet)<")
ACQ = re.compile(r"(RwLock|Mutex)::<T>::(read|write|lock|read_owned|write_owned|lock_owned|blocking_read|blocking_write|blocking_lock|try_read|try_write|try_lock|upgradable_read)$|lock_api::\w*(RwLock|Mutex)::<R, T>::(read|write|lock|try_read|try_write|try_lock|upgradable_read)$")
DASH = re.compile(r"(?:^|::)DashMap::<K, V, S>::(\w+)$|DashMap::<K, V>::(\w+)$")
DASH_FREE = {"new", "with_capacity", "with_shard_amount", "default", "hasher", "capacity"}
POLLS = re.compile(r"(^|::)Future::poll$")
SPAWN = re.compile(r"(^|::)(spawn|spawn_blocking|spawn_local|spawn_on)$")
DROPS = ("std::mem::drop", "core::mem::drop", "std::mem::forget")
BLOCKISH = ("Option", "Result", "Poll", "ControlFlow", "tuple")


def rootfn(key):
    i = key.find("::{")
    while i > 0 and key.startswith("::{impl", i):
        i = key.find("::{", i + 3)
    return key[:i] if i > 0 else key


def short_owner(t):
    return "::".join(t.split("<")[0].rsplit("::", 2)[-2:])


class Body:
    def __init__(self, F, key):
        self.F, self.key = F, key
        b = self.b = F.bodies[key]
        self.defs = {}
        self.calls = []
        for i, bb in enumerate(b["blocks"]):
            if not bb:
                continue
            for s in bb["s"]:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append(("s", s, i))
            t = bb["t"]
            if t["k"] == "call":
                self.calls.append((i, t))
                self.defs.setdefault(t["d"][0], []).append(("c", t, i))
            elif t["k"] == "yield" and t.get("d"):
                pass


class Locks:
    def __init__(self, F):
        self.F = F
        self.bod = {}
        self.keys = [k for k, b in F.bodies.items() if b["kind"] in ("fn", "closure", "coroutine")]
        self.callers = {}
        self._lk = {}
        self.impls = {}
        for k, b in F.bodies.items():
            if b["kind"] == "fn" and b.get("trait") and not b["trait"].split("<")[0].endswith("Future"):
                self.impls.setdefault((b["trait"].split("<")[0], k.rsplit("::", 1)[-1]), []).append(k)
        for k in self.keys:
            bo = self.body(k)
            for i, t in bo.calls:
                for q in self.targets(t, True):
                    self.callers.setdefault(q, []).append((k, t))

    def body(self, k):
        if k not in self.bod:
            self.bod[k] = Body(self.F, k)
        return self.bod[k]

    # ---- resolution
    def finfo(self, t):
        return t["f"][1] if t["f"][0] == "k" else None

    def targets(self, t, dyn=False):
        """local bodies a call may run (not counting closures passed to it)"""
        f = self.finfo(t)
        if f is None:
            return []
        k = f.get("k")
        out = []
        if k in self.F.bodies:
            out.append(k)
        fn = f["fn"]
        if dyn and (f.get("dyn") or not f.get("r")) and k is None:
            i = fn.rfind("::")
            out += self.impls.get((fn[:i], fn[i + 2 :]), [])
            if fn in self.F.bodies:
                out.append(fn)
        r = f.get("r")
        if r in self.F.bodies and r not in out:
            out.append(r)
        return out

    # ---- where does a place come from
    def origin(self, key, place, seen=None, want="lock"):
        """set of identities of the lock (or object) a place refers to"""
        if seen is None:
            seen = frozenset()
        ck = (key, str(place))
        if ck in seen or len(seen) > 60:
            return set()
        if ck in self._lk:
            return self._lk[ck]
        s2 = seen | {ck}
        r = self._origin(key, place, s2)
        if not seen:
            self._lk[ck] = r
        return r

    def _origin(self, key, place, seen):
        F = self.F
        loc, proj = place[0], place[1:]
        for j in range(len(proj) - 1, -1, -1):
            p = proj[j]
            if p[0] == ".":
                owner = p[3] if len(p) > 3 else ""
                if owner == "upvar":
                    return self._upvar(key, p[2], seen)
                if owner and "::" in owner and owner.split("<")[0] in F.types and not F.types[owner.split("<")[0]].get("enum"):
                    return {f"{short_owner(owner)}.{p[2]}"}
        b = F.bodies[key]
        if 1 <= loc <= b["args"]:
            if b["kind"] == "fn" or loc > 1:
                return self._param(key, loc, seen)
            return set()
        out = set()
        for kind, d, bb in self.body(key).defs.get(loc, []):
            if kind == "s":
                if len(d[1]) > 1 and d[1][1:] != proj[: len(d[1]) - 1]:
                    continue
                out |= self._rv(key, d[2], seen)
            else:
                out |= self._call_origin(key, d, seen)
        return out

    def _rv(self, key, rv, seen):
        k = rv[0]
        if k == "use" and rv[1][0] in ("m", "c"):
            return self.origin(key, rv[1][1], seen)
        if k == "ref":
            return self.origin(key, rv[1], seen)
        if k == "cast":
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ("m", "c"):
                    return self.origin(key, x[1], seen)
        if k == "agg":
            out = set()
            for x in rv[3]:
                o = x[1] if isinstance(x[0], str) and len(x) == 2 and isinstance(x[1], list) and x[1] and x[1][0] in ("m", "c", "k") else x
                if o and o[0] in ("m", "c"):
                    out |= self.origin(key, o[1], seen)
            return out
        return set()

    def _call_origin(self, key, t, seen):
        f = self.finfo(t)
        if f is None:
            return set()
        fn = f["fn"]
        n = fn.rsplit("::", 1)[-1]
        if n == "new" and LOCKTY.search(re.sub(r"::<", "<", fn)):
            return {f"local lock of {'::'.join(rootfn(key).rsplit('::', 2)[-2:])}"}
        for q in self.targets(t):
            if self.F.bodies[q]["kind"] == "fn" and LOCKTY.search(self.F.bodies[q]["locals"][0]):
                r = self.origin(q, [0], seen)
                if r:
                    return r
        if t["args"] and t["args"][0][0] in ("m", "c"):
            return self.origin(key, t["args"][0][1], seen)
        return set()

    def _upvar(self, key, name, seen):
        b = self.F.bodies[key]
        par = b.get("parent")
        if par is None:
            return set()
        out = set()
        for bb in self.F.bodies[par]["blocks"]:
            if not bb:
                continue
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][2] == key:
                    for nm, o in s[2][3]:
                        if nm == name and o[0] in ("m", "c"):
                            out |= self.origin(par, o[1], seen)
        return out

    def _param(self, key, loc, seen):
        out = set()
        for k, t in self.callers.get(key, []):
            if len(t["args"]) >= loc and t["args"][loc - 1][0] in ("m", "c"):
                out |= self.origin(k, t["args"][loc - 1][1], seen)
        return out

    def lock_id(self, key, t):
        """identity of the lock that acquisition call t is about"""
        f = self.finfo(t)
        ids = self.origin(key, t["args"][0][1]) if t["args"] and t["args"][0][0] in ("m", "c") else set()
        if not ids:
            ids = {"?" + "".join(f["a"][-1:])[:80]}
        return frozenset(ids)

    def acquisition(self, t):
        """(kind, mode, async?) for a call that takes a lock"""
        f = self.finfo(t)
        if f is None:
            return None
        fn = f["fn"]
        m = ACQ.search(fn)
        if m:
            n = fn.rsplit("::", 1)[-1]
            if n.startswith("try_"):
                return None
            mode = "r" if "read" in n and "upgrad" not in n else "w"
            return ("lock", mode, fn.startswith("tokio::") and not n.startswith("blocking"))
        m = DASH.search(fn)
        if m:
            n = m.group(1) or m.group(2)
            if n in DASH_FREE or n.startswith("try_"):
                return None
            return ("dash", "w" if n in ("insert", "remove", "remove_if", "get_mut", "entry", "alter", "alter_all", "retain", "clear", "iter_mut") else "r", False)
        return None

    # ---- what is being polled
    def future_origin(self, key, place, seen=None):
        """[(kind, payload)]: ("call", key, t) or ("agg", coroutine key) or ("unknown",)"""
        seen = seen or set()
        ck = (key, str(place))
        if ck in seen:
            return []
        seen.add(ck)
        loc, proj = place[0], place[1:]
        if any(p[0] == "." for p in proj):
            flds = [p for p in proj if p[0] == "."]
            if len(flds) == 1 and flds[0][3] == "upvar":
                return [("upvar", flds[0][2])]
        out = []
        for kind, d, bb in self.body(key).defs.get(loc, []):
            if kind == "s":
                rv = d[2]
                if rv[0] == "use" and rv[1][0] in ("m", "c"):
                    out += self.future_origin(key, rv[1][1], seen)
                elif rv[0] == "ref":
                    out += self.future_origin(key, rv[1], seen)
                elif rv[0] == "cast":
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ("m", "c"):
                            out += self.future_origin(key, x[1], seen)
                elif rv[0] == "agg" and rv[1] in ("coroutine", "closure"):
                    out.append(("agg", rv[2]))
                elif rv[0] == "agg":
                    for x in rv[3]:
                        o = x[1] if isinstance(x[0], str) and len(x) == 2 and isinstance(x[1], list) else x
                        if o and o[0] in ("m", "c"):
                            out += self.future_origin(key, o[1], seen)
            else:
                f = self.finfo(d)
                fn = f["fn"] if f else ""
                n = fn.rsplit("::", 1)[-1]
                if n in ("into_future", "new_unchecked", "new", "pin", "as_mut", "get_mut", "map_unchecked_mut", "get_unchecked_mut", "deref_mut", "deref", "from", "into") and not self.targets(d) and d["args"] and d["args"][0][0] in ("m", "c"):
                    out += self.future_origin(key, d["args"][0][1], seen)
                else:
                    out.append(("call", key, d))
        return out

    # ---- guard liveness
    def entry_guards(self, runs):
        """guards handed into bodies by value: {key: {local: entries}} (fixpoint over the bodies that receive some)"""
        if hasattr(self, "_entry"):
            return self._entry
        self._entry = {}
        work = list(self.keys)
        while work:
            k = work.pop()
            for i, (t, st) in self.flow(k).items():
                if t["k"] != "call" or not st:
                    continue
                got = frozenset()
                for a in t["args"]:
                    m = self._moved(a)
                    if m is not None and m in st:
                        got |= st[m]
                if not got:
                    continue
                for q in runs(self, k, t):
                    b = self.F.bodies[q]
                    for p in range(1, b["args"] + 1):
                        if HOLDER.search(b["locals"][p]) and not b["locals"][p].startswith("&"):
                            e = self._entry.setdefault(q, {})
                            u = e.get(p, frozenset()) | got
                            if u != e.get(p):
                                e[p] = u
                                work.append(q)
        return self._entry

    def moved_in(self, t, st):
        """guards this call takes away by value"""
        out = set()
        for a in t.get("args", ()):
            m = self._moved(a)
            if m is not None:
                out.add(m)
        return out

    def flow(self, key):
        """yields (block, terminator, held) for every call, drop and yield, held = {local: frozenset((ids, mode, line))}"""
        b = self.F.bodies[key]
        blocks = b["blocks"]
        types = b["locals"]
        isdisc = {}
        for bb in blocks:
            if bb:
                for s in bb["s"]:
                    if s[0] == "=" and s[2][0] == "disc" and len(s[2][1]) == 1:
                        isdisc[s[1][0]] = (s[2][1][0], s[2][2] if len(s[2]) > 2 else "")
        state = {0: dict(getattr(self, "_entry", {}).get(key, {}))}
        work = [0]
        res = {}
        n = 0
        while work:
            i = work.pop()
            n += 1
            if n > 20000:
                raise FactError(f"guard flow of {key} does not converge")
            st = dict(state[i])
            bb = blocks[i]
            for s in bb["s"]:
                if s[0] == "dead":
                    st.pop(s[1], None)
                elif s[0] == "=":
                    self._stmt(st, s, types)
            t = bb["t"]
            out = []
            if t["k"] == "call":
                res[i] = (t, dict(st))
                self._call(key, st, t, types, i)
                if t.get("to") is not None:
                    out.append((t["to"], st))
            elif t["k"] == "drop":
                res[i] = (t, dict(st))
                if len(t["p"]) == 1:
                    st.pop(t["p"][0], None)
                out.append((t["to"], st))
            elif t["k"] == "switch":
                on = t["on"][1][0] if t["on"][0] in ("m", "c") else None
                d = isdisc.get(on)
                for v, to in t["c"]:
                    s3 = st
                    if d and d[0] in st:
                        ty = types[d[0]]
                        none = ("Option<" in d[1] or "Option" == d[1].rsplit("::", 1)[-1] or ty.startswith("std::option::Option")) and v == 0 or ty.startswith("std::result::Result") and v == 1 or ty.startswith("std::task::Poll") and v == 1
                        if none:
                            s3 = dict(st)
                            s3.pop(d[0], None)
                    out.append((to, s3))
                out.append((t["else"], st))
            else:
                if t["k"] == "yield":
                    res[i] = (t, dict(st))
                for to in self.F.succ(key, i):
                    out.append((to, st))
            for to, s3 in out:
                if blocks[to] is None:
                    continue
                old = state.get(to)
                if old is None:
                    state[to] = dict(s3)
                    work.append(to)
                else:
                    ch = False
                    for l, e in s3.items():
                        u = old.get(l, frozenset()) | e
                        if u != old.get(l):
                            old[l] = u
                            ch = True
                    if ch:
                        work.append(to)
        return res

    def _moved(self, op):
        return op[1][0] if op and op[0] == "m" else None

    def _stmt(self, st, s, types):
        dest, rv = s[1][0], s[2]
        ops = []
        if rv[0] == "use":
            ops = [rv[1]]
        elif rv[0] == "agg":
            for x in rv[3]:
                ops.append(x[1] if isinstance(x[0], str) and x[0] not in ("m", "c", "k") else x)
        elif rv[0] == "cast":
            ops = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ("m", "c")]
        got = frozenset()
        for o in ops:
            m = self._moved(o)
            if m is not None and m in st:
                # moving a part out of a wrapper moves the guard if that part can be one
                got |= st.pop(m)
        if got:
            st[dest] = (st.get(dest, frozenset()) | got) if len(s[1]) > 1 else got
        elif len(s[1]) == 1 and rv[0] != "disc":
            st.pop(dest, None)

    def _call(self, key, st, t, types, i):
        f = self.finfo(t)
        fn = f["fn"] if f else ""
        got = frozenset()
        for a in t["args"]:
            m = self._moved(a)
            if m is not None and m in st:
                got |= st.pop(m)
        d = t["d"][0]
        ty = types[d]
        acq = self.acquisition(t)
        if fn in DROPS:
            got = frozenset()
        if acq and not acq[2]:
            if HOLDER.search(ty) or (acq[0] == "dash" and "dashmap::" in ty):
                got |= {(self.lock_id(key, t), acq[1], t["l"])}
        if POLLS.search(fn) and t["args"]:
            a = t["args"][0]
            if a[0] in ("m", "c"):
                for o in self.future_origin(key, a[1]):
                    if o[0] == "call":
                        q = self.acquisition(o[2])
                        if q and q[2]:
                            got |= {(self.lock_id(o[1], o[2]), q[1], o[2]["l"])}
        if got and HOLDER.search(ty) and not ty.startswith(("&", "impl ")):
            st[d] = got
        elif len(t["d"]) == 1:
            st.pop(d, None)

    def held(self, key, st, but=()):
        """guards actually held: not those inside a Poll that has not been looked into"""
        types = self.F.bodies[key]["locals"]
        h = set()
        for l, e in st.items():
            if types[l].startswith("std::task::Poll") or l in but:
                continue
            h |= e
        return h

    # ---- effects
    def created(self, key):
        """closures/coroutines created in a body, with whether they are handed to a spawner"""
        b = self.F.bodies[key]
        bo = self.body(key)
        out = []
        for bb in b["blocks"]:
            if not bb:
                continue
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] in ("closure", "coroutine"):
                    out.append((s[2][2], s[1][0]))
        spawned = set()
        for i, t in bo.calls:
            f = self.finfo(t)
            if f and SPAWN.search(f["fn"]):
                for a in t["args"]:
                    if a[0] in ("m", "c"):
                        for o in self.future_origin(key, a[1]):
                            if o[0] == "agg":
                                spawned.add(o[1])
                            elif o[0] == "call":
                                spawned.add(("call", id(o[2])))
        return [(k, k in spawned) for k, _ in out], spawned

    def summaries(self, direct):
        """least fixpoint of direct effects over the call graph: {key: {effect: witness}}"""
        eff = {k: dict(direct(k)) for k in self.keys}
        callees = {}
        for k in self.keys:
            cs = []
            cr, sp = self.created(k)
            for c, spawned in cr:
                if not spawned and c in eff:
                    cs.append((c, None))
            for i, t in self.body(k).calls:
                if ("call", id(t)) in sp:
                    continue
                for q in self.targets(t, True):
                    if q in eff:
                        cs.append((q, t["l"]))
            callees[k] = cs
        rev = {}
        for k, cs in callees.items():
            for c, l in cs:
                rev.setdefault(c, []).append((k, l))
        work = list(self.keys)
        while work:
            k = work.pop()
            for p, l in rev.get(k, []):
                ch = False
                for e in eff[k]:
                    if e not in eff[p]:
                        eff[p][e] = (k, l)
                        ch = True
                if ch:
                    work.append(p)
        return eff
