"""Whole-crate rules: C24 lock order, C25 locks held over foreign code, C21 swallowed failures, C23 panics, C26 atomicity"""
from lib import *
from locks import Locks, POLLS, rootfn

_L = {}


def locks(ctx):
    if id(ctx.F) not in _L:
        _L[id(ctx.F)] = Locks(ctx.F)
    return _L[id(ctx.F)]


def is_async_fn(F, k):
    return F.bodies[k]["kind"] == "fn" and any(F.bodies[x]["kind"] == "coroutine" for x in F.kids(k))


def runs(L, key, t):
    """local bodies that actually run at this terminator: [(body key, via)]"""
    F = L.F
    f = L.finfo(t)
    if f is None:
        return []
    out = []
    if POLLS.search(f["fn"]):
        a = t["args"][0]
        if a[0] in ("m", "c"):
            for o in L.future_origin(key, a[1]):
                if o[0] == "agg" and o[1] in F.bodies:
                    out.append(o[1])
                elif o[0] == "call":
                    out += [q for q in L.targets(o[2], True)]
        return out
    return [q for q in L.targets(t, True) if not is_async_fn(F, q)] + closures_given(L, key, t)


def closures_given(L, key, t):
    """closures handed to a library call that runs them (iterator adaptors, entry().or_insert_with, ...)"""
    f = L.finfo(t)
    if f["fn"].rsplit("::", 1)[-1].startswith("spawn") or "mpsc" in f["fn"]:
        return []
    out = []
    for a in t["args"]:
        if a[0] in ("m", "c") and len(a[1]) == 1:
            for kind, d, bb in L.body(key).defs.get(a[1][0], []):
                if kind == "s" and d[2][0] == "agg" and d[2][1] == "closure" and d[2][2] in L.F.bodies:
                    out.append(d[2][2])
    return out


def acquires(L, key, t):
    """locks taken at this very terminator"""
    f = L.finfo(t)
    if f is None:
        return []
    a = L.acquisition(t)
    if a and not a[2]:
        return [(L.lock_id(key, t), a[1])]
    out = []
    if POLLS.search(f["fn"]) and t["args"][0][0] in ("m", "c"):
        for o in L.future_origin(key, t["args"][0][1]):
            if o[0] == "call":
                q = L.acquisition(o[2])
                if q and q[2]:
                    out.append((L.lock_id(o[1], o[2]), q[1]))
    return out


def site(F, key, t):
    return f"{F.bodies[key]['file']}:{t['l']} in {rootfn(key)}"


def lock_effects(L):
    def direct(k):
        e = {}
        for i, t in L.body(k).calls:
            a = L.acquisition(t)
            if a:
                for x in L.lock_id(k, t):
                    e.setdefault(("acq", x), (k, t["l"]))
        return e

    return L.summaries(direct)


def witness(L, eff, k, e, n=6):
    out = []
    while n and k is not None:
        w = eff[k].get(e)
        if w is None:
            break
        out.append(f"{L.F.bodies[k]['file']}:{w[1]} in {rootfn(k)}")
        if w[0] == k:
            break
        k = w[0]
        n -= 1
    return out


def c24(ctx):
    F = ctx.F
    L = locks(ctx)
    ctx.rule("order", "the lock acquired while another one is held never, on any other path, is held while that one is acquired (the acquired-while-holding relation has no cycle)")
    ctx.rule("reentry", "a lock is not acquired on a path on which the same lock is already held")
    L.entry_guards(runs)
    eff = lock_effects(L)
    edges = {}
    n_acq = 0
    for k in L.keys:
        for i, (t, st) in L.flow(k).items():
            if t["k"] != "call":
                continue
            acq = acquires(L, k, t)
            n_acq += len(acq)
            h = L.held(k, st, L.moved_in(t, st))
            if not h:
                for ids, m in acq:
                    ctx.ok("reentry", (rootfn(k), t["l"]), site(F, k, t))
                continue
            new = [(x, []) for ids, m in acq for x in ids]
            for q in runs(L, k, t):
                for e in eff.get(q, ()):
                    if e[0] == "acq":
                        new.append((e[1], witness(L, eff, q, e)))
            for ids, m, l in h:
                for a in ids:
                    for x, w in new:
                        edges.setdefault((a, x), []).append((k, t, l, w))
    for (a, x), ws in sorted(edges.items()):
        k, t, l, w = ws[0]
        ctx.test(a != x, "reentry" if a == x else "order", (a, x), f"{a}:{rootfn(k)}" if a == x else f"{a}>{x}", site(F, k, t), f"{x} is acquired while {a} (taken at line {l}) is held" + (", so the call waits for itself" if a == x else ""), w)
    # cycles
    g = {}
    for a, x in edges:
        if a != x:
            g.setdefault(a, set()).add(x)

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    for a, x in sorted(edges):
        if a != x and a in reach(x):
            k, t, l, w = edges[(a, x)][0]
            ctx.bad("order", (a, x), "cycle:" + "+".join(sorted((a, x))), site(F, k, t), f"{x} is acquired while {a} (taken at line {l}) is held, and elsewhere {a} is acquired while {x} is held", w)
    ctx.fns |= set(L.keys)
    if n_acq < 100:
        raise Anchor(f"lock acquisitions ({n_acq} found)")
    ctx.floor("order", 1)


# --------------------------------------------------------------------------- C25

FN_CALLS = re.compile(r"^std::ops::(Fn|FnMut|FnOnce)::(call|call_mut|call_once)$")
PEER_IO = re.compile(
    r"(AsyncBufReadExt|AsyncReadExt|AsyncWriteExt|AsyncRead|AsyncWrite)::\w+$|reqwest::\w+::(execute|send|text|json|bytes|chunk)$|(RequestBuilder|Response|Client)(::<\w+>)?::(send|execute|text|json|bytes|chunk|request)$"
    r"|(StreamExt|SinkExt|TryStreamExt|BodyExt|Stream|Sink)::(next|send|send_all|feed|flush|close|collect|try_next|for_each|fold)$|(TcpListener)::accept$|TcpStream::connect$|(accept|connect|client)_async\w*$"
)
WAITS = re.compile(r"(tokio::time::(sleep|sleep_until|timeout)$|(mpsc|broadcast|watch|oneshot)::[\w:<>, ]*::(recv|recv_many|changed|closed|reserve)$|mpsc::(bounded::)?Sender::<T>::send$|Notify::notified$|Semaphore::acquire\w*$|Interval::tick$|JoinSet::<T>::join_next$|Barrier::wait$)")
POLLED_TY = re.compile(r"(oneshot::Receiver<|JoinHandle<|time::Sleep)")


def effect_of(L, key, t):
    """('user'|'peer'|'wait', name) of what runs at this very terminator, the call concerned"""
    f = L.finfo(t)
    if f is None:
        return [(("user", "function pointer"), t)]
    out = []
    fn = f["fn"]
    if FN_CALLS.search(fn):
        a = f["a"][0] if f["a"] else ""
        if (a.startswith("dyn ") or "dyn std::ops::Fn" in a or re.fullmatch(r"&?(mut )?[A-Z]\w*", a) or a.startswith("impl ")) and "closure" not in a:
            o = sorted(x for x in L.origin(key, t["args"][0][1]) if "." in x) if t["args"][0][0] in ("m", "c") else []
            out.append((("user", "the callback " + o[0] if o else "a caller-supplied function"), t))
        return out
    polled = []
    if POLLS.search(fn):
        a = t["args"][0]
        if a[0] in ("m", "c"):
            for o in L.future_origin(key, a[1]):
                if o[0] == "call":
                    polled.append(o[2])
            if POLLED_TY.search("".join(f["a"])):
                out.append((("wait", re.sub(r"<.*", "", f["a"][0]).rsplit("::", 1)[-1]), t))
    for c, is_poll in [(t, False)] + [(c, True) for c in polled]:
        g = L.finfo(c)
        if g is None:
            if is_poll:
                out.append((("user", "function pointer"), c))
            continue
        n = g["fn"]
        fut = L.F.bodies[key]["locals"][c["d"][0]]
        isfut = "Future" in fut or "{async" in fut or is_poll
        if g.get("dyn") or (not g.get("r") and n.startswith("pmcp::") and g.get("k") is None):
            i = n.rfind("::")
            tr, m = n[:i].rsplit("::", 1)[-1], n[i + 2 :]
            if isfut != is_poll:
                continue  # an async method runs when polled, not when called
            if tr in ("Transport", "TransportAny") or tr.endswith("Transport"):
                if m in ("send", "receive", "close", "recv"):
                    out.append((("peer", f"{tr}::{m}"), c))
            elif n.startswith("pmcp::"):
                out.append((("user", f"{tr}::{m}"), c))
        elif is_poll and not n.startswith("pmcp::"):
            if FN_CALLS.search(n):
                a = g["a"][0] if g["a"] else ""
                if "closure" not in a:
                    out.append((("user", "the future of a caller-supplied function"), c))
            elif PEER_IO.search(n):
                out.append((("peer", "::".join(n.split("::")[-2:])), c))
            elif WAITS.search(n):
                out.append((("wait", "::".join(n.split("::")[-2:])), c))
        elif not is_poll and not isfut and PEER_IO.search(n) and not n.startswith("pmcp::"):
            pass
    return out


def stored_functions(L, field):
    """closures of the crate that are stored in a field 'mod::Owner.f', also through a setter's parameter"""
    F = L.F
    owner, name = field.rsplit(".", 1)
    out = set()

    def back(k, op, seen):
        if op[0] not in ("m", "c") or (k, str(op[1])) in seen:
            return
        seen.add((k, str(op[1])))
        for o in L.future_origin(k, op[1]):
            if o[0] == "agg":
                out.add(o[1])
            elif o[0] == "call":
                for a in o[2]["args"]:
                    back(k, a, seen)
        b = F.bodies[k]
        for loc in roots(k, op[1][0], set()):
            if 1 <= loc <= b["args"] and b["kind"] == "fn":
                for q, t in L.callers.get(k, []):
                    if len(t["args"]) >= loc:
                        back(q, t["args"][loc - 1], seen)

    def roots(k, loc, seen):
        if loc in seen:
            return set()
        seen.add(loc)
        r = {loc}
        for kind, d, bb in L.body(k).defs.get(loc, []):
            ops = d["args"] if kind == "c" else [x for x in walk_ops(d[2])]
            for o in ops:
                if o and o[0] in ("m", "c"):
                    r |= roots(k, o[1][0], seen)
        return r

    for k in L.keys:
        for bb in F.bodies[k]["blocks"]:
            if not bb:
                continue
            for st in bb["s"]:
                if st[0] != "=":
                    continue
                last = st[1][-1] if len(st[1]) > 1 else None
                if isinstance(last, list) and last[0] == "." and len(last) > 3 and last[2] == name and last[3] and short(last[3]) == owner:
                    for o in walk_ops(st[2]):
                        back(k, o, set())
    return out


def short(o):
    return "::".join(o.split("<")[0].rsplit("::", 2)[-2:])


def walk_ops(rv):
    """operands in an rvalue"""
    if isinstance(rv, list):
        if len(rv) == 2 and rv[0] in ("m", "c") and isinstance(rv[1], list):
            yield rv
        elif rv and rv[0] == "ref":
            yield ["c", rv[1]]
        else:
            for x in rv:
                yield from walk_ops(x)


def own_callbacks(L, eff, x, ids):
    """the callback belongs to an object that lives inside the lock, and the lock is private to the library: the closures the
    library itself stores there are all there is"""
    if x[0] != "user" or not x[1].startswith("the callback "):
        return None
    owner = x[1][13:].rsplit(".", 1)[0]
    for i in ids:
        if "." not in i:
            return None
        o, f = i.rsplit(".", 1)
        fl = [z for k, t in L.F.types.items() if short(k) == o for v in t["vs"] for z in v[1:] if z[0] == f]
        if not fl or not all(z[2] == 0 and owner.rsplit("::", 1)[-1] in z[1] and owner != o for z in fl):
            return None
    return stored_functions(L, x[1][13:])


def foreign_effects(L):
    def direct(k):
        e = {}
        for i, t in L.body(k).calls:
            for x, c in effect_of(L, k, t):
                a = c["args"][:1] if x[0] != "user" else []
                on = frozenset(L.origin(k, a[0][1])) if a and a[0][0] in ("m", "c") else frozenset()
                e.setdefault(x + (on,), (k, t["l"]))
        return e

    return L.summaries(direct)


def on_guarded(L, key, x, c, ids):
    """the operation is one on (part of) what one of the locks `ids` guards: the transport or queue itself is what the
    lock serialises, or a caller's function was handed in to look at the guarded value"""
    f = L.finfo(c)
    args = c["args"]
    if x[0] == "user":
        if f is None or not FN_CALLS.search(f["fn"]) or not args or args[0][0] not in ("m", "c"):
            return False
        if L.origin(key, args[0][1]) & ids:
            return False  # the function itself comes out of the guarded table
        args = args[1:]
    else:
        args = args[:1]
    return any(a[0] in ("m", "c") and L.origin(key, a[1]) & ids for a in args)


def c25(ctx):
    F = ctx.F
    L = locks(ctx)
    ctx.rule("held", "no caller-supplied code runs, and nothing is waited for (peer, queue, timer, task), while a lock is held, except an operation on the very object that lock guards")
    L.entry_guards(runs)
    eff = foreign_effects(L)
    n = 0
    for k in L.keys:
        for i, (t, st) in L.flow(k).items():
            if t["k"] != "call":
                continue
            h = L.held(k, st, L.moved_in(t, st))
            if not h:
                continue
            what = [(x, c, []) for x, c in effect_of(L, k, t)]
            own = [c for x, c, _ in what if x[0] == "peer"]
            for q in runs(L, k, t):
                if own:
                    break  # a call of the transport interface: judged as one wait for the peer
                for e in eff.get(q, ()):
                    what.append((e, None, witness(L, eff, q, e)))
            n += 1
            if not what:
                ctx.ok("held", (rootfn(k), t["l"]), site(F, k, t))
            for ids, m, l in h:
                for x, c, w in what:
                    if on_guarded(L, k, x, c, ids) if c is not None else ids & x[2]:  # also inside a helper, or an async block
                        ctx.ok("held", (rootfn(k), t["l"]), site(F, k, t))
                        continue
                    a = "/".join(sorted(ids))
                    own_cb = own_callbacks(L, eff, x, ids)
                    if own_cb and not any(eff.get(q) for q in own_cb):
                        ctx.ok("held", (rootfn(k), t["l"]), site(F, k, t))
                        continue
                    ctx.bad("held", (rootfn(k), t["l"]), f"{a}:{x[0]}:{x[1]}", site(F, k, t), f"{ {'user': 'caller-supplied code runs', 'peer': 'the peer is waited for', 'wait': 'an event is waited for'}[x[0]]} ({x[1]}) while {a} (taken at line {l}) is held", w)
    ctx.fns |= set(L.keys)
    ctx.floor("held", 60)


CHECKS = {"C24": c24, "C25": c25}
