"""Abstract interpretation of MIR over the virtually inlined control-flow graph of one entry point.

Domain: symbolic provenance terms (where a value comes from), known enum variants, and branch facts.
States are joined at every program point; states with a different rule automaton state or a different
shape (enum variants of live values) are kept apart, so that `?`, combinators and extracted helpers that
return Result/Option/bool are followed precisely.  No solver is involved; loops are run to a fixpoint.
"""
import heapq
import re
import sys

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------- terms


class V:
    __slots__ = ("op", "args", "depth", "h", "_sub", "n")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.n < o.n


MAXD = 44


def _trim(a):
    if type(a) is V:
        return TOP if a.depth >= MAXD else a
    if type(a) is tuple:
        return tuple(_trim(x) for x in a)
    return a


def mk(op, *args):
    k = (op,) + args
    v = V._tab.get(k)
    if v is not None:
        return v
    d = 0
    for a in args:
        if type(a) is V:
            if a.depth > d:
                d = a.depth
        elif type(a) is tuple or type(a) is frozenset:
            for b in a:
                if type(b) is V and b.depth > d:
                    d = b.depth
    if d >= MAXD and op not in ("ref",):
        if op in ("agg", "call", "await"):
            # keep the constructor, forget the parts that are too deep
            args = tuple(_trim(a) for a in args)
            d = MAXD - 1
            k = (op,) + args
            v = V._tab.get(k)
            if v is not None:
                return v
        else:
            return TOP
    v = V.__new__(V)
    v.op = op
    v.args = args
    v.depth = d + 1
    v.h = hash(k)
    v._sub = None
    V._n += 1
    v.n = V._n
    V._tab[k] = v
    return v


TOP = None
TOP = mk("top")
MOVED = mk("moved")
UNIT = mk("agg", "tuple", None, (), ())


def agg(adt, variant, names, vals):
    return mk("agg", adt, variant, tuple(names), tuple(vals))


def show(v, d=0):
    if type(v) is not V:
        return repr(v)
    if d > 6:
        return "…"
    o, a = v.op, v.args
    s = lambda x: show(x, d + 1)
    if o == "in":
        return a[0]
    if o == "fld":
        return f"{s(a[0])}.{a[1]}"
    if o == "dc":
        return f"{s(a[0])}/{a[1]}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1]) if type(a[1]) is V else a[1]}]"
    if o == "call":
        return f"{short(a[0])}({', '.join(s(x) for x in a[1])})"
    if o == "await":
        return f"{s(a[0])}.await"
    if o == "c":
        return repr(a[1]) if a[1] is not None else a[0]
    if o == "k":
        return a[0]
    if o == "fn":
        return f"fn {short(a[0])}"
    if o == "agg":
        nm = (short(a[0]) + "::" + a[1]) if a[1] and a[0] not in ("closure", "coroutine") else (a[1] or short(a[0]))
        return f"{nm}{{{', '.join(f'{n}: {s(x)}' for n, x in zip(a[2], a[3]))}}}"
    if o == "op":
        return f"{a[0]}({s(a[1])}, {s(a[2])})"
    if o == "un":
        return f"{a[0]}({s(a[1])})"
    if o == "disc":
        return f"disc({s(a[0])})"
    if o == "cast":
        return f"({s(a[0])} as {short(a[1])})"
    if o == "ref":
        return f"&{a[1]}{''.join('.' + str(p[1]) for p in a[2])}"
    if o == "phi":
        return "{" + " | ".join(sorted(s(x) for x in a[0])) + "}"
    if o == "mut":
        return f"mut({s(a[0])}; {', '.join(sorted(short(c[0]) + '(' + ', '.join(s(x) for x in c[1]) + ')' for c in a[1]))})"
    return f"{o}{a!r}"


def short(p):
    if not isinstance(p, str):
        return str(p)
    import re

    p = re.sub(r"<[^<>]*>", "", p) if p.count("<") < 3 else p
    parts = p.split("::")
    return "::".join(parts[-2:])


def subterms(v):
    """all subterms, including v (cached)"""
    if v._sub is not None:
        return v._sub
    out = {v}
    for a in v.args:
        if type(a) is V:
            out |= subterms(a)
        elif type(a) is tuple or type(a) is frozenset:
            for b in a:
                if type(b) is V:
                    out |= subterms(b)
                elif type(b) is tuple:  # mut contributions (callee, args)
                    for c in b:
                        if type(c) is V:
                            out |= subterms(c)
                        elif type(c) is tuple:
                            for e in c:
                                if type(e) is V:
                                    out |= subterms(e)
    out = frozenset(out)
    v._sub = out
    return out


def contains(v, pred):
    return any(pred(x) for x in subterms(v))


_noise = {}


def noise(v):
    """a value of the logging machinery (levels, call-site interest): branching on it says nothing about the program"""
    r = _noise.get(v)
    if r is None:
        r = _noise[v] = any(x.op in ("k", "call", "c") and isinstance(x.args[0], str) and (x.args[0].startswith(("tracing::", "tracing_core::", "log::", "<tracing::")) or "__CALLSITE" in x.args[0]) for x in subterms(v))
    return r


def lit(v):
    """literal value of a constant term, or None"""
    if v.op == "c":
        return v.args[1]
    if v.op == "k":
        return v.args[1]
    return None


def alts(v):
    """the alternatives a value may be (phi flattened)"""
    if v.op == "phi":
        return list(v.args[0])
    return [v]


def joinv(a, b):
    if a is b:
        return a
    if a.op == "agg" and b.op == "agg" and a.args[:3] == b.args[:3]:
        return agg(a.args[0], a.args[1], a.args[2], [joinv(x, y) for x, y in zip(a.args[3], b.args[3])])
    if a.op == "mut" and b.op == "mut" and a.args[0] is b.args[0]:
        s = a.args[1] | b.args[1]
        return mk("mut", a.args[0], frozenset(s)) if len(s) <= 12 else mk("mut", TOP, frozenset())
    if a.op == "mut" and a.args[0] is b:
        return a
    if b.op == "mut" and b.args[0] is a:
        return b
    if a.op == "call" and b.op == "call" and a.args[0] == b.args[0] and a.args[2:] == b.args[2:] and len(a.args[1]) == len(b.args[1]) and lazy(a) and lazy(b):
        # the same pipeline over one of several sources
        return mk("call", a.args[0], tuple(joinv(x, y) for x, y in zip(a.args[1], b.args[1])), *a.args[2:])
    s = set(alts(a)) | set(alts(b))
    if TOP in s or len(s) > 8:
        return TOP
    return mk("phi", frozenset(s))


_bare = {}


def bare(v):
    """the term without any record of in-place changes, at any depth"""
    if not any(x.op == "mut" for x in subterms(v)):
        return v
    r = _bare.get(v)
    if r is None:

        def go(a):
            if type(a) is V:
                return bare(a)
            if type(a) is tuple:
                return tuple(go(x) for x in a)
            if type(a) is frozenset:
                return frozenset(go(x) for x in a)
            return a

        r = bare(v.args[0]) if v.op == "mut" else mk(v.op, *(go(a) for a in v.args))
        if r.op == "phi" and len(r.args[0]) == 1:
            r = next(iter(r.args[0]))
        _bare[v] = r
    return r


def mutate(old, callee, args):
    if old.op == "mut":
        base, cs = old.args
    else:
        base, cs = old, frozenset()
    # two objects that change each other (a reader and its buffer, in a loop) would record each other's history for ever
    args = [bare(a) if a.op not in ("in", "c") and base in subterms(a) else a for a in args]
    cs = cs | {(callee, tuple(args))}
    if len(cs) > 12:
        return mk("mut", TOP, frozenset())
    return mk("mut", base, cs)


# --------------------------------------------------------------------------- frames & states


class Frame:
    __slots__ = ("parent", "block", "key", "dest", "target", "prefix", "depth", "wrap", "body", "cont", "line")

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def where(self, line=None):
        b = self.body
        return f"{b['file']}:{line if line is not None else b['line']} in {b['key']}"

    def __repr__(self):
        return f"<{self.key}@{self.block}>"


class State:
    __slots__ = ("store", "heap", "facts", "auto")

    def __init__(self):
        self.store = {}
        self.heap = {}
        self.facts = {}
        self.auto = None

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.auto = self.auto
        return s

    def fact(self, v):
        return self.facts.get(v)


TRACING = {"debug", "info", "warn", "error", "trace", "event", "$crate::event", "tracing::debug", "tracing::info", "tracing::warn", "tracing::error", "tracing::trace"}

# callee path suffixes through which a value passes unchanged (same object, view, clone or wrapper)
IDENT = set("""
std::ops::Deref::deref std::ops::DerefMut::deref_mut std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::borrow::Borrow::borrow std::borrow::BorrowMut::borrow_mut std::borrow::ToOwned::to_owned std::clone::Clone::clone
std::string::ToString::to_string std::convert::Into::into std::convert::From::from
std::future::IntoFuture::into_future std::pin::Pin::<Ptr>::new_unchecked std::pin::Pin::<Ptr>::new std::boxed::Box::<T>::pin
std::boxed::Box::<T>::new std::sync::Arc::<T>::new std::rc::Rc::<T>::new std::iter::IntoIterator::into_iter
std::pin::Pin::<Ptr>::as_mut std::pin::Pin::<Ptr>::as_ref std::pin::Pin::<&'a mut T>::get_mut
std::pin::Pin::<&'a mut T>::get_unchecked_mut std::pin::Pin::<Ptr>::get_mut std::pin::Pin::<&'a mut T>::map_unchecked_mut
std::string::String::as_str std::string::String::as_bytes std::str::<impl str>::as_bytes str::as_bytes core::str::as_bytes
std::string::String::as_mut_str std::vec::Vec::<T, A>::as_slice std::vec::Vec::<T>::as_slice std::string::String::into_bytes
std::sync::Arc::<T, A>::as_ref std::boxed::Box::<T>::from std::iter::Iterator::cloned std::iter::Iterator::copied
std::iter::Iterator::by_ref std::path::Path::new std::path::PathBuf::as_path std::hint::must_use core::hint::must_use
std::boxed::box_new std::boxed::box_assume_init_into_vec_unsafe alloc::boxed::box_new std::convert::identity std::vec::Vec::<T>::into_boxed_slice std::boxed::Box::<T>::into_pin
std::sync::Arc::<T, A>::clone std::ops::Index::index
""".split()) - {"std::ops::Index::index"}
IDENT |= {f"dashmap::mapref::{m}::<'a, K, V>::{n}" for m in ("one::Ref", "one::RefMut", "multiple::RefMulti", "multiple::RefMutMulti") for n in ("value", "value_mut")}

# ... of these the result is a new object: take the content, not the reference
IDENT_COPY = {"std::clone::Clone::clone", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned", "std::iter::Iterator::cloned", "std::iter::Iterator::copied"}
FN_CALL = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"}
POLL = {"std::future::Future::poll", "futures_util::Future::poll", "core::future::Future::poll", "futures_core::Future::poll", "futures::Future::poll"}
SPAWN = ("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_blocking", "std::thread::spawn", "tokio::task::spawn_local", "tokio::runtime::Handle::spawn", "tokio::runtime::Runtime::spawn")
NO_HAVOC = ("std::iter::Iterator::next", "futures_util::StreamExt::next", "std::iter::Iterator::size_hint")


# iterator adapters that run a closure when advanced / that only pass on elements / consumers
LAZY = {"map": "map_next", "inspect": "inspect_next", "filter": "filter_next", "filter_map": "filter_map_next", "take_while": "take_while_next", "map_while": "map_while_next", "skip_while": "skip_while_next"}
LAZY_MORE = {"flat_map", "scan", "map_windows"}
PASSON = {"rev", "skip", "take", "fuse", "peekable", "step_by", "enumerate", "zip", "chain", "cycle", "flatten", "cloned", "copied", "into_iter", "by_ref"}
CONSUME = {"for_each": "for_each", "fold": "fold", "find": "find", "find_map": "find_map"}
CONSUME_TRY = {"try_for_each": "try_for_each", "try_fold": "try_fold"}


def is_iter_fn(name):
    return "iter::Iterator" in name or "iter::DoubleEndedIterator" in name or "itershim" in name


def is_closure(v):
    return v.op == "fn" or (v.op == "agg" and v.args[0] == "closure")


def lazy(v):
    """an iterator term that will run a closure of the program when it is advanced"""
    while v.op == "mut":
        v = v.args[0]
    if v.op != "call":
        return False
    n = v.args[0].rsplit("::", 1)[-1]
    a = v.args[1]
    if not is_iter_fn(v.args[0]) or not a:
        return False
    if (n in LAZY or n in LAZY_MORE) and len(a) > 1 and is_closure(a[1]):
        return True
    if n in PASSON:
        return any(lazy(x) for x in a)
    if n in LAZY:
        return lazy(a[0])
    return False


class Rule:
    """Override what you need. `ip` is the Interp."""

    init = None  # initial automaton state
    opaque = ()  # local function keys (or predicates) never inlined
    max_depth = 14
    closures = 0  # how much deeper closures are entered
    counters = False  # loop counters are unknowns instead of the values of the first rounds

    def is_opaque(self, ip, key):
        return key in self.opaque

    def on_call(self, ip, st, c):  # c: Call; return V to override result, or None
        return None

    def after_call(self, ip, st, c, res):
        pass

    def on_await(self, ip, st, fut, frame, line):
        return None

    def on_fact(self, ip, st, term, outcome, frame, line):
        pass

    def on_store(self, ip, st, base, field, value, frame, line):
        pass

    def on_agg(self, ip, st, val, frame, line):
        pass

    def on_drop(self, ip, st, val, frame, line):
        pass

    def on_return(self, ip, st, val):
        pass

    def on_assert(self, ip, st, frame, t):
        pass

    def on_enter(self, ip, st, frame):
        pass

    def on_leave(self, ip, st, frame, val):
        pass

    def on_spawn(self, ip, st, task, c):  # the spawning path, after the task was forked off
        pass

    def on_task_end(self, ip, st, val, frame):
        pass

    def on_cast(self, ip, st, val, old, new, frame):
        pass

    def on_index(self, ip, st, base, idx, frame, line):
        pass


class Call:
    __slots__ = ("path", "res", "key", "info", "args", "raw", "frame", "block", "line", "mac", "site", "dest", "tys")

    def is_(self, *names):
        return any(self.path == n or self.path.endswith("::" + n) or self.res == n or (self.res or "").endswith("::" + n) for n in names)

    def where(self):
        return self.frame.where(self.line)

    def __repr__(self):
        return f"{self.res or self.path}({', '.join(map(show, self.args))}) at {self.where()}"


class Budget(Exception):
    pass


class Interp:
    def __init__(self, facts, rule, max_steps=400000, cap=48, inline_spawn=False):
        self.F = facts
        self.rule = rule
        self.frames = {}
        self.max_steps = max_steps
        self.cap = cap
        self.steps = 0
        self.inline_spawn = inline_spawn
        self.visited_fns = set()
        self.opaque_calls = set()
        self.n_calls = 0
        self.n_nodes = 0

    # ---- frames
    def frame(self, parent, block, key, dest, target, wrap, line):
        k = (parent, block, key, wrap)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.parent = parent
            f.block = block
            f.key = key
            f.dest = dest
            f.target = target
            f.wrap = wrap
            f.line = line
            f.body = self.F.bodies[key]
            f.depth = 0 if parent is None else parent.depth + 1
            f.prefix = () if parent is None else parent.prefix + (self.F.rpo(parent.key).get(block, 0),)
            self.frames[k] = f
            self.visited_fns.add(key)
        return f

    # ---- memory
    def resolve(self, st, fr, place):
        """-> ('l', frame, local, projs) or ('t', term)"""
        loc = ("l", fr, place[0], ())
        for p in place[1:]:
            t = p[0]
            if loc[0] == "l":
                if t == "*":
                    v = self.read(st, loc)
                    if v.op == "ref":
                        loc = ("l",) + v.args
                    elif v.op == "agg" or v is MOVED:
                        pass  # box: transparent
                    else:
                        loc = ("t", v)
                elif t == ".":
                    base = self.read(st, loc)
                    if base.op == "agg" or base is MOVED or st.store.get((loc[1], loc[2])) is MOVED:
                        loc = ("l", loc[1], loc[2], loc[3] + ((".", p[2]),))
                    elif base.op == "ref":
                        loc = ("l",) + base.args
                        loc = ("l", loc[1], loc[2], loc[3] + ((".", p[2]),))
                    else:
                        loc = ("t", self.fld(st, base, p[2], p[3]))
                elif t == "v":
                    v = self.read(st, loc)
                    if v.op == "agg":
                        loc = ("l", loc[1], loc[2], loc[3] + (("v", p[1]),))
                    elif v is MOVED:
                        pass
                    else:
                        loc = ("t", self.downcast(v, p[1]))
                elif t == "i":
                    iv = st.store.get((fr, p[1]), TOP)
                    v = self.read(st, loc)
                    loc = ("t", self.index(v, iv))
                elif t == "ci":
                    v = self.read(st, loc)
                    loc = ("t", self.index(v, mk("c", "usize", p[1] if not p[2] else -p[1])))
                else:
                    v = self.read(st, loc)
                    loc = ("t", mk("idx", v, t))
            else:
                v = loc[1]
                if t == "*":
                    h = st.heap.get(v)
                    if h is not None:
                        v = h
                    loc = ("t", v) if v.op != "ref" else ("l",) + v.args
                elif t == ".":
                    loc = ("t", self.fld(st, v, p[2], p[3]))
                elif t == "v":
                    h = st.heap.get(v)
                    if h is not None:
                        v = h
                    loc = ("t", self.downcast(v, p[1]))
                elif t == "i":
                    iv = st.store.get((fr, p[1]), TOP)
                    loc = ("t", self.index(v, iv))
                elif t == "ci":
                    loc = ("t", self.index(v, mk("c", "usize", p[1] if not p[2] else -p[1])))
                else:
                    loc = ("t", mk("idx", v, t))
        return loc

    def index(self, v, i):
        if v.op == "agg" and v.args[0] == "array" and i.op == "c" and isinstance(i.args[1], int) and 0 <= i.args[1] < len(v.args[3]):
            return v.args[3][i.args[1]]
        return mk("idx", v, i)

    def downcast(self, v, variant):
        if v.op == "agg":
            return v
        if v.op == "phi":
            a = [self.downcast(x, variant) for x in v.args[0] if not (x.op == "agg" and x.args[1] != variant)]
            if a:
                r = a[0]
                for x in a[1:]:
                    r = joinv(r, x)
                return r
        return mk("dc", v, variant)

    def fld(self, st, v, name, adt):
        h = st.heap.get(v)
        own = v
        if h is not None and v.op != "in":
            v = h
        if v.op == "agg":
            try:
                return v.args[3][v.args[2].index(name)]
            except ValueError:
                return TOP
        if v.op == "phi":
            r = None
            for x in v.args[0]:
                if x.op == "ref":
                    y = self.read(st, ("l", x.args[0], x.args[1], x.args[2] + ((".", name),)))
                elif x is own:
                    y = mk("fld", x, name, adt)
                    y = st.heap.get(y, y)
                else:
                    y = self.fld(st, x, name, adt)
                r = y if r is None else joinv(r, y)
            return r
        if v.op == "ref":
            return self.read(st, ("l", v.args[0], v.args[1], v.args[2] + ((".", name),)))
        if v is TOP or v is MOVED:
            return TOP
        if v.op == "dc" and v.args[0].op == "agg":
            return self.fld(st, v.args[0], name, adt)
        t = mk("fld", v, name, adt)
        return st.heap.get(t, t)

    def read(self, st, loc):
        if loc[0] == "t":
            return st.heap.get(loc[1], loc[1])
        v = st.store.get((loc[1], loc[2]))
        if v is None:
            return TOP
        for p in loc[3]:
            if v.op == "ref":
                v = self.read(st, ("l",) + v.args)
            if p[0] == ".":
                v = self.fld(st, v, p[1], "")
            elif p[0] == "v":
                if v.op != "agg":
                    v = self.downcast(v, p[1])
                elif v.args[1] is not None and v.args[1] != p[1]:
                    return TOP
        return v

    def write(self, st, loc, val, fr=None, line=None):
        if loc[0] == "t":
            t = loc[1]
            st.heap[t] = val
            if t.op == "fld":
                self.rule.on_store(self, st, t.args[0], t.args[1], val, fr, line)
            else:
                self.rule.on_store(self, st, t, "*", val, fr, line)
            # a fact about the overwritten location no longer holds
            for f in [f for f in st.facts if t in subterms(f)]:
                del st.facts[f]
            return
        k = (loc[1], loc[2])
        if not loc[3]:
            st.store[k] = val
            return
        st.store[k] = self._wr(st, st.store.get(k, TOP), loc[3], val, fr, line)

    def _wr(self, st, old, projs, val, fr, line):
        if not projs:
            return val
        p = projs[0]
        if old.op == "ref":
            self.write(st, ("l", old.args[0], old.args[1], old.args[2] + projs), val, fr, line)
            return old
        if p[0] == "v":
            return self._wr(st, old, projs[1:], val, fr, line)
        if old.op == "agg":
            a = old.args
            if p[1] in a[2]:
                i = a[2].index(p[1])
                vals = list(a[3])
                vals[i] = self._wr(st, vals[i], projs[1:], val, fr, line)
                return agg(a[0], a[1], a[2], vals)
            return old
        if old is TOP or old is MOVED:
            if old is MOVED and all(q[1] == "value" for q in projs):
                return val  # Box<MaybeUninit<..>> of the vec! macro
            if len(projs) == 1 and old is MOVED:
                return agg("partial", None, (p[1],), (val,))
            return TOP
        t = mk("fld", old, p[1], "")
        self.write(st, ("t", t), val, fr, line)
        return old

    def snap(self, st, v, d=0):
        """replace references to local storage by the current content"""
        if v.op == "ref":
            if d > 6:
                return TOP
            return self.snap(st, self.read(st, ("l",) + v.args), d + 1)
        if v.op == "agg" and v.args[3]:
            if d > 6:
                return v
            vals = [self.snap(st, x, d + 1) for x in v.args[3]]
            return agg(v.args[0], v.args[1], v.args[2], vals)
        if v.op == "phi" and any(x.op in ("ref", "agg") for x in v.args[0]):
            r = None
            for x in v.args[0]:
                y = self.snap(st, x, d + 1)
                r = y if r is None else joinv(r, y)
            return r
        h = st.heap.get(v)
        if h is not None and d < 6:
            return self.snap(st, h, d + 1)
        return v

    def bare_place(self, v):
        while v.op == "mut":
            v = v.args[0]
        return v.op in ("fld", "await", "call", "dc")

    # ---- operands & rvalues
    def const(self, st, fr, k):
        if "fn" in k:
            return mk("fn", k["fn"], k.get("k"), k.get("r"), _freeze_ctor(k))
        if "promoted" in k:
            key = f"{k['promoted'][0]}::promoted[{k['promoted'][1]}]"
            return self.eval_promoted(key)
        v = k.get("v", k.get("s"))
        if v is None and k.get("d") in ("()",):
            return UNIT
        if v is None and isinstance(k.get("d"), str) and k["d"].startswith("{transmute(0x0000000000000000): std::option::Option<"):
            return agg("std::option::Option", "None", (), ())
        if v is None:
            v = k.get("d")
            if k.get("ty") == "&str" and isinstance(v, str) and len(v) > 1 and v[0] == '"' == v[-1]:
                try:
                    import ast

                    v = ast.literal_eval(re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), v))
                except (ValueError, SyntaxError):
                    pass
        if k.get("ty") == "bool" and "v" in k:
            v = bool(v)
        if "name" in k:
            return mk("k", k["name"], v)
        if "static" in k:
            return mk("k", k["static"], None)
        return mk("c", k["ty"], v)

    def eval_promoted(self, key):
        b = self.F.bodies.get(key)
        if b is None:
            return mk("c", "promoted", key)
        st = State()
        fr = ("promoted", key)
        bi = 0
        for _ in range(64):
            bb = b["blocks"][bi]
            for s in bb["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, fr, s[2], None)
                    self.write(st, self.resolve(st, fr, s[1]), v)
            t = bb["t"]
            if t["k"] in ("goto", "drop", "assert"):
                bi = t["to"]
            elif t["k"] == "call" and t["to"] is not None:
                f = self.operand(st, fr, t["f"])
                a = tuple(self.snap(st, self.operand(st, fr, x)) for x in t["args"])
                self.write(st, self.resolve(st, fr, t["d"]), mk("call", f.args[0] if f.op == "fn" else "?", a, key))
                bi = t["to"]
            else:
                break
        return self.snap(st, st.store.get((fr, 0), TOP))

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(st, fr, o[1])
        if k == "rc":
            return TOP
        loc = self.resolve(st, fr, o[1])
        v = self.read(st, loc)
        if k == "m" and loc[0] == "l":
            if not loc[3]:
                st.store[(loc[1], loc[2])] = MOVED
            else:
                st.store[(loc[1], loc[2])] = self._wr(st, st.store.get((loc[1], loc[2]), TOP), loc[3], MOVED, None, None)
        return v

    def rvalue(self, st, fr, r, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            loc = self.resolve(st, fr, r[1])
            if loc[0] == "l":
                return mk("ref", loc[1], loc[2], loc[3])
            return loc[1]
        if k == "agg":
            names = [x[0] for x in r[3]]
            vals = [self.operand(st, fr, x[1]) for x in r[3]]
            v = agg(r[1], r[2], names, vals)
            if isinstance(fr, Frame):
                self.rule.on_agg(self, st, v, fr, line)
            return v
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            a, b = self.snap(st, a), self.snap(st, b)
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.snap(st, self.operand(st, fr, r[2]))
            if r[1] == "Not" and a.op == "c" and isinstance(a.args[1], bool):
                return mk("c", "bool", not a.args[1])
            if r[1] == "Not" and a.op == "un" and a.args[0] == "Not":
                return a.args[1]
            if r[1] == "PtrMetadata":
                return mk("un", "len", a)
            return mk("un", r[1], a)
        if k == "disc":
            v = self.snap(st, self.read(st, self.resolve(st, fr, r[1])))
            return mk("disc", v, r[2])
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1].startswith(("PointerCoercion", "PtrToPtr", "Subtype", "Transmute", "FnPtr", "BoxDeref", "PointerExpose")):
                return v
            if v.op == "c" and isinstance(v.args[1], int) and r[1] == "IntToInt":
                return mk("c", r[3], v.args[1])
            self.rule.on_cast(self, st, self.snap(st, v), r[4], r[3], fr)
            return mk("cast", self.snap(st, v), r[3], r[4])
        if k == "rep":
            return mk("call", "array_repeat", (self.operand(st, fr, r[1]), mk("c", "usize", r[2])), 0)
        if k == "tls":
            return mk("k", r[1], None)
        return TOP

    def binop(self, op, a, b):
        la, lb = lit(a), lit(b)
        if op in ("Eq", "Ne") and la is not None and lb is not None and type(la) is type(lb):
            r = la == lb
            return mk("c", "bool", r if op == "Eq" else not r)
        if op in ("Eq", "Ne") and a.op == b.op == "agg" and a.args[0] == b.args[0] and a.args[1] is not None and b.args[1] is not None and a.args[0] in ("std::option::Option", "std::result::Result"):
            if a.args[1] != b.args[1]:
                return mk("c", "bool", op == "Ne")
            if len(a.args[3]) == 1:
                return self.binop(op, a.args[3][0], b.args[3][0])
        if op in ("BitAnd", "BitOr") and (isinstance(la, bool) or isinstance(lb, bool)):
            c, o = (la, b) if isinstance(la, bool) else (lb, a)
            if op == "BitAnd":
                return o if c else mk("c", "bool", False)
            return mk("c", "bool", True) if c else o
        if op.endswith("WithOverflow"):
            return agg("tuple", None, ("0", "1"), (mk("op", op[:-12], a, b), mk("c", "bool", False)))
        if op == "Ne":
            return mk("un", "Not", mk("op", "Eq", a, b))
        return mk("op", op, a, b)

    # ---- shapes & merging
    def shape(self, v, d=0):
        if v.op == "agg":
            if d > 3:
                return None
            nm = v.args[1]
            if v.args[0] in ("closure", "coroutine"):
                return nm
            sub = tuple(self.shape(x, d + 1) for x in v.args[3])
            if nm is None and not any(sub):
                return None
            return (nm,) + sub if any(sub) else nm
        if v.op == "c" and isinstance(v.args[1], bool):
            return v.args[1]
        if v is MOVED:
            return "~"
        if v.op == "fn":
            return v.args[0]
        return None

    def signature(self, st, node):
        fr = node[0]
        sh = []
        for k, v in st.store.items():
            if k[0] is fr or True:
                s = self.shape(v)
                if s is not None and s != "~":
                    sh.append((id(k[0]), k[1], s))
        sh.sort(key=lambda x: (x[0], x[1]))
        lf = []
        if st.facts:
            for k, v in st.store.items():
                f = st.facts.get(v)
                if f is not None:
                    lf.append((id(k[0]), k[1], _fz(f)))
            lf.sort(key=lambda x: (x[0], x[1]))
        return (st.auto, tuple(sh), tuple(lf))

    def join(self, a, b):
        """join of b into a; returns (state, changed)"""
        ch = False
        s = State()
        s.auto = a.auto
        st, bs = a.store, b.store
        out = {}
        for k, v in st.items():
            w = bs.get(k)
            if w is None:
                if v is not MOVED:
                    pass
                ch = True
                continue
            if v is w:
                out[k] = v
            elif v is MOVED or w is MOVED:
                x = w if v is MOVED else v
                out[k] = x
                if x is not v:
                    ch = True
            else:
                j = joinv(v, w)
                out[k] = j
                if j is not v:
                    ch = True
        s.store = out
        hp = {}
        for k, v in a.heap.items():
            w = b.heap.get(k, k)
            j = joinv(v, w)
            hp[k] = j
            if j is not v:
                ch = True
        for k, w in b.heap.items():
            if k not in a.heap:
                hp[k] = joinv(k, w)
                ch = True
        s.heap = hp
        fs = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w == v:
                fs[k] = v
            elif w is not None and isinstance(v, frozenset) and isinstance(w, frozenset):
                fs[k] = v | w
                if fs[k] != v:
                    ch = True
            else:
                ch = True
        s.facts = fs
        return s, ch

    # ---- branch refinement
    def assume(self, st, v, outcome, fr, line):
        """record that boolean/int/enum-discriminant term v has `outcome`; returns False if infeasible"""
        if v.op == "phi":
            return True
        if v.op == "c":
            return v.args[1] == outcome
        if v is TOP or noise(v):
            return True
        old = st.facts.get(v)
        if old is not None and not isinstance(old, frozenset) and old != outcome and not isinstance(old, tuple):
            return False
        st.facts[v] = outcome
        self.rule.on_fact(self, st, v, outcome, fr, line)
        if v.op == "un" and v.args[0] == "Not" and isinstance(outcome, bool):
            return self.assume(st, v.args[1], not outcome, fr, line)
        if v.op == "op" and v.args[0] == "Eq" and isinstance(outcome, bool):
            a, b = v.args[1], v.args[2]
            if b.op == "disc":
                a, b = b, a
            if a.op == "disc" and isinstance(lit(b), int) and a.args[1] in self.F.enums:
                tab = self.F.enums[a.args[1]]
                name = tab.get(lit(b))
                vs = self.variants(st, a.args[0], a.args[1])
                if name is not None and vs is not None:
                    vs = vs & {name} if outcome else vs - {name}
                    return bool(vs) and self.refine(st, a.args[0], frozenset(vs), fr, line)
            if not self.assume_eq(st, a, b, outcome, fr, line):
                return False
        if v.op == "op" and v.args[0] in ("any", "all") and isinstance(outcome, bool):
            return self.assume(st, v.args[2], outcome, fr, line)
        if v.op == "op" and v.args[0] == "BitAnd" and outcome is True:
            return self.assume(st, v.args[1], True, fr, line) and self.assume(st, v.args[2], True, fr, line)
        if v.op == "op" and v.args[0] == "BitOr" and outcome is False:
            return self.assume(st, v.args[1], False, fr, line) and self.assume(st, v.args[2], False, fr, line)
        return True

    def assume_eq(self, st, a, b, outcome, fr, line):
        if a.op == "phi" or b.op == "phi":
            return True
        if a is b:
            return outcome or a.op not in ("agg", "c", "k")
        if a.op == "agg" and b.op == "agg" and a.args[1] is not None and a.args[0] == b.args[0] and a.args[0] not in ("closure", "coroutine"):
            if a.args[1] != b.args[1]:
                return not outcome
            xs, ys = a.args[3], b.args[3]
            if not xs:
                return outcome
            if outcome or len(xs) == 1:
                return all(self.assume(st, self.binop("Eq", x, y), outcome, fr, line) for x, y in zip(xs, ys))
            return True
        if a.op == "agg" and b.op != "agg":
            a, b = b, a
        if b.op == "agg" and b.args[1] is not None and b.args[0] in self.F.enums and a.op not in ("agg", "c", "k", "top"):
            if outcome:
                return self.refine(st, a, frozenset([b.args[1]]), fr, line)
            if not b.args[3]:
                vs = self.variants(st, a, b.args[0])
                if vs is not None:
                    vs = vs - {b.args[1]}
                    return bool(vs) and self.refine(st, a, frozenset(vs), fr, line)
        return True

    def variants(self, st, x, enum):
        """possible variant names of term x"""
        if x.op == "agg" and x.args[1] is not None:
            return frozenset([x.args[1]])
        f = st.facts.get(x)
        if isinstance(f, frozenset):
            return f
        if x.op == "phi":
            r = frozenset()
            for y in x.args[0]:
                r |= self.variants(st, y, enum)
            return r
        if enum and enum in self.F.enums:
            return frozenset(self.F.enums[enum].values())
        return None

    def branch(self, st, fr, t, line):
        """yield (state, target)"""
        on = self.operand(st, fr, t["on"])
        if on.op == "ref":
            on = self.snap(st, on)
        cases = t["c"]
        els = t["else"]
        if on.op == "disc":
            x, enum = on.args
            vs = self.variants(st, x, enum)
            table = self.F.enums.get(enum) if enum else None
            if vs is not None and table is not None:
                rest = set(vs)
                for val, tgt in cases:
                    name = table.get(val)
                    if name is None or name not in vs:
                        continue
                    rest.discard(name)
                    s2 = st.copy()
                    if self.refine(s2, x, frozenset([name]), fr, line):
                        yield s2, tgt
                if rest:
                    s2 = st.copy()
                    if self.refine(s2, x, frozenset(rest), fr, line):
                        yield s2, els
                return
        if on.op in ("c", "k") and lit(on) is not None:
            val = on.args[1]
            for c, tgt in cases:
                if int(val) == c if isinstance(val, (bool, int)) else False:
                    yield st, tgt
                    return
            yield st, els
            return
        isbool = t.get("ty") == "bool"
        if isbool:
            inner, neg = on, False
            while inner.op == "un" and inner.args[0] == "Not":
                inner, neg = inner.args[1], not neg
            if inner.op == "phi":
                # follow each alternative of a merged boolean separately
                done = set()
                for y in sorted(inner.args[0]):
                    s1 = st.copy()
                    for k, v in list(s1.store.items()):
                        if v is inner:
                            s1.store[k] = y
                    l = lit(y)
                    arms = [(bool(c), tgt) for c, tgt in cases]
                    arms.append((not bool(cases[0][0]), els))
                    for out, tgt in arms:
                        o = (not out) if neg else out
                        if l is not None and bool(l) != o:
                            continue
                        s2 = s1.copy()
                        if self.assume(s2, y, o, fr, line):
                            yield s2, tgt
                return
        known = st.facts.get(on) if on is not TOP else None
        if isbool:
            for c, tgt in cases:
                out = bool(c)
                if isinstance(known, bool) and known != out:
                    continue
                s2 = st.copy()
                if self.assume(s2, on, out, fr, line):
                    yield s2, tgt
            out = not bool(cases[0][0])
            if not (isinstance(known, bool) and known != out):
                s2 = st.copy()
                if self.assume(s2, on, out, fr, line):
                    yield s2, els
            return
        for c, tgt in cases:
            if known is not None and not isinstance(known, (frozenset, tuple)) and known != c:
                continue
            if isinstance(known, tuple) and c in known[1]:
                continue
            s2 = st.copy()
            if self.assume(s2, on, c, fr, line):
                yield s2, tgt
        if known is None or isinstance(known, tuple):
            s2 = st.copy()
            if on is not TOP and on.op != "phi" and not noise(on):
                s2.facts[on] = ("!=", frozenset(c for c, _ in cases))
                self.rule.on_fact(self, s2, on, s2.facts[on], fr, line)
            yield s2, els

    def refine(self, st, x, vs, fr, line):
        if x.op == "agg":
            return x.args[1] in vs
        if x.op == "phi":
            # narrow stored phis to the matching alternatives
            keep = []
            for y in x.args[0]:
                yv = self.variants(st, y, None)
                if yv is None or yv & vs:
                    keep.append(y)
            if not keep:
                return False
            if len(keep) < len(x.args[0]):
                new = keep[0] if len(keep) == 1 else mk("phi", frozenset(keep))
                for k, v in list(st.store.items()):
                    if v is x:
                        st.store[k] = new
                if new.op != "phi":
                    return self.refine(st, new, vs, fr, line) if new.op != "agg" else True
                x = new
            self.rule.on_fact(self, st, x, vs, fr, line)  # one of several values: told, not recorded
            return True
        if x is TOP or noise(x):
            return True
        old = st.facts.get(x)
        if isinstance(old, frozenset) and not (old & vs):
            return False
        st.facts[x] = vs
        self.rule.on_fact(self, st, x, vs, fr, line)
        return True

    # ---- running
    def run(self, key, args=None, auto=None):
        body = self.F.bodies[key]
        root = self.frame(None, 0, key, None, None, None, body["line"])
        st = State()
        st.auto = self.rule.init if auto is None else auto
        names = {}
        for n, pl in body.get("dbg", []):
            if len(pl) == 1 and 1 <= pl[0] <= body["args"]:
                names.setdefault(pl[0], n)
        for i in range(1, body["args"] + 1):
            v = None
            if args and i - 1 < len(args):
                v = args[i - 1]
            st.store[(root, i)] = v if v is not None else mk("in", names.get(i, f"arg{i}"))
        self.root = root
        self.rule.on_enter(self, st, root)
        self.table = {}
        self.heapq = []
        self.inq = set()
        self.seq = 0
        self.push((root, 0), st)
        while self.heapq:
            _, _, node, sig = heapq.heappop(self.heapq)
            self.inq.discard((node, sig))
            st = self.table[node].get(sig)
            if st is None:
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(f"analysis budget exceeded in {key}: {self.steps} steps, {len(self.table)} nodes")
            self.block(node, st.copy())
        self.n_nodes = len(self.table)
        return self

    def push(self, node, st):
        if self.rule.counters:
            ints = self.F.counters(node[0].key).get(node[1])
            if ints:
                self.forget(st, node, ints)
        sig = self.signature(st, node)
        tab = self.table.setdefault(node, {})
        if sig not in tab and len(tab) >= self.cap:
            sig = (st.auto, "cap", None)
        old = tab.get(sig)
        if old is None:
            tab[sig] = st
        else:
            st, ch = self.join(old, st)
            if not ch:
                return
            tab[sig] = st
        if (node, sig) not in self.inq:
            self.inq.add((node, sig))
            self.seq += 1
            fr, b = node
            pr = fr.prefix + (self.F.rpo(fr.key).get(b, 0),)
            heapq.heappush(self.heapq, (pr, self.seq, node, sig))

    def forget(self, st, node, ints):
        """at the head of a loop its counters may have any value: the same unknown one in every round, what an earlier round left behind another one"""
        fr, b = node
        now = {}
        for i in ints:
            if st.store.get((fr, i)) is not None and st.store[(fr, i)] is not MOVED:
                now[i] = mk("in", f"round:{fr.key}:{b}:{i}:{len(fr.prefix)}")
        olds = {mk("in", f"round:{fr.key}:{b}:{i}:{len(fr.prefix)}"): mk("in", f"earlier:{fr.key}:{b}:{i}:{len(fr.prefix)}") for i in ints}

        def hit(v):
            return contains(v, lambda x: x in olds)

        for k, v in list(st.store.items()):
            if v is not MOVED and hit(v):
                st.store[k] = subst(v, olds)
        for k, v in list(st.heap.items()):
            if hit(v):
                st.heap[k] = subst(v, olds)
        for f in [f for f in st.facts if hit(f)]:
            del st.facts[f]
        for i, v in now.items():
            st.store[(fr, i)] = v

    def block(self, node, st):
        fr, bi = node
        bb = fr.body["blocks"][bi]
        if bb is None:
            return
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[3])
                loc = self.resolve(st, fr, s[1])
                if loc[0] == "l" and not loc[3] and len(s[1]) > 1 and s[1][-1][0] == "*":
                    # assignment through a reference to a lock guard: the guarded object is what is stored to
                    g = st.store.get((loc[1], loc[2]))
                    g0 = g.args[0] if g is not None and g.op == "mut" else g
                    if g0 is not None and g0.op in ("call", "await", "fld") and contains(g0, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("write", "lock", "borrow_mut", "get_mut", "entry", "or_insert")):
                        self.rule.on_store(self, st, g0, "*", v, fr, s[3])
                self.write(st, loc, v, fr, s[3])
            elif k == "dead":
                st.store.pop((fr, s[1]), None)
            elif k == "sd":
                pass
        t = bb["t"]
        k = t["k"]
        line = t["l"]
        if k == "goto":
            self.push((fr, t["to"]), st)
        elif k == "switch":
            for s2, tgt in self.branch(st, fr, t, line):
                self.push((fr, tgt), s2)
        elif k == "ret":
            self.ret(fr, st)
        elif k == "drop":
            loc = self.resolve(st, fr, t["p"])
            v = self.read(st, loc)
            if v is not MOVED and v is not TOP:
                self.rule.on_drop(self, st, v, fr, line)
            self.push((fr, t["to"]), st)
        elif k == "assert":
            self.rule.on_assert(self, st, fr, t)
            self.push((fr, t["to"]), st)
        elif k == "yield":
            self.write(st, self.resolve(st, fr, t["p"]), TOP)
            self.push((fr, t["to"]), st)
        elif k == "call":
            self.call(fr, bi, st, t)
        elif k == "asm":
            self.push((fr, t["to"]), st)

    def pop_frame(self, st, fr):
        for k in [k for k in st.store if k[0] is fr]:
            del st.store[k]

    def ret(self, fr, st):
        v = st.store.get((fr, 0), UNIT)
        if v.op == "ref" and v.args[0] is fr:
            v = self.snap(st, v)
        v = self._escape(st, v, fr)
        self.rule.on_leave(self, st, fr, v)
        if fr.parent is None:
            self.rule.on_return(self, st, self.snap(st, v))
            return
        self.pop_frame(st, fr)
        w = fr.wrap
        if w == "ready":
            v = agg("std::task::Poll", "Ready", ("0",), (v,))
        elif w == "discard":
            v = None
        elif w == "task":
            self.rule.on_task_end(self, st, self.snap(st, v), fr)
            return
        elif w is not None and w[0] == "timeout":
            v = agg("std::task::Poll", "Ready", ("0",), (agg("std::result::Result", "Ok", ("0",), (v,)),))
        elif w is not None and w[0] == "use":
            v = w[1]
        elif w is not None and w[0] == "pred":
            b = self.snap(st, v)
            v = b if isinstance(lit(b), bool) else mk("op", w[1], w[2], b)
        if v is not None:
            self.write(st, self.resolve(st, fr.parent, fr.dest), v, fr.parent, fr.line)
        if fr.target is not None:
            self.push((fr.parent, fr.target), st)

    def _escape(self, st, v, fr):
        """a returned aggregate may hold references into the dying frame (promoted temporaries): materialise"""
        if v.op == "agg" and any(x.op in ("ref", "agg", "phi") for x in v.args[3]):
            vals = [self._escape(st, x, fr) for x in v.args[3]]
            return agg(v.args[0], v.args[1], v.args[2], vals)
        if v.op == "ref" and v.args[0] is fr:
            return self.snap(st, v)
        if v.op == "phi":
            r = None
            for x in v.args[0]:
                y = self._escape(st, x, fr)
                r = y if r is None else joinv(r, y)
            return r
        return v

    # ---- calls
    def call(self, fr, bi, st, t):
        line = t["l"]
        f = t["f"]
        fval = self.operand(st, fr, f)
        args = [self.operand(st, fr, a) for a in t["args"]]
        self.docall(fr, bi, st, t, fval, args, line, f[1] if f[0] == "k" else {})

    def finish(self, fr, st, t, v):
        self.write(st, self.resolve(st, fr, t["d"]), v, fr, t["l"])
        if t["to"] is not None:
            self.push((fr, t["to"]), st)

    def docall(self, fr, bi, st, t, fval, args, line, info):
        self.n_calls += 1
        mac = t.get("mac", ())
        fval_s = self.snap(st, fval) if fval.op == "ref" else fval
        c = Call()
        c.frame, c.block, c.line, c.mac, c.info = fr, bi, line, mac, info
        c.raw = args
        c.site = (fr.key, bi, fr.prefix)
        if fval_s.op == "fn":
            c.path, c.key, c.res = fval_s.args[0], fval_s.args[1], fval_s.args[2]
            ctor = fval_s.args[3]
        else:
            c.path, c.key, c.res, ctor = "<indirect>", None, None, None
        c.args = [self.snap(st, a) for a in args]
        if ctor is not None:
            names = [str(i) for i in range(len(args))]
            v = agg(ctor[0], ctor[1], names, args)
            self.rule.on_agg(self, st, v, fr, line)
            self.finish(fr, st, t, v)
            return
        tracing = any(m in TRACING for m in mac)
        over = self.rule.on_call(self, st, c)
        if over is not None:
            self.finish(fr, st, t, over)
            return
        # value-level calls of closures
        if c.path in FN_CALL or c.path == "<indirect>":
            if c.path == "<indirect>":
                callee, cargs = fval, args
            else:
                callee = args[0]
                tup = args[1] if len(args) > 1 else UNIT
                tup = tup if tup.op == "agg" else self.snap(st, tup)
                cargs = list(tup.args[3]) if tup.op == "agg" else [tup]
            if self.invoke(fr, bi, st, t, callee, cargs, None, line):
                return
            self.opaque(fr, bi, st, t, c, args)
            return
        if c.path in POLL:
            self.poll(fr, bi, st, t, c, args)
            return
        if c.path in IDENT or (c.res in IDENT):
            if c.path == "std::convert::From::from" or c.path == "std::convert::Into::into":
                # user-defined conversions are inlined when local
                if c.key and self.can_inline(fr, c.key):
                    self.inline(fr, bi, st, t, c.key, args, None, line)
                    return
                a0 = info.get("a", [])
                if len(a0) == 2 and a0[0] != a0[1] and c.path == "std::convert::From::from" and "Error" in a0[0]:
                    self.finish(fr, st, t, mk("call", "convert:" + a0[0], (c.args[0],), c.site))
                    return
            self.finish(fr, st, t, c.args[0] if c.path in IDENT_COPY else args[0])
            return
        p = c.path
        if p == "std::default::Default::default" and c.info.get("a"):
            ty = c.info["a"][0]
            d = None
            if ty.startswith("std::option::Option<"):
                d = agg("std::option::Option", "None", (), ())
            elif ty == "bool":
                d = mk("c", "bool", False)
            elif ty in ("u8", "u16", "u32", "u64", "usize", "i32", "i64"):
                d = mk("c", ty, 0)
            if d is not None:
                self.finish(fr, st, t, d)
                return
        if is_iter_fn(p) or is_iter_fn(c.res or "") or (args and c.args and p.rsplit("::", 1)[-1] in ("next", "next_back")):
            if self.iterate(fr, bi, st, t, c, args):
                return
        if p == "std::boxed::Box::<T>::new_uninit":
            self.finish(fr, st, t, MOVED)
            return
        if p in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            a, b = c.args[0], c.args[1]
            if p.endswith("eq"):
                r = self.binop("Eq", a, b)
            else:
                r = self.binop("Ne", a, b)
            self.finish(fr, st, t, r)
            return
        if p in ("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge"):
            self.finish(fr, st, t, mk("op", p[-2:].capitalize(), c.args[0], c.args[1]))
            return
        if p in ("std::mem::take", "std::mem::replace", "std::option::Option::<T>::take", "std::option::Option::<T>::replace"):
            old = args[0]
            oldv = self.snap(st, old)
            if p.endswith("Option::<T>::take"):
                new = agg("std::option::Option", "None", (), ())
            elif p.endswith("take"):
                new = mk("call", "std::default::Default::default", (), c.site)
            else:
                new = args[1]
                if "Option" in p:
                    new = agg("std::option::Option", "Some", ("0",), (new,))
            loc = ("l",) + old.args if old.op == "ref" else ("t", old)
            self.write(st, loc, new, fr, line)
            # the taken value is the old content (under a name of its own if that content is only known by its place)
            if "mem::" in p and self.bare_place(oldv):
                oldv = mk("call", "std::mem::taken", (oldv,), c.site)
            self.finish(fr, st, t, oldv)
            return
        if p in ("std::mem::drop", "core::mem::drop"):
            if c.args and c.args[0] is not MOVED:
                self.rule.on_drop(self, st, c.args[0], fr, line)
            self.finish(fr, st, t, UNIT)
            return
        if c.key and not tracing:
            if self.can_inline(fr, c.key):
                self.inline(fr, bi, st, t, c.key, args, None, line)
                return
        self.opaque(fr, bi, st, t, c, args)

    def shim(self, fr, bi, st, t, c, name, args, wrap=None):
        key = self.F.shims[name]
        if not self.can_inline(fr, key):
            return False
        self.inline(fr, bi, st, t, key, args, wrap, c.line)
        return True

    def iterate(self, fr, bi, st, t, c, args):
        """combinators of std::iter::Iterator, by the shims; False: not one of them"""
        n = c.path.rsplit("::", 1)[-1]
        if not c.args:
            return False
        it = c.args[0]
        if n in ("next", "next_back"):
            while it.op == "mut":
                it = it.args[0]
            if not lazy(it):
                return False
            m = it.args[0].rsplit("::", 1)[-1]
            a = it.args[1]
            if m in LAZY and is_closure(a[1]):
                return self.shim(fr, bi, st, t, c, LAZY[m], [a[0], a[1]])
            if m in LAZY:  # map over lazy with an unknown callable
                return False
            if m == "enumerate":
                return self.shim(fr, bi, st, t, c, "enumerate_next", [a[0], mk("call", "position", (a[0],), c.site)])
            if m == "zip":
                return self.shim(fr, bi, st, t, c, "zip_next", [a[0], a[1]])
            if m == "chain":
                return self.shim(fr, bi, st, t, c, "chain_next", [a[0], a[1]])
            if m in PASSON and a[0].op == "call" and a[0].args[0].rsplit("::", 1)[-1] in LAZY and m not in ("flatten",):
                # the closure sees the elements that are passed on
                inner = a[0]
                base = mk("call", it.args[0], (inner.args[1][0],) + tuple(a[1:]), it.args[2])
                new = mk("call", inner.args[0], (base,) + tuple(inner.args[1][1:]), inner.args[2])
                return self.shim(fr, bi, st, t, c, LAZY[inner.args[0].rsplit("::", 1)[-1]], [base, inner.args[1][1]])
            return False
        cl = args[-1] if len(args) > 1 else None
        clv = (self.snap(st, cl) if cl.op == "ref" else cl) if cl is not None else None
        has_cl = clv is not None and is_closure(clv)
        if has_cl and clv.op == "agg" and not (clv.args[1] in self.F.bodies and self.can_inline(fr, clv.args[1])):
            return False
        if (n in LAZY or n in LAZY_MORE) and has_cl:
            res = mk("call", c.res or c.path, (c.args[0], cl if cl.op != "ref" else clv) + tuple(c.args[2:]), c.site)
            if res is TOP:
                return False
            self.rule.after_call(self, st, c, res)
            self.finish(fr, st, t, res)
            return True
        ref0 = args[0]
        src = c.args[0]
        while src.op == "mut":
            src = src.args[0]
        if ref0.op == "ref" and not lazy(src):
            src = ref0
        if n in CONSUME and has_cl:
            return self.shim(fr, bi, st, t, c, CONSUME[n], [src] + list(args[1:]))
        ty = ""
        if len(t["d"]) == 1:
            ty = fr.body["locals"][t["d"][0]]
        if ty in ("B", "R") or not ty:
            ty = ""
        if n in CONSUME_TRY and has_cl:
            k = "_res" if ty.startswith("std::result::Result<") else "_opt" if ty.startswith("std::option::Option<") else None
            if k is None:
                return False
            return self.shim(fr, bi, st, t, c, CONSUME_TRY[n] + k, [src] + list(args[1:]))
        if n == "collect" and lazy(src):
            k = "collect_vec" if ty.startswith("std::vec::Vec<") else "collect_vec_res" if ty.startswith("std::result::Result<std::vec::Vec<") else "collect_vec_opt" if ty.startswith("std::option::Option<std::vec::Vec<") else None
            if k is not None:
                return self.shim(fr, bi, st, t, c, k, [src])
        return False

    def can_inline(self, fr, key):
        b = self.F.bodies.get(key)
        if b is None:
            return False
        if b["kind"] != "std":
            if self.rule.is_opaque(self, key):
                return False
            if b.get("derived") and not key.endswith("Default>::default"):
                return False
        more = 6 if b["kind"] == "std" else self.rule.closures if b["kind"] == "closure" else 0
        if fr.depth >= self.rule.max_depth + more:
            return False
        f = fr
        n = 0
        while f is not None:
            if f.key == key:
                n += 1
                if n >= (3 if b["kind"] == "std" else 1):
                    return False
            f = f.parent
        return True

    def inline(self, fr, bi, st, t, key, args, wrap, line, dest=None, target="to"):
        nf = self.frame(fr, bi, key, t["d"] if dest is None else dest, t["to"] if target == "to" else target, wrap, line)
        for k in [k for k in st.store if k[0] is nf]:
            del st.store[k]
        for i, a in enumerate(args):
            st.store[(nf, i + 1)] = a
        self.rule.on_enter(self, st, nf)
        self.push((nf, 0), st)

    def invoke(self, fr, bi, st, t, callee, cargs, wrap, line):
        """call a callable value; returns False if unknown"""
        cv = self.snap(st, callee) if callee.op == "ref" else callee
        if cv.op == "agg" and cv.args[0] == "closure" and cv.args[1] in self.F.bodies:
            key = cv.args[1]
            if not self.can_inline(fr, key):
                return False
            self.inline(fr, bi, st, t, key, [callee if callee.op == "ref" else cv] + list(cargs), wrap, line)
            return True
        if cv.op == "fn":
            if wrap is None:
                self.docall(fr, bi, st, t, cv, list(cargs), line, {})
                return True
        return False

    def poll(self, fr, bi, st, t, c, args):
        fut = args[0]
        fv = self.snap(st, fut) if fut.op == "ref" else fut
        if fv.op == "agg" and fv.args[0] == "coroutine" and fv.args[1] in self.F.bodies:
            if self.can_inline(fr, fv.args[1]):
                self.inline(fr, bi, st, t, fv.args[1], [fut if fut.op == "ref" else fv, TOP], "ready", c.line)
                return
        if fv.op == "agg" and fv.args[0] in ("coroutine", "closure"):
            fv = mk("call", fv.args[1], fv.args[3], c.site)
        if fv.op == "call" and fv.args[0].endswith("time::timeout") and len(fv.args[1]) > 1:
            inner = fv.args[1][1]
            s2 = st.copy()
            err = agg("std::result::Result", "Err", ("0",), (mk("call", "tokio::time::error::Elapsed", (), c.site),))
            self.rule.on_await(self, s2, fv, fr, c.line)
            self.finish(fr, s2, t, agg("std::task::Poll", "Ready", ("0",), (err,)))
            if inner.op == "agg" and inner.args[0] == "coroutine" and self.can_inline(fr, inner.args[1]):
                self.inline(fr, bi, st, t, inner.args[1], [inner, TOP], ("timeout",), c.line)
                return
            r = self.rule.on_await(self, st, inner, fr, c.line)
            v = r if r is not None else self.awaited(st, inner)
            ok = agg("std::result::Result", "Ok", ("0",), (v,))
            self.finish(fr, st, t, agg("std::task::Poll", "Ready", ("0",), (ok,)))
            return
        if fv.op == "call" and fv.args[0].endswith("poll_fn") and fv.args[1]:
            cl = fv.args[1][0]
            if cl.op == "agg" and cl.args[0] == "closure" and self.can_inline(fr, cl.args[1]):
                self.inline(fr, bi, st, t, cl.args[1], [cl, TOP], None, c.line)
                return
        al = sorted(alts(fv))
        for x in al:
            s2 = st if x is al[-1] else st.copy()
            if x.op == "agg" and x.args[0] == "coroutine" and self.can_inline(fr, x.args[1]):
                self.inline(fr, bi, s2, t, x.args[1], [x, TOP], "ready", c.line)
                continue
            r = self.rule.on_await(self, s2, x, fr, c.line)
            v = r if r is not None else self.awaited(s2, x)
            self.finish(fr, s2, t, agg("std::task::Poll", "Ready", ("0",), (v,)))

    def awaited(self, st, fv):
        v = mk("await", fv)
        if v is not TOP:
            self.kill(st, v)
        return v

    def kill(self, st, v):
        """v is produced anew: facts and overlays about an earlier value of the same site are stale"""
        if st.facts:
            for f in [f for f in st.facts if v in subterms(f)]:
                del st.facts[f]
        if st.heap:
            for f in [f for f in st.heap if v in subterms(f)]:
                del st.heap[f]

    def opaque(self, fr, bi, st, t, c, args):
        """unknown callee: result is a fresh symbolic term; &mut arguments are havocked; closures may run"""
        name = c.res or c.path
        self.opaque_calls.add(name)
        res = mk("call", name, tuple(c.args), c.site)
        if res is not TOP:
            self.kill(st, res)
        lt = fr.body["locals"]
        tracing = any(m in TRACING for m in c.mac)
        if not tracing and name not in NO_HAVOC and c.path not in NO_HAVOC:
            for i, (a, o) in enumerate(zip(args, t["args"])):
                if o[0] == "k":
                    continue
                ty = lt[o[1][0]] if len(o[1]) == 1 else ""
                if not ty.startswith("&mut") and not ty.startswith("std::pin::Pin<&mut"):
                    continue
                others = [x for j, x in enumerate(c.args) if j != i]
                if a.op == "ref":
                    loc = ("l",) + a.args
                    old = self.read(st, loc)
                    if old is not TOP and old is not MOVED and old.op not in ("fn",) and not (old.op == "agg" and old.args[0] in ("closure", "coroutine")):
                        self.write(st, loc, mutate(self.snap(st, old), name, others), fr, c.line)
                else:
                    # unknown object: forget what was recorded about its content
                    for h in [h for h in st.heap if a in subterms(h)]:
                        del st.heap[h]
                    for f in [f for f in st.facts if a in subterms(f) and f is not a and f.op in ("fld", "dc", "idx")]:
                        del st.facts[f]
        self.rule.after_call(self, st, c, res)
        if self.inline_spawn and self.is_spawn(name) and not tracing:
            for a in args:
                av = self.snap(st, a) if a.op == "ref" else a
                if av.op == "agg" and av.args[0] in ("coroutine", "closure") and av.args[1] in self.F.bodies and self.can_inline(fr, av.args[1]):
                    s2 = st.copy()
                    self.inline(fr, bi, s2, t, av.args[1], [av, TOP][: self.F.bodies[av.args[1]]["args"]], "task", c.line)
                    self.rule.on_spawn(self, st, av, c)
        # quantifiers over an iterator: the closure's answer for one generic element
        q = name.rsplit("::", 1)[-1]
        if q in ("any", "all") and len(args) == 2 and ("Iterator" in name or "iter::" in name):
            a = args[1]
            av = self.snap(st, a) if a.op == "ref" else a
            if av.op == "agg" and av.args[0] == "closure" and av.args[1] in self.F.bodies and self.can_inline(fr, av.args[1]):
                el = mk("call", "elem", (c.args[0],), c.site)
                self.inline(fr, bi, st, t, av.args[1], [a if a.op == "ref" else av, el], ("pred", q, c.args[0]), c.line)
                return
        # an iterator with closures inside, handed to unknown code: advanced any number of times
        if not tracing and not (q in PASSON and is_iter_fn(name)):
            for a, av in zip(args, c.args):
                if lazy(av):
                    base = av
                    while base.op == "mut":
                        base = base.args[0]
                    if self.can_inline(fr, self.F.shims["drain"]):
                        self.inline(fr, bi, st, t, self.F.shims["drain"], [base], ("use", res), c.line)
                        return
        # closures handed to unknown code may run any number of times
        if not tracing and not self.is_spawn(name) and not name.endswith("poll_fn"):
            for a in args:
                av = self.snap(st, a) if a.op == "ref" else a
                if av.op == "agg" and av.args[0] == "closure" and av.args[1] in self.F.bodies and self.can_inline(fr, av.args[1]):
                    s2 = st.copy()
                    nb = self.F.bodies[av.args[1]]
                    cargs = [mk("call", "closure-arg", (res, mk("c", "usize", j)), c.site) for j in range(nb["args"] - 1)]
                    self.inline(fr, bi, s2, t, av.args[1], [a if a.op == "ref" else av] + cargs, ("use", res), c.line)
        self.finish(fr, st, t, res)

    def is_spawn(self, name):
        return any(name.startswith(s) for s in SPAWN) or name.endswith("::spawn")


def subst(v, to):
    memo = {}

    def go(x):
        if isinstance(x, V):
            if x in to:
                return to[x]
            if x not in memo:
                memo[x] = x
                a = tuple(go(y) for y in x.args)
                if any(p is not q for p, q in zip(a, x.args)):
                    memo[x] = mk(x.op, *a)
            return memo[x]
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return r if any(p is not q for p, q in zip(r, x)) else x
        if isinstance(x, frozenset):
            r = frozenset(go(y) for y in x)
            return r if r != x else x
        return x

    return go(v)


def _freeze_ctor(k):
    c = k.get("ctor")
    return tuple(c) if c else None


def _fz(f):
    return f


def backtrace(frame, line):
    out = []
    f, l = frame, line
    while f is not None:
        out.append(f"{f.body['file']}:{l} ({f.key})")
        l = f.line
        f = f.parent
    return out
