"""C23 panics"""
from lib import *
from linr import Lin
from rules.textr import VIEWS, CHANGES, base, width
from interp import Budget, Interp, Rule

name = lambda p: p.rsplit("::", 1)[-1]
SKIP = ("src/simd/",)
TIME = re.compile(r"\b(Duration|Instant|SystemTime|DateTime|TimeDelta)\b")
PANICS = {
    "unwrap": "value", "expect": "value", "unwrap_err": "value", "expect_err": "value", "unwrap_unchecked": "value", "unreachable_unchecked": "panic",
    "index": "index", "index_mut": "index",
    "remove": "at", "swap_remove": "at", "insert": "upto", "split_off": "upto", "split_at": "upto", "split_at_mut": "upto", "drain": "range", "swap": "at", "copy_within": "range", "rotate_left": "upto", "rotate_right": "upto", "truncate": None,
    "copy_from_slice": "same", "clone_from_slice": "same",
    "chunks": "positive", "chunks_exact": "positive", "windows": "positive", "step_by": "positive", "chunks_mut": "positive", "rchunks": "positive",
    "from_secs_f64": "number", "from_secs_f32": "number", "mul_f64": "number", "mul_f32": "number", "div_f64": "number", "div_f32": "number",
    "pow": "number", "abs": "number", "div_euclid": "number", "rem_euclid": "number", "ilog2": "number", "ilog10": "number", "isqrt": "number", "from_digit": "number", "gen_range": "number", "random_range": "number",
    "with_capacity": "size", "from_elem": "size", "reserve": "size", "reserve_exact": "size", "repeat": "size", "resize": "size", "repeat_n": None,
    "get_unchecked": "at", "get_unchecked_mut": "at",
}
VECS = re.compile(r"(^|[<:])(Vec|VecDeque|\[T\]|String|str|SmallVec|BytesMut|Bytes)\b|slice::<impl")
BUDGET = 120000
SIZES = {"len", "count", "elapsed", "now", "capacity", "position", "rposition", "find", "rfind", "len_utf8", "duration_since", "size_hint", "is_some", "is_none", "is_empty", "signed_duration_since"}
SOURCES = re.compile(r"(parse|from_(str|slice|value|reader|bytes|[bln]e_bytes|str_radix)|recv|receive|poll\w*|deserialize|as_[uif](64|128)|to_[uif](64|32)|headers?|json|body|text)$")


def kind_of(p, a):
    n = name(p)
    if re.match(r"(core|std)::panicking::", p) or n in ("unwrap_failed", "expect_failed", "panic_fmt", "begin_panic", "panic_display", "panic_any"):
        return "panic"
    if p.startswith("std::ops::") and n in ("add", "sub", "mul", "div", "rem", "add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign"):
        return "time" if a and TIME.search(a[0]) else None
    k = PANICS.get(n)
    if k in ("value",):
        return k if re.search(r"(Option|Result)::<", p) else None
    if k == "index":
        return k if p.startswith("std::ops::Index") else None
    if k in ("at", "upto", "range", "same", "positive"):
        return k if VECS.search(p) and "Map" not in p and "HashSet" not in p or n == "step_by" else None
    if k == "size":
        return k if re.search(r"Vec|String|str\b|HashMap|HashSet|BytesMut|slice|BinaryHeap|VecDeque|from_elem", p) else None
    if k == "number":
        return k if not p.startswith(("f64::", "f32::", "std::f64", "core::f64")) and "f64>::" not in p and "<impl f64>" not in p else None
    return k


def foreign(mac):
    """code written by a macro of a library"""
    return any(re.search(r"select|json_internal|\bjson$|join|pin", m) for m in mac or ())


def sites(F):
    out = {}
    for k, b in F.bodies.items():
        if b["kind"] not in ("fn", "closure", "coroutine") or b.get("derived") or b["file"].startswith(SKIP):
            continue
        for i, blk in enumerate(b.get("blocks", [])):
            t = blk and blk["t"]
            if not t or foreign(t.get("mac")):
                continue
            if t["k"] == "assert" and re.match(r"bounds|ovf|div0|rem0", t["m"]):
                out.setdefault(k, set()).add((i, t["m"]))
            elif t["k"] == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k" and "fn" in t["f"][1]:
                x = kind_of(t["f"][1]["fn"], t["f"][1].get("a"))
                if x:
                    out.setdefault(k, set()).add((i, x))
    return out


def c23(ctx):
    F = ctx.F
    ctx.rule("value", "unwrap and expect are applied only to what is known to be there on that path, or to the outcome of an operation that cannot fail")
    ctx.rule("index", "an index, a range or a position is used only where it is known to lie within the very sequence it is used on")
    ctx.rule("number", "arithmetic that can panic is done only on constants, sizes, clocks and configuration, or where it is known not to overflow or divide by zero")
    ctx.rule("panic", "no explicit panic can be reached")
    closes = set()
    loose = [False]  # what the function analysed is given, its caller in the application chooses
    own = [False]  # its first parameter is the object itself
    for k, b in F.bodies.items():
        for blk in b.get("blocks", []):
            t = blk and blk["t"]
            if t and t["k"] == "call" and t["f"][0] == "k" and "Semaphore" in str(t["f"][1].get("fn")) and name(t["f"][1]["fn"]) == "close":
                closes.add(k)
    stripmut = lambda v: v.args[0] if v.op == "mut" else v

    def views(v):
        v = base(v)
        while v.op == "call" and name(v.args[0]) in ("char_indices", "bytes", "iter_mut") and len(v.args[1]) == 1:
            v = base(v.args[1][0])
        return v

    def lin(st):
        return Lin({t: o for t, o in st.facts.items() if not any(l[0] == "stale" and contains(t, lambda x: x is l[1]) for l in st.auto)}, views).learn()

    FOUND = ("find", "rfind", "position", "rposition", "memchr", "memrchr", "binary_search", "len", "is_empty", "get", "contains_key", "front", "back", "last", "first")
    coarse = [False]  # second try for functions with too many states: what was found in something that has changed before is not followed, but taken to be outdated

    def changed(v):
        return contains(v, lambda x: x.op == "mut")

    def stale(st, v):
        if coarse[0] and contains(v, lambda x: x.op == "call" and name(x.args[0]) in FOUND and x.args[1] and changed(x.args[1][0])):
            return True
        return any(l[0] == "stale" and contains(v, lambda x: x is l[1]) for l in st.auto)

    def known(st, v, some):
        o = st.facts.get(v)
        return isinstance(o, frozenset) and (o <= {"Some", "Ok"} if some else o <= {"None", "Err"})

    def constant(v):
        return all(x.op in ("c", "k", "agg", "ref", "fn", "call", "cast", "op") for x in subterms(v)) and not any(x.op == "call" and not x.args[1] for x in subterms(v))

    def never_fails(ip, st, x, c):
        """the value x is certainly Some or Ok"""
        x0 = x
        while x.op in ("await",) or x.op == "call" and name(x.args[0]) in ("map_err", "ok", "map", "cloned", "copied", "as_ref", "as_mut", "as_deref", "context", "inspect_err", "inspect", "take", "as_deref_mut") and x.args[1]:
            if known(st, x, True):
                return True
            x = x.args[0] if x.op == "await" else x.args[1][0]
        if known(st, x, True) and not stale(st, x):
            return True
        if x.op == "phi":
            return all(never_fails(ip, st, a, c) for a in x.args[0])
        if x.op == "agg":
            return x.args[1] in ("Some", "Ok")
        if x.op != "call":
            return False
        p, a = x.args[0], x.args[1]
        n = name(p)
        tys = " ".join(str(t) for t in ((c.info or {}).get("a") or []))
        facts = st.facts.items()
        if p.startswith("serde_json::") and n in ("to_value", "to_string", "to_vec", "to_string_pretty"):
            return True  # of the library's own types (none has a map with keys that are not text)
        if n in ("parse", "new", "from_str", "try_from", "from_bytes", "try_into", "build", "body", "from_static", "with_ymd_and_hms", "from_timestamp", "compile", "parse_str") and a:
            if all(constant(y) for y in a):
                return True
            if "HeaderValue" in tys:
                return all(header_safe(ip, st, y) for y in alts(a[0]))
            if n in ("body",) and not any(contains(y, lambda z: z.op == "call" and name(z.args[0]) in ("header", "status", "uri") and not all(constant(q) for q in z.args[1][1:])) for y in a):
                return True
            return False
        if n == "duration_since":
            return contains(a[0], is_now) if len(a) == 2 else False
        if n in ("write_fmt", "write_str", "write_char"):
            return bool(a) and "String" in p + tys or name(p) == "write_fmt" and "fmt::Write" in p
        if n in ("lock", "read", "write", "try_lock", "into_inner") and "std::sync" in p:
            return True
        if n in ("acquire", "acquire_owned") and "Semaphore" in p:
            return not closes
        if n == "send" and a and contains(a[0], lambda y: y.op == "call" and re.search(r"(unbounded_channel|mpsc::channel|oneshot::channel)$", y.args[0]) is not None) and "await" not in show(x0):
            return a[0].op == "fld" and a[0].args[1] == "0" and a[0].args[0].op == "call"
        if n == "serve" and p.startswith("axum"):
            return True
        if n in ("get", "name") and "Captures" in p:
            return len(a) == 2 and lit(a[1]) == 0
        if n in ("next", "next_back", "first", "last", "pop", "pop_front", "pop_back", "front", "back", "first_mut", "last_mut", "max", "min", "split_first", "split_last", "iter") and a:
            s = views(a[0])
            L = lin(st)
            if s.op == "call" and name(s.args[0]) in ("split", "splitn", "rsplit", "rsplitn", "split_terminator"):
                return True  # the first piece is always there
            return L.proves({None: 1}, L.length(s)) and not stale(st, x)
        if n in ("strip_prefix", "strip_suffix", "split_once", "rsplit_once", "find", "rfind") and len(a) == 2:
            want = {"strip_prefix": ("starts_with",), "strip_suffix": ("ends_with",)}.get(n, ("contains", "starts_with", "ends_with"))
            for t, o in facts:
                if o is True and t.op == "call" and name(t.args[0]) in want and base(t.args[1][0]) is base(a[0]) and (t.args[1][1] is a[1] or lit(t.args[1][1]) is not None and lit(t.args[1][1]) == lit(a[1])):
                    return True
            return False
        if n in ("get", "get_mut", "remove", "get_key_value", "swap_remove") and len(a) == 2:
            for t, o in facts:
                if o is True and t.op == "call" and name(t.args[0]) in ("contains_key", "contains") and base(t.args[1][0]) is base(a[0]) and base(t.args[1][1]) is base(a[1]):
                    return True
            if re.search(r"\[T\]|Vec", p):
                L = lin(st)
                return L.proves(L.expr(a[1]), L.length(a[0]), 1)
            return False
        if n in ("checked_add", "checked_sub", "checked_mul"):
            return False
        return False

    def header_safe(ip, st, y):
        """text that is certainly allowed in a header"""
        y = base(y)
        if constant(y):
            return True
        if y.op == "fld" and y.args[1] == "0" and y.args[0].op == "fld" and y.args[0].args[1] == "protocol_version" or y.op == "fld" and y.args[0].op == "dc" and y.args[0].args[0].op == "fld" and y.args[0].args[0].args[1] == "protocol_version":
            return True  # the version of the session or of the server's own answer: one of the supported versions (C07)
        for z in subterms(y):
            if z.op == "call" and name(z.args[0]) == "to_str" and known(st, z, True):
                return plainly(y, lambda q: q is z)
        if plainly(y, lambda q: q.op == "call" and name(q.args[0]) in ("to_str",)):
            return True
        if plainly(y, lambda q: q.op == "call" and name(q.args[0]) in ("to_string", "fmt") and contains(q, lambda r: r.op == "call" and "Uuid" in r.args[0] or "Uuid" in r.args[0] if r.op == "call" else False)):
            return True
        if contains(y, lambda q: q.op == "call" and ("Uuid" in q.args[0] or name(q.args[0]) in ("new_v4", "session_id_generator"))):
            return True
        if contains(y, lambda q: q.op == "fld" and q.args[1] == "session_id_generator"):
            return True  # configured by the application
        return False

    def tame(v):
        """a number that no peer chooses: made of constants, sizes, clocks, counts, the object's own fields and what the application passes"""
        todo, done = [v], set()
        while todo:
            v = todo.pop()
            if v in done or v.op in ("c", "k", "fn"):
                continue
            done.add(v)
            if v.op == "in":
                if not loose[0] and not (v.args[0] == "self" or v.args[0] == "arg1" and own[0] or str(v.args[0]).endswith(".self")):
                    return False
            elif v.op == "fld" and v.args[0].op == "in" and v.args[0].args[0] == "arg1" and not own[0]:
                if not loose[0] and v.args[1] != "self":  # what an async function or a closure was given
                    return False
            elif v.op == "phi":
                todo += v.args[0]
            elif v.op in ("cast", "await", "dc", "fld"):
                todo.append(v.args[0])
            elif v.op == "un":
                todo.append(v.args[1])
            elif v.op == "mut":
                todo.append(v.args[0])
                todo += [y for e in v.args[1] for y in (e if isinstance(e, tuple) else (e,)) if hasattr(y, "op")]
            elif v.op == "op":
                todo += v.args[1:]
            elif v.op == "agg":
                todo += v.args[3]
            elif v.op == "call":
                n = name(v.args[0])
                if n in SIZES:
                    continue
                if SOURCES.match(n) or v.args[0] in F.bodies and F.bodies[v.args[0]]["kind"] == "fn":
                    return False
                todo += [a for a in v.args[1] if hasattr(a, "op")]
            else:
                return False
        return True

    def small(st, v):
        n = lit(v)
        return isinstance(n, int) and not isinstance(n, bool) and 0 <= n <= 1 << 20

    def ends(r):
        if r.op == "agg" and "Range" in str(r.args[0]):
            return r.args[0], dict(zip(r.args[2], r.args[3]))
        if r.op == "call" and name(r.args[0]) == "new" and "RangeInclusive" in r.args[0]:
            return "RangeInclusive", dict(start=r.args[1][0], end=r.args[1][1])
        return None, None

    def within(st, S, r, allow=0):
        """index or range r lies within S (allow=1: the end itself may be used)"""
        L = lin(st)
        if stale(st, r):
            return False
        n = L.length(S)
        kind, e = ends(r)
        if kind is None:
            return all(L.proves(L.expr(a), n, 1 - allow) for a in alts(r))
        if "RangeFull" in kind:
            return True
        for a in alts(e.get("start", mk("c", "0", 0))):
            lo = L.expr(a)
            for b in alts(e["end"]) if "end" in e else (None,):
                hi = n if b is None else L.expr(b)
                if "Inclusive" in kind:
                    hi = dict(hi)
                    hi[None] = hi.get(None, 0) + 1
                if not (L.proves(lo, hi) and L.proves(hi, n)):
                    return False
        return True

    class R(Rule):
        init = frozenset()
        closures = 2

        def __init__(self, out):
            self.ctx = out

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if not c.args:
                return
            if n in FOUND:
                x = res if res is not None else mk("call", path_of(c), tuple(ip.snap(st, a) for a in c.args), c.site)
                v = x.args[1][0] if x.op == "call" and x.args[1] else ip.snap(st, c.args[0])
                if coarse[0] and changed(v):
                    return
                st.auto = st.auto - {("stale", x)} | {("found", x, root(v))}
            elif n in CHANGES or n in ("remove", "pop_front", "pop_back", "swap_remove"):
                S = root(ip.snap(st, c.args[0]))
                for l in [l for l in st.auto if l[0] == "found" and l[2] is S]:
                    st.auto = st.auto - {l} | {("stale", l[1])}

        def say(self, ok, rule, fr, line, key, msg, block, vague=False):
            # what has grown beyond what is tracked (late iterations of a loop) is judged by the earlier iterations
            self.ctx.at = (fr.key, block, "vague" if vague and not ok else "plain")
            self.ctx.test(ok, rule, (fr.key, key), f"{root_fn(fr.key)}:{key}", where(fr, line), msg, backtrace(fr, line))

        def on_assert(self, ip, st, fr, t):
            b = fr.body
            if b["kind"] not in ("fn", "closure", "coroutine") or b.get("derived") or foreign(t.get("mac")) or b["file"].startswith(SKIP):
                return
            m = t["m"]
            blk = next(i for i, x in enumerate(b["blocks"]) if x and x["t"] is t)
            ops = [ip.snap(st, ip.operand(st, fr, o)) for o in t.get("ops", [])]
            if m == "bounds":
                L = lin(st)
                ok = L.proves(L.expr(ops[1]), L.expr(ops[0]), 1)
                self.say(ok, "index", fr, t["l"], f"{show(ops[1])[:40]}", f"the index `{show(ops[1])[:80]}` is not known to lie within a sequence of length `{show(ops[0])[:80]}`", blk)
            elif m in ("div0", "rem0"):
                c = ip.snap(st, ip.operand(st, fr, t["c"]))
                d = next((x for x in c.args[1:] if lit(x) != 0), None) if c.op == "op" and c.args[0] == "Eq" else None
                ok = d is None and lit(c) is False or d is not None and (lit(d) not in (None, 0) or lin(st).proves({None: 1}, lin(st).expr(d)) or tame(d))
                self.say(ok, "number", fr, t["l"], "div", f"division by `{show(d) if d is not None else show(c)}`, which is not known to be other than zero", blk)
            elif m.startswith("ovf:"):
                op = m[4:]
                L = lin(st)
                if op == "Sub":
                    ok = L.proves(L.expr(ops[1]), L.expr(ops[0])) or all(tame(x) for x in ops) and signed(b, t)
                elif op in ("Add", "Mul"):
                    ok = any(small(st, x) for x in ops) and op == "Add" or all(tame(x) or sized(st, L, x) for x in ops)
                elif op in ("Shl", "Shr"):
                    ok = isinstance(lit(ops[-1]), int)
                else:
                    ok = all(tame(x) for x in ops)
                self.say(ok, "number", fr, t["l"], f"{op}", f"`{op}` of `{', '.join(show(x)[:60] for x in ops)}` can overflow", blk, any(contains(x, lambda y: y is TOP) for x in ops))

        def on_call(self, ip, st, c):
            fr = c.frame
            b = fr.body
            if b["kind"] not in ("fn", "closure", "coroutine") or b.get("derived") or foreign(c.mac) or b["file"].startswith(SKIP):
                return
            tys = (c.info or {}).get("a") or []
            k = kind_of(c.path, tys)
            if not k:
                return
            a = [ip.snap(st, x) for x in c.args]
            n = name(c.path)
            vague = any(contains(x, lambda y: y is TOP or k in ("at", "upto", "range", "index") and y.op == "phi") for x in a[:1]) or any(contains(x, lambda y: y is TOP) for x in a)
            say = lambda ok, rule, key, msg: self.say(ok, rule, fr, c.line, key, msg, c.block, vague)
            if k == "panic":
                absurd = any(isinstance(o, frozenset) and o <= {"None"} and t.op == "call" and name(t.args[0]) in ("next", "next_back", "first", "last", "pop", "pop_front", "pop_back", "front", "back", "split_first", "split_last") and never_fails(ip, st, t, c) for t, o in st.facts.items())
                say(absurd, "panic", f"panic:{lit(a[0]) if a and isinstance(lit(a[0]), str) else ''}"[:60], f"an explicit panic can be reached")
            elif k == "value":
                x = a[0]
                ok = known(st, x, False) if n.endswith("_err") else never_fails(ip, st, x, c)
                say(ok, "value", f"{n}:{show(x)[:60]}", f"{n} of `{show(x)[:120]}`, which is not known to be {'an error' if n.endswith('_err') else 'there'}")
            elif k == "index":
                if tys and re.match(r"&*(mut )?(str|std::string::String)$", tys[0]):
                    say(True, "index", "text", "")  # judged by C42
                elif tys and "Captures" in tys[0]:
                    say(isinstance(lit(a[1]), int), "index", "captures", "a group that the expression may not have")
                elif tys and "Value" in tys[0]:
                    ok = n == "index" and not isinstance(lit(a[1]), int) or n == "index"
                    say(ok or is_adt(base(a[0]), "Value") or any(o is True and t.op == "call" and name(t.args[0]) == "is_object" for t, o in st.facts.items()), "index", "json", "a member is set in a JSON value that may not be an object")
                elif tys and re.search(r"Map<", tys[0]):
                    ok = any(o is True and t.op == "call" and name(t.args[0]) == "contains_key" and base(t.args[1][0]) is base(a[0]) and base(t.args[1][1]) is base(a[1]) for t, o in st.facts.items())
                    say(ok, "index", f"{show(a[1])[:40]}", f"the key `{show(a[1])[:80]}` is not known to be in the table")
                else:
                    say(within(st, a[0], a[1]), "index", f"{show(a[1])[:40]}", f"`{show(a[1])[:80]}` is not known to lie within `{show(a[0])[:80]}`")
            elif k in ("at", "upto", "range"):
                if re.search(r"str|String", c.path) and n != "insert":
                    say(True, "index", "text", "")
                else:
                    for i in a[1:3] if n == "swap" else a[1:2]:
                        say(within(st, a[0], i, 1 if k == "upto" else 0), "index", f"{n}:{show(i)[:40]}", f"{n} at `{show(i)[:80]}`, which is not known to lie within `{show(a[0])[:80]}`")
            elif k == "size":
                n1 = a[0] if n in ("with_capacity",) or len(a) < 2 else a[1]
                L = lin(st)
                say(capped(n1) or any(isinstance(o, bool) and t.op == "op" and t.args[0] in ("Lt", "Le", "Gt", "Ge") and any(contains(y, lambda z: z is n1) for y in t.args[1:]) for t, o in st.facts.items()) or sized(st, L, n1), "number", n, f"room is made for `{show(n1)[:80]}` elements, a number that a peer may choose and nothing limits")
            elif k == "same":
                L = lin(st)
                x, y = L.length(a[0]), L.length(a[1])
                say(L.proves(x, y) and L.proves(y, x), "index", n, "the two slices are not known to have the same length")
            elif k == "positive":
                L = lin(st)
                say(L.proves({None: 1}, L.expr(a[1])) or tame(a[1]), "number", n, f"{n} with `{show(a[1])[:80]}`, which may be zero")
            elif k in ("number", "time"):
                bad = [x for x in a if not tame(x)]
                say(not bad, "number", n, f"{n} of `{show(bad[0])[:100] if bad else ''}`, which a peer may choose")

    def capped(v):
        v = base(v)
        if v.op == "call" and name(v.args[0]) == "min" and len(v.args[1]) == 2:
            return any(capped(x) for x in v.args[1])
        if v.op == "call" and name(v.args[0]) == "clamp":
            return tame(v.args[1][2])
        if v.op == "phi":
            return all(capped(x) for x in v.args[0])
        if v.op == "op" and v.args[0] == "Rem":
            return tame(v.args[2])
        if v.op == "op" and v.args[0] == "BitAnd":
            return any(capped(x) for x in v.args[1:])
        if v.op == "op" and v.args[0] in ("Div", "Shr", "Sub", "SubWithOverflow"):
            return capped(v.args[1])
        return tame(v)

    def signed(b, t):
        return False

    def sized(st, L, x):
        """bounded by the size of something in memory"""
        for s in subterms(x):
            if s.op == "call" and name(s.args[0]) == "len" and L.proves(L.expr(x), L.length(s.args[1][0])):
                return True
        e = L.expr(x)
        return any(t is not None and t.op == "call" and t.args[0] == "len" and L.proves(e, {t: 1}) for t in list(L.seen))

    def root(v):
        v = base(v)
        while v.op == "mut":
            v = base(v.args[0])
        return v

    class Buf:
        def __init__(self):
            self.got = []
            self.at = None

        def test(self, ok, rule, site, key, w, *rest):
            self.got.append((self.at, (True, (rule, site, w)) if ok else (False, (rule, site, key, w) + rest)))

        def of(self, k):
            plain = {at for at, g in self.got if at[2] == "plain"}
            return [g for at, g in self.got if at[0] == k and (at[2] == "plain" or at[:2] + ("plain",) not in plain)]

    memo = {}

    def run(k, depths):
        for d, rough in [(d, r) for r in (False, True) for d in depths]:
            if (k, d, rough) in memo:
                if memo[k, d, rough] is None:
                    continue
                return memo[k, d, rough]
            buf = Buf()
            loose[0] = bool(F.bodies.get(root_fn(k), {}).get("reach"))
            own[0] = ["self", [1]] in F.bodies[k].get("dbg", [])
            coarse[0] = rough
            x = R(buf)
            x.max_depth = d
            ip = Interp(F, x, max_steps=BUDGET)
            try:
                ip.run(k, [mk("in", f"arg{i}") for i in range(1, F.bodies[k]["args"] + 1)])
            except (Budget, RecursionError):
                memo[k, d, rough] = None
                continue
            finally:
                coarse[0] = False
            ctx.ran(ip, k)
            buf.visited = set(ip.visited_fns)
            memo[k, d, rough] = buf
            return buf
        return None

    callers = {}
    for k, b in F.bodies.items():
        for blk in b.get("blocks", []):
            t = blk and blk["t"]
            if t and t.get("k") == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k":
                for m in ("fn", "res", "r"):
                    if t["f"][1].get(m):
                        callers.setdefault(t["f"][1][m], set()).add(k)
    todo = sites(F)

    def judge(k):
        """the results for the sites in k: by itself, or else, if only this crate calls it, from all its callers"""
        buf = run(k, (2, 1, 0))
        got = buf.of(k) if buf is not None else None
        if got is not None and all(g[0] for g in got):
            return got
        alt = from_callers(k, root_fn(k), 2)
        return got if alt is None else alt or [(True, ("panic", (k, "from the callers"), F.bodies[k]["file"]))]

    def from_callers(k, r, up):
        """what the callers of r make of the sites in k; None unless all of it is good"""
        ups = sorted(c for c in callers.get(r, ()) if c in F.bodies)
        if r not in F.bodies or F.bodies[r].get("reach") or not up or not ups:
            return None
        alt = []
        for c in ups:
            u = run(c, (4, 3, 2))
            here = u.of(k) if u is not None and (r in u.visited or k in u.visited) else None
            if here is None or not all(g[0] for g in here):
                here = from_callers(k, root_fn(c), up - 1)
                if here is None:
                    return None
            alt += here
        return alt

    for k, what in sorted(todo.items()):
        got = judge(k)
        if got is None:
            for i, m in sorted(what, key=str):
                ctx.bad("panic", (k, i), f"unseen:{root_fn(k)}:{m}", F.bodies[k]["file"], f"an operation that may panic ({m}) in {k} could not be analysed")
            continue
        for good, a in got:
            (ctx.ok if good else ctx.bad)(*a)
    ctx.floor("value", 10)
    ctx.floor("index", 8)
    ctx.floor("number", 8)


CHECKS = {"C23": c23}
