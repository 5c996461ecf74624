"""C42 text"""
from lib import *
from rules.util import name
from interp import Budget, Interp, Rule

STRS = re.compile(r"^&*(mut )?(str|std::string::String|std::borrow::Cow<'_, str>|std::sync::Arc<str>|std::boxed::Box<str>)$")
CUT = {"split_at": 1, "split_at_mut": 1, "drain": 1, "truncate": 1, "split_off": 1, "insert": 1, "insert_str": 1, "remove": 1, "replace_range": 1, "get_unchecked": 1, "slice_unchecked": 1}
CHANGES = {"push", "push_str", "drain", "truncate", "split_off", "insert", "insert_str", "remove", "replace_range", "clear", "pop", "retain", "extend", "take", "replace", "append"}
VIEWS = {"deref", "as_str", "clone", "as_ref", "borrow", "to_string", "to_owned", "into", "as_mut", "deref_mut", "as_bytes", "bytes", "iter", "into_bytes", "as_slice", "chars", "into_iter", "copied", "cloned", "from"}
DECODE = ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked", "from_utf8_mut", "from_utf8_lossy_owned")
PARTS = ("frame", "data_ref", "read", "read_buf", "fill_buf", "chunk", "poll_frame", "poll_next", "bytes_stream", "into_data", "try_next", "read_until")


def base(v):
    while True:
        if v.op == "await":
            v = v.args[0]
        elif v.op == "call" and name(v.args[0]) in VIEWS and len(v.args[1]) == 1:
            v = v.args[1][0]
        else:
            return v


def width(p):
    """bytes of a constant char or str pattern"""
    l = lit(p)
    if isinstance(l, bool) or l is None:
        return None
    if isinstance(l, int):
        return len(chr(l).encode()) if l < 0x110000 and not 0xD800 <= l < 0xE000 else None
    if isinstance(l, str):
        return len(l.encode())
    return None


def str_fn(path):
    return re.search(r"\bstr\b|String", path) is not None


def is_site(t, info, path):
    """what kind of text operation a call is: "cut" | "chars" | "byte" | "decode" | None"""
    n = name(path)
    a = info.get("a") or []
    if path in ("std::ops::Index::index", "std::ops::IndexMut::index_mut") and len(a) > 1:
        return "cut" if STRS.match(a[0]) and "Range" in a[1] and "RangeFull" not in a[1] else None
    if n in CUT and re.search(r"(str::<impl str>|core::str|std::str|String)::" + n + "$", path):
        return "cut"
    if n in ("nth", "skip", "take", "step_by", "advance_by") and path.startswith("std::iter::Iterator") and a and re.search(r"std::str::(Chars|CharIndices)\b", a[0]) and not re.search(r"std::iter::(Take|Skip)", a[0]):
        return "chars"
    if path == "std::convert::From::from" and a[:2] == ["char", "u8"]:
        return "byte"
    if n in DECODE and re.search(r"(str|String)(::\w+)*::" + n + "$", path):
        return "decode"
    return None


def sites(F):
    out = {}
    for k, b in F.bodies.items():
        if b["kind"] not in ("fn", "closure", "coroutine") or b.get("derived"):
            continue
        for blk in b.get("blocks", []):
            if not blk:
                continue
            for s in blk["s"]:
                if s and s[0] == "=" and isinstance(s[2], list) and s[2][:2] == ["cast", "IntToInt"] and s[2][3] == "char":
                    out.setdefault(k, set()).add("cast")
            t = blk["t"]
            if t.get("k") == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k" and "fn" in t["f"][1]:
                i = t["f"][1]
                x = is_site(t, i, i["fn"])
                if x:
                    out.setdefault(k, set()).add(x + f":{t['l']}")
    return out


def c42(ctx):
    F = ctx.F
    ctx.rule("cut", "a text is cut only where a character begins or ends: at an end of the text, at or after a match found in that very text, or at an offset known to be in ASCII")
    ctx.rule("chars", "a number of bytes is never used to count characters")
    ctx.rule("byte", "a single byte becomes a character only if it is known to be ASCII")
    ctx.rule("decode", "received bytes are decoded only once complete, or up to the end of a line")
    ctx.rule("whole", "the fast JSON parser is given exactly the input; the fast printer writes every byte of the serialized text once, and otherwise adds whitespace only")
    seen = set()
    OUT = ctx

    def ascii_pred(cl):
        """the closure is true for ASCII bytes or characters only"""
        if cl.op == "c":
            return width(cl) is not None
        if cl.op != "agg" or cl.args[0] != "closure" or cl.args[1] not in F.bodies:
            return False
        ok = []

        class P(Rule):
            def on_return(self, ip, st, v):
                for a in alts(v):
                    if lit(a) is False:
                        continue
                    e = a.op == "op" and a.args[0] == "Eq" and any(isinstance(lit(x), int) and lit(x) < 128 for x in a.args[1:])
                    e = e or lit(a) is True and any(isinstance(o, int) and not isinstance(o, bool) and o < 128 for o in st.facts.values()) or a.op == "call" and "is_ascii_" in a.args[0]
                    e = e or lit(a) is True and any(t.op == "op" and t.args[0] == "Eq" and o is True and any(isinstance(lit(x), int) and lit(x) < 128 for x in t.args[1:]) for t, o in st.facts.items())
                    ok.append(e)

        b = F.bodies[cl.args[1]]
        Interp(F, P()).run(cl.args[1], [cl] + [mk("in", f"b{i}") for i in range(b["args"] - 1)])
        return bool(ok) and all(ok)

    def root(v):
        v = base(v)
        while v.op == "mut":
            v = base(v.args[0])
        return v

    def fresh(st, x):
        """the text has not been changed since the call x"""
        return not any(l[0] == "stale" and l[1] is x for l in st.auto)

    def part_of(S, X):
        """S is a part of the text X"""
        for _ in range(12):
            if S is X:
                return True
            if S.op in ("idx", "fld", "dc", "mut"):
                S = S.args[0]
            elif S.op == "call" and S.args[1] and (name(S.args[0]) in VIEWS or name(S.args[0]) in ("index", "get", "split", "rsplit", "splitn", "rsplitn", "split_once", "rsplit_once", "collect", "next", "next_back", "nth", "last", "first", "trim", "trim_start", "trim_end", "strip_prefix", "strip_suffix", "split_whitespace", "lines", "split_terminator", "skip", "trim_start_matches", "trim_end_matches", "ok_or", "ok_or_else", "unwrap", "expect")):
                S = base(S.args[1][0])
            else:
                return False
        return False

    def found(st, i, S):
        """(the offset i is where something was found in S, bytes of what was found or None)"""
        x = okof(i)
        if x is not None and x.op == "call":
            n = name(x.args[0])
            if n in ("find", "rfind") and str_fn(x.args[0]) and base(x.args[1][0]) is S and fresh(st, x):
                w = width(x.args[1][1])
                return True, w if w is not None else (1 if ascii_pred(x.args[1][1]) else None)
            if n in ("position", "rposition", "memchr", "memrchr") and any(base(y) is S for y in x.args[1]) and fresh(st, x):
                p = next((y for y in x.args[1] if base(y) is not S), None)
                if p is not None and ascii_pred(p):
                    return True, 1
        return False, None

    def fact(st, fn, S, want=True):
        """second arguments of the calls fn(S, ..) known to be true"""
        for t, o in st.facts.items():
            if o is want and t.op == "call" and name(t.args[0]) == fn and base(t.args[1][0]) is S:
                yield t

    def atleast(st, S, k):
        for t, o in st.facts.items():
            f = t if t.op == "op" else None
            if f is None or not isinstance(o, bool):
                continue
            op, a, b = f.args[0], f.args[1], f.args[2]
            ln = lambda v: v.op == "call" and name(v.args[0]) == "len" and base(v.args[1][0]) is S
            if ln(a) and isinstance(lit(b), int):
                n = lit(b)
                if (op, o) in (("Eq", True), ("Ge", True), ("Lt", False), ("Ne", False)) and n >= k or (op, o) in (("Gt", True), ("Le", False)) and n + 1 >= k:
                    return True
            if ln(b) and isinstance(lit(a), int):
                n = lit(a)
                if (op, o) in (("Eq", True), ("Le", True), ("Gt", False), ("Ne", False)) and n >= k or (op, o) in (("Lt", True), ("Ge", False)) and n + 1 >= k:
                    return True
        return False

    def edge(ip, st, S, i, d=0):
        """a character of S begins (or S ends) at byte i"""
        if d > 6:
            return False
        if i.op == "phi":
            return all(edge(ip, st, S, x, d + 1) for x in i.args[0])
        if i.op == "cast":
            return edge(ip, st, S, i.args[0], d + 1)
        if lit(i) == 0:
            return True
        if i.op == "call" and name(i.args[0]) == "len" and base(i.args[1][0]) is S:
            return True
        if found(st, i, S)[0]:
            return True
        if any(t.args[1][1] is i for t in fact(st, "is_char_boundary", S)):
            return True
        if i.op == "call" and name(i.args[0]) in ("start", "end", "floor_char_boundary", "ceil_char_boundary"):
            return any(x.op == "call" and name(x.args[0]) in ("find", "find_at", "find_iter", "captures", "captures_iter", "captures_at", "floor_char_boundary", "ceil_char_boundary") and any(base(y) is S for y in x.args[1]) for x in subterms(i))
        if i.op == "fld" and i.args[1] == "0":
            x = okof(i.args[0])
            if x is not None and x.op == "call" and name(x.args[0]) in ("next", "next_back", "last", "nth", "find") and contains(x, lambda y: y.op == "call" and name(y.args[0]) in ("char_indices", "match_indices", "rmatch_indices") and base(y.args[1][0]) is S):
                return True
        if i.op == "op" and i.args[0] == "Add":
            for a, b in (i.args[1:3], i.args[2:0:-1]):
                ok, w = found(st, a, S)
                if ok and w is not None and (lit(b) == w or b.op == "call" and name(b.args[0]) in ("len", "len_utf8") and b.args[1] and pattern_is(a, b.args[1][0])):
                    return True
                if ok and b.op == "call" and name(b.args[0]) in ("len", "len_utf8") and pattern_is(a, b.args[1][0]):
                    return True
                if b.op == "call" and name(b.args[0]) == "len_utf8" and a.op == "fld" and a.args[1] == "0" and edge(ip, st, S, a, d + 1):
                    c = b.args[1][0]
                    if c.op == "fld" and c.args[1] == "1" and c.args[0] is a.args[0]:
                        return True
                # an offset into the rest of S that begins at a
                x = okof(b)
                if x is not None and x.op == "call" and x.args[1]:
                    r = base(x.args[1][0])
                    if r.op == "call" and name(r.args[0]) == "index" and base(r.args[1][0]) is S and is_adt(r.args[1][1], "RangeFrom") and r.args[1][1].args[3][0] is a and found(st, b, r)[0]:
                        return True
        if i.op == "op" and i.args[0] == "Sub" and isinstance(lit(i.args[2]), int):
            k = lit(i.args[2])
            if i.args[1].op == "call" and name(i.args[1].args[0]) == "len" and base(i.args[1].args[1][0]) is S:
                if any(width(t.args[1][1]) == k for t in fact(st, "ends_with", S)):
                    return True
            for t, o in st.facts.items():
                if k == 1 and o is True and t.op == "op" and t.args[0] == "Eq":
                    for a, b in (t.args[1:3], t.args[2:0:-1]):
                        if a.op == "idx" and a.args[1] is i and base(a.args[0]) is S and isinstance(lit(b), int) and lit(b) < 128 and edge(ip, st, S, i.args[1], d + 1):
                            return True
        k = lit(i)
        if isinstance(k, int):
            if any(width(t.args[1][1]) == k for t in fact(st, "starts_with", S)):
                return True
            if atleast(st, S, k) and any(o is True and t.op == "call" and name(t.args[0]) == "is_ascii" and part_of(S, base(t.args[1][0])) for t, o in st.facts.items()):
                return True
            for t, o in st.facts.items():
                x = okof(t)
                if isinstance(o, int) and not isinstance(o, bool) and x is not None and x.op == "call" and name(x.args[0]) == "next" and base(x.args[1][0]) is S and contains(x, lambda y: y.op == "call" and name(y.args[0]) == "chars") and len(chr(o).encode()) == k:
                    return True
        return False

    def pattern_is(a, p):
        x = okof(a)
        return x is not None and base(x.args[1][1]) is base(p)

    def ends(r):
        """the offsets a range, or an index, cuts at: (offset, inclusive)"""
        if r.op == "agg" and "Range" in str(r.args[0]):
            inc = "Inclusive" in r.args[0]
            return [(x, inc and f == "end") for f, x in zip(r.args[2], r.args[3]) if f in ("start", "end")]
        if r.op == "call" and name(r.args[0]) == "new" and "RangeInclusive" in r.args[0]:
            return [(r.args[1][0], False), (r.args[1][1], True)]
        return [(r, False)]

    class R(Labels):
        max_depth = 1

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if not (c.args and self.track):
                return
            if n in ("find", "rfind", "position", "rposition", "memchr", "memrchr"):
                x = res if res is not None else mk("call", path_of(c), tuple(ip.snap(st, a) for a in c.args), c.site)
                self.add(st, "found", x, root(x.args[1][0]))
                st.auto = st.auto - {("stale", x)}
            elif n in CHANGES:
                S = root(ip.snap(st, c.args[0]))
                for l in self.sets(st, "found"):
                    if l[2] is S:
                        st.auto = st.auto - {l} | {("stale", l[1])}

        def on_call(self, ip, st, c):
            fr = c.frame
            if fr.body["kind"] not in ("fn", "closure", "coroutine"):
                return
            kind = is_site(None, c.info or {}, c.path)
            if not kind:
                return
            seen.add((fr.key, f"{kind}:{c.line}"))
            w, tr = where(fr, c.line), backtrace(fr, c.line)
            a = [ip.snap(st, x) for x in c.args]
            site = (fr.key, c.line)
            if kind == "cut":
                S = base(a[0])
                for i, inc in ends(a[1]):
                    if inc:
                        ok, wd = found(st, i, S)
                        ok = ok and wd == 1
                    else:
                        ok = edge(ip, st, S, i)
                    self.ctx.test(ok, "cut", site, f"{root_fn(fr.key)}:{show(i)[:40]}", w, f"`{show(S)[:60]}` is cut at `{show(i)[:100]}`, which is not known to be the edge of a character in it", tr)
            elif kind == "chars":
                bad = contains(a[1], lambda x: x.op == "call" and name(x.args[0]) in ("len", "find", "rfind") and str_fn(x.args[0])) if len(a) > 1 else False
                self.ctx.test(not bad, "chars", site, f"{root_fn(fr.key)}:{tail(c)}", w, f"`{show(a[1])[:100]}` counts bytes, but is used to count characters", tr)
            elif kind == "byte":
                self.byte(ip, st, a[0], fr, c.line)
            elif kind == "decode":
                self.decode(ip, st, c, a[0], site, w, tr)

        def on_cast(self, ip, st, v, old, new, fr):
            if new == "char" and old == "u8" and fr.body["kind"] in ("fn", "closure", "coroutine"):
                seen.add((fr.key, "cast"))
                self.byte(ip, st, v, fr, None)

        def byte(self, ip, st, v, fr, line):
            ok = isinstance(lit(v), int) and lit(v) < 128
            o = st.facts.get(v)
            ok = ok or isinstance(o, int) and not isinstance(o, bool) and o < 128
            for t, o in st.facts.items():
                if t.op == "call" and "is_ascii" in name(t.args[0]) and o is True and contains(t, lambda x: x is v):
                    ok = True
                if t.op == "op" and isinstance(o, bool):
                    op, a, b = t.args[:3]
                    n = lit(b)
                    if a is v and isinstance(n, int) and ((op, o) in (("Lt", True), ("Ge", False)) and n <= 128 or (op, o) in (("Le", True), ("Gt", False), ("Eq", True), ("Ne", False)) and n < 128):
                        ok = True
            if v.op == "op" and v.args[0] == "Add" and any(isinstance(lit(x), int) and lit(x) < 123 for x in v.args[1:]) and any(x.op == "op" and x.args[0] in ("Rem", "BitAnd") and isinstance(lit(x.args[2]), int) and lit(x.args[2]) < 27 for x in v.args[1:]):
                ok = True
            self.ctx.test(ok, "byte", (fr.key, show(v)), f"{root_fn(fr.key)}:byte", where(fr, line or fr.body["line"]), f"the byte `{show(v)[:80]}` becomes a character, although it may be part of a longer one")

        def decode(self, ip, st, c, v, site, w, tr):
            if tail(c) == "from_utf8_unchecked":
                self.ctx.bad("decode", site, f"{root_fn(c.frame.key)}:unchecked", w, "bytes become text without having been checked", tr)
                return
            part = [x for x in subterms(v) if x.op == "call" and (name(x.args[0]) in PARTS or name(x.args[0]) == "next" and re.search(r"Stream", x.args[0]))]
            if not part:
                self.ctx.ok("decode", site, w)
                return
            self.ctx.test(self.line_end(v), "decode", site, f"{root_fn(c.frame.key)}:part", w, f"a part of the received bytes (`{show(part[0])[:80]}`) is decoded by itself, although it may end within a character", tr)

        def line_end(self, v):
            """v was cut after the last complete line"""
            idx = []
            for x in subterms(v):
                if x.op == "mut":
                    for cc, a in x.args[1]:
                        if name(cc) in ("split_off", "truncate", "split_to"):
                            idx += a[:1]
                if x.op == "call" and name(x.args[0]) in ("index", "drain", "get", "split_at", "split_to") and len(x.args[1]) > 1:
                    idx += [i for i, _ in ends(x.args[1][1])]

            def ok(i):
                if i.op == "phi":
                    return all(ok(x) for x in i.args[0])
                if lit(i) == 0:
                    return True
                if i.op == "op" and i.args[0] == "Add" and lit(i.args[2]) == 1:
                    return ok(i.args[1])
                if i.op == "call" and name(i.args[0]) == "valid_up_to":
                    return True
                x = okof(i)
                return x is not None and x.op == "call" and name(x.args[0]) in ("rposition", "position", "memchr", "memrchr") and ascii_pred(x.args[1][-1])

            return bool(idx) and all(ok(i) for i in idx)

    todo = sites(F)

    class Buf:
        """obligations of one run, reported later"""

        def __init__(self):
            self.got = []

        def ok(self, *a):
            self.got.append((True, a))

        def bad(self, *a):
            self.got.append((False, a))

        def test(self, ok, rule, site, key, w, *rest):
            self.got.append((True, (rule, site, w)) if ok else (False, (rule, site, key, w) + rest))

        def of(self, k):
            return [g for g in self.got if g[1][1][0] == k]

    def run(k, depth, track):
        for d in (depth, 1, 0):
            buf = Buf()
            x = R(buf)
            x.max_depth = d
            x.track = track
            ip = Interp(F, x, max_steps=60000)
            try:
                ip.run(k, [mk("in", f"arg{i}") for i in range(1, F.bodies[k]["args"] + 1)])
            except RecursionError:
                continue
            except Budget:
                continue
            ctx.ran(ip, k)
            return buf
        return None

    callers = {}
    for k, b in F.bodies.items():
        for blk in b.get("blocks", []):
            t = blk and blk["t"]
            if t and t.get("k") == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k":
                for n in ("fn", "res"):
                    if t["f"][1].get(n):
                        callers.setdefault(t["f"][1][n], set()).add(k)
    for k, what in sorted(todo.items()):
        cuts = any(x.startswith("cut") for x in what)
        buf = run(k, 3, cuts)
        if buf is not None and any(not g[0] for g in buf.of(k)) and not F.bodies[k].get("pub") and F.bodies[k]["kind"] == "fn":
            ups = [run(c, 3, cuts) for c in sorted(callers.get(k, ())) if c in F.bodies]
            if ups and all(u is not None and u.of(k) for u in ups):
                buf.got = [g for u in ups for g in u.of(k)]
        for good, a in buf.of(k) if buf is not None else ():
            (OUT.ok if good else OUT.bad)(*a)
        for x in sorted(what):
            if (k, x) not in seen:
                ctx.bad("cut", (k, x), f"unseen:{root_fn(k)}:{x.split(':')[0]}", F.bodies[k]["file"], f"a text operation ({x}) in {k} could not be analysed")
    ctx.floor("cut", 8)
    ctx.floor("decode", 3)

    # ---- fast JSON
    class W(Labels):
        n = 0

        def on_call(self, ip, st, c):
            if tail(c) in ("from_slice", "from_str", "from_reader") and c.path.startswith("serde_json"):
                self.n += 1
                v = ip.snap(st, c.args[0])
                ctx.test(exactly(v, isin("input")), "whole", ("parse", c.line), "parse", where(c.frame, c.line), f"the JSON parser is given `{show(v)[:100]}` instead of the input", backtrace(c.frame, c.line))

    r = W(ctx)
    run_entry(ctx, r, need1(F, "json_simd::parse_json_fast"))
    if not r.n:
        raise Anchor("serde_json call of parse_json_fast")

    SPACE = (9, 10, 13, 32)

    class Pp(Labels):
        n = 0

        def is_opaque(self, ip, key):
            return key.startswith("pmcp::simd::")

        def at(self, st, ch):
            for t, o in st.facts.items():
                if o == ch and not isinstance(o, bool) and self.is_elem(t):
                    return True
                if o is True and t.op == "op" and t.args[0] == "Eq" and any(lit(x) == ch for x in t.args[1:]) and any(self.is_elem(x) for x in t.args[1:]):
                    return True
            return False

        def is_elem(self, v):
            if v.op == "fld" and v.args[1] == "1":
                v = v.args[0]
            while v.op == "call" and name(v.args[0]) in ("clone", "deref", "copied"):
                v = v.args[1][0]
            x = okof(v)
            return x is not None and x.op == "call" and name(x.args[0]) == "next" and contains(x, lambda y: y.op == "call" and name(y.args[0]) in ("to_vec", "to_string", "to_writer"))

        def on_fact(self, ip, st, t, o, fr, line):
            if self.has(st, "byte") and (self.is_elem(t) or t.op == "op" and t.args[0] == "Eq" and any(self.is_elem(x) for x in t.args[1:])) and any(self.at(st, x) for x in SPACE):
                self.add(st, "blank")
            if isinstance(o, frozenset) and o == {"Some"} and t.op == "call" and name(t.args[0]) == "next" and self.is_elem(mk("fld", mk("dc", t, "Some"), "0", None)):
                self.add(st, "byte")
            if isinstance(o, frozenset) and o == {"None"} and t.op == "call" and name(t.args[0]) == "next":
                self.check(ip, st, fr, line)

        def check(self, ip, st, fr, line):
            if self.has(st, "byte"):
                ctx.test(self.has(st, "put") or self.has(st, "blank"), "whole", ("print", "kept"), "print:dropped", fr.where(line), "the fast printer can leave out a byte of the serialized text")
            st.auto = frozenset(l for l in st.auto if l not in (("byte",), ("put",), ("blank",)))

        def on_call(self, ip, st, c):
            n = tail(c)
            if n in ("take", "repeat_n") and c.args:  # how often does not matter
                v = ip.snap(st, c.args[0])
                if n == "repeat_n" or v.op == "call" and name(v.args[0]) == "repeat" or is_adt(v, "Repeat"):
                    return mk("call", "std::iter::repeat", (v,), c.site) if n == "repeat_n" else v
            if n == "next" and self.is_elem(mk("fld", mk("dc", mk("call", path_of(c), tuple(ip.snap(st, a) for a in c.args), c.site), "Some"), "0", None)):
                self.check(ip, st, c.frame, c.line)
                return
            if c.frame.body["kind"] == "std" or n not in ("push", "push_str", "extend", "extend_from_slice", "insert", "resize", "extend_from_within", "append") or not c.args:
                return
            a = (c.info or {}).get("a") or [""]
            if not re.search(r"\bu8\b|String|str\b|char\b", a[0] if n != "push_str" else "str"):
                return
            self.n += 1
            w = where(c.frame, c.line)
            v = ip.snap(st, c.args[2 if n in ("resize", "insert") and len(c.args) > 2 else 1])
            if self.is_elem(v):
                ctx.test(not self.has(st, "put"), "whole", ("print", "once"), "print:twice", w, "the fast printer can write a byte twice")
                self.add(st, "put")
                return
            txt = lit(v)
            if isinstance(txt, str):
                if txt.startswith(("b'", 'b"')):
                    import ast

                    txt = ast.literal_eval(txt).decode("latin-1")
                cs = [ord(x) for x in txt]
            elif isinstance(txt, int):
                cs = [txt]
            elif contains(v, lambda x: x.op == "call" and name(x.args[0]) in ("repeat", "take", "repeat_n")):
                ls = [lit(x.args[1][0]) for x in subterms(v) if x.op == "call" and name(x.args[0]) in ("repeat", "repeat_n")]
                cs = [ord(y) if isinstance(y, str) else y for x in ls for y in (x if isinstance(x, str) else [x])]
                cs = cs if cs and all(isinstance(y, int) for y in cs) else None
            else:
                cs = None
            ctx.test(cs is not None, "whole", ("print", "what"), "print:what", w, f"the fast printer writes `{show(v)[:100]}`, which is neither a byte of the serialized text nor whitespace")
            for ch in cs or ():
                if ch in SPACE:
                    continue
                ctx.test(self.at(st, ch) and not self.has(st, "put"), "whole", ("print", "const", ch), f"print:{ch}", w, f"the fast printer writes {chr(ch)!r} where the serialized text has none")
                self.add(st, "put")

    r = Pp(ctx)
    run_entry(ctx, r, need1(F, "json_simd::pretty_print_fast"))
    if r.n:
        ctx.floor("whole", 4)


CHECKS = {"C42": c42}
