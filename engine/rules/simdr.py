"""C36 unsafe code: confined, reached only after detection, memory accessed within bounds"""
from lib import *
from linr import Lin, add
from rules.textr import base
from interp import Budget, Interp, Rule

name = lambda p: p.rsplit("::", 1)[-1]
WIDE = re.compile(r"_mm(\d*)_(mask_|maskz_)?(lddqu|loadu?|storeu?|stream_load|stream)(_(si|pd|ps|epi)\w*)?$|_mm(\d*)_(loadu?|storeu?|lddqu)_")
IMPLIES = {
    "sse2": ["sse"], "sse3": ["sse2"], "ssse3": ["sse3"], "sse4.1": ["ssse3"], "sse4.2": ["sse4.1"], "avx": ["sse4.2"], "avx2": ["avx"], "fma": ["avx"], "f16c": ["avx"],
    "avx512f": ["avx2", "fma", "f16c"], "avx512bw": ["avx512f"], "avx512vl": ["avx512f"], "avx512dq": ["avx512f"], "avx512cd": ["avx512f"], "popcnt": [], "bmi1": [], "bmi2": [], "lzcnt": [], "aes": ["sse2"], "pclmulqdq": ["sse2"], "sha": ["sse2"], "gfni": ["sse2"],
}
BASE = {"sse", "sse2", "fxsr", "x87"}  # what every x86-64 has
SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "std::arch::x86_64::__m128i": 16, "std::arch::x86_64::__m256i": 32, "std::arch::x86_64::__m512i": 64}


def close(fs):
    out, todo = set(), list(fs)
    while todo:
        f = todo.pop()
        if f not in out:
            out.add(f)
            todo += IMPLIES.get(f, [])
    return out


def needs(F, c):
    """the CPU features that the called function is compiled for"""
    b = F.bodies.get(c.path) or F.bodies.get(c.res or "")
    if b is not None:
        return set(b.get("tf") or ())
    n = name(c.path)
    m = re.match(r"_mm(256|512)?_", n)
    if m and "arch::x86" in c.path:
        w = m.group(1)
        return {"avx512f"} if w == "512" or re.search(r"_mask", n) else {"avx2"} if w == "256" else set()
    if n.startswith(("_pext", "_pdep", "_bzhi")):
        return {"bmi2"}
    return set((c.info or {}).get("tf") or ())


def conj(t):
    """what holds when the term holds"""
    if t.op == "op" and t.args[0] in ("BitAnd", "And"):
        return conj(t.args[1]) + conj(t.args[2])
    return [t]


def c36(ctx):
    F = ctx.F
    ctx.rule("confined", "unsafe operations are performed only in the SIMD modules")
    ctx.rule("guard", "a routine that needs a CPU feature is called only from one that needs it too, or after that feature was detected on that path")
    ctx.rule("wide", "a wide load or store touches only memory that lies within the slice or array its address was taken from")
    ctx.rule("unchecked", "an unchecked operation is applied only to what is known to be there, in bounds, or valid")
    ok_files = ("src/simd/", "src/utils/json_simd.rs")
    mods = set()
    for k, b in F.bodies.items():
        if b["kind"] not in ("fn", "closure", "coroutine"):
            continue
        for i, blk in enumerate(b.get("blocks", [])):
            t = blk and blk["t"]
            if not t or t.get("k") != "call" or t["f"][0] != "k" or t.get("mac"):
                continue
            info = t["f"][1]
            if not info.get("unsafe") or "fn" not in info:
                continue
            if b["file"].startswith(ok_files):
                mods.add(k)
                ctx.ok("confined", k, f"{b['file']}:{t['l']}")
            else:
                ctx.bad("confined", (k, i), f"{root_fn(k)}:{name(info['fn'])}", f"{b['file']}:{t['l']} in {k}", f"an unsafe operation ({name(info['fn'])}) outside the SIMD modules")
        if b.get("unsafe") and not b["file"].startswith(ok_files):
            ctx.bad("confined", k, f"fn:{k}", f"{b['file']}:{b['line']}", "an unsafe function outside the SIMD modules")

    def views(v):
        v = base(v)
        while v.op == "mut":
            v = base(v.args[0])
        return v

    class R(Rule):
        init = frozenset()
        max_depth = 3
        closures = 2
        counters = True

        def __init__(self, out):
            self.ctx = out
            self.elt = {}

        def say(self, ok, rule, fr, line, key, msg, block, vague=False):
            self.ctx.got.append(((fr.key, block, rule), vague and not ok, ok, (rule, (fr.key, block), f"{root_fn(fr.key)}:{key}", where(fr, line), msg, backtrace(fr, line))))

        def on_enter(self, ip, st, fr):
            pass

        def on_call(self, ip, st, c):
            fr = c.frame
            n = name(c.path)
            a = [ip.snap(st, x) for x in c.args]
            tys = (c.info or {}).get("a") or []
            if n in ("as_ptr", "as_mut_ptr", "add", "offset", "sub", "cast", "cast_mut", "as_ptr_range", "byte_add") and tys:
                self.elt[c.site] = SIZES.get(tys[0])
            need = needs(F, c)
            if need:
                have = close(set(fr.body.get("tf") or ()) | BASE)
                p = fr
                seen = set()
                for t, o in st.facts.items():
                    for x in conj(t) if o is True else ():
                        if x.op == "call" and "is_feature_detected" in x.args[0]:
                            seen.add(name(x.args[0]).replace("_", "."))
                have |= close(seen)
                while p.parent is not None:  # what an inlined caller is compiled for
                    p = p.parent
                    have |= close(p.body.get("tf") or ())
                miss = sorted(need - have)
                self.say(not miss, "guard", fr, c.line, name(c.path), f"{name(c.path)} is compiled for {', '.join(miss)}, which this path has not found the CPU to have", c.block)
            m = WIDE.match(n)
            if m and "arch::x86" in c.path:
                w = {"": 16, "256": 32, "512": 64}[m.group(1) or m.group(6) or ""]
                if re.search(r"_(loadl|storel|load_s|store_s)|_epi64$", n) and not m.group(1):
                    w = 8
                self.access(ip, st, c, a[0], w, n)
            elif n in ("read_unaligned", "write_unaligned", "read", "write") and re.search(r"ptr::(const_ptr|mut_ptr)?", c.path) and "ptr" in c.path:
                self.access(ip, st, c, a[0], SIZES.get(tys[0] if tys else "", None), n)
            elif n in ("copy_nonoverlapping", "copy_to_nonoverlapping", "copy") and "ptr" in c.path or n in ("copy_nonoverlapping", "copy") and "intrinsics" in c.path:
                for x in a[:2]:
                    self.access(ip, st, c, x, None, n, a[2] if len(a) > 2 else None)
            elif n in ("get_unchecked", "get_unchecked_mut"):
                L = self.lin(st)
                ok = len(a) == 2 and L.proves(L.expr(a[1]), L.length(a[0]), 1)
                self.say(ok, "unchecked", fr, c.line, n, f"`{show(a[1])[:80]}` is not known to lie within `{show(a[0])[:80]}`", c.block, self.vague(a))
            elif n in ("from_utf8_unchecked", "from_utf8_unchecked_mut", "from_boxed_utf8_unchecked"):
                s = views(a[0])
                ok = any(x.op == "call" and name(x.args[0]) in ("from_utf8", "validate_utf8_simd", "validate_utf8") and contains(x, lambda y: y is s) and (o is True or isinstance(o, frozenset) and o <= {"Ok"}) for x, o in st.facts.items())
                self.say(ok, "unchecked", fr, c.line, n, f"bytes are taken as UTF-8 without having been validated", c.block)
            elif n in ("unwrap_unchecked", "unreachable_unchecked", "assume_init", "set_len", "from_raw_parts", "from_raw_parts_mut", "from_raw", "assert_unchecked"):
                good = n == "set_len" and len(a) == 2 and contains(a[1], lambda y: lit(y) == 0)
                self.say(good, "unchecked", fr, c.line, n, f"{n} is not known to be valid here", c.block)

        def vague(self, a):
            return any(contains(x, lambda y: y is TOP or y.op == "phi") for x in a if hasattr(x, "op"))

        def lin(self, st):
            return Lin(st.facts, views, True).learn()

        def parts(self, v):
            """(sequence, offset in elements, element size) of an address"""
            off = []
            size = None
            while True:
                if v.op == "cast":
                    v = v.args[0]
                elif v.op == "call" and name(v.args[0]) in ("add", "wrapping_add", "offset") and len(v.args[1]) == 2 and "ptr" in v.args[0]:
                    size = size or self.elt.get(v.args[2] if len(v.args) > 2 else None)
                    off.append(v.args[1][1])
                    v = v.args[1][0]
                elif v.op == "call" and name(v.args[0]) in ("cast", "cast_mut", "cast_const"):
                    v = v.args[1][0]
                elif v.op == "call" and name(v.args[0]) in ("as_ptr", "as_mut_ptr") and v.args[1]:
                    return v.args[1][0], off, size or self.elt.get(v.args[2] if len(v.args) > 2 else None)
                else:
                    return (v, off, size) if v.op == "agg" else (None, off, size)

        def access(self, ip, st, c, ptr, w, n, count=None):
            L = self.lin(st)
            ok = True
            for p in alts(ptr):
                S, off, size = self.parts(p)
                if S is None or size is None or w is None and count is None:
                    ok = False
                    break
                e = {None: 0}
                for o in off:
                    e = add(e, L.expr(o))
                if w is None:
                    end = add(e, L.expr(count))
                else:
                    end = dict(e)
                    end[None] = end.get(None, 0) + -(-w // size)
                ok = ok and L.proves(end, L.length(S))
            self.say(ok, "wide", c.frame, c.line, n, f"{n} at `{show(ptr)[:100]}` is not known to lie within its slice ({w or chr(63)} bytes)", c.block)

    class Buf:
        def __init__(self):
            self.got = []

        def of(self, k):
            plain = {at for at, vague, ok, g in self.got if not (vague and not ok)}
            return [(ok, g) for at, vague, ok, g in self.got if at[0] == k and not (vague and not ok and at in plain)]

    memo = {}

    def run(k):
        if k not in memo:
            buf = Buf()
            ip = Interp(F, R(buf), max_steps=400000)
            try:
                ip.run(k, [mk("in", f"arg{i}") for i in range(1, F.bodies[k]["args"] + 1)])
                ctx.ran(ip, k)
                buf.visited = set(ip.visited_fns)
                memo[k] = buf
            except (Budget, RecursionError):
                memo[k] = None
        return memo[k]

    callers = {}
    for k, b in F.bodies.items():
        for blk in b.get("blocks", []):
            t = blk and blk["t"]
            if t and t.get("k") == "call" and isinstance(t.get("f"), list) and t["f"][0] == "k":
                for m in ("fn", "res", "r", "k"):
                    if isinstance(t["f"][1].get(m), str):
                        callers.setdefault(t["f"][1][m], set()).add(k)

    def judge(k, up=3):
        u = run(k)
        got = u.of(k) if u is not None else None
        if got is not None and all(ok for ok, _ in got):
            return got
        r = root_fn(k)
        ups = sorted(c for c in callers.get(r, ()) if c in F.bodies)
        outer = [r] if r != k and r in F.bodies else ups if not F.bodies.get(r, {}).get("reach") else []
        if not outer or not up:
            return got
        alt = []
        for c in outer:
            u = run(c)
            here = u.of(k) if u is not None and k in u.visited else None
            if here is None:
                return got
            alt += here
        return alt

    users = set(mods)
    for k, b in F.bodies.items():
        if b["kind"] in ("fn", "closure", "coroutine") and any(blk and blk["t"].get("k") == "call" and blk["t"]["f"][0] == "k" and F.bodies.get(blk["t"]["f"][1].get("fn"), {}).get("tf") for blk in b.get("blocks", [])):
            users.add(k)
    for k in sorted(users):
        got = judge(k)
        if got is None:
            ctx.bad("wide", k, f"unseen:{k}", F.bodies[k]["file"], f"{k} could not be analysed")
            continue
        for ok, (rule, site, key, w, msg, tr) in got:
            ctx.test(ok, rule, site, key, w, msg, tr)
    ctx.floor("confined", 4)
    ctx.floor("guard", 6)
    ctx.floor("wide", 5)


CHECKS = {"C36": c36}
