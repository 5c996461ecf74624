"""linear inequalities over terms: lengths, offsets, counters"""
from fractions import Fraction

from interp import mk, show
from lib import *


def name(p):
    return p.rsplit("::", 1)[-1]


SHRINK = {"pop", "pop_front", "pop_back", "remove", "swap_remove", "drain", "truncate", "clear", "retain", "retain_mut", "dedup", "split_off", "iter_mut", "get_mut", "front_mut", "back_mut", "last_mut", "first_mut", "sort", "sort_by", "sort_by_key"}


class Lin:
    """what is known on a path about some terms, as inequalities sum(c*atom) + k >= 0"""

    def __init__(self, facts, views, nowrap=False):
        self.nowrap = nowrap  # a - b is taken to be the difference (with overflow checks, anything else stops the program)
        self.facts = facts
        self.views = views  # strips what does not change the length
        self.ineq = []
        self.seen = {}
        self.depth = 0

    # ---- expressions
    def expr(self, v):
        """dict atom -> coefficient, None -> constant"""
        l = lit(v)
        if isinstance(l, int) and not isinstance(l, bool):
            return {None: Fraction(l)}
        if v.op == "cast":
            return self.expr(v.args[0])
        if v.op == "op" and len(v.args) == 3:
            op, a, b = v.args
            if op == "Add":
                return add(self.expr(a), self.expr(b))
            if op == "Sub":
                ea, eb = self.expr(a), self.expr(b)
                if self.nowrap or self.depth < 3 and self.holds(add(ea, eb, -1)):
                    return add(ea, eb, -1)
                return self.atom(v)
            if op == "Mul":
                for x, y in ((a, b), (b, a)):
                    k = lit(y)
                    if isinstance(k, int) and not isinstance(k, bool):
                        return {t: c * k for t, c in self.expr(x).items()}
        return self.atom(v)

    def length(self, s):
        s = self.views(s)
        l = lit(s)
        if isinstance(l, str):
            return {None: Fraction(len(l.encode()))}
        if s.op == "agg" and s.args[0] == "array":
            return {None: Fraction(len(s.args[3]))}
        if s.op == "call" and name(s.args[0]) in ("index", "index_mut") and len(s.args[1]) > 1:
            r = s.args[1][1]
            if is_adt(r, "RangeFrom"):
                return add(self.length(s.args[1][0]), self.expr(r.args[3][0]), -1)
            if is_adt(r, "RangeTo"):
                return self.expr(r.args[3][0])
            if is_adt(r, "Range"):
                return add(self.expr(field(r, "end")), self.expr(field(r, "start")), -1)
        k = self.chunk(s)
        if k is not None:
            return {None: Fraction(k)}
        return self.atom(mk("call", "len", (s,), None))

    def chunk(self, s):
        """the length of an item of chunks_exact(k) or windows(k)"""
        second = s.op == "fld" and s.args[1] == "1" and okof(s.args[0]) is not None
        x = okof(s.args[0] if second else s)
        if x is None or x.op != "call" or name(x.args[0]) not in ("next", "next_back") or not x.args[1]:
            return None
        x = x.args[1][0]
        numbered = False
        while True:
            if x.op == "mut":
                x = x.args[0]
            elif x.op == "call" and name(x.args[0]) in ("enumerate", "by_ref", "into_iter", "skip", "take", "rev", "step_by", "peekable", "fuse") and x.args[1]:
                numbered = numbered or name(x.args[0]) == "enumerate"
                x = x.args[1][0]
            else:
                break
        if numbered == second and x.op == "call" and name(x.args[0]) in ("chunks_exact", "chunks_exact_mut", "rchunks_exact", "windows") and len(x.args[1]) == 2:
            k = lit(x.args[1][1])
            return k if isinstance(k, int) else None
        return None

    def atom(self, v):
        if v.op == "call" and name(v.args[0]) in ("len", "count") and v.args[1]:
            s = self.views(v.args[1][0])
            if v.args[0] != "len" or v.args[1][0] is not s:
                return self.length(v.args[1][0])
        key = v
        if key not in self.seen:
            self.seen[key] = True
            self.ineq.append({key: Fraction(1)})
            self.define(key)
        return {key: Fraction(1), None: Fraction(0)}

    def le(self, a, b, k=0):
        """a + k <= b"""
        e = add(b, a, -1)
        e[None] = e.get(None, 0) - k
        self.ineq.append(e)

    def define(self, v):
        me = {v: Fraction(1)}
        if v.op == "op":
            op, a, b = (v.args + (None,))[:3]
            k = lit(b) if b is not None else None
            if op == "Div" and isinstance(k, int) and k > 0:
                ea = self.expr(a)
                self.le({v: Fraction(k)}, ea)
                self.le(ea, {v: Fraction(k)}, 1 - k)
            elif op == "Rem" and b is not None:
                if isinstance(k, int) and k > 0:
                    self.le(me, {None: Fraction(k - 1)})
                self.le(me, self.expr(a))
            elif op == "BitAnd":
                for x in (a, b):
                    self.le(me, self.expr(x))
            elif op == "Shr":
                self.le(me, self.expr(a))
        if v.op == "call":
            n = name(v.args[0])
            a = v.args[1]
            if n == "len" and len(a) == 1 and a[0].op == "mut" and all(name(x[0]) in SHRINK for x in a[0].args[1]):
                self.le(me, self.length(a[0].args[0]))
            if n == "min" and len(a) == 2:
                for x in a:
                    self.le(me, self.expr(x))
            elif n == "max" and len(a) == 2:
                for x in a:
                    self.le(self.expr(x), me)
            elif n == "saturating_sub" and len(a) == 2:
                self.le(me, self.expr(a[0]))
            elif n in ("floor_char_boundary",) and len(a) == 2:
                self.le(me, self.length(a[0]))
            elif n in ("trailing_ones", "leading_ones", "trailing_zeros", "leading_zeros", "count_ones"):
                self.le(me, {None: Fraction(64)})
            elif n in ("start", "end") and len(a) == 1:
                for x in subterms(a[0]):
                    if x.op == "call" and name(x.args[0]) in ("find", "captures", "find_iter", "captures_iter") and len(x.args[1]) == 2:
                        self.le(me, self.length(x.args[1][1]))
                        if n == "end":
                            self.le(self.atom(mk("call", v.args[0].replace("end", "start"), v.args[1], v.args[2] if len(v.args) > 2 else None)), me)
        x = okof(v)
        if x is not None and x.op == "call":
            n = name(x.args[0])
            a = x.args[1]
            if n in ("position", "rposition", "find", "rfind", "memchr", "memrchr") and a:
                tgt = [y for y in a if not (y.op == "agg" and y.args[0] == "closure") and not isinstance(lit(y), (int, bool))][:1] or [a[0]]
                if n in ("find", "rfind") and len(a) == 2:
                    tgt = [a[0]]
                    w = lit(a[1])
                    w = len(w.encode()) if isinstance(w, str) else (len(chr(w).encode()) if isinstance(w, int) and not isinstance(w, bool) and w < 0x110000 else 1)
                else:
                    w = 1
                self.le(me, self.length(tgt[0]), w)
            elif n == "next" and a:
                r = self.iterof(a[0])
                if is_adt(r, "Range"):
                    self.le(self.expr(field(r, "start")), me)
                    self.le(me, self.expr(field(r, "end")), 1)
            elif n in ("checked_sub",):
                self.le(me, self.expr(a[0]))
            elif n == "binary_search" and len(a) == 2:
                self.le(me, self.length(a[0]), 1)
        if v.op == "fld" and v.args[1] == "0":
            x = okof(v.args[0])
            if x is not None and x.op == "call" and name(x.args[0]) in ("next", "next_back", "find", "last") and x.args[1]:
                it = self.iterof(x.args[1][0])
                for y in subterms(it):
                    if y.op == "call" and name(y.args[0]) in ("enumerate", "char_indices", "match_indices") and y.args[1]:
                        self.le(me, self.length(y.args[1][0]), 1)
                        break

    def iterof(self, v):
        while v.op == "mut" or v.op == "call" and name(v.args[0]) in ("into_iter", "by_ref", "rev") and v.args[1]:
            v = v.args[0] if v.op == "mut" else v.args[1][0]
        return v

    # ---- facts
    def learn(self):
        for t, o in list(self.facts.items()):
            if t.op == "op" and len(t.args) == 3 and t.args[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and isinstance(o, bool):
                op, a, b = t.args
                if any(isinstance(lit(x), (str, bool, float)) for x in (a, b)):
                    continue
                if not o:
                    op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
                ea, eb = self.expr(a), self.expr(b)
                if op == "Eq":
                    self.le(ea, eb)
                    self.le(eb, ea)
                elif op == "Ne":  # sizes are not negative
                    for x, y in ((a, eb), (b, ea)):
                        if lit(x) == 0:
                            self.le({None: Fraction(1)}, y)
                elif op in ("Lt", "Le"):
                    self.le(ea, eb, 1 if op == "Lt" else 0)
                else:
                    self.le(eb, ea, 1 if op == "Gt" else 0)
            elif t.op == "call" and name(t.args[0]) == "is_empty" and t.args[1]:
                if o is False:
                    self.le({None: Fraction(1)}, self.length(t.args[1][0]))
                elif o is True:
                    self.le(self.length(t.args[1][0]), {None: Fraction(0)})
            elif t.op == "call" and name(t.args[0]) in ("starts_with", "ends_with", "contains") and o is True and len(t.args[1]) == 2:
                w = lit(t.args[1][1])
                w = len(w.encode()) if isinstance(w, str) else (1 if isinstance(w, int) else 0)
                self.le({None: Fraction(w)}, self.length(t.args[1][0]))
            elif isinstance(o, int) and not isinstance(o, bool):
                e = self.expr(t)
                self.le(e, {None: Fraction(o)})
                self.le({None: Fraction(o)}, e)
        return self

    def holds(self, e):
        """e >= 0 follows"""
        self.depth += 1
        try:
            n = {t: -c for t, c in e.items()}
            n[None] = n.get(None, Fraction(0)) - 1  # the negation, over integers: e <= -1
            for t in list(n):
                if t is not None:
                    self.atom(t)
            return infeasible(self.ineq + [n])
        finally:
            self.depth -= 1

    def proves(self, a, b, k=0):
        """a + k <= b"""
        e = add(b, a, -1)
        e[None] = e.get(None, Fraction(0)) - k
        return self.holds(e)


def add(a, b, s=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, Fraction(0)) + s * c
    return {t: c for t, c in r.items() if c or t is None}


def infeasible(cs, cap=600):
    """Fourier-Motzkin elimination: the inequalities have no solution"""
    cs = [({t: c for t, c in e.items() if t is not None and c}, e.get(None, Fraction(0))) for e in cs]
    # only what is connected to the last one matters
    rel, todo = set(cs[-1][0]), True
    while todo:
        todo = False
        for e, _ in cs:
            if rel & set(e) and not set(e) <= rel:
                rel |= set(e)
                todo = True
    cs = [(e, k) for e, k in cs if not e or set(e) & rel]
    while True:
        if any(not e and k < 0 for e, k in cs):
            return True
        vs = {}
        for e, _ in cs:
            for t, c in e.items():
                p = vs.setdefault(t, [0, 0])
                p[0 if c > 0 else 1] += 1
        if not vs:
            return False
        t = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        pos = [(e, k) for e, k in cs if e.get(t, 0) > 0]
        neg = [(e, k) for e, k in cs if e.get(t, 0) < 0]
        out, seen = [], set()
        for e, k in [x for x in cs if t not in x[0]]:
            key = (frozenset(e.items()), k)
            if key not in seen:
                seen.add(key)
                out.append((e, k))
        for e, k in pos:
            for f, m in neg:
                a, b = -f[t], e[t]
                g = {}
                for x in set(e) | set(f):
                    c = e.get(x, 0) * a + f.get(x, 0) * b
                    if c and x is not t:
                        g[x] = c
                key = (frozenset(g.items()), k * a + m * b)
                if key not in seen:
                    seen.add(key)
                    out.append((g, k * a + m * b))
        if len(out) > cap:
            return False
        cs = out
