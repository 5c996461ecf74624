"""shared helpers for the rules"""
from interp import *
from interp import MOVED, TOP, UNIT
from check import Anchor
import re


def root_fn(key):
    """the named function a closure / coroutine belongs to"""
    i = key.find("::{")
    while i > 0 and key.startswith("::{impl", i):
        i = key.find("::{", i + 3)
    return key[:i] if i > 0 else key


def where(fr, line):
    while fr.parent is not None and fr.body["kind"] == "std":
        line, fr = fr.line, fr.parent
    return f"{fr.body['file']}:{line} in {root_fn(fr.key)}"


class PathRule(Rule):
    """base: carries ctx"""

    def __init__(self, ctx):
        self.ctx = ctx


def run_entry(ctx, rule, key, args=None, cap=48, inline_spawn=False, auto=None, max_steps=400000):
    """interpret a function; if it is async (returns a coroutine), interpret the coroutine body"""
    F = ctx.F
    rets = []

    class Pre(Rule):
        max_depth = rule.max_depth

        def on_return(self, ip, st, v):
            rets.append(v)

    pre = Interp(F, Pre(), max_steps=max_steps, cap=cap)
    body = F.bodies[key]
    is_async = any(F.bodies[k]["kind"] == "coroutine" for k in F.kids(key))
    if is_async:
        pre.run(key, args)
        cos = []
        for v in rets:
            for a in alts(v):
                if a.op == "agg" and a.args[0] == "coroutine" and a not in cos:
                    cos.append(a)
        if cos:
            for a in cos:
                ip = Interp(F, rule, max_steps=max_steps, cap=cap, inline_spawn=inline_spawn)
                ip.run(a.args[1], [a, TOP], auto=auto)
                ctx.ran(ip, key)
            return
    ip = Interp(F, rule, max_steps=max_steps, cap=cap, inline_spawn=inline_spawn)
    ip.run(key, args, auto=auto)
    ctx.ran(ip, key)
    return ip


def need(F, suffix):
    r = F.find(suffix, one=False)
    if not r:
        raise Anchor(suffix)
    return r


def need1(F, suffix):
    r = need(F, suffix)
    if len(r) > 1:
        raise Anchor(f"{suffix} is ambiguous: {r[:4]}")
    return r[0]


def path_of(c):
    return c.res or c.path


def is_adt(v, suffix):
    return v.op == "agg" and isinstance(v.args[0], str) and (v.args[0] == suffix or v.args[0].endswith("::" + suffix))


def field(v, name):
    if v.op == "agg" and name in v.args[2]:
        return v.args[3][v.args[2].index(name)]
    return None


def calls_in(v, suffix):
    return [x for x in subterms(v) if x.op == "call" and (x.args[0] == suffix or x.args[0].endswith("::" + suffix))]


def has_call(v, suffix):
    return bool(calls_in(v, suffix))


def tail(c):
    return path_of(c).rsplit("::", 1)[-1]


MAPS = re.compile(r"(^|::|<)(HashMap|BTreeMap|IndexMap|DashMap|HashSet|BTreeSet|VecDeque|Vec|LruCache)\b")


def is_coll(c, *names):
    """call of a collection method"""
    p = path_of(c)
    return p.rsplit("::", 1)[-1] in names and bool(MAPS.search(p))


def is_map(c, *names):
    p = path_of(c)
    return p.rsplit("::", 1)[-1] in names and bool(re.search(r"(HashMap|BTreeMap|IndexMap|DashMap)\b", p))


GUARDS = ("read", "write", "lock", "borrow", "borrow_mut", "blocking_lock", "blocking_read", "blocking_write", "try_lock", "try_read", "try_write", "unwrap", "as_ref", "as_mut", "iter", "values", "keys", "unwrap_or_else", "taken")


def coll(v):
    """strip lock guards, mutations and awaits: which field (or object) is this collection?"""
    while True:
        if v.op == "mut":
            v = v.args[0]
        elif v.op == "await":
            v = v.args[0]
        elif v.op == "call" and v.args[0].rsplit("::", 1)[-1] in GUARDS and v.args[1]:
            v = v.args[1][0]
        elif v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] in ("Ok", "Some"):
            v = v.args[0].args[0]
        else:
            return v


def coll_name(v):
    c = coll(v)
    return c.args[1] if c.op == "fld" else None


def header_of(v, name):
    """v derives from the request header `name` (constant name or literal)"""
    for x in subterms(v):
        if x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("get", "get_all", "index") and "HeaderMap" in x.args[0] and len(x.args[1]) > 1:
            if hname(x.args[1][1]) == name:
                return True
    return False


def hname(v):
    n = v.args[0] if v.op == "k" else None
    if n:
        return n.rsplit("::", 1)[-1].upper()
    l = lit(v)
    if isinstance(l, str):
        return l.upper().replace("-", "_")
    return None


def presence(v):
    """v is an Option returned by a keyed lookup: (collection field, key, op)"""
    if v.op == "call":
        n = v.args[0].rsplit("::", 1)[-1]
        if n in ("get", "get_mut", "contains_key", "contains", "remove", "insert", "entry", "get_key_value", "remove_entry") and len(v.args[1]) >= 2 and MAPS.search(v.args[0]):
            return coll_name(v.args[1][0]), v.args[1][1], n
    return None


class EachElement(PathRule):
    """every element taken from the iteration `src(next-call term)` is handled by a call satisfying `do(call)` before the next one is taken"""

    init = None

    def __init__(self, ctx, rule, site, key, src, do, what):
        super().__init__(ctx)
        self.r, self.site, self.key, self.src, self.do, self.what = rule, site, key, src, do, what
        self.loops = 0

    def on_fact(self, ip, st, t, o, fr, line):
        if isinstance(o, frozenset) and o == frozenset(["Some"]) and t.op == "call" and t.args[0].endswith("::next") and self.src(t):
            self.loops += 1
            st.auto = "owed"

    def on_call(self, ip, st, c):
        if c.path.endswith("::next") or path_of(c).endswith("::next"):
            if st.auto == "owed" and self.src(mk("call", path_of(c), tuple(c.args), c.site)):
                self.ctx.bad(self.r, self.site, self.key, where(c.frame, c.line), self.what, backtrace(c.frame, c.line))
                st.auto = None
        if self.do(c):
            if st.auto == "owed":
                self.ctx.ok(self.r, self.site, where(c.frame, c.line))
            st.auto = None
        return None


class Labels(PathRule):
    """auto = frozenset of labels established on the path"""

    init = frozenset()
    max_depth = 14

    def has(self, st, *lab):
        return lab in st.auto

    def add(self, st, *lab):
        st.auto = st.auto | {lab}

    def sets(self, st, kind):
        return [l for l in st.auto if l[0] == kind]


CLOCK = ("SystemTime::now", "Instant::now", "Utc::now", "Instant::elapsed")


def is_now(v):
    return contains(v, lambda x: x.op == "call" and x.args[0].endswith(CLOCK))


def arith(v):
    return contains(v, lambda x: (x.op == "op" and x.args[0] in ("Add", "Sub", "Mul", "Div", "Shl", "Shr")) or (x.op == "call" and re.search(r"(saturating|checked|wrapping)_|ops::(Add|Sub|Mul)", x.args[0]) is not None))


def not_expired(t, o, field="expires_at"):
    """branch fact that says `X.expires_at` is not in the past: returns X"""
    if t.op != "op" or t.args[0] not in ("Lt", "Le", "Gt", "Ge") or not isinstance(o, bool):
        return None
    a, b = t.args[1], t.args[2]
    op = t.args[0]
    if is_now(a) and not is_now(b):
        a, b = b, a
        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
    if not is_now(b) or arith(b) or a.op != "fld" or a.args[1] != field:
        return None
    alive = (op in ("Gt", "Ge")) == o
    return a.args[0] if alive else None


def eqfact(t, o):
    """branch fact `a == b`: returns (a, b)"""
    if o is True and t.op == "op" and t.args[0] == "Eq":
        return t.args[1], t.args[2]
    return None


def fldof(v, name, pred):
    """v is field `name` of an object satisfying pred (or an Option payload of it)"""
    for a in alts(v):
        while a.op == "fld" and a.args[1] == "0" and a.args[0].op == "dc":
            a = a.args[0].args[0]
        if not (a.op == "fld" and a.args[1] == name and pred(a.args[0])):
            return False
    return True


def deps(v, name, pred):
    """v contains field `name` of an object satisfying pred"""
    return contains(v, lambda x: x.op == "fld" and x.args[1] == name and pred(x.args[0]))


def isin(*names):
    return lambda x: x.op == "in" and x.args[0] in names


def entry_of(col, key=None):
    """predicate: value taken out of / looked up in the table `col` (with a key satisfying `key`)"""

    def p(v):
        if v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] == "Some":
            q = presence(v.args[0].args[0])
            return bool(q and q[0] == col and (key is None or key(q[1])))
        return False

    return p


def impls(F, trait, method):
    """bodies implementing trait::method"""
    return sorted(k for k, b in F.bodies.items() if b["kind"] == "fn" and re.search(rf" as [\w:]*{trait}(<.*>)?>::{method}$", k))


def strip_mut(v):
    while v.op == "mut":
        v = v.args[0]
    return v


def fmt_pieces(v):
    """flatten a written text: [("lit", str) | ("arg", term)]; understands format!, literals, named constants"""
    v = strip_into(v)
    if v.op == "call" and v.args[0].endswith("fmt::format") and v.args[1]:
        a = v.args[1][0]
        if a.op == "call" and a.args[1]:
            name = a.args[0].rsplit("::", 1)[-1]
            if name == "new" and len(a.args[1]) == 2 and a.args[1][1].op == "agg":
                argv = []
                for x in a.args[1][1].args[3]:
                    argv.append(x.args[1][0] if x.op == "call" and x.args[1] else x)
                return _template(lit(a.args[1][0]), argv)
            if name in ("new_const", "from_str", "from_str_nonconst"):
                s = lit(a.args[1][0])
                if isinstance(s, str):
                    return [("lit", s)]
    s = lit(v)
    if v.op == "c" and isinstance(s, str):
        return [("lit", s)]
    return [("arg", v)]


def _template(t, argv):
    import ast

    if not isinstance(t, str):
        return [("arg", TOP)]
    try:
        b = ast.literal_eval(t) if t.startswith("b") else t.encode()
    except (ValueError, SyntaxError):
        return [("arg", TOP)]
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i + 1 : i + 1 + c].decode("utf-8", "replace")))
            i += 1 + c
        elif c == 0xC0:
            if n >= len(argv):
                return [("arg", TOP)]
            out.extend(fmt_pieces(argv[n]))
            n += 1
            i += 1
        else:
            return [("arg", TOP)]
    return out


def strip_into(v):
    """strip conversions that keep the text"""
    while v.op == "call" and v.args[0].rsplit("::", 1)[-1] in ("as_bytes", "into_bytes", "as_str", "into", "to_vec", "as_ref", "deref", "as_slice") and v.args[1]:
        v = v.args[1][0]
    return v


def okof(v):
    """X of a term X/Ok.0 or X/Some.0, else None"""
    if v.op == "fld" and v.args[1] == "0" and v.args[0].op == "dc" and v.args[0].args[1] in ("Ok", "Some"):
        return v.args[0].args[0]
    return None


def errs(v):
    return [a for a in alts(v) if is_adt(a, "Result") and a.args[1] == "Err"]


def const_is(v, *suffix):
    return v.op == "k" and v.args[0].endswith(suffix)


def exactly(v, pred):
    """plainly, and the text is not even trimmed or changed in case"""
    return plainly(v, pred, EXACT)


PLAIN = set(
    """iter next elem as_str as_ref as_deref as_deref_mut deref to_str ok unwrap expect clone cloned copied to_string to_owned into from
into_iter borrow unwrap_or_default unwrap_or as_bytes as_slice trim to_lowercase to_ascii_lowercase ok_or ok_or_else as_mut get_or_insert_with taken""".split()
)
EXACT = PLAIN - {"trim", "to_lowercase", "to_ascii_lowercase"}


def plainly(v, pred, through=PLAIN):
    """v is, up to views, copies and unwrapping, a value satisfying pred (nothing is cut off, computed or compared)"""
    while True:
        if pred(v):
            return True
        if v.op == "phi":
            return all(plainly(a, pred, through) for a in v.args[0])
        if v.op == "fld" and v.args[1] == "0":
            v = v.args[0].args[0] if v.args[0].op == "dc" else v.args[0]
        elif v.op in ("mut", "await", "cast"):
            v = v.args[0]
        elif v.op == "call" and v.args[0].rsplit("::", 1)[-1] in through and v.args[1]:
            v = v.args[1][0]
        elif v.op == "agg" and len(v.args[3]) == 1:
            v = v.args[3][0]
        else:
            return False


def member_fact(t, o, lst, x):
    """branch fact "X is an element of LIST" (lst, x: predicates)"""
    if o is not True:
        return False
    if t.op == "call" and t.args[0].rsplit("::", 1)[-1] in ("contains", "contains_key") and len(t.args[1]) == 2:
        return plainly(t.args[1][0], lst) and plainly(t.args[1][1], x)
    e = eqfact(t, o)
    return bool(e) and any(plainly(a, lst) and plainly(b, x) for a, b in (e, e[::-1]))


def supported_versions(x):
    return x.op == "k" and x.args[0].endswith("SUPPORTED_PROTOCOL_VERSIONS")
