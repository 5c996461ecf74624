"""C21 a fallible operation does not report success over a failed step; no outcome is dropped unread"""
import json
from lib import *
from interp import Budget, Interp, Rule
from rules.textr import base

name = lambda p: p.rsplit("::", 1)[-1]
# what only tells a log about a failure does not answer for it
LOG = re.compile(r"^(tracing|tracing_core|log)::|^(core|std|alloc)::fmt::|fmt::rt|^std::io::_?e?print")
# outcomes that are answers: conversions of text and numbers, queues of this process, single-use slots
ANSWER = re.compile(r"::(to_str|try_from|try_into|parse|from_utf8|from_str_radix|binary_search\w*|try_lock|try_read|try_write|compare_exchange\w*|duration_since|checked_\w+|strip_prefix|var|poll\w*)$|^tokio::(sync|time)|^std::(sync|env)|^futures\w*::channel|^core::num")
CRED = {"authenticate", "validate_session", "validate_token", "validate"}
HAND = {"drop", "forget", "black_box"}
PEEK = {"ok", "err", "is_ok", "is_err", "unwrap_or_default", "unwrap_or"}
SCOPE = ("src/shared", "src/client", "src/server", "src/utils", "src/error")
QUEUE = re.compile(r"SendError<|TrySendError<|sync::mpsc|oneshot|broadcast|watch::error")


class Skip(Rule):
    """auto: the failures this path has met and not answered for"""
    init = frozenset()
    max_depth = 0
    closures = 1

    def __init__(self, bad, steps):
        self.bad, self.steps = bad, steps

    def src(self, f):
        while f.op == "await":
            f = f.args[0]
        return f if f.op == "call" else None

    def use(self, st, v):
        if not st.auto:
            return
        gone = set()
        for x in subterms(v):
            if x.op == "dc" and x.args[1] == "Err":
                gone.add(x.args[0])
            elif x in st.auto:
                gone.add(x)
        if gone:
            st.auto = frozenset(l for l in st.auto if l not in gone)

    def on_fact(self, ip, st, t, o, fr, line):
        if isinstance(o, frozenset) and o and o <= {"Err"} and t.op in ("call", "await"):
            c = self.src(t)
            if c is not None and c.args[0] != "closure-arg" and not ANSWER.search(c.args[0]) and name(c.args[0]) not in CRED:
                self.steps.setdefault(len(c.args) > 2 and c.args[2] or show(c), (c.args[0], ip.where(fr, line) if hasattr(ip, "where") else ""))
                st.auto = st.auto | {t}
        elif t in st.auto:
            st.auto = st.auto - {t}

    def on_call(self, ip, st, c):
        if not st.auto or LOG.search(c.path):
            return
        args = [ip.snap(st, a) for a in c.args]
        for l in st.auto:
            x = self.src(l)
            # another attempt: the same step again, or another one with what this one was given
            if x.args[0] == c.path or {base(a) for a in x.args[1] if a.op not in ("lit", "adt", "k")} & {base(a) for a in args[1 if len(args) > 1 and x.args[1] and base(args[0]) is base(x.args[1][0]) and name(x.args[0]) != name(c.path) else 0:]} and re.search(r"parse|from_|decode|deserial|try_", c.path):
                st.auto = st.auto - {l}
        for a in args:
            self.use(st, a)

    def on_store(self, ip, st, b, f, v, fr, line):
        self.use(st, v)

    def on_return(self, ip, st, v):
        for a in alts(v):
            if is_adt(a, "Result") and a.args[1] == "Err":
                continue
            s2 = st.copy()
            self.use(s2, a)
            for f in s2.auto:
                x = self.src(f)
                self.bad.setdefault((x.args[0], len(x.args) > 2 and x.args[2]), (f, st))


BEST = {  # best effort by documented design
    ("RequestBuilder::send", "close"): "ending the session on the server when the client closes",
    ("start_sse", "send_with_options"): "the optional event stream, which servers may refuse",
    ("store_event", None): "recording an event for later resumption",
}


def best(path, key):
    for (s, f) in BEST:
        if (path.endswith(s) or name(path) == s) and (f is None or re.search(rf"::{f}(::|$)", key)):
            return (s, f)


def unread(F, k):
    """(line, callee, how) for each fallible outcome that nothing looks at"""
    b = F.bodies[k]
    defs, used = {}, set()
    mark = lambda st: used.update(int(m.group(1)) for m in re.finditer(r'\["(?:[mc]|disc|ref|len|addr)", \[(\d+)', st))
    srcs = {}
    for bl in b["blocks"]:
        if not bl:
            continue
        for s in bl["s"]:
            if s[0] == "=":
                if len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append((s[3], s[2]))
                mark(json.dumps(s[2]))
        t = bl["t"]
        if t["k"] == "call":
            f = t["f"][1]["fn"] if t["f"][0] == "k" and isinstance(t["f"][1], dict) else ""
            d = t.get("d") or []
            if len(d) == 1:
                defs.setdefault(d[0], []).append((t["l"], f))
                srcs[d[0]] = (f, t)
            if name(f) in HAND:
                continue  # handing it to drop is not looking at it
            mark(json.dumps({x: y for x, y in t.items() if x != "d"}))
        elif t["k"] == "switch":
            mark(json.dumps(t))
    # a look whose own outcome nothing reads is no look
    dead = {l for l, (f, t) in srcs.items() if name(f) in PEEK and "esult" in f and l not in used and l != 0}
    for l in dead:
        for m in re.finditer(r'\["[mc]", \[(\d+)', json.dumps(srcs[l][1]["args"])):
            used.discard(int(m.group(1)))
    out = []
    for l, d in defs.items():
        ty = b["locals"][l]
        if l == 0 or l in used or not re.match(r"(std|core)::result::Result<", ty):
            continue
        if l in dead:
            continue
        out.append((l, d[0][0], ty))
    return out


def origin(F, k, l):
    """the call whose outcome ends in local l (through await and moves)"""
    b = F.bodies[k]
    seen = set()
    todo = [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for bl in b["blocks"]:
            if not bl:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == x:
                    todo += [int(m.group(1)) for m in re.finditer(r'\["(?:[mc]|ref|addr)", \[(\d+)', json.dumps(s[2]))]
                    todo += [int(m.group(1)) for m in re.finditer(r'\[(\d+)[\],]', json.dumps(s[2]))][:3]
            t = bl["t"]
            if t["k"] == "call" and t.get("d") and t["d"][0] == x and t["f"][0] == "k":
                f = t["f"][1]["fn"]
                if name(f) in ("poll", "into_future", "new_unchecked", "get_context", "deref", "deref_mut", "branch", "map_err", "map"):
                    todo += [int(m.group(1)) for m in re.finditer(r'\["[mc]", \[(\d+)', json.dumps(t["args"]))]
                else:
                    return f
    return ""


def c21(ctx):
    F = ctx.F
    ctx.rule("success", "a function that can fail answers Ok on no path on which a step failed whose failure it neither passed on, answered with, stored, nor followed by another attempt (logging it is none of these)")
    ctx.rule("unread", "no outcome of a fallible call is dropped without a look, but for the hand-over to an in-process queue")
    n = 0
    for k, b in sorted(F.bodies.items()):
        if b["kind"] not in ("fn", "coroutine", "closure") or not b["file"].startswith(SCOPE):
            continue
        if b["kind"] != "closure" and "Deserialize" not in k and re.match(r"(std|core)::result::Result<|(std|core)::task::Poll<(std|core)::result::Result<", b["locals"][0]):
            bad, steps = {}, {}
            ip = Interp(F, Skip(bad, steps), max_steps=60000)
            try:
                ip.run(k, None)
            except (Budget, RecursionError):
                ip = Interp(F, Skip(bad, steps), max_steps=60000, cap=4)
                try:
                    ip.run(k, None)
                except (Budget, RecursionError):
                    ctx.bad("success", k, f"unseen:{k}", b["file"], f"{k} has too many paths to be analysed")
                    continue
            ctx.ran(ip, k)
            n += 1
            for site, (path, w) in steps.items():
                ctx.ok("success", f"{k}:{site}", w or b["file"], path)
            for (path, site), (f, st) in bad.items():
                if best(path, k):
                    continue
                ctx.bad("success", f"{k}:{site}", f"{k}:{name(path)}", b["file"], f"{k} can answer Ok although {show(f)[:160]} failed")
        for l, line, ty in unread(F, k):
            o = origin(F, k, l)
            w = f"{b['file']}:{line}"
            ctx.test(bool(QUEUE.search(ty)) or re.search(r"^tokio::sync|sync::(mpsc|oneshot)", o) or best(o, k), "unread", f"{k}:{name(o)}:{line}", f"{k}:{name(o) or 'unread'}", w,
                     f"{k} throws away the outcome of {o or ty[:80]} ({ty[:80]}) without looking at it")
    ctx.floor("success", 200)
    ctx.floor("unread", 10)


CHECKS = {"C21": c21}
