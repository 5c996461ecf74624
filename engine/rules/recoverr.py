"""Circuit breakers, retries and reconnection: C37"""
from lib import *
from rules.loops import endless
from rules.util import methods, name, tbl

OPCALL = re.compile(r"(^|::|>)Fn(Once|Mut)?(<[^>]*>)?>?::call(_once|_mut)?$")


def opcall(v, n):
    """a call of the function the caller passed in as `n`"""
    return v.op == "call" and bool(OPCALL.search(v.args[0])) and bool(v.args[1]) and contains(v.args[1][0], lambda x: x.op == "in" and x.args[0] == n)


def outcome_of(t, pred):
    """t (a discriminated term) is the awaited outcome of a call satisfying pred"""
    return t.op == "await" and pred(t.args[0])


NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
FLIP = {"Lt": "Gt", "Gt": "Lt", "Ge": "Le", "Le": "Ge", "Eq": "Eq", "Ne": "Ne"}


def cmp_fact(t, o):
    """(op, a, b) that holds, of a branch fact on a comparison"""
    if t.op == "un" and t.args[0] == "Not" and isinstance(o, bool):
        return cmp_fact(t.args[1], not o)
    if t.op == "op" and t.args[0] in NEG and isinstance(o, bool):
        return (t.args[0] if o else NEG[t.args[0]]), t.args[1], t.args[2]
    return None


def oriented(f, pa, pb):
    """the comparison with the side satisfying pa on the left: (op, a, b)"""
    if f and pa(f[1]) and pb(f[2]):
        return f
    if f and pa(f[2]) and pb(f[1]):
        return FLIP[f[0]], f[2], f[1]
    return None


def of_field(n):
    return lambda v: contains(v, lambda x: x.op == "fld" and x.args[1] == n)


def elapsed(fld_time, fld_limit):
    """fact: (at least fld_limit passed since fld_time) -> True / False, else None"""

    def p(t, o):
        since = lambda v: contains(v, lambda x: x.op == "fld" and x.args[1] == fld_time) and contains(v, lambda x: x.op == "call" and name(x.args[0]) in ("elapsed", "now", "duration_since", "saturating_duration_since"))
        f = oriented(cmp_fact(t, o), since, of_field(fld_limit))
        if f is None:
            # now >= since + limit
            both = lambda v: of_field(fld_time)(v) and of_field(fld_limit)(v)
            f = oriented(cmp_fact(t, o), lambda v: is_now(v) and not of_field(fld_limit)(v), both)
        if f is None:
            return None
        return f[0] in ("Ge", "Gt")

    return p


def offset(v, n):
    """v = (the counter `n` as this call leaves it) + offset"""
    for x, k in ((v, 0),):
        if x.op == "op" and x.args[0] in ("Add", "AddWithOverflow", "AddUnchecked") and lit(x.args[2]) == 1:
            y = x.args[1]
            if y.op == "call" and name(y.args[0]) == "fetch_add" and tbl(y.args[1][0]) == n and lit(y.args[1][1]) == 1:
                return 0
            if tbl(y) == n and y.op != "call":
                return 0
            return None
        if x.op == "call" and name(x.args[0]) in ("saturating_add", "wrapping_add") and lit(x.args[1][1]) == 1 and tbl(x.args[1][0]) == n:
            return 0
        if x.op == "call" and name(x.args[0]) == "fetch_add" and tbl(x.args[1][0]) == n and lit(x.args[1][1]) == 1:
            return -1
        if x.op == "call" and name(x.args[0]) == "load" and tbl(x.args[1][0]) == n:
            return "after"
        if x.op in ("fld", "await", "mut") and tbl(x) == n:
            return "guard"
    return None


def reached(t, o, n, limit):
    """fact about "the counter n, this time included, has reached the limit": True / False; "odd" for another comparison; None: unrelated"""
    f = oriented(cmp_fact(t, o), lambda v: offset(v, n) is not None, of_field(limit))
    if f is None:
        g = cmp_fact(t, o)
        if g and any(of_field(limit)(x) for x in g[1:]) and any(of_field(n)(x) for x in g[1:]):
            return "odd"
        return None
    k = offset(f[1], n)
    op = f[0]
    if k in ("after", "guard"):
        k = 0
    if k == 0:
        return True if op == "Ge" else False if op == "Lt" else "odd"
    return True if op == "Gt" else False if op == "Le" else "odd"


class Breaker(Labels):
    """CircuitBreaker's own functions"""

    def __init__(self, ctx, key):
        super().__init__(ctx)
        self.key, self.n = key, name(key)

    def on_fact(self, ip, st, t, o, fr, line):
        if isinstance(o, frozenset) and tbl(t) == "state":
            known = [l for l in self.sets(st, "state")]
            o = frozenset(o) & known[0][1] if known else frozenset(o)
            st.auto = frozenset(l for l in st.auto if l[0] != "state") | {("state", o)}
        e = elapsed("last_failure_time", "timeout")(t, o)
        if e is not None:
            self.add(st, "elapsed", e)
        for c, lim in (("failure_count", "failure_threshold"), ("success_count", "success_threshold")):
            r = reached(t, o, c, lim)
            if r is not None:
                self.add(st, "reached", c, r)

    def on_store(self, ip, st, base, f, v, fr, line):
        n = tbl(base)
        v = ip.snap(st, v)
        if n == "state":
            self.ctx.test(is_adt(v, "CircuitState"), "breaker", (self.n, line), f"{self.n}:state", where(fr, line), f"{self.n} puts `{show(v)[:80]}` as the circuit's state")
            st.auto = frozenset(l for l in st.auto if l[0] != "now") | {("now", v.args[1] if v.op == "agg" else "?")}
        elif n == "last_failure_time":
            self.add(st, "time", is_adt(v, "Option") and v.args[1] == "Some" and is_now(v))
        elif n in ("failure_count", "success_count"):
            self.add(st, "count", n, lit(v) if lit(v) is not None else "more" if offset(v, n) == 0 else "?")

    def on_return(self, ip, st, v):
        n, ctx = self.n, self.ctx
        s = next(iter(self.sets(st, "state")), (None, frozenset(["Closed", "Open", "HalfOpen"])))[1]
        now = next((l[1] for l in self.sets(st, "now")), None)
        at = f"{ctx.F.bodies[self.key]['file']}:{ctx.F.bodies[self.key]['line']} in {n}"
        if n == "allow_request":
            for a in alts(v):
                if lit(a) is False:
                    continue
                if "Open" in s:
                    ok = ("elapsed", True) in st.auto and ("elapsed", False) not in st.auto and now == "HalfOpen"
                    if ("elapsed", False) in st.auto and elapsed("last_failure_time", "timeout")(a, True):
                        continue
                    ctx.test(ok, "open", (n, tuple(sorted(s))), "open", at, "an open circuit can let an attempt through although its timeout has not passed since the last failure (or without going half-open)")
                else:
                    ctx.ok("open", (n, tuple(sorted(s))), at)
        elif n == "record_failure":
            if "Closed" in s:
                ctx.test(("count", "failure_count", "more") in st.auto, "breaker", (n, "counted"), "failure-counted", at, "a failure of a closed circuit is not counted")
                r = {l[2] for l in self.sets(st, "reached") if l[1] == "failure_count"}
                ctx.test(len(r) == 1 and "odd" not in r, "breaker", (n, "threshold"), "failure-threshold", at, "whether the failure threshold is reached is not decided by comparing the counted failures with it")
                if r == {True}:
                    ctx.test(now == "Open" and ("time", True) in st.auto, "breaker", (n, "opens"), "opens", at, "reaching the failure threshold does not open the circuit with the time of the failure")
            if "HalfOpen" in s:
                ctx.test(now == "Open" and ("time", True) in st.auto, "breaker", (n, "reopens"), "reopens", at, "a failure while half-open does not open the circuit again")
            ctx.test(now in (None, "Open"), "breaker", (n, "only"), "failure-state", at, f"a failure makes the circuit {now}")
            ctx.test(now is None or ("time", True) in st.auto, "breaker", (n, "time"), "failure-time", at, "the circuit opens without the time being noted")
        else:
            if "Closed" in s:
                ctx.test(("count", "failure_count", 0) in st.auto, "breaker", (n, "reset"), "success-resets", at, "a success does not reset the count of consecutive failures of a closed circuit")
            if "HalfOpen" in s:
                ctx.test(("count", "success_count", "more") in st.auto, "breaker", (n, "counted"), "success-counted", at, "a success of a half-open circuit is not counted")
                r = {l[2] for l in self.sets(st, "reached") if l[1] == "success_count"}
                ctx.test(len(r) == 1 and "odd" not in r, "breaker", (n, "threshold"), "success-threshold", at, "whether the success threshold is reached is not decided by comparing the counted successes with it")
                ctx.test(now == ("Closed" if True in r else None), "breaker", (n, "closes"), "closes", at, f"a half-open circuit becomes {now} with its success threshold {'reached' if True in r else 'not reached'}")
            if s == {"Open"}:
                ctx.test(now is None, "breaker", (n, "stays"), "stays-open", at, f"a success reported while the circuit is open makes it {now} although its timeout has not passed")
            ctx.test(now in (None, "Closed"), "breaker", (n, "only"), "success-state", at, f"a success makes the circuit {now}")


def turn(t, limit):
    """t: the term of one loop turn; it can be taken at most `limit` times"""
    if not (t.op == "call" and name(t.args[0]) == "next"):
        return None
    r = t.args[1][0]
    while r.op in ("mut", "fld", "dc") or (r.op == "call" and name(r.args[0]) in ("into_iter", "iter", "enumerate", "by_ref", "rev")):
        r = r.args[1][0] if r.op == "call" else r.args[0]
    if is_adt(r, "Range") and limit(r.args[3][1]):
        k = lit(r.args[3][0])
        return isinstance(k, int) and k >= 0
    if r.op == "call" and "RangeInclusive" in r.args[0] + t.args[0] and name(r.args[0]) == "new" and limit(r.args[1][1]):
        k = lit(r.args[1][0])
        return isinstance(k, int) and k >= 1
    if r.op == "call" and name(r.args[0]) == "take" and limit(r.args[1][1]):
        return True
    return False


class Executor(PathRule):
    """execute_with_recovery and with_retry.  auto: frozenset of labels"""

    init = frozenset()
    max_depth = 14

    def __init__(self, ctx, key, op, gated):
        super().__init__(ctx)
        self.key, self.op, self.gated = key, op, gated
        self.n = name(key)

    def is_opaque(self, ip, k):
        return k.endswith(("CircuitBreaker::allow_request", "CircuitBreaker::record_success", "CircuitBreaker::record_failure"))

    def lab(self, st, *l):
        st.auto = st.auto | {l}

    def drop(self, st, *kinds):
        st.auto = frozenset(l for l in st.auto if l[0] not in kinds)

    def kinds(self, st, k):
        return [l for l in st.auto if l[0] == k]

    def mine(self, v):
        """the circuit breaker of this very operation"""
        for x in subterms(v):
            if x.op == "call" and name(x.args[0]) in ("get", "entry", "get_mut", "index") and len(x.args[1]) == 2 and tbl(x.args[1][0]) == "circuit_breakers":
                return plainly(x.args[1][1], isin("operation_id"))
        return False

    def limit(self, v):
        return all(plainly(a, lambda x: (x.op == "fld" and x.args[1] == "attempts") or (x.op == "in" and x.args[0] == "attempts"), EXACT) for a in alts(v))

    def on_fact(self, ip, st, t, o, fr, line):
        call = t.args[0] if t.op == "await" else None
        if call is not None and call.op == "call" and name(call.args[0]) == "allow_request" and o is True and self.mine(call.args[1][0]):
            self.drop(st, "gate")
            self.lab(st, "gate", "open")
        q = presence(t)
        if q and q[0] == "circuit_breakers" and o == frozenset(["None"]) and plainly(q[1], isin("operation_id")):
            self.lab(st, "gate", "none")
        if isinstance(o, frozenset) and len(o) == 1 and next(iter(o)) in ("RetryFixed", "RetryExponential", "Fallback", "CircuitBreaker", "FailFast"):
            s = next(iter(o))
            self.drop(st, "strategy", "token")
            self.lab(st, "strategy", s)
            if s == "CircuitBreaker":
                self.drop(st, "gate")
        if isinstance(o, frozenset) and o == frozenset(["Some"]) and turn(t, self.limit):
            self.drop(st, "token")
            self.lab(st, "token", "turn")
        f = cmp_fact(t, o)
        for g in [f, (FLIP[f[0]], f[2], f[1])] if f and f[0] in FLIP else []:
            if g[0] in ("Lt", "Le") and self.limit(g[2]) and not self.limit(g[1]):
                ks = [lit(x) for x in alts(g[1])]
                if ("used", g[1]) not in st.auto and not any(isinstance(k, int) and k < (0 if g[0] == "Lt" else 1) for k in ks):
                    self.drop(st, "token")
                    self.lab(st, "token", "turn")
                    if len(ks) == 1 and ks[0] is not None:
                        self.lab(st, "used", g[1])
        if isinstance(o, frozenset) and outcome_of(t, lambda c: opcall(c, self.op)):
            self.drop(st, "out")
            self.lab(st, "out", "Ok" if o == frozenset(["Ok"]) else "Err")

    def on_call(self, ip, st, c):
        if c.args and OPCALL.search(path_of(c)) and contains(c.args[0], lambda x: x.op == "in" and x.args[0] == self.op):
            w = where(c.frame, c.line)
            tr = backtrace(c.frame, c.line)
            site = (self.n, w)
            strat = next((l[1] for l in self.kinds(st, "strategy")), "first")
            self.ctx.test(("out", "Ok") not in st.auto, "result", site + ("again",), f"again:{self.n}", w, "the operation is run again after it succeeded", tr)
            if self.gated:
                self.ctx.test(bool(self.kinds(st, "gate")), "open", site, f"gate:{root_fn(c.frame.key).rsplit('::', 1)[-1]}", w, "the operation can be run without its circuit breaker having been asked (or found open)", tr)
            first = self.gated and ("first",) not in st.auto
            gate = strat == "CircuitBreaker" and bool(self.kinds(st, "gate")) and ("breaker-run",) not in st.auto
            self.ctx.test(first or gate or bool(self.kinds(st, "token")), "bounded", site, f"unbounded:{root_fn(c.frame.key).rsplit('::', 1)[-1]}", w, "the operation can be run again without a turn of a loop bounded by the configured number of attempts", tr)
            loose = endless(self.ctx.F, c.frame, c.block)
            self.ctx.test(not loose, "bounded", site + ("counted",), f"endless:{root_fn(c.frame.key).rsplit('::', 1)[-1]}", w, f"the operation can be run again in {root_fn(loose[0].key) if loose else ''} without the attempt being counted", tr)
            self.lab(st, "first")
            if strat == "CircuitBreaker":
                self.lab(st, "breaker-run")
                self.lab(st, "owed")
            elif ("gate", "open") in st.auto and first:
                self.lab(st, "owed-ok")
            self.drop(st, "token", "out")
            if strat == "CircuitBreaker":
                self.drop(st, "gate")

    def on_await(self, ip, st, fut, fr, line):
        if fut.op == "call" and name(fut.args[0]) in ("record_success", "record_failure"):
            good = {"record_success": "Ok", "record_failure": "Err"}[name(fut.args[0])]
            w = where(fr, line)
            self.ctx.test(self.mine(fut.args[1][0]), "recorded", (self.n, w, "own"), "other-breaker", w, "an outcome is recorded in a circuit breaker that is not this operation's own", backtrace(fr, line))
            self.ctx.test(("out", good) in st.auto, "recorded", (self.n, w, "kind"), f"recorded-as:{name(fut.args[0])}", w, f"{name(fut.args[0])} is called although the outcome was not {good}", backtrace(fr, line))
            self.drop(st, "owed", "owed-ok")

    def on_return(self, ip, st, v):
        at = f"{self.ctx.F.bodies[self.key]['file']}:{self.ctx.F.bodies[self.key]['line']} in {self.n}"
        self.ctx.test(("owed",) not in st.auto and not (("owed-ok",) in st.auto and ("out", "Ok") in st.auto and not self.kinds(st, "strategy")), "recorded", (self.n, "end"), "unrecorded", at, "an attempt guarded by the circuit breaker ends without its outcome being recorded")
        won = lambda x: okof(x) is not None and x.args[0].args[1] == "Ok" and outcome_of(okof(x), lambda c: opcall(c, self.op))
        for a in alts(v):
            if is_adt(a, "Result") and a.args[1] == "Ok":
                for x in alts(a.args[3][0]):
                    good = won(x) or (x.op != "agg" and contains(x, lambda y: y.op == "call" and name(y.args[0]) == "recover"))
                    self.ctx.test(good and (("out", "Ok") in st.auto or not won(x)), "result", (self.n, "Ok"), f"ok:{self.n}", at, f"{self.n} succeeds with `{show(x)[:120]}`, which no run of the operation produced")
            elif is_adt(a, "Result"):
                self.ctx.test(("out", "Ok") not in st.auto, "result", (self.n, "Err"), f"err:{self.n}", at, f"{self.n} fails after the operation succeeded")


class Reconnect(Labels):
    """reconnect_with"""

    def is_opaque(self, ip, k):
        return k.endswith(("::should_reconnect", "::on_connected", "::on_connection_failed", "::on_connecting", "::calculate_delay")) and "ReconnectManager" in k

    def on_fact(self, ip, st, t, o, fr, line):
        if t.op == "await" and t.args[0].op == "call" and name(t.args[0].args[0]) == "should_reconnect":
            st.auto = frozenset(l for l in st.auto if l[0] != "may") | ({("may",)} if o is True else set())
        if isinstance(o, frozenset) and outcome_of(t, lambda c: opcall(c, "connect")):
            st.auto = frozenset(l for l in st.auto if l[0] not in ("owed", "out")) | {("owed", "on_connected" if o == frozenset(["Ok"]) else "on_connection_failed"), ("out", "Ok" if o == frozenset(["Ok"]) else "Err")}

    def on_call(self, ip, st, c):
        if c.args and OPCALL.search(path_of(c)) and contains(c.args[0], isin("connect")):
            w, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            self.ctx.test(("may",) in st.auto, "bounded", ("reconnect_with", "asked"), "reconnect-asked", w, "a connection is attempted without asking whether it still may be (limit, open circuit) since the last attempt", tr)
            self.ctx.test(not self.sets(st, "owed"), "recorded", ("reconnect_with", "before"), "reconnect-recorded", w, "the outcome of a connection attempt is not recorded before the next one", tr)
            self.ctx.test(("out", "Ok") not in st.auto, "result", ("reconnect_with", "again"), "reconnect-again", w, "connecting is attempted again after it succeeded", tr)
            st.auto = frozenset(l for l in st.auto if l[0] not in ("may", "out"))

    def on_await(self, ip, st, fut, fr, line):
        if fut.op != "call":
            return
        n = name(fut.args[0])
        if n in ("on_connected", "on_connection_failed"):
            self.ctx.test(("owed", n) in st.auto, "recorded", ("reconnect_with", n), f"reconnect-recorded-as:{n}", where(fr, line), f"{n} is called although that was not the attempt's outcome", backtrace(fr, line))
            st.auto = frozenset(l for l in st.auto if l != ("owed", n))
        elif n == "should_reconnect":
            self.ctx.test(not self.sets(st, "owed"), "recorded", ("reconnect_with", "ask"), "reconnect-ask", where(fr, line), "whether to go on is asked before the attempt's outcome is recorded", backtrace(fr, line))

    def on_return(self, ip, st, v):
        at = "src/shared/reconnect.rs in reconnect_with"
        self.ctx.test(not self.sets(st, "owed"), "recorded", ("reconnect_with", "end"), "reconnect-end", at, "the outcome of a connection attempt is not recorded")
        for a in alts(v):
            if is_adt(a, "Result"):
                self.ctx.test((a.args[1] == "Ok") == (("out", "Ok") in st.auto), "result", ("reconnect_with", a.args[1]), f"reconnect-{a.args[1]}", at, f"reconnect_with returns {a.args[1]} although the last attempt's outcome was different")
            else:
                got = outcome_of(a, lambda c: opcall(c, "connect"))
                self.ctx.test(got, "result", ("reconnect_with", "?"), "reconnect-other", at, f"reconnect_with returns `{show(a)[:80]}`")


class Should(Labels):
    def left(self, t, o):
        """fact: retries are left"""
        f = oriented(cmp_fact(t, o), lambda v: tbl(v) == "retry_count" or contains(v, of_field("retry_count")) and not of_field("max_retries")(v), of_field("max_retries"))
        return f is not None and f[0] == "Lt"

    def on_fact(self, ip, st, t, o, fr, line):
        if t.op == "call" and name(t.args[0]) == "load" and tbl(t.args[1][0]) == "enabled" and isinstance(o, bool):
            self.add(st, "enabled", o)
        if isinstance(o, frozenset) and tbl(t) == "state":
            known = self.sets(st, "state")
            o = o & known[0][1] if known else o
            st.auto = frozenset(l for l in st.auto if l[0] != "state") | {("state", o)}
        if isinstance(o, frozenset) and o == frozenset(["None"]) and plainly(t, lambda x: x.op == "fld" and x.args[1] == "max_retries"):
            self.add(st, "left")
        if isinstance(o, bool) and self.left(t, o):
            self.add(st, "left")
        e = elapsed("circuit_opened_at", "circuit_breaker_timeout")(t, o)
        if e is not None:
            self.add(st, "elapsed", e)

    def on_return(self, ip, st, v):
        at = "src/shared/reconnect.rs in should_reconnect"
        s = next((l[1] for l in self.sets(st, "state")), None)
        for a in alts(v):
            if lit(a) is False:
                continue
            t = self.ctx.test
            k = tuple(sorted(s or ()))
            t(("enabled", True) in st.auto, "open", ("should_reconnect", "enabled", k), "reconnect-enabled", at, "a reconnection can be allowed although reconnecting is disabled")
            t(s is not None and not s & {"Connected", "Connecting"}, "open", ("should_reconnect", "idle", k), "reconnect-idle", at, "a reconnection can be allowed while connected or connecting")
            t(("left",) in st.auto or self.left(a, True), "bounded", ("should_reconnect", "limit", k), "reconnect-limit", at, f"a reconnection can be allowed (`{show(a)[:60]}`) without the retry count being below the configured maximum")
            if s is None or "CircuitOpen" in s:
                t(("elapsed", True) in st.auto, "open", ("should_reconnect", "circuit", k), "reconnect-circuit", at, "an open circuit can let a reconnection through before its timeout has passed")


class Counters(Labels):
    """every other function of ReconnectManager: how the retry counter and the circuit move"""

    def __init__(self, ctx, key):
        super().__init__(ctx)
        self.key, self.n = key, name(key)

    def on_fact(self, ip, st, t, o, fr, line):
        if isinstance(o, frozenset) and tbl(t) == "state":
            self.add(st, "state", o)
        if t.op == "fld" and t.args[1] == "reset_on_success" and isinstance(o, bool):
            self.add(st, "reset_on_success", o)
        e = elapsed("last_success", "success_threshold")(t, o)
        if e is not None:
            self.add(st, "long", e)
        if isinstance(o, frozenset) and o == frozenset(["None"]) and plainly(t, lambda x: x.op == "fld" and x.args[1] == "circuit_breaker_threshold"):
            self.add(st, "reached", "none")
        r = reached(t, o, "failure_count", "circuit_breaker_threshold")
        if r is not None:
            self.add(st, "reached", r)

    def after_call(self, ip, st, c, res):
        if not c.args or tbl(c.args[0]) not in ("retry_count", "failure_count"):
            return
        n, k, w = tbl(c.args[0]), tail(c), where(c.frame, c.line)
        if k in ("load", "fmt", "deref", "debug"):
            return
        if k == "fetch_add" and lit(c.args[1]) == 1:
            self.add(st, "counted", n)
            return
        if k == "store" and lit(c.args[1]) == 0:
            if n == "failure_count":
                ok = self.n in ("on_connected", "reset")
            else:
                ok = self.n == "reset" or (self.n == "on_connected" and ("reset_on_success", True) in st.auto) or (("long", True) in st.auto and ("state", frozenset(["Connected"])) in st.auto)
            self.ctx.test(ok, "bounded", (self.n, n, "reset"), f"{self.n}:{n}:reset", w, f"{self.n} starts counting {n.replace('_', ' ')} anew without a (long enough) connection having succeeded", backtrace(c.frame, c.line))
            return
        self.ctx.bad("bounded", (self.n, n, k), f"{self.n}:{n}:{k}", w, f"{self.n} changes {n} through {k}({', '.join(show(a)[:40] for a in c.args[1:])})", backtrace(c.frame, c.line))

    def on_store(self, ip, st, base, f, v, fr, line):
        if tbl(base) == "state":
            v = ip.snap(st, v)
            st.auto = frozenset(l for l in st.auto if l[0] != "now") | {("now", v.args[1] if v.op == "agg" else "?")}
        elif tbl(base) == "circuit_opened_at":
            v = ip.snap(st, v)
            st.auto = frozenset(l for l in st.auto if l[0] != "at") | {("at", is_adt(v, "Option") and v.args[1] == "Some" and is_now(v))}

    def on_return(self, ip, st, v):
        at = f"src/shared/reconnect.rs in {self.n}"
        t = self.ctx.test
        now = next((l[1] for l in self.sets(st, "now")), None)
        if self.n == "on_connection_failed":
            t(("counted", "retry_count") in st.auto, "recorded", (self.n, "retry"), "failed-retry-count", at, "a failed connection attempt is not counted as a retry")
            t(("counted", "failure_count") in st.auto, "recorded", (self.n, "failure"), "failed-failure-count", at, "a failed connection attempt is not counted as a failure")
            r = {l[1] for l in self.sets(st, "reached")}
            t(len(r) == 1 and "odd" not in r, "recorded", (self.n, "threshold"), "failed-threshold", at, "whether the circuit opens is not decided by comparing the counted failures with the configured threshold")
            if True in r:
                t(now == "CircuitOpen" and ("at", True) in st.auto, "recorded", (self.n, "opens"), "failed-opens", at, "reaching the threshold of failures does not open the circuit with the time noted")
        if now == "CircuitOpen":
            t(("at", True) in st.auto, "recorded", (self.n, "since"), f"{self.n}:since", at, "the circuit is opened without noting when")
        if self.n == "on_connected":
            t(now == "Connected", "recorded", (self.n, "state"), "connected-state", at, f"after a successful connection the state is {now}")


def c37(ctx):
    F = ctx.F
    ctx.rule("open", "an attempt is made only after the operation's circuit breaker (or the reconnection gate) let it through, and an open one lets nothing through before its timeout")
    ctx.rule("breaker", "the circuit opens exactly when the counted failures reach the threshold (and on a failure while half-open), and closes only after the configured number of successes")
    ctx.rule("recorded", "every guarded attempt's outcome is recorded, as what it was")
    ctx.rule("bounded", "after the first attempt, each further one takes a turn of the configured number of attempts (or a reconnection the retry limit allows)")
    ctx.rule("result", "success is reported exactly when an attempt succeeded, and no attempt is made after that")
    for k in methods(F, "recovery::CircuitBreaker"):
        if name(k) in ("allow_request", "record_success", "record_failure"):
            run_entry(ctx, Breaker(ctx, k), k)
    run_entry(ctx, (e := Executor(ctx, need1(F, "RecoveryExecutor::execute_with_recovery"), "operation", True)), e.key)
    run_entry(ctx, (e := Executor(ctx, need1(F, "recovery::with_retry"), "operation", False)), e.key)
    run_entry(ctx, Reconnect(ctx), need1(F, "ReconnectManager::reconnect_with"))
    run_entry(ctx, Should(ctx), need1(F, "ReconnectManager::should_reconnect"))
    for k in methods(F, "reconnect::ReconnectManager"):
        if name(k) not in ("reconnect_with", "should_reconnect"):
            run_entry(ctx, Counters(ctx, k), k)
    ctx.floor("open", 8)
    ctx.floor("breaker", 8)
    ctx.floor("recorded", 10)
    ctx.floor("bounded", 6)
    ctx.floor("result", 6)


CHECKS = {"C37": c37}
