"""Transports: C19 closed, C20 framing, C22 allocation, C40 HTTP client requests, C45 delivery"""
from lib import *

SELF = lambda v: v.op == "in" and v.args[0] == "self"
LOCKS = ("lock", "read", "write", "try_lock", "try_read", "try_write", "blocking_lock")


def owner(key):
    """type that a trait method implementation is for: <T as Trait>::m"""
    return re.match(r"<(.*?) as ", key).group(1)


def sname(key):
    return owner(key).rsplit("::", 1)[-1]


def root_field(v):
    """the field of self a term is rooted in: self.F, possibly behind locks, awaits, option payloads"""
    for x in subterms(v):
        if x.op == "fld" and SELF(x.args[0]):
            return x.args[1]
    return None


def direct_field(v):
    """v is (the locked content of) self.F"""
    c = coll(v)
    if c.op == "fld" and SELF(c.args[0]):
        return c.args[1]
    return None


def transports(F):
    sends = impls(F, "Transport", "send")
    if len(sends) < 4:
        raise Anchor(f"Transport implementations ({len(sends)} found)")
    return [(owner(k), {m: next(x for x in impls(F, "Transport", m) if owner(x) == owner(k)) for m in ("send", "receive", "close", "is_connected")}) for k in sends]


def connectionless(ctx, key):
    vals = set()

    class R(PathRule):
        def on_return(self, ip, st, v):
            vals.add(lit(v))

    ip = Interp(ctx.F, R(ctx))
    ip.run(key)
    return vals == {True}


class Live(Labels):
    """labels: ("live", F) field F says open; ("dead", F); ("closed", F) stored the closed value"""

    CLOSED_CALLS = ("is_closed",)

    def on_fact(self, ip, st, t, o, fr, line):
        one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
        if isinstance(o, bool) and t.op == "call" and t.args[1]:
            n = t.args[0].rsplit("::", 1)[-1]
            f = direct_field(t.args[1][0])
            if f and n in ("load", "is_closed"):
                self.add(st, "dead" if o else "live", f)
        if isinstance(o, bool) and direct_field(t):
            # a boolean flag `connected`/`closed` behind a lock or read directly
            self.add(st, "flag", direct_field(t), o)
        if one and t.op in ("await", "call", "fld") and direct_field(t):
            self.add(st, "variant", direct_field(t), one)
        if one in ("Ok", "Err", "None", "Some") and t.op == "await":
            self.add(st, "awaited", t.args[0].args[0].rsplit("::", 1)[-1] if t.args[0].op == "call" else "?", one)
        e = eqfact(t, o)
        if e:
            for a, b in (e, e[::-1]):
                if lit(b) == 0 and contains(a, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("read_line", "read_until", "read", "read_buf")):
                    self.add(st, "eof")

    def after_call(self, ip, st, c, res):
        n = tail(c)
        if n in ("store", "swap") and c.args and direct_field(c.args[0]) and len(c.args) > 1:
            self.add(st, "stored", direct_field(c.args[0]), lit(c.args[1]))
        if n == "close" and c.args and direct_field(c.args[0]):
            self.add(st, "stored", direct_field(c.args[0]), "closed")
            # the peer half of a channel created together
            self.add(st, "chan-closed")

    def on_store(self, ip, st, base, f, val, fr, line):
        if fr is None:
            return
        fld = direct_field(base) if f == "*" else (f if SELF(base) else None)
        if fld:
            v = ip.snap(st, val)
            self.add(st, "stored", fld, v.args[1] if v.op == "agg" else lit(v))


def c19(ctx):
    F = ctx.F
    ctx.rule("mark", "close stores, on every path, a value that the gates of send and receive recognise as closed")
    ctx.rule("send-gate", "send touches the underlying stream only after having found the transport open")
    ctx.rule("receive-gate", "receive touches the underlying stream only after having found the transport open")
    ctx.rule("refused", "a send or receive that finds the transport closed fails")
    ctx.rule("eof", "end of input marks the transport as closed and is reported as an error")
    n_conn = 0
    for ty, m in transports(F):
        nm = ty.rsplit("::", 1)[-1]
        if connectionless(ctx, m["is_connected"]):
            ctx.ok("mark", (nm, "connectionless"), m["is_connected"])
            continue
        n_conn += 1
        marks = {}  # field -> values stored, over all paths

        class Close(Live):
            def on_return(self, ip, st, v):
                got = {}
                for l in st.auto:
                    if l[0] == "stored":
                        got.setdefault(l[1], set()).add(l[2])
                marks.setdefault("paths", []).append((frozenset((f, x) for f, xs in got.items() for x in xs), self.has(st, "chan-closed")))

        run_entry(ctx, Close(ctx), m["close"])
        paths = marks.get("paths", [])
        if not paths:
            raise Anchor(f"paths of {nm}::close")
        always = frozenset.intersection(*[p[0] for p in paths])
        chan = all(p[1] for p in paths)
        ctx.test(bool(always), "mark", nm, f"{nm}:close", f"{m['close']}", f"{nm}::close can return without having marked the transport as closed (paths store {sorted(map(sorted, (map(str, p[0]) for p in paths)))})")

        def open_known(st, L):
            """some label says a field is in a state incompatible with one that close always stores"""
            for l in st.auto:
                if l[0] == "live":
                    f = l[1]
                    if (f, True) in always or (chan and any(v == "closed" for _, v in always)):
                        return True
                if l[0] == "flag" and (l[1], not l[2]) in always:
                    return True
                if l[0] == "variant":
                    vs = {v for f, v in always if f == l[1]}
                    if vs and l[2] not in vs and vs != {"closed"}:
                        return True
            return False

        def dead_known(st):
            for l in st.auto:
                if l[0] == "dead":
                    return True
                if l[0] == "variant" and (l[1], l[2]) in always:
                    return True
            return False

        for which in ("send", "receive"):
            touched = [0]

            class R(Live):
                def on_await(self, ip, st, fut, fr, line):
                    if fut.op != "call":
                        return
                    n = fut.args[0].rsplit("::", 1)[-1]
                    if n in LOCKS or not any(root_field(a) for a in fut.args[1]):
                        return
                    if n == "recv" and chan and any((direct_field(a), "closed") in always for a in fut.args[1]):
                        # a closed channel refuses by itself
                        touched[0] += 1
                        ctx.ok(f"{which}-gate", (nm, n), where(fr, line))
                        return
                    touched[0] += 1
                    ctx.test(open_known(st, self), f"{which}-gate", (nm, n), f"{nm}:{which}:{n}", where(fr, line), f"{nm}::{which} uses the stream ({n}) without having found the transport open", backtrace(fr, line))

                def on_return(self, ip, st, v):
                    ok = [a for a in alts(v) if not (is_adt(a, "Result") and a.args[1] == "Err")]
                    if dead_known(st) and not open_known(st, self):
                        ctx.test(not ok, "refused", (nm, which), f"{nm}:{which}:refused", ip.root.where(), f"{nm}::{which} can succeed although the transport was found closed")
                    if self.has(st, "eof"):
                        ctx.test(not ok, "eof", (nm, "error"), f"{nm}:eof:error", ip.root.where(), f"{nm}::{which} can succeed at the end of input")
                        mark = any(l[0] == "stored" and (l[1], l[2]) in always for l in st.auto)
                        ctx.test(mark, "eof", (nm, "mark"), f"{nm}:eof:mark", ip.root.where(), f"{nm}::{which} reports the end of input without marking the transport as closed")
                    if ("awaited", "recv", "None") in st.auto:
                        ctx.test(not ok, "eof", (nm, "channel"), f"{nm}:eof:channel", ip.root.where(), f"{nm}::{which} can succeed although its channel has ended")
                    if which == "send" and ok and not touched[0]:
                        ctx.test(open_known(st, self), f"{which}-gate", (nm, "result"), f"{nm}:{which}:result", ip.root.where(), f"{nm}::{which} can succeed without having found the transport open")

            run_entry(ctx, R(ctx), m[which])
    if n_conn < 4:
        raise Anchor(f"connection-holding transports ({n_conn})")
    ctx.floor("mark", 5)
    ctx.floor("send-gate", 4)
    ctx.floor("receive-gate", 4)
    ctx.floor("refused", 5)
    ctx.floor("eof", 3)


# --------------------------------------------------------------------------- C20


def serialized(v, seen=0):
    """v is the whole output of a serializer (in every alternative)"""
    if seen > 12:
        return False
    al = alts(v)
    for a in al:
        if a.op == "phi":
            if not serialized(a, seen + 1):
                return False
            continue
        b = strip_into(strip_mut(a)) if a.op != "mut" else a
        x = okof(b)
        if x is None:
            if b is a or b.op == "top":
                return False
            if not serialized(b, seen + 1):
                return False
            continue
        if x.op == "phi":
            if not all(y.op == "agg" or _ser_call(y, seen) for y in alts(x)):
                return False
            continue
        if not _ser_call(x, seen):
            return False
    return bool(al)


def _ser_call(x, seen):
    if x.op == "await":
        x = x.args[0]
    if x.op != "call":
        return False
    n = x.args[0].rsplit("::", 1)[-1]
    if n in ("from_utf8", "map_err"):
        a = x.args[1][0]
        return serialized(a, seen + 1) or (n == "map_err" and _ser_call(a, seen + 1))
    return n in ("to_vec", "to_string") and "serde_json" in x.args[0] or x.args[0] in SERIALIZERS


SERIALIZERS = set()


PARSERS = set()


def parsers(F):
    """functions from received bytes to a message"""
    PARSERS.clear()
    for k, b in F.bodies.items():
        if b["kind"] == "fn" and re.match(r"std::result::Result<[\w:]*transport::TransportMessage,", b["locals"][0]) and b["args"] == 1 and b["locals"][1] in ("&[u8]", "&str", "&std::string::String", "&std::vec::Vec<u8>"):
            PARSERS.add(k)
    return PARSERS


def serializers(F):
    """functions from a message to its serialized bytes: kept as one step, and checked on their own"""
    SERIALIZERS.clear()
    for k, b in F.bodies.items():
        if b["kind"] == "fn" and b["args"] == 1 and b["locals"][1].lstrip("&").endswith("transport::TransportMessage") and re.match(r"std::result::Result<(std::vec::Vec<u8>|std::string::String),", b["locals"][0]):
            SERIALIZERS.add(k)
    return SERIALIZERS


WRITES = ("write_all", "write", "write_vectored", "write_buf", "write_all_buf")


def base_guard(v):
    return strip_mut(v)


def c20(ctx):
    F = ctx.F
    ctx.rule("header", "the first thing written is `Content-Length: `, the byte count of the body that follows, and an empty line")
    ctx.rule("whole", "a function from a message to its serialized bytes returns the serializer's whole output")
    ctx.rule("body", "then the whole serialized message is written, through the same lock guard")
    ctx.rule("flush", "and flushed through that guard, before it is given up")
    ctx.rule("reported", "success is returned only if every write and the flush were found to have succeeded")
    ctx.rule("frame", "on WebSocket connections each message is sent as one text frame holding the whole serialized message")
    ctx.rule("exclusive", "nothing else in the library writes to standard output")
    ctx.rule("delivered", "send returns success only after the message was handed to the underlying stream or its writer task")
    key = next((k for k in impls(F, "Transport", "send") if any("stdio" in x.lower() for x in (owner(k),))), None)
    if key is None:
        raise Anchor("StdioTransport::send")

    for k in sorted(serializers(F)):

        class Ser(PathRule):
            def on_return(self, ip, st, v):
                for a in alts(v):
                    if is_adt(a, "Result") and a.args[1] == "Err":
                        continue
                    x = a.args[3][0] if is_adt(a, "Result") else None
                    good = serialized(x) if x is not None else _ser_call(a, 0)
                    ctx.test(good, "whole", k, f"{k}", ip.root.where(), f"{k} returns `{show(a)[:120]}`, not the whole output of the serializer")

        run_entry(ctx, Ser(ctx), k)

    class R(Labels):
        n = 0

        def is_opaque(self, ip, k):
            return k in SERIALIZERS or k in PARSERS

        def after_call(self, ip, st, c, res):
            n = tail(c)
            if "AsyncWrite" not in path_of(c) or n not in WRITES + ("flush",):
                return
            site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            g = base_guard(c.args[0])
            locked = contains(g, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "lock")
            prev = {l[1] for l in self.sets(st, "guard")}
            ctx.test(locked and (not prev or prev == {g}), "body" if prev else "header", ("guard", c.line), f"guard:{n}", site, f"the output stream is used through a different hold of its lock than the part of the message written before it: {show(g)[:80]}", tr)
            self.add(st, "guard", g)
            ctx.test(not self.has(st, "released"), "flush", ("released", n), f"released:{n}", site, "the output lock was given up in the middle of a message", tr)
            if n == "flush":
                done = self.has(st, "body-written")
                ctx.test(done, "flush", "after-body", "flush:early", site, "the stream is flushed before the body was written", tr)
                if done:
                    self.add(st, "flushed")
                self.add(st, "due", c.site)
                return
            ctx.test(n == "write_all", "reported", ("whole", n), f"partial:{n}", site, f"{n} may write only a part of the message", tr)
            self.add(st, "due", c.site)
            self.written(st, c.args[1], site, tr)

        def written(self, st, data, site, tr):
            a = data
            if a.op == "mut":  # assembled in a buffer
                parts = [p for cal, args in a.args[1] for p in args if cal.rsplit("::", 1)[-1] in ("extend_from_slice", "push_str", "extend", "append", "write_all")]
            else:
                parts = [a]
            pieces = []
            for p in parts:
                pieces += fmt_pieces(p)
            bodies = [x for k, x in pieces if k == "arg" and serialized(x)]
            text = []
            for k, x in pieces:
                if k == "lit":
                    text.append(x)
                elif const_is(x, "CONTENT_LENGTH_HEADER"):
                    text.append("Content-Length: ")
                elif x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "len" and serialized(x.args[1][0]):
                    text.append("<LEN>")
                    self.add(st, "len-of", strip_into(x.args[1][0]))
                elif not serialized(x):
                    text.append("?")
            t = "".join(text)
            if t:
                okh = t == "Content-Length: <LEN>\r\n\r\n"
                ctx.test(okh and not self.has(st, "header-written"), "header", "text", "header:text", site, f"the header written is {t!r}, not the body's byte count in a Content-Length header", tr)
                self.add(st, "header-written")
            for b in bodies:
                same = any(l[1] is strip_into(b) for l in self.sets(st, "len-of"))
                ctx.test(self.has(st, "header-written") and same, "body", "text", "body:text", site, "the body is written without its own length having been announced", tr)
                ctx.test(not self.has(st, "body-written"), "body", "once", "body:twice", site, "the body is written twice", tr)
                self.add(st, "body-written")
            self.n += 1

        def on_drop(self, ip, st, val, fr, line):
            if any(l[1] is base_guard(val) for l in self.sets(st, "guard")) and not self.has(st, "flushed"):
                self.add(st, "released")

        def on_fact(self, ip, st, t, o, fr, line):
            one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
            if one in ("Ok", "Err") and t.op in ("await", "call"):
                c = t.args[0] if t.op == "await" else t
                if c.op == "call" and c.args[0].rsplit("::", 1)[-1] in WRITES + ("flush",):
                    st.auto = frozenset(l for l in st.auto if not (l[0] == "due" and l[1] == c.args[2]))
                    if one == "Err":
                        self.add(st, "failed")

        def on_return(self, ip, st, v):
            site = ip.root.where()
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                ctx.test(self.has(st, "header-written") and self.has(st, "body-written") and self.has(st, "flushed"), "reported", "complete", "incomplete", site, "send can succeed without header, body and flush all having been issued")
                due = [l for l in self.sets(st, "due") if not (not is_adt(a, "Result") and contains(a, lambda x: x.op == "call" and len(x.args) > 2 and x.args[2] == l[1]))]
                ctx.test(not due, "reported", "checked", "unchecked", site, "send can succeed without the outcome of a write having been looked at")
                ctx.test(not self.has(st, "failed"), "reported", "failed", "failed", site, "send can succeed although a write failed")

    r = R(ctx)
    run_entry(ctx, r, key)
    if not r.n:
        raise Anchor("writes of StdioTransport::send")
    # frames
    frames = [0]

    parsers(F)

    class W(Labels):
        max_depth = 10

        def is_opaque(self, ip, k):
            return k in SERIALIZERS or k in PARSERS

        def on_agg(self, ip, st, v, fr, line):
            if isinstance(v.args[0], str) and v.args[0].endswith("tungstenite::Message") and v.args[1] in ("Text", "Binary"):
                frames[0] += 1
                x = ip.snap(st, v.args[3][0])
                y = strip_into(x)
                good = v.args[1] == "Text" and serialized(y)
                ctx.test(good, "frame", root_fn(fr.key).rsplit("::", 1)[-1], f"frame:{root_fn(fr.key).rsplit('::',1)[-1]}", where(fr, line), f"a frame is sent with payload `{show(x)[:120]}`, not one whole serialized message", backtrace(fr, line))

    for k in [k for k, b in F.bodies.items() if b["kind"] == "fn" and re.search(r"WebSocket\w*Transport", k) and any(F.bodies[x]["kind"] == "coroutine" for x in F.kids(k))]:
        run_entry(ctx, W(ctx), k, inline_spawn=True, cap=8)
    if not frames[0]:
        raise Anchor("text frames sent on WebSocket connections")
    # exclusive stdout
    for k, b in F.bodies.items():
        if b["kind"] == "std":
            continue
        for bb in b["blocks"]:
            if bb and bb["t"]["k"] == "call":
                f = bb["t"]["f"]
                if f[0] != "k":
                    continue
                fn = f[1].get("fn", "")
                if fn in ("std::io::_print", "std::io::stdout", "tokio::io::stdout"):
                    ok = "StdioTransport" in root_fn(k) and fn == "tokio::io::stdout"
                    ctx.test(ok, "exclusive", (root_fn(k), fn), f"{root_fn(k)}:{fn}", f"{b['file']}:{bb['t']['l']} in {root_fn(k)}", f"{root_fn(k)} writes to standard output, which carries protocol messages")
                if "stdio" in b["file"] and fn.rsplit("::", 1)[-1] in WRITES and "AsyncWrite" in fn:
                    ctx.ok("exclusive", (root_fn(k), bb["t"]["l"]), f"{b['file']}:{bb['t']['l']}")
    ctx.floor("exclusive", 1)
    # delivered
    for ty, m in transports(F):
        nm = ty.rsplit("::", 1)[-1]

        class D(Labels):
            def on_await(self, ip, st, fut, fr, line):
                self.handed(st, fut)

            def after_call(self, ip, st, c, res):
                self.handed(st, res)

            def handed(self, st, fut):
                if fut.op == "call":
                    n = fut.args[0].rsplit("::", 1)[-1]
                    msg = lambda x: x.op == "in" and x.args[0] in ("message", "msg")
                    if n in WRITES + ("send", "request", "try_send", "body", "execute") and any(contains(a, msg) for a in fut.args[1]):
                        self.add(st, "handed")

            def on_return(self, ip, st, v):
                for a in alts(v):
                    if is_adt(a, "Result") and a.args[1] == "Err":
                        continue
                    ctx.test(self.has(st, "handed"), "delivered", nm, f"{nm}:send", ip.root.where(), f"{nm}::send can report success without having handed the message to anything")

        run_entry(ctx, D(ctx), m["send"])
    ctx.floor("delivered", 5)
    ctx.floor("header", 2)
    ctx.floor("body", 3)
    ctx.floor("flush", 2)
    ctx.floor("reported", 3)


# --------------------------------------------------------------------------- C22

SIZED = {"with_capacity": 0, "with_capacity_in": 0, "try_with_capacity": 0, "from_elem": 1, "reserve": 1, "reserve_exact": 1, "try_reserve": 1, "resize": 1, "resize_with": 1, "zeroed": 0, "repeat": 1, "grow": 1, "set_len": 1}
SIZED_OWNER = re.compile(r"(Vec|String|BytesMut|Bytes|VecDeque|HashMap|HashSet|BytesMut|IndexMap|vec::|str>|\[T\])")
INTS = ("usize", "u64", "u32", "i64", "i32", "isize", "u16", "i16", "u128", "i128")


def size_arg(path, args):
    n = path.rsplit("::", 1)[-1]
    if n not in SIZED or not SIZED_OWNER.search(path) or len(args) <= SIZED[n]:
        return None
    return args[SIZED[n]]


def is_parsed(x):
    """a number decoded from received text or bytes"""
    if x.op != "call":
        return False
    p, n = x.args[0], x.args[0].rsplit("::", 1)[-1]
    return (n in ("parse", "from_str_radix", "from_be_bytes", "from_le_bytes", "from_ne_bytes", "from_str") and ("str" in p or "num" in p or "FromStr" in p)) or (n in ("as_u64", "as_i64", "as_f64", "get_u32", "get_u64", "get_u16", "read_u32", "read_u64", "read_u16", "read_u32_le", "read_u64_le", "content_length", "size_hint") and ("serde_json" in p or "bytes::" in p or "tokio" in p or "reqwest" in p or "http_body" in p))


def unbounded(st, v):
    """a parsed number in v that no min() and no branch fact bounds from above"""
    bounded = set()
    for t, o in st.facts.items():
        if t.op == "op" and isinstance(o, bool) and t.args[0] in ("Lt", "Le", "Gt", "Ge"):
            a, b, op = t.args[1], t.args[2], t.args[0]
            small, big = (a, b) if (op in ("Lt", "Le")) == o else (b, a)
            if not contains(big, is_parsed):
                bounded |= {x for x in subterms(small)} if not arith(small) else {small}

    def go(x):
        if x in bounded:
            return None
        if x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("min", "clamp") and len(x.args[1]) >= 2:
            rs = [go(y) for y in (x.args[1] if x.args[0].endswith("min") else x.args[1][2:3])]
            return None if None in rs else rs[0]
        if is_parsed(x):
            return x
        for a in x.args:
            for b in a if type(a) in (tuple, frozenset) else (a,):
                if type(b) is V:
                    r = go(b)
                    if r is not None:
                        return r
        return None

    return go(v)


def callers_map(F):
    m = {}
    for k, b in F.bodies.items():
        if b["kind"] == "std":
            continue
        for bb in b["blocks"]:
            if bb and bb["t"]["k"] == "call" and bb["t"]["f"][0] == "k":
                f = bb["t"]["f"][1]
                for q in (f.get("res"), f.get("fn"), f.get("key")):
                    if q in F.bodies:
                        m.setdefault(q, set()).add(root_fn(k))
    return m


def c22(ctx):
    F = ctx.F
    ctx.rule("bounded", "the size given to an allocation is not a number decoded from received data, unless it was compared with or clamped to a bound on that path")
    ctx.rule("limits", "a WebSocket connection is set up with the frame and message limits of the transport's configuration")
    sinks = {}
    for k, b in F.bodies.items():
        if b["kind"] == "std":
            continue
        for bb in b["blocks"]:
            if bb and bb["t"]["k"] == "call" and bb["t"]["f"][0] == "k":
                f = bb["t"]["f"][1]
                p = f.get("res") or f.get("fn") or ""
                n = p.rsplit("::", 1)[-1]
                if (n in SIZED and SIZED_OWNER.search(p)) or n.endswith(("_async_with_config", "accept_async", "connect_async", "client_async", "accept_hdr_async")):
                    sinks.setdefault(root_fn(k), 0)
                    sinks[root_fn(k)] += 1
    callers = callers_map(F)
    work = sorted(sinks)
    seen = set(work)
    n_conn = [0]

    class R(PathRule):
        max_depth = 10
        esc = False
        deep = False

        def is_opaque(self, ip, k):
            return not self.deep and root_fn(k) not in want

        def after_call(self, ip, st, c, res):
            p = path_of(c)
            s = size_arg(p, [ip.snap(st, a) for a in c.args])
            n = tail(c)
            if s is not None:
                bad = unbounded(st, s)
                ctx.test(bad is None, "bounded", (root_fn(c.frame.key), n, c.line), f"{root_fn(c.frame.key)}:{n}", where(c.frame, c.line), f"memory is reserved by {n} for a size that was decoded from received data (`{show(s)[:100]}`) and not bounded", backtrace(c.frame, c.line))
                if any(x.op == "in" and x.args[0] != "self" for x in subterms(s)):
                    self.esc = True
            if n.endswith(("accept_async", "accept_hdr_async", "accept_async_with_config", "accept_hdr_async_with_config")):
                n_conn[0] += 1
                good = False
                if n.endswith("_with_config"):
                    cfg = ip.snap(st, c.args[-1])
                    for a in alts(cfg):
                        obj = field(a, "0") if is_adt(a, "Option") and a.args[1] == "Some" else okof(a) or a
                        good = obj is not None and all(limit_of(st, obj, f) for f in ("max_frame_size", "max_message_size"))
                        if not good:
                            break
                ctx.test(good, "limits", root_fn(c.frame.key), f"{root_fn(c.frame.key)}:accept", where(c.frame, c.line), "a WebSocket connection is accepted without the configured frame and message limits", backtrace(c.frame, c.line))

    def from_cfg(v, f):
        return contains(v, lambda z: z.op == "fld" and z.args[1] == f and contains(z.args[0], SELF))

    def limit_of(st, v, f):
        v = strip_mut(v)
        if v.op == "agg":
            y = field(v, f)
            return y is not None and from_cfg(y, f)
        for x in subterms(v):
            if x.op == "call" and x.args[0].rsplit("::", 1)[-1] == f and len(x.args[1]) > 1 and from_cfg(x.args[1][1], f):
                return True
        return any(t.op == "fld" and t.args[1] == f and t.args[0] is v and from_cfg(y, f) for t, y in st.heap.items())

    want = set(work)
    while work:
        k = work.pop()
        if k not in F.bodies:
            continue
        r = R(ctx)
        r.deep = k not in sinks
        run_entry(ctx, r, k, cap=12)
        if r.esc:
            for q in sorted(callers.get(k, ())):
                if q not in seen and len(seen) < 200:
                    seen.add(q)
                    want.add(q)
                    work.append(q)
    ctx.floor("bounded", 4)
    ctx.floor("limits", 1)


# --------------------------------------------------------------------------- C40, C45

BUILD = ("request", "get", "post", "delete", "put", "patch", "head", "builder")


def is_builder(p):
    return ("reqwest" in p and "Client::" in p and p.rsplit("::", 1)[-1] in BUILD) or (p.rsplit("::", 1)[-1] == "builder" and "Request" in p and "http" in p)


def cfg_field(t, name):
    """t is field `name` of something reached from self, or the locked field `name` of self"""
    d = strip_mut(t)
    if d.op == "fld" and d.args[1] == name and contains(d.args[0], lambda x: x.op == "in"):
        return True
    c = coll(d)
    return c.op == "fld" and c.args[1] == name and contains(c.args[0], lambda x: x.op == "in")


def from_field(v, name):
    return contains(v, lambda x: x.op == "fld" and x.args[1] == name)


class Client40(Labels):
    """labels ("is", field, variant) facts; ("h", what) header added since the builder was made; ("m", method)"""

    fields = ("session_id", "protocol_version", "auth_provider")
    extra = ("extra_headers", "headers")
    ctx_rule = True
    opt_token = None

    def on_fact(self, ip, st, t, o, fr, line):
        one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
        if one in ("Some", "None"):
            for f in self.fields:
                if cfg_field(t, f):
                    st.auto = frozenset(l for l in st.auto if l[:2] != ("is", f))
                    self.add(st, "is", f, one)
                    self.add(st, "was", f, one)
            if t.op == "in" and "token" in t.args[0]:
                self.add(st, "is", "resumption_token", one)
            if t.op == "call" and t.args[0].endswith("::next") and any(from_field(a, e) for a in t.args[1] for e in self.extra):
                self.add(st, "loop", one)
                if one == "Some":
                    self.add(st, "owed")
        if isinstance(o, bool) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "is_success" and o:
            self.good(st)
        if isinstance(o, frozenset) and one and t.op == "await":
            pass
        e = eqfact(t, o)
        if e:
            for a, b in (e, e[::-1]):
                n = lit(b)
                if contains(a, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("status", "as_u16")):
                    if isinstance(n, int) and (200 <= n < 300 or (n == 405 and self.method(st) == "GET")):
                        self.good(st)
                    if b.op == "k" and b.args[0].rsplit("::", 1)[-1] in ("OK", "ACCEPTED", "NO_CONTENT", "CREATED"):
                        self.good(st)

    def good(self, st):
        for l in self.sets(st, "sent"):
            self.add(st, "good", l[1])

    def method(self, st):
        m = self.sets(st, "m")
        return m[-1][1] if m else None

    def drop(self, st, *kinds):
        st.auto = frozenset(l for l in st.auto if l[0] not in kinds)

    def after_call(self, ip, st, c, res):
        p, n = path_of(c), tail(c)
        if is_builder(p):
            self.drop(st, "h", "m", "loop", "owed", "sent", "good")
            meth = None
            for a in c.args:
                m = re.search(r"Method::(GET|POST|DELETE|PUT)$", a.args[0]) if a.op == "k" else None
                if m:
                    meth = m.group(1)
            if n in ("get", "post", "delete"):
                meth = n.upper()
            if meth:
                self.add(st, "m", meth)
        if n == "method" and "Builder" in p and len(c.args) > 1:
            m = re.search(r"Method::(GET|POST|DELETE|PUT)$", c.args[1].args[0]) if c.args[1].op == "k" else None
            if m:
                self.add(st, "m", m.group(1))
        if n == "header" and "Builder" in p and len(c.args) > 2:
            k, v = c.args[1], c.args[2]
            nm = hname(k)
            if nm:
                self.add(st, "h", nm)
                for f in self.fields + ("resumption_token",):
                    if from_field(v, f) or (f == "resumption_token" and contains(v, lambda x: x.op == "in" and "token" in x.args[0])):
                        self.add(st, "h", nm, f)
                if nm == "AUTHORIZATION" and has_call(v, "get_access_token"):
                    self.add(st, "h", "bearer")
            if any(from_field(v, e) and from_field(k, e) for e in self.extra):
                self.drop(st, "owed")
        if n == "headers" and "Builder" in p and len(c.args) > 1 and any(from_field(c.args[1], e) for e in self.extra):
            self.add(st, "loop", "None")
        if n == "bearer_auth":
            if has_call(c.args[1], "get_access_token"):
                self.add(st, "h", "bearer")

    def on_call(self, ip, st, c):
        p, n = path_of(c), tail(c)
        if (c.path.endswith("::next") or p.endswith("::next")) and any(from_field(a, e) for a in c.args for e in self.extra) and self.has(st, "owed"):
            self.ctx.bad("extra", self.nm, f"{self.nm}:skipped", where(c.frame, c.line), "one of the configured headers is not added to the request", backtrace(c.frame, c.line))
            self.drop(st, "owed")
        if (n == "send" and "RequestBuilder" in p) or (n == "body" and "Builder" in p and "request" in p) or (n == "execute" and "reqwest" in p):
            self.sending(st, c)
        return None

    def sending(self, st, c):
        site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
        fn = root_fn(c.frame.key).rsplit("::", 1)[-1]
        k = (self.nm, fn, c.line)
        self.n += 1
        self.ctx.test(self.has(st, "loop", "None") and not self.has(st, "owed"), "extra", k, f"{self.nm}:{fn}:extra", site, "the request goes out without all of the configured headers having been added", tr)
        self.add(st, "sent", c.site)
        if self.plain:
            return
        for f, hn, rule in (("session_id", "MCP_SESSION_ID", "session"), ("protocol_version", "MCP_PROTOCOL_VERSION", "version"), ("auth_provider", None, "credentials")):
            absent = self.has(st, "is", f, "None") and not self.has(st, "is", f, "Some")
            have = self.has(st, "h", hn, f) if hn else self.has(st, "h", "bearer")
            self.ctx.test(absent or have, rule, k, f"{self.nm}:{fn}:{rule}", site, f"the request goes out without its {rule} header although there may be one to send", tr)
        if self.has(st, "is", "resumption_token", "Some") and self.method(st) == "GET":
            self.ctx.test(self.has(st, "h", "LAST_EVENT_ID", "resumption_token"), "resume", k, f"{self.nm}:{fn}:resume", site, "the stream is reopened without the Last-Event-ID that was asked for", tr)

    def on_store(self, ip, st, base, f, val, fr, line):
        if self.plain or fr is None:
            return
        if f == "session_id" or (f == "*" and coll_name(base) == "session_id"):
            v = ip.snap(st, val)
            for a in alts(v):
                none = is_adt(a, "Option") and a.args[1] == "None"
                param = a.op == "in"
                hdr = contains(a, lambda x: header_of(x, "MCP_SESSION_ID")) and has_call(a, "headers")
                self.ctx.test(none or param or hdr, "learned", (root_fn(fr.key), line), f"{root_fn(fr.key)}:session", where(fr, line), f"the session ID is set to `{show(a)[:100]}`, which is not from the server's session header", backtrace(fr, line))
                if none:
                    self.add(st, "cleared")
        if f == "*" and coll_name(base) == "protocol_version":
            v = ip.snap(st, val)
            for a in alts(v):
                ok = (is_adt(a, "Option") and a.args[1] == "None") or a.op == "in" or contains(a, lambda x: header_of(x, "MCP_PROTOCOL_VERSION"))
                self.ctx.test(ok, "learned", (root_fn(fr.key), line), f"{root_fn(fr.key)}:version", where(fr, line), f"the protocol version is set to `{show(a)[:100]}`, which is not from the server's version header", backtrace(fr, line))

    def on_return(self, ip, st, v):
        site = ip.root.where()
        ok = [a for a in alts(v) if not (is_adt(a, "Result") and a.args[1] == "Err")]
        if self.what == "close":
            if self.has(st, "was", "session_id", "Some"):
                self.ctx.test(self.has(st, "cleared"), "forgotten", "close", "close:forgotten", site, "close can return with the session ID still set")
                self.ctx.test(any(l[1] == "DELETE" for l in self.sets(st, "m")), "forgotten", "delete", "close:delete", site, "close can return without having tried to terminate the session on the server")
            return
        if ok and self.sets(st, "sent"):
            bad = [l for l in self.sets(st, "sent") if ("good", l[1]) not in st.auto]
            self.ctx.test(not bad, "status", (self.nm, self.what), f"{self.nm}:{self.what}:status", site, f"{self.what} can succeed although the answer's status was not found to be a success")


def c40(ctx):
    F = ctx.F
    ctx.rule("session", "when a session ID is set, every request carries it in the session header")
    ctx.rule("version", "when a protocol version was negotiated, every request carries it in the version header")
    ctx.rule("credentials", "when an authentication provider is configured, every request carries the token it returns")
    ctx.rule("extra", "every configured header is added to every request")
    ctx.rule("resume", "a reopened stream names the event to resume after")
    ctx.rule("learned", "session ID and protocol version are only ever set from the server's response headers, by the setter, or cleared")
    ctx.rule("forgotten", "close clears the session ID on every path, and asks the server to terminate the session")
    ctx.rule("status", "success is returned only after the answer's status was found to be a success")
    plain_sends = [k for k in impls(F, "Transport", "send") if owner(k).endswith("::HttpTransport")]
    st = "streamable_http::StreamableHttpTransport"
    ents = [(need1(F, st + "::send_with_options"), "send", False), (need1(F, st + "::start_sse"), "start_sse", False)]
    ents += [(k, "close", False) for k in impls(F, "Transport", "close") if owner(k).endswith(st)]
    ents += [(k, "send", True) for k in plain_sends] + [(need1(F, "http::HttpTransport::connect_sse"), "connect_sse", True)]
    ents += [(k, "setter", False) for k, b in F.bodies.items() if b["kind"] == "fn" and (st + "::set_") in k]
    tot = 0
    inner = {k for k, w, _ in ents if w == "start_sse"}
    for key, what, plain in ents:

        class R(Client40):
            pass

        r = R(ctx)
        r.what, r.plain, r.n = what, plain, 0
        r.nm = "http" if plain else "streamable"
        if what == "send":
            r.is_opaque = lambda ip, k: k in inner
        run_entry(ctx, r, key)
        tot += r.n
    ctx.floor("session", 3)
    ctx.floor("version", 3)
    ctx.floor("credentials", 3)
    ctx.floor("extra", 5)
    ctx.floor("resume", 1)
    ctx.floor("learned", 4)
    ctx.floor("forgotten", 2)
    ctx.floor("status", 4)


DECODE = ("from_slice", "from_str", "from_value", "from_reader", "parse_message")


def is_decode(x):
    return x.op == "call" and x.args[0].rsplit("::", 1)[-1] in DECODE


LEAVES_OUT = {"filter", "take", "skip", "step_by", "filter_map", "take_while", "skip_while", "map_while", "find", "find_map", "nth", "last", "zip", "dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut",
              "truncate", "clear", "drain", "split_off", "remove", "swap_remove", "pop", "pop_front", "pop_back", "resize", "sort_unstable_by_key", "first", "chunks_exact", "rev", "reverse", "swap", "sort", "sort_by", "sort_by_key"}


def left_out(a):
    """what is applied to the received elements, as a whole, that drops or rearranges some"""
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call":
            n = x.args[0].rsplit("::", 1)[-1]
            if n == "feed" or is_decode(x):
                continue  # what went in is the parser's
            if n in LEAVES_OUT and x.args[1]:
                return n
        if x.op == "mut":
            todo.append(x.args[0])
            for c, _ in x.args[1]:
                if str(c).rsplit("::", 1)[-1] in LEAVES_OUT:
                    return str(c).rsplit("::", 1)[-1]
            continue
        todo += [b for g in x.args for b in ([g] if type(g) is type(a) else g if type(g) in (tuple, frozenset) else ()) if type(b) is type(a)]
    return None


class Deliver(Labels):
    """every element of a decoded batch and every event of a stream is handed to the receiver's queue"""

    def src(self, t):
        a = t.args[1][0] if t.args[1] else TOP
        if contains(a, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] == "feed"):
            return "event"
        if contains(a, is_decode):
            return "batch"
        return None

    def settle(self, st):
        st.auto = frozenset(l for l in st.auto if l[0] not in ("owed", "typed", "other"))

    def on_fact(self, ip, st, t, o, fr, line):
        one = next(iter(o)) if isinstance(o, frozenset) and len(o) == 1 else None
        if t.op == "call" and t.args[0].endswith("::next") and one:
            k = self.src(t)
            if k and one == "Some":
                lo = left_out(t.args[1][0])
                self.ctx.test(not lo, "each", (self.nm, k, "all"), f"{self.nm}:{k}:{lo}", where(fr, line), f"the received {k} elements go through {lo} first, so some are not delivered in their order", backtrace(fr, line))
                self.n += 1
                self.settle(st)
                self.add(st, "owed", k)
            elif k and one == "None":
                self.add(st, "done", k)
        inner = t.args[0] if t.op == "await" else t
        if one == "Err" and is_decode(inner) and ("owed", "event") in st.auto:
            self.settle(st)
            return
        if t.op == "fld" and t.args[1] == "event" and one == "Some":
            self.add(st, "typed")
        if isinstance(o, bool) and t.op == "op" and t.args[0] in ("Eq", "Ne") and (t.args[0] == "Eq") != o:
            if contains(t, lambda x: lit(x) == "message") and contains(t, lambda x: x.op == "fld" and x.args[1] == "event"):
                self.add(st, "other")
        if ("typed",) in st.auto and ("other",) in st.auto and ("owed", "event") in st.auto:
            self.settle(st)
        if isinstance(o, bool) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] == "is_empty" and o:
            self.add(st, "empty")
        if o is True and t.op == "op" and t.args[0] == "Eq" and {lit(t.args[1]), lit(t.args[2])} & {0, 202, 405} and contains(t, lambda x: x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("len", "as_u16", "status")):
            self.add(st, "empty")

    def after_call(self, ip, st, c, res):
        n = tail(c)
        if n in ("send", "try_send", "blocking_send", "unbounded_send") and "mpsc" in path_of(c) and len(c.args) > 1:
            v = ip.snap(st, c.args[1])
            if contains(v, is_decode):
                self.settle(st)
                self.add(st, "queued")
                self.ctx.ok("each", (self.nm, root_fn(c.frame.key), c.line), where(c.frame, c.line))
        if (n == "send" and "RequestBuilder" in path_of(c)) or (n == "request" and "client::legacy" in path_of(c)):
            self.add(st, "sent")

    def on_call(self, ip, st, c):
        p = path_of(c)
        if (c.path.endswith("::next") or p.endswith("::next")) and self.sets(st, "owed"):
            k = self.src(mk("call", p, tuple(c.args), c.site))
            if k and ("owed", k) in st.auto:
                self.ctx.bad("each", (self.nm, k), f"{self.nm}:{k}", where(c.frame, c.line), f"a received {k} element is passed over without being handed to the receiver", backtrace(c.frame, c.line))
                self.settle(st)
        return None

    def on_spawn(self, ip, st, task, c):
        self.add(st, "streaming")

    def on_task_end(self, ip, st, v, fr):
        pass

    def on_return(self, ip, st, v):
        ok = [a for a in alts(v) if not (is_adt(a, "Result") and a.args[1] == "Err")]
        if ok and self.has(st, "sent"):
            got = {l[0] for l in st.auto} & {"queued", "done", "streaming", "empty"}
            self.ctx.test(bool(got), "answer", self.nm, f"{self.nm}:answer", ip.root.where(), "the answer's content can be dropped on a path that reports success")
            self.ctx.test(not [l for l in self.sets(st, "owed") if l[1] == "batch"], "each", (self.nm, "left"), f"{self.nm}:left", ip.root.where(), "success is reported with elements of the answer not handed to the receiver")


def c45(ctx):
    F = ctx.F
    ctx.rule("each", "every element of a decoded batch and every message event of an event stream is put into the receiver's queue before the next one is taken")
    ctx.rule("answer", "a request is reported as sent only when the answer's content was put into the receiver's queue, a task was started that does so, or the answer was empty")
    st = "streamable_http::StreamableHttpTransport"
    ents = [(need1(F, st + "::send_with_options"), "streamable:send"), (need1(F, st + "::start_sse"), "streamable:stream"), (need1(F, "http::HttpTransport::connect_sse"), "http:stream")]
    ents += [(k, "http:send") for k in impls(F, "Transport", "send") if owner(k).endswith("::HttpTransport")]
    parsers(F)
    serializers(F)
    inner = {ents[1][0]}
    loops = 0
    for key, nm in ents:
        r = Deliver(ctx)
        r.nm, r.n = nm, 0
        r.is_opaque = lambda ip, k: k in PARSERS or k in SERIALIZERS or k.endswith("SseParser::feed") or (nm == "streamable:send" and k in inner)
        run_entry(ctx, r, key, inline_spawn=True)
        loops += r.n > 0
    if loops < 3:
        raise Anchor(f"loops over received messages ({loops})")
    ctx.floor("each", 6)
    ctx.floor("answer", 4)


CHECKS = {"C45": c45, "C40": c40, "C22": c22, "C19": c19, "C20": c20}
