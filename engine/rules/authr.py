"""OAuth provider and authentication middleware (C14 - C18)"""
from lib import *

P = "OAuthProvider"


def prov(F, m):
    r = impls(F, P, m)
    if not r:
        raise Anchor(f"no implementation of {P}::{m}")
    return r


class Tables(Labels):
    """labels: ("eq", a, b), ("alive", X), ("some"/"none", term), ("true"/"false", call), ("removed", col, key), ("ins", col)"""

    def on_fact(self, ip, st, t, o, fr, line):
        e = eqfact(t, o)
        if e:
            self.add(st, "eq", *e)
        if isinstance(o, bool) and t.op == "op" and t.args[0] == "Eq":
            self.add(st, "cmp", o, t.args[1], t.args[2])
        x = not_expired(t, o)
        if x is not None:
            self.add(st, "alive", x)
        if isinstance(o, frozenset) and len(o) == 1 and (t.op in ("call", "fld", "await", "in")):
            n = next(iter(o))
            if n in ("Some", "None", "Ok", "Err"):
                self.add(st, n.lower(), t)
        if isinstance(o, bool) and t.op in ("call", "fld") and not is_now(t):
            self.add(st, "is", o, t)

    def after_call(self, ip, st, c, res):
        n = tail(c)
        if n in ("remove", "remove_entry", "insert") and is_coll(c, n) and c.args:
            col = coll_name(c.args[0])
            key = c.args[1] if len(c.args) > 1 else None
            if n == "insert":
                self.on_insert(ip, st, col, key, c.args[2] if len(c.args) > 2 else None, c)
            else:
                self.add(st, "removed", col, key)
                self.add(st, "guard", col, coll_guard(c.args[0]))
        elif n in ("clear", "retain", "drain") and is_coll(c, n) and c.args:
            self.add(st, "removed", coll_name(c.args[0]), None)

    def on_insert(self, ip, st, col, key, val, c):
        pass

    def taken(self, st, col, key):
        """entries of `col` under a key satisfying `key` that this path atomically took out: terms of the entry"""
        out = []
        for l in self.sets(st, "some"):
            q = presence(l[1])
            if q and q[0] == col and q[2] in ("remove", "remove_entry") and key(q[1]):
                out.append(mk("fld", mk("dc", l[1], "Some"), "0", ""))
        return out


def coll_guard(v):
    while v.op == "mut":
        v = v.args[0]
    return v


def whose(xs):
    """predicate: v is the 0-payload of one of the lookups xs"""
    return lambda v: any(v.op == "fld" and x.op == "fld" and v.args[0] is x.args[0] for x in xs)


def c14(ctx):
    ctx.rule("consumed", "an access token is issued for an authorization code only after the code's entry was taken out of the code table by this very attempt")
    ctx.rule("alive", "... and its expiry was compared with the current time and found not to have passed")
    ctx.rule("owner", "... and the client id recorded with the code was compared with the presented one")
    ctx.rule("redirect", "... and the recorded redirect URI was compared with the presented one")
    ctx.rule("pkce", "... and, when a challenge is recorded, the presented verifier was compared with it by the recorded method (S256: after SHA-256)")
    ctx.rule("contents", "the issued token carries the client, user and scopes recorded with the code")
    ctx.rule("gone", "the code is not put back")

    class R(Tables):
        n = 0

        def on_insert(self, ip, st, col, key, val, c):
            site = where(c.frame, c.line)
            tr = backtrace(c.frame, c.line)
            if col == "codes":
                ctx.bad("gone", "reinsert", "reinsert", site, "an authorization code is put (back) into the table during redemption", tr)
                return
            if col != "tokens":
                return
            self.n += 1
            req = isin("request")
            key_ok = lambda k: deps(k, "code", req)
            codes = self.taken(st, "codes", key_ok)
            ctx.test(bool(codes), "consumed", "token", "not-consumed", site, "an access token is issued although this attempt did not take the presented code out of the table", tr)
            own = entry_of("codes", key_ok)
            ctx.test(any(own(l[1]) for l in self.sets(st, "alive")), "alive", "token", "expiry", site, "an access token is issued without the code's expiry having been found in the future", tr)

            def eq(rec, pres):
                for l in self.sets(st, "eq"):
                    for a, b in ((l[1], l[2]), (l[2], l[1])):
                        if fldof(a, rec, own) and deps(b, pres, req) and not arith(b):
                            return True
                return False

            ctx.test(eq("client_id", "client_id"), "owner", "token", "client", site, "an access token is issued without the code's client having been compared with the presenting client", tr)
            ctx.test(eq("redirect_uri", "redirect_uri"), "redirect", "token", "redirect", site, "an access token is issued without the code's redirect URI having been compared with the presented one", tr)
            none = any(fldof(l[1], "code_challenge", own) for l in self.sets(st, "none"))
            if none:
                ctx.ok("pkce", "no-challenge", site)
            else:
                good = None
                meth = {lit(x) for l in self.sets(st, "cmp") if l[1] for a, b in ((l[2], l[3]), (l[3], l[2])) if contains(a, lambda y: (y.op == "fld" and y.args[1] == "code_challenge_method")) for x in [b]}
                if any(fldof(l[1], "code_challenge_method", own) for l in self.sets(st, "none")):
                    meth.add("plain")
                for l in self.sets(st, "eq"):
                    for a, b in ((l[1], l[2]), (l[2], l[1])):
                        if fldof(a, "code_challenge", own) and deps(b, "code_verifier", req):
                            hashed = has_call(b, "finalize") or contains(b, lambda x: x.op == "call" and "digest" in x.args[0].lower())
                            if "S256" in meth and hashed:
                                good = "S256"
                            if "plain" in meth and "S256" not in meth and not hashed:
                                good = "plain"
                ctx.test(good is not None, "pkce", good or "bad", "pkce", site, "an access token is issued although a recorded PKCE challenge was not met by the presented verifier", tr)
            if val is not None and val.op == "agg":
                for f, rec in (("client_id", "client_id"), ("user_id", "user_id"), ("scopes", "scopes")):
                    v = field(val, f)
                    same = v is not None and (fldof(v, rec, own) or (f == "client_id" and eq("client_id", "client_id") and deps(v, "client_id", req)))
                    ctx.test(same, "contents", f, f"contents:{f}", site, f"the token's {f} is `{show(v)[:100] if v is not None else '?'}`, not what was recorded with the code", tr)

        def on_return(self, ip, st, v):
            ctx.ok("gone", "return", ip.root.where())

    for k in prov(ctx.F, "exchange_code"):
        r = R(ctx)
        run_entry(ctx, r, k)
        if not r.n:
            raise Anchor(f"{k} stores no token")
    ctx.floor("consumed", 1)
    ctx.floor("contents", 3)
    ctx.floor("pkce", 2)


def c15(ctx):
    ctx.rule("validate", "token validation succeeds only with the entry stored under exactly the presented token, found unexpired, and returns that entry")
    ctx.rule("refresh-once", "a refreshed token is issued only after this attempt took the presented refresh token out of its table")
    ctx.rule("refresh-old", "... and the access token it belongs to was taken out of the token table")
    ctx.rule("refresh-contents", "... and the new token carries that token's client, user and scopes")
    ctx.rule("revoke", "revocation returns success only after the presented token was removed as an access token or, failing that, as a refresh token together with its access token")
    ctx.rule("issue", "every stored token is keyed by its own fresh value, expires at now + configured lifetime, and its refresh token maps to it; the returned values are the stored ones")
    F = ctx.F
    tok = isin("token")

    class V(Tables):
        def on_return(self, ip, st, v):
            for a in alts(v):
                if not is_adt(a, "Result") or a.args[1] != "Ok":
                    if is_adt(a, "Result"):
                        ctx.ok("validate", "err", ip.root.where())
                        continue
                own = entry_of("tokens", tok)
                p = a.args[3][0] if is_adt(a, "Result") else a
                ctx.test(own(p), "validate", "entry", "entry", ip.root.where(), f"validation succeeds with `{show(p)[:150]}`, not the entry of the presented token")
                ctx.test(any(own(l[1]) for l in self.sets(st, "alive")), "validate", "alive", "expiry", ip.root.where(), "validation succeeds without the token's expiry having been found in the future")

    for k in prov(F, "validate_token"):
        run_entry(ctx, V(ctx), k)
    ctx.floor("validate", 3)

    class Rf(Tables):
        n = 0

        def on_insert(self, ip, st, col, key, val, c):
            if col != "tokens":
                return
            self.n += 1
            site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            rt = self.taken(st, "refresh_tokens", isin("refresh_token"))
            ctx.test(bool(rt), "refresh-once", "take", "take", site, "a token is issued although this attempt did not itself take the presented refresh token out of the table (two concurrent attempts can both succeed)", tr)
            mine = entry_of("refresh_tokens", isin("refresh_token"))
            old = self.taken(st, "tokens", mine)
            gone = bool(old) or any(l[1] == "tokens" and l[2] is not None and mine(l[2]) for l in self.sets(st, "removed"))
            ctx.test(gone, "refresh-old", "old", "old", site, "the old access token stays valid after the refresh", tr)
            if val is not None and val.op == "agg":
                own = entry_of("tokens", mine)
                for f in ("client_id", "user_id", "scopes"):
                    v = field(val, f)
                    ctx.test(v is not None and fldof(v, f, own), "refresh-contents", f, f"contents:{f}", site, f"the refreshed token's {f} is `{show(v)[:100] if v is not None else '?'}`", tr)

    for k in prov(F, "refresh_token"):
        r = Rf(ctx)
        run_entry(ctx, r, k)
        if not r.n:
            raise Anchor(f"{k} stores no token")
    ctx.floor("refresh-contents", 3)

    class Rv(Tables):
        def on_return(self, ip, st, v):
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                site = ip.root.where()
                keyed = lambda col, key: any(l[1] == col and l[2] is not None and key(l[2]) for l in self.sets(st, "removed"))
                acc = self.taken(st, "tokens", tok)
                if acc:
                    ctx.ok("revoke", "access", site)
                    continue
                ref = self.taken(st, "refresh_tokens", tok)
                if ref:
                    ctx.test(keyed("tokens", entry_of("refresh_tokens", tok)), "revoke", "refresh", "refresh", site, "revoking a refresh token leaves its access token valid")
                    continue
                ctx.test(keyed("tokens", tok) and keyed("refresh_tokens", tok), "revoke", "unknown", "skip", site, "revocation reports success without having removed the token from every table in which it is accepted")

    for k in prov(F, "revoke_token"):
        run_entry(ctx, Rv(ctx), k)
    ctx.floor("revoke", 3)

    class Is(Tables):
        def on_insert(self, ip, st, col, key, val, c):
            site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            if col == "tokens" and val is not None and val.op == "agg":
                ctx.test(field(val, "token") is key, "issue", "key", "key", site, "the token is stored under another key than its value", tr)
                e = field(val, "expires_at")
                good = e is not None and e.op == "op" and e.args[0] == "Add" and any(is_now(x) and not arith(x) for x in e.args[1:]) and any(x.op == "fld" and x.args[1] == "token_expiration" for x in e.args[1:])
                ctx.test(good, "issue", "expiry", "expiry", site, f"the token expires at `{show(e)[:100] if e is not None else '?'}`", tr)
                for f in ("client_id", "user_id", "scopes"):
                    v = field(val, f)
                    ctx.test(v is not None and isin(f)(v), "issue", f, f"field:{f}", site, f"the token's {f} is `{show(v)[:100] if v is not None else '?'}`", tr)
                self.add(st, "tok", key)
            if col == "refresh_tokens":
                self.add(st, "ref", key, val)

        def on_return(self, ip, st, v):
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                x = a.args[3][0]
                toks = [l[1] for l in self.sets(st, "tok")]
                refs = [(l[1], l[2]) for l in self.sets(st, "ref")]
                at = field(x, "access_token")
                rt = field(x, "refresh_token")
                ctx.test(at is not None and at in toks, "issue", "returned", "returned", ip.root.where(), "the returned access token is not the stored one")
                if rt is not None and is_adt(rt, "Option") and rt.args[1] == "None":
                    ctx.ok("issue", "refresh", ip.root.where())
                else:
                    p = rt.args[3][0] if rt is not None and is_adt(rt, "Option") else None
                    ctx.test(p is not None and (p, at) in refs, "issue", "refresh", "refresh", ip.root.where(), "the returned refresh token is not stored for the returned access token")
                ctx.test(all(r[0] is not t for r in refs for t in toks), "issue", "distinct", "distinct", ip.root.where(), "access and refresh token are the same value")

    for k in prov(F, "create_access_token"):
        run_entry(ctx, Is(ctx), k)
    ctx.floor("issue", 7)


def c16(ctx):
    ctx.rule("client", "an authorization request is accepted only if its client is registered")
    ctx.rule("redirect", "... its redirect URI is exactly one registered for that client")
    ctx.rule("response-type", "... its response type is one registered for that client")
    ctx.rule("scopes", "... and every requested scope was compared with the supported ones and found")
    ctx.rule("code", "an authorization code is stored under its own fresh value with exactly the client, user, redirect URI, scopes and PKCE challenge it was created for, expiring at now + configured lifetime, and that value is returned")
    F = ctx.F
    req = isin("request")

    class Va(Tables):
        def on_fact(self, ip, st, t, o, fr, line):
            Tables.on_fact(self, ip, st, t, o, fr, line)
            scope = lambda v: deps(v, "scope", req)
            # a requested scope was taken from the iteration
            if isinstance(o, frozenset) and o == frozenset(["Some"]) and t.op == "call" and t.args[0].endswith("::next") and scope(t):
                st.auto = frozenset(l for l in st.auto if l[0] != "sc") | {("sc", "owed", t)}
            if isinstance(o, frozenset) and o == frozenset(["None"]) and t.op == "call" and t.args[0].endswith("::next") and scope(t):
                if not any(l[1] == "owed" for l in self.sets(st, "sc")) and plain_iter(t):
                    self.add(st, "sc", "all")
            if o is True:
                found = None
                if t.op == "op" and t.args[0] == "Eq":
                    for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                        if contains(a, lambda x: x.op == "fld" and x.args[1] == "supported_scopes") and scope(b):
                            found = b
                if t.op == "call" and t.args[0].endswith("::contains") and len(t.args[1]) > 1 and contains(t.args[1][0], lambda x: x.op == "fld" and x.args[1] == "supported_scopes") and scope(t.args[1][1]):
                    found = t.args[1][1]
                if found is not None:
                    owed = [l for l in self.sets(st, "sc") if l[1] == "owed"]
                    if any(contains(found, lambda x: x is l[2]) for l in owed):
                        st.auto = frozenset(l for l in st.auto if l[0] != "sc") | {("sc", "ok")}
                    if contains(found, lambda x: x.op == "call" and x.args[0] == "elem") and plain_iter(found):
                        self.add(st, "elem-ok")
                if t.op == "op" and t.args[0] == "all" and scope(t.args[1]) and plain_iter(t.args[1]):
                    self.add(st, "all-true")
            if o is False and t.op == "op" and t.args[0] == "any" and scope(t.args[1]) and plain_iter(t.args[1]):
                self.add(st, "none-bad")
            if o is False and t.op == "call" and t.args[0].endswith("::contains") and scope(t):
                self.add(st, "elem-bad")

        def on_call(self, ip, st, c):
            return None

        def on_return(self, ip, st, v):
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                site = ip.root.where()
                own = lambda x: entry_of("clients", lambda k: deps(k, "client_id", req))(x) or contains(x, lambda y: y.op == "call" and y.args[0].endswith("get_client"))
                cl = any((presence(l[1]) or (None,))[0] == "clients" and deps(presence(l[1])[1], "client_id", req) for l in self.sets(st, "some")) or any(has_call(l[1], "get_client") and deps(l[1], "client_id", req) for l in self.sets(st, "some"))
                ctx.test(cl, "client", "ok", "client", site, "an authorization request is accepted although its client was not found")

                def member(colf, f):
                    for l in self.sets(st, "is"):
                        t = l[2]
                        if l[1] and t.op == "call" and t.args[0].endswith("::contains") and len(t.args[1]) == 2 and fldof(t.args[1][0], colf, own) and fldof(t.args[1][1], f, req):
                            return True
                    for l in self.sets(st, "eq"):
                        for a, b in ((l[1], l[2]), (l[2], l[1])):
                            if contains(a, lambda x: x.op == "call" and x.args[0] in ("elem",) or (x.op == "call" and x.args[0].endswith("::next"))) and deps(a, colf, own) and fldof(b, f, req):
                                return True
                    return False

                ctx.test(member("redirect_uris", "redirect_uri"), "redirect", "ok", "redirect", site, "an authorization request is accepted although its redirect URI was not found among the client's registered ones")
                ctx.test(member("response_types", "response_type"), "response-type", "ok", "response", site, "an authorization request is accepted although its response type was not found among the client's registered ones")
                sc = self.has(st, "sc", "all") or (self.has(st, "all-true") and self.has(st, "elem-ok")) or (self.has(st, "none-bad"))
                ctx.test(sc, "scopes", "ok", "scopes", site, "an authorization request can be accepted with a scope that was not found among the supported ones")

    for k in prov(F, "validate_authorization"):
        run_entry(ctx, Va(ctx), k)
    for r in ("client", "redirect", "response-type", "scopes"):
        ctx.floor(r, 1)

    class Cr(Tables):
        def on_insert(self, ip, st, col, key, val, c):
            if col != "codes":
                return
            site, tr = where(c.frame, c.line), backtrace(c.frame, c.line)
            self.add(st, "code", key)
            if val is None or val.op != "agg":
                ctx.bad("code", "value", "value", site, "the stored code record is not built here", tr)
                return
            ctx.test(field(val, "code") is key, "code", "key", "key", site, "the code is stored under another key than its value", tr)
            for f in ("client_id", "user_id", "redirect_uri", "scopes", "code_challenge", "code_challenge_method"):
                v = field(val, f)
                if v is not None and is_adt(v, "Option") and v.args[1] == "Some":
                    v = v.args[3][0]
                none = v is not None and is_adt(v, "Option") and v.args[1] == "None" and any(isin(f)(l[1]) for l in self.sets(st, "none"))
                good = v is not None and (isin(f)(v) or none or (v.op == "fld" and v.args[0].op == "dc" and isin(f)(v.args[0].args[0])))
                ctx.test(good, "code", f, f"field:{f}", site, f"the code's {f} is `{show(v)[:100] if v is not None else '?'}`", tr)
            e = field(val, "expires_at")
            good = e is not None and e.op == "op" and e.args[0] == "Add" and any(is_now(x) and not arith(x) for x in e.args[1:]) and any(x.op == "fld" and x.args[1] == "code_expiration" for x in e.args[1:])
            ctx.test(good, "code", "expiry", "expiry", site, f"the code expires at `{show(e)[:100] if e is not None else '?'}`", tr)

        def on_return(self, ip, st, v):
            for a in alts(v):
                if is_adt(a, "Result") and a.args[1] == "Err":
                    continue
                x = a.args[3][0] if is_adt(a, "Result") else a
                ctx.test(any(l[1] is x for l in self.sets(st, "code")), "code", "returned", "returned", ip.root.where(), "the returned code is not the stored one")

    for k in prov(F, "create_authorization_code"):
        run_entry(ctx, Cr(ctx), k)
    ctx.floor("code", 9)


SKIPPING = re.compile(r"::(filter|filter_map|take|take_while|skip|skip_while|step_by|nth|last|map_while|dedup|truncate|retain|zip|find|first|rsplitn|splitn|split_once|rsplit_once|chunks|windows|get)$")


def strip_muts(v):
    """the same term without the record of in-place changes to the collection itself"""
    if v.op == "mut":
        return strip_muts(v.args[0])
    if v.op == "call" and v.args[1]:
        return mk("call", v.args[0], (strip_muts(v.args[1][0]),) + tuple(v.args[1][1:]), *v.args[2:])
    return v


def plain_iter(v):
    """an iteration term that visits every element (no adaptor that drops some)"""
    return not contains(v, lambda x: x.op == "call" and SKIPPING.search(x.args[0]) is not None) and not contains(v, lambda x: x.op == "mut")


def c17(ctx):
    ctx.rule("verified", "an authenticated context is returned only with identity and scopes taken from the provider's or the inner middleware's successful verification of the presented credential")
    ctx.rule("anonymous", "a context that is not derived from a verified credential is returned only where authentication was configured as optional, and carries no scopes; bearer: only when no credential was presented")
    ctx.rule("scheme", "bearer authentication verifies the presented token only under the bearer scheme")
    ctx.rule("secret", "client-credential authentication succeeds only if the presented secret equals the registered one")
    ctx.rule("scopes", "scope authentication succeeds only if all (or, when so configured, any) of the required scopes are among the context's scopes")
    ctx.rule("required", "a constructor makes bearer authentication required and composite authentication require at least one success, unless told otherwise")
    F = ctx.F
    ks = impls(F, "AuthMiddleware", "authenticate")
    if len(ks) < 4:
        raise Anchor("AuthMiddleware implementations")
    ai = isin("auth_info")
    OPT = ("required", "require_any")

    class R(Tables):
        def on_fact(self, ip, st, t, o, fr, line):
            Tables.on_fact(self, ip, st, t, o, fr, line)
            if isinstance(o, frozenset) and t.op == "fld" and t.args[1] == "scheme":
                self.add(st, "scheme", o)
            if isinstance(o, bool) and t.op == "op" and t.args[0] in ("any", "all"):
                self.add(st, "quant", t, o)
            self.scope_fact(st, t, o)

        def on_return(self, ip, st, v):
            site = ip.root.where()
            kname = re.search(r"::(\w+) as", ip.root.key)
            kname = kname.group(1) if kname else ip.root.key
            for a in alts(v):
                if is_adt(a, "Result"):
                    if a.args[1] == "Err":
                        continue
                    xs = alts(a.args[3][0])
                else:
                    xs = [a]
                for x in xs:
                    self.one(st, x, site, kname)

        def one(self, st, x, site, kname):
            oks = [l[1] for l in self.sets(st, "ok")]
            inner = [t for t in oks if t.op == "await" and has_call(t, "AuthMiddleware::authenticate") and contains(t, ai)]
            if any(contains_ok(x, t) and x.op == "fld" for t in inner):
                ctx.ok("verified", kname, site)
                self.scopes(st, x, site, kname)
                return
            # delegated result passed through unopened
            if x.op == "await" and has_call(x, "AuthMiddleware::authenticate") and contains(x, ai):
                ctx.ok("verified", kname, site)
                self.scopes(st, x, site, kname)
                return
            if not is_adt(x, "AuthContext"):
                ctx.bad("verified", kname, f"{kname}:unknown", site, f"an authenticated context `{show(x)[:150]}` of unknown origin is returned")
                return
            ident = [field(x, f) for f in ("client_id", "user_id", "scopes")]
            vt = [t for t in oks if t.op == "await" and has_call(t, "validate_token") and contains(t, lambda y: y.op == "fld" and y.args[1] == "token") and contains(t, ai)]
            if any(all(fldof(v, f, lambda b, t=t: contains_ok(b, t)) for v, f in zip(ident, ("client_id", "user_id", "scopes"))) for t in vt):
                ctx.ok("verified", kname, site)
                sch = [l[1] for l in self.sets(st, "scheme")]
                ctx.test(any(s == frozenset(["Bearer"]) for s in sch), "scheme", kname, f"{kname}:scheme", site, "a token presented under another scheme than bearer is accepted")
                return
            gc = [l[1] for l in self.sets(st, "some") if has_call(l[1], "get_client")]
            if gc:
                cl = lambda b: any(contains_ok(b, t) for t in gc)
                good = all(contains(v, lambda y: y.op == "fld" and cl(y.args[0])) for v in ident)
                ctx.test(good, "verified", kname, f"{kname}:ident", site, "the authenticated identity is not the looked-up client's")
                pres = lambda v, n: contains(v, ai) and contains(v, lambda y: lit(y) == n)
                ctx.test(any(pres(t, "client_id") for t in gc), "verified", (kname, "lookup"), f"{kname}:lookup", site, "the client is not looked up by the presented id")
                eq = False
                for l in self.sets(st, "eq"):
                    for a, b in ((l[1], l[2]), (l[2], l[1])):
                        if deps(a, "client_secret", cl) and pres(b, "client_secret"):
                            eq = True
                ctx.test(eq, "secret", kname, f"{kname}:secret", site, "a client is authenticated without the registered secret having been compared with the presented one")
                return
            # not derived from a credential
            off = any(not l[1] and l[2].op == "fld" and l[2].args[1] in OPT for l in self.sets(st, "is"))
            sc = field(x, "scopes")
            empty = sc is not None and ((sc.op == "call" and sc.args[0].rsplit("::", 1)[-1] in ("new", "default")) or (is_adt(sc, "array") and not sc.args[3]))
            ctx.test(off, "anonymous", kname, f"{kname}:anonymous", site, "a context not derived from a verified credential is returned although authentication is required")
            ctx.test(empty, "anonymous", (kname, "scopes"), f"{kname}:anon-scopes", site, "an unauthenticated context carries scopes")
            if kname.startswith("Bearer"):
                ctx.test(any(ai(l[1]) for l in self.sets(st, "none")), "anonymous", (kname, "presented"), f"{kname}:presented", site, "a presented credential that was not verified leads to a context")

        # scope bookkeeping: while one required scope is looked at
        @staticmethod
        def req(v):
            return contains(v, lambda y: y.op == "fld" and y.args[1] == "required_scopes")

        @staticmethod
        def got(v):
            return contains(v, lambda y: y.op == "fld" and y.args[1] == "scopes" and contains(y.args[0], lambda z: z.op == "await" and has_call(z, "AuthMiddleware::authenticate")))

        def cmpfact(self, t, o):
            e = eqfact(t, o)
            if e and any(self.req(x) and self.got(y) and not self.got(x) for x, y in (e, e[::-1])):
                return True
            return o is True and t.op == "call" and t.args[0].endswith(("::contains", "::contains_key")) and self.got(t.args[1][0]) and self.req(t.args[1][1])

        def owed(self, st, *kinds):
            st.auto = frozenset(l for l in st.auto if l[0] not in kinds)

        def scope_fact(self, st, t, o):
            if isinstance(o, frozenset) and t.op == "call" and t.args[0].endswith("::next") and self.req(t) and not self.got(t):
                for n in ("unfound", "unpushed"):
                    if self.sets(st, n):
                        self.add(st, "some-" + n)
                self.owed(st, "unfound", "unpushed")
                if o == frozenset(["Some"]):
                    if not plain_iter(strip_muts(t)):
                        self.add(st, "partial")
                    self.add(st, "unfound")
                    self.add(st, "unpushed")
                elif o == frozenset(["None"]):
                    self.add(st, "done")
            if self.cmpfact(t, o):
                self.add(st, "hit")
                self.owed(st, "unfound")
            if o is True and t.op == "call" and t.args[0].endswith("::is_empty"):
                self.add(st, "none-missing")

        def on_call(self, ip, st, c):
            if path_of(c).rsplit("::", 1)[-1] in ("push", "push_back", "insert") and len(c.args) >= 2 and self.req(c.args[1]) and not self.got(c.args[1]):
                if self.sets(st, "unfound"):
                    self.add(st, "missing")
                    self.owed(st, "unfound")
                    self.add(st, "unfound-missing")
                self.owed(st, "unpushed")
            return Tables.on_call(self, ip, st, c)

        def complete(self, st, v):
            """iteration over every required scope"""
            if not plain_iter(strip_muts(v)) or self.sets(st, "partial"):
                return False
            return plain_iter(v) or (bool(self.sets(st, "done")) and not self.sets(st, "some-unpushed"))

        def scopes(self, st, x, site, kname):
            if not any(l[2].op == "fld" and l[2].args[1] == "require_all" for l in self.sets(st, "is")) and kname != "ScopeMiddleware":
                return
            mode = {l[1] for l in self.sets(st, "is") if l[2].op == "fld" and l[2].args[1] == "require_all"}
            good = False
            for l in self.sets(st, "quant"):
                t = l[1]
                if l[2] and self.req(t.args[1]) and self.sets(st, "hit"):
                    good = good or (t.args[0] == "all" and self.complete(st, t.args[1])) or (t.args[0] == "any" and mode == {False})
            if self.sets(st, "done") and not self.sets(st, "some-unfound") and not self.sets(st, "partial"):
                good = good or not self.sets(st, "missing") or bool(self.sets(st, "none-missing"))
            if mode == {False} and self.sets(st, "hit"):
                good = True
            ctx.test(good, "scopes", (kname, tuple(sorted(mode))), f"{kname}:scopes", site, "a context is admitted without the required scopes having been found among its scopes")

    for k in ks:
        run_entry(ctx, R(ctx), k)
    ctx.floor("verified", 4)
    ctx.floor("secret", 1)
    ctx.floor("scheme", 1)
    ctx.floor("scopes", 2)

    class N(PathRule):
        def on_return(self, ip, st, v):
            for a in alts(v):
                for f in OPT:
                    x = field(a, f)
                    if x is not None:
                        ctx.test(lit(x) is True, "required", (a.args[0], f), f"{f}:default", ip.root.where(), f"{a.args[0]} is constructed with {f} = {show(x)}")

    for t in ("BearerTokenMiddleware", "CompositeMiddleware"):
        run_entry(ctx, N(ctx), need1(F, f"{t}::new"))
    ctx.floor("required", 2)


def contains_ok(v, t):
    """v is (part of) the success payload of t"""
    return contains(v, lambda y: y.op == "dc" and y.args[0] is t and y.args[1] in ("Ok", "Some"))


RANDOM = re.compile(r"(::new_v4$|OsRng|thread_rng|rand::rng|rand::random|getrandom|SystemRandom|Rng>?::(r#)?gen|fill_bytes)")


def fresh_random(v):
    """'' when v is a fresh random value, else why not"""
    for a in alts(v):
        if not contains(a, lambda x: x.op == "call" and RANDOM.search(x.args[0]) is not None):
            return f"`{show(a)[:120]}` has no random source"
        if contains(a, lambda x: x.op == "call" and re.search(r"::(truncate|split_at|get|from_u128|as_u64_pair|simple_truncate)$", x.args[0]) is not None) or contains(a, lambda x: x.op in ("cast",) or (x.op == "op" and x.args[0] in ("BitAnd", "Rem", "Shr"))):
            return f"`{show(a)[:120]}` keeps only part of the random value"
        if contains(a, lambda x: x.op == "mut" and any(re.search(r"::(truncate|pop|clear|drain|retain|remove|split_off|replace_range)$", q[0]) for q in x.args[1])):
            return f"`{show(a)[:120]}` keeps only part of the random value"
        if contains(a, lambda x: x.op == "k" and x.args[0].count("::") and x.args[1] is None and "static" in x.args[0].lower()):
            return "static"
    return ""


def c18(ctx):
    ctx.rule("tokens", "authorization codes, access tokens and refresh tokens are keyed by a value drawn from a cryptographic random source in the very call that stores them")
    ctx.rule("client-credentials", "client ids and secrets generated at registration are random, and only replace missing ones")
    ctx.rule("sessions", "every session id generator the library supplies draws from a random source on each call, and a created HTTP session is keyed by the generator's value")
    ctx.rule("managed-sessions", "the session manager's sessions carry a random id")
    ctx.rule("elicitation", "the elicitation builder's default id is random")
    F = ctx.F

    class T(Tables):
        def on_insert(self, ip, st, col, key, val, c):
            if col in ("tokens", "refresh_tokens", "codes"):
                w = fresh_random(key)
                ctx.test(not w, "tokens", (col, root_fn(ip.root.key)), f"{col}", where(c.frame, c.line), f"a {col} entry is keyed by a value that is not freshly random: {w}", backtrace(c.frame, c.line))
            if col == "clients" and val is not None:
                self.cl(st, c, key, val)

        def cl(self, st, c, key, val):
            v = val
            over = {}
            # fields overwritten on the path
            for f in ("client_id", "client_secret"):
                x = field(v, f) if v.op == "agg" else None
                if x is None:
                    x = st.heap.get(mk("fld", v, f, "")) or next((w for t, w in st.heap.items() if t.op == "fld" and t.args[1] == f), None)
                if x is None:
                    continue
                if is_adt(x, "Option"):
                    if x.args[1] == "None":
                        ctx.bad("client-credentials", f, f"none:{f}", where(c.frame, c.line), f"a client is registered without a {f}")
                        continue
                    x = x.args[3][0]
                for y in alts(x):
                    if y.op == "fld" and contains(y, isin("client")) or isin("client")(y):
                        ctx.ok("client-credentials", (f, "given"), where(c.frame, c.line))
                        continue
                    w = fresh_random(y)
                    ctx.test(not w, "client-credentials", (f, "generated"), f"gen:{f}", where(c.frame, c.line), f"a generated {f} is not freshly random: {w}")

    for m in ("create_authorization_code", "create_access_token", "exchange_code", "refresh_token", "register_client"):
        for k in prov(F, m):
            run_entry(ctx, T(ctx), k)
    ctx.floor("tokens", 5)
    ctx.floor("client-credentials", 1)

    # session id generators: closures stored in a field session_id_generator
    gens = set()

    class G(PathRule):
        def on_agg(self, ip, st, v, fr, line):
            g = field(v, "session_id_generator")
            if g is not None:
                for x in subterms(ip.snap(st, g)):
                    if x.op == "agg" and x.args[0] == "closure":
                        gens.add(x.args[1])
                    if x.op == "fn" and x.args[1]:
                        gens.add(x.args[1])

    for k, b in F.bodies.items():
        if b["kind"] in ("fn", "closure") and "streamable_http_server" in b["file"] and mentions(b, "session_id_generator"):
            run_entry(ctx, G(ctx), k)
    if not gens:
        raise Anchor("no session id generator")

    class GR(PathRule):
        def on_return(self, ip, st, v):
            w = fresh_random(v)
            ctx.test(not w, "sessions", root_fn(ip.root.key), "generator", ip.root.where(), f"a session id generator returns a value that is not freshly random: {w}")

    for g in sorted(gens):
        ip = Interp(F, GR(ctx))
        ip.run(g)
        ctx.ran(ip, g)
    from rules.http import handlers, Http

    H = handlers(F)

    class S(Http):
        def on_change(self, ip, st, op, col, key, c):
            if col == "sessions" and op == "insert":
                good = all(a.op == "call" and a.args[1] and contains(a, lambda x: x.op == "fld" and x.args[1] == "session_id_generator") and not contains(a, lambda x: x.op == "in" and x.args[0] in ("headers", "body")) for a in alts(key))
                ctx.test(good, "sessions", (root_fn(c.frame.key), "key"), "session-key", where(c.frame, c.line), f"a session is created under `{show(key)[:120]}`, not under the generator's value", backtrace(c.frame, c.line))

    for m in ("post", "get"):
        run_entry(ctx, S(ctx), H[m])
    ctx.floor("sessions", 2)

    class M(PathRule):
        n = 0

        def on_agg(self, ip, st, v, fr, line):
            if is_adt(v, "shared::session::Session") and field(v, "id") is not None:
                self.n += 1
                w = fresh_random(ip.snap(st, field(v, "id")))
                ctx.test(not w, "managed-sessions", root_fn(fr.key), f"session-id:{root_fn(fr.key).rsplit('::',1)[-1]}", where(fr, line), f"a session's id is not freshly random: {w}")

        def is_opaque(self, ip, key):
            return False

    for k, b in F.bodies.items():
        if b["kind"] == "fn" and b["file"].endswith("shared/session.rs") and mentions_agg(b, "shared::session::Session") and not b.get("derived"):
            run_entry(ctx, M(ctx), k)
    ctx.floor("managed-sessions", 1)

    class El(PathRule):
        def on_return(self, ip, st, v):
            for a in alts(v):
                x = field(a, "elicitation_id")
                if x is not None:
                    w = fresh_random(x)
                    ctx.test(not w, "elicitation", root_fn(ip.root.key), "elicitation-id", ip.root.where(), f"an elicitation id is not freshly random: {w}")

    for k, b in F.bodies.items():
        if b["kind"] == "fn" and b["file"].endswith("types/elicitation.rs") and mentions(b, "elicitation_id") and re.search(r"::new$", k):
            run_entry(ctx, El(ctx), k)
    ctx.floor("elicitation", 1)


def mentions(b, f):
    """the body builds or projects a field named f"""
    import json

    return f'"{f}"' in json.dumps(b["blocks"])


def mentions_agg(b, adt):
    for bb in b["blocks"]:
        if bb:
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and str(s[2][1]).endswith(adt):
                    return True
    return False


CHECKS = {"C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
