"""loops that may run a call again, and what makes them come to an end"""
from lib import *

ADD = ("Add", "AddWithOverflow", "AddUnchecked", "Sub", "SubWithOverflow", "SubUnchecked")


def counts(body):
    """blocks in which a local is moved on by a constant (x = x + 1, x -= 1, x = x.saturating_add(1)), or an iterator advanced"""
    tmp, out = {}, set()
    for bb in body["blocks"]:
        for s in bb["s"] if bb else ():
            if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "bin" and s[2][1] in ADD:
                a, k = s[2][2], s[2][3]
                if a[0] in ("c", "m") and k[0] == "k" and isinstance(k[1].get("v"), int) and k[1]["v"] >= 1:
                    tmp.setdefault(s[1][0], set()).add(tuple(map(str, a[1])))
    copies = {}
    for bb in body["blocks"]:
        for s in bb["s"] if bb else ():
            if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] in ("c", "m"):
                copies.setdefault(s[1][0], set()).add(tuple(map(str, s[2][1][1])))

    def origins(p):
        r = {p}
        if len(p) == 1 and p[0].isdigit():
            r |= copies.get(int(p[0]), set())
        return r

    for i, bb in enumerate(body["blocks"]):
        if not bb:
            continue
        for s in bb["s"]:
            if s[0] != "=":
                continue
            dst = tuple(map(str, s[1]))
            if s[2][0] == "use" and s[2][1][0] in ("c", "m") and s[2][1][1][0] in tmp:
                if any(dst in origins(p) for p in tmp[s[2][1][1][0]]):
                    out.add(i)
            if s[2][0] == "bin" and s[2][1] in ADD and s[2][2][0] in ("c", "m") and s[2][3][0] == "k" and dst in origins(tuple(map(str, s[2][2][1]))):
                out.add(i)
        t = bb["t"]
        if t["k"] == "call" and t["f"][0] == "k":
            n = (t["f"][1].get("fn") or t["f"][1].get("k") or "").rsplit("::", 1)[-1]
            if n in ("next", "next_back", "saturating_add", "wrapping_add", "checked_sub", "saturating_sub", "fetch_add", "fetch_sub"):
                out.add(i)
    return out


def endless(F, frame, block=None):
    """frames of the call chain in which the call can be reached again without anything being counted"""
    fr, bad = frame, []
    chain = []
    while fr is not None:
        chain.append(fr)
        fr = fr.parent
    at = [(outer, inner.block) for inner, outer in zip(chain, chain[1:])] + ([(frame, block)] if block is not None else [])
    for outer, bi in at:
        key = outer.key
        body = outer.body
        if body["kind"] == "std" or bi is None:
            continue
        stop = counts(body) | {i for i, x in enumerate(body["blocks"]) if x and x["t"]["k"] == "yield"}
        todo, seen = [m for m in F.succ(key, bi) if m is not None], set()
        if bi in stop:
            continue
        while todo:
            n = todo.pop()
            if n in seen or n in stop or body["blocks"][n] is None:
                continue
            seen.add(n)
            todo += [m for m in F.succ(key, n) if m is not None]
        if bi in seen:
            bad.append(outer)
    return bad
