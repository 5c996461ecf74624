#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property of /repo's current source by static analysis.

Exit 0: every obligation discharged (listed known findings aside).  Exit 1: VIOLATION line.
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import facts as facts_mod
from facts import Facts, FactError, extract, VERIF

MODULES = ["server", "clientr", "http", "authr", "transport", "globalr", "util", "util2", "recoverr", "watchr", "miscr", "registryr", "batchr", "textr", "panicr", "simdr", "atomicr", "errr"]


FLOORS = [] if os.environ.get("FLOORS") else None


class Anchor(Exception):
    """something the rule is about is not in the program any more"""


class Ctx:
    def __init__(self, F, prop, tier):
        self.F, self.prop, self.tier = F, prop, tier
        self.obs = {}  # (rule, site) -> [ok, where, what]
        self.viol = {}  # key -> dict
        self.fns = set()
        self.steps = 0
        self.nodes = 0
        self.calls = 0
        self.roots = []
        self.rules = {}

    # one obligation = (rule, site); discharged unless some path reaches it in a bad state
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, site, where="", what=""):
        self.obs.setdefault((rule, str(site)), [True, where, what])

    def bad(self, rule, site, key, where, msg, trace=()):
        o = self.obs.setdefault((rule, str(site)), [False, where, msg])
        o[0] = False
        k = f"{self.prop}|{rule}|{key}"
        self.viol.setdefault(k, {"key": k, "rule": rule, "where": where, "message": msg, "trace": list(trace)})

    def test(self, cond, rule, site, key, where, msg, trace=()):
        if cond:
            self.ok(rule, site, where)
        else:
            self.bad(rule, site, key, where, msg, trace)
        return cond

    def floor(self, rule, n=1, what=""):
        got = sum(1 for (r, _) in self.obs if r == rule)
        if FLOORS is not None:
            FLOORS.append((self.prop, rule, n, got))
        n = (n + 1) // 2  # a refactoring may merge or drop some of them
        if got < n:
            self.bad(rule, "floor", f"floor", "whole crate", f"only {got} instances of the construct this rule is about were found (at least {n} expected): {what or self.rules.get(rule, '')}")

    def count(self, rule):
        return sum(1 for (r, _) in self.obs if r == rule)

    def ran(self, ip, root):
        self.fns |= ip.visited_fns
        self.steps += ip.steps
        self.nodes += ip.n_nodes
        self.calls += ip.n_calls
        self.roots.append(root)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    return json.load(open(p))


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("rules." + m)
        except ModuleNotFoundError as e:
            if e.name == "rules." + m:
                continue
            raise
        reg.update(mod.CHECKS)
    return reg


def run(prop, F, reg, tier):
    ctx = Ctx(F, prop, tier)
    try:
        reg[prop](ctx)
    except (FactError, Anchor) as e:
        ctx.bad("anchor", str(e), f"anchor {e}", "whole crate", f"a construct this property is about is missing: {e}")
    return ctx


def report(ctx, known, t0):
    prop = ctx.prop
    kf = {f["key"]: f for f in known["findings"] if f["property"] == prop}
    new = [v for k, v in ctx.viol.items() if k not in kf]
    old = [k for k in ctx.viol if k in kf]
    n = len(ctx.obs)
    good = sum(1 for o in ctx.obs.values() if o[0])
    samples = [f"[{r}] {s} — {o[1]}" for (r, s), o in sorted(ctx.obs.items())][:40]
    per = {}
    for (r, _), o in ctx.obs.items():
        a = per.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += o[0]
    ev = {
        "property": prop,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of the crate's library (all features, the build's own target flags), extracted from the current source by a rustc driver on this run. "
            "Each obligation is one program construct (call site, construction of a value, path end, table entry) the rule applies to, and is discharged when every abstract path reaching it satisfies the rule.",
            "rules": ctx.rules,
            "obligations": n,
            "discharged": good,
            "per_rule": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(per.items())},
            "entry_points": sorted(set(ctx.roots)),
            "functions_analysed": len(ctx.fns),
            "bodies_in_crate": ctx.F.n_local,
            "program_points": ctx.nodes,
            "abstract_steps": ctx.steps,
            "call_sites_evaluated": ctx.calls,
            "samples": samples,
            "violations_found": [v for v in ctx.viol.values()],
            "known_findings_present": old,
        },
        "assumptions": ["rustc's MIR and callee resolution are faithful to the program", "library code outside the crate behaves as its documented signature says (containers, channels, locks, serde)"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in old:
        print(f"KNOWN-FINDING: property={prop} {kf[k]['what']}")
    rc = 0
    if new:
        rp = os.path.join(d, prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:20]:
            print(f"  {v['rule']}: {v['message']}\n    at {v['where']}\n    key {v['key']}")
            for t in v["trace"][:12]:
                print(f"      via {t}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(rp, VERIF)}")
        rc = 1
    print(f"{prop}: {good}/{n} obligations discharged, {len(ctx.fns)} functions on paths, {len(new)} violations, {len(old)} known, {ev['wall_s']} s")
    for x in FLOORS or ():
        print("FLOOR", *x)
    return rc


def main():
    props = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    if props == ["setup"]:
        print(extract(verbose=True))
        return 0
    F = Facts()
    reg = registry()
    if props == ["all"]:
        props = sorted(reg)
    known = load_known()
    rc = 0
    for p in props:
        t1 = time.time() if len(props) > 1 else t0
        try:
            rc |= report(run(p, F, reg, tier), known, t1)
        except Exception:
            if len(props) == 1:
                raise
            traceback.print_exc()
            rc |= 2
    for x in FLOORS or ():
        print("FLOOR", *x)
    return rc


if __name__ == "__main__":
    sys.exit(main())
