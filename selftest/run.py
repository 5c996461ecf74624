#!/usr/bin/env python3
"""Development self-test of the checks (not a registered check): applies small source mutations to a scratch copy of
/repo and reports which checks fire.  Mutations live in mutants.py as (name, [(file, old, new)...], expected props);
expected [] means the edit keeps behaviour and every check must stay quiet."""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(os.path.dirname(HERE), "engine")
sys.path.insert(0, HERE)
SCR = os.environ.get("SCR", "/tmp/selftest")
SRC = os.environ.get("SRC", "/repo")


def main():
    import mutants

    pats = sys.argv[1:]
    dst = os.path.join(SCR, "repo")
    os.makedirs(SCR, exist_ok=True)
    if not os.path.exists(dst):
        os.makedirs(dst)
        for x in ("src", "pmcp-macros", "Cargo.toml", "Cargo.lock", "examples", "benches", "tests", "fuzz", "build.rs"):
            s = os.path.join(SRC, x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(dst, x), ignore=shutil.ignore_patterns("target"))
            elif os.path.exists(s):
                shutil.copy(s, dst)
    env = dict(os.environ, VERIF_REPO=dst, VERIF_EVIDENCE_DIR=os.path.join(SCR, "ev"))
    os.makedirs(os.path.join(SCR, "ev"), exist_ok=True)
    good = bad = 0
    for name, edits, want in mutants.MUTANTS:
        if pats and not any(p in name or p in want for p in pats):
            continue
        shutil.rmtree(os.path.join(dst, "src"))
        shutil.copytree(SRC + "/src", os.path.join(dst, "src"))
        ok = True
        for f, old, new in edits:
            p = os.path.join(dst, f)
            s = open(p).read()
            if old not in s:
                print(f"?? {name}: text not found in {f}: {old[:60]!r}")
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            bad += 1
            continue
        props = os.environ["PROPS"].split() if os.environ.get("PROPS") else want if want and not os.environ.get("ALL") else ["all"]
        r = subprocess.run([sys.executable, os.path.join(ENGINE, "check.py")] + props, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        fired = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        miss = [w for w in want if w not in fired]
        extra = [x for x in fired if x not in want]
        st = "ok " if not miss and not (extra and not want) and r.returncode in (0, 1) else "BAD"
        if st == "ok ":
            good += 1
        else:
            bad += 1
        print(f"{st} {name}: fired {fired}" + (f" MISSED {miss}" if miss else "") + (f" rc={r.returncode}" if r.returncode > 1 else ""), flush=True)
        if st == "BAD" or os.environ.get("V"):
            print("   " + "\n   ".join(l for l in r.stdout.splitlines()[-25:]))
    print(f"{good} as expected, {bad} not")


main()
