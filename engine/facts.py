"""Fact base: builds the MIR extractor, runs it over /repo's current working tree, loads the JSON."""
import fcntl, gc, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".cache")
REPO = os.environ.get("VERIF_REPO", "/repo")
NIGHTLY = "nightly"


class FactError(Exception):
    pass


def _env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"))}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def _run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactError(f"{what} failed ({r.returncode}):\n" + r.stdout[-6000:])
    return r.stdout


def build_driver():
    t = os.path.join(CACHE, "driver")
    d = os.path.join(HERE, "driver")
    env = _env(t)
    _run(["cargo", "build", "--offline"], env, d, "building the MIR extractor")
    return os.path.join(t, "debug", "mirfacts")


def source_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for base in ("src", "pmcp-macros/src"):
        for r, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                files.append(os.path.join(r, f))
    files += [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock", "pmcp-macros/Cargo.toml", "build.rs")]
    files.append(os.path.join(HERE, "driver", "src", "main.rs"))
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    for x in extra:
        h.update(x.encode())
    return h.hexdigest()[:24]


def rustflags():
    # as /opt/vp/env.sh: the build's real flags (replaces target-cpu=native)
    try:
        ci = set(open("/proc/cpuinfo").read().split())
    except OSError:
        ci = set()
    v3 = {"avx2", "bmi2", "fma"} <= ci
    return "-C target-cpu=x86-64-v3" if v3 else "-C target-cpu=x86-64-v2"


def forget(target, everything):
    """make cargo run the wrapper on the crate again, whatever it remembers"""
    if everything:
        shutil.rmtree(target, ignore_errors=True)
        return
    shutil.rmtree(os.path.join(target, "debug", "build", "pmcp"), ignore_errors=True)  # one directory per package
    fp = os.path.join(target, "debug", ".fingerprint")  # older layout
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith("pmcp-") and not x.startswith("pmcp-macros-"):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)


def extract(verbose=False):
    """Return the path of the facts of the current tree, extracting them if this tree was not seen before."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsh = source_hash()
        out = os.path.join(CACHE, "facts", hsh)
        res = os.path.join(out, "pmcp.json")
        if os.path.exists(res):
            return res
        t0 = time.time()
        drv = build_driver()
        t = os.path.join(CACHE, "nt")
        env = _env(t)
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["RUSTFLAGS"] = rustflags()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env["MIRFACTS_OUT"] = tmp
        env["MIRFACTS_CRATES"] = "pmcp"
        for attempt in (0, 1):
            forget(t, attempt)
            _run(["cargo", "check", "-p", "pmcp", "--all-features", "--lib", "--offline"], env, REPO, "type-checking /repo")
            if os.path.exists(os.path.join(tmp, "pmcp.json")):
                break
        else:
            raise FactError("the extractor wrote no facts (wrapper skipped?)")
        # keep only the three newest fact bases
        fd = os.path.join(CACHE, "facts")
        old = sorted((x for x in os.listdir(fd) if not x.endswith(".tmp") or x != os.path.basename(tmp)), key=lambda x: os.path.getmtime(os.path.join(fd, x)))
        for x in old[:-3]:
            shutil.rmtree(os.path.join(fd, x), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        if verbose:
            print(f"facts extracted in {time.time()-t0:.1f}s", file=sys.stderr)
        return res


def shims():
    """facts of the combinator shims (engine/shims), extracted once per driver and shim source"""
    src = os.path.join(HERE, "shims", "lib.rs")
    h = hashlib.sha256()
    for f in (src, os.path.join(HERE, "driver", "src", "main.rs")):
        h.update(open(f, "rb").read())
    res = os.path.join(CACHE, "shims", h.hexdigest()[:16], "itershim.json")
    if os.path.exists(res):
        return res
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(res):
            return res
        drv = build_driver()
        d = os.path.dirname(res)
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        os.makedirs(d)
        env = _env(os.path.join(CACHE, "nt"))
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["MIRFACTS_OUT"] = d
        env["MIRFACTS_CRATES"] = "itershim"
        _run([drv, "rustc", "--crate-name", "itershim", "--crate-type", "lib", "--edition", "2021", "--emit", "metadata", "--out-dir", d, src], env, d, "extracting the combinator shims")
        if not os.path.exists(res):
            raise FactError("the extractor wrote no shim facts")
    return res


class Facts:
    def __init__(self, path=None):
        path = path or extract()
        gc.disable()
        with open(path) as f:
            d = json.load(f)
        gc.enable()
        gc.freeze()
        self.path = path
        self.bodies = {b["key"]: b for b in d["bodies"]}
        with open(shims()) as f:
            sd = json.load(f)
        self.shims = {}
        for b in sd["bodies"]:
            if b["kind"] == "fn":
                b["kind"] = "std"
                self.shims[b["key"].rsplit("::", 1)[-1]] = b["key"]
            self.bodies.setdefault(b["key"], b)
        self._portable()
        self.enums = {k: {int(a): b for a, b in v.items()} for k, v in d["enums"].items()}
        self.types = d["types"]
        self.n_local = d["n_local"]
        self.n_std = d["n_std"]
        self._succ = {}
        self._rpo = {}
        self._counters = {}
        self._kids = None
        self._callers = None
        if len(self.shims) < 20:
            raise FactError("combinator shims missing")
        if self.n_local < 3000:
            raise FactError(f"only {self.n_local} local bodies extracted (expected > 3000)")

    def _portable(self):
        """a feature that this build's target has anyway is still asked for: is_x86_feature_detected! answers what the CPU answers"""
        for b in self.bodies.values():
            for blk in b.get("blocks") or ():
                t = blk and blk["t"]
                if t and t["k"] == "switch" and "is_x86_feature_detected" in (t.get("mac") or ()) and "cfg" in t["mac"]:
                    no = [x[1] for x in t["c"] if x[0] == 0]
                    if no:
                        blk["t"] = {"k": "goto", "to": no[0], "l": t["l"]}

    # ---- per-body helpers -------------------------------------------------
    def succ(self, key, b):
        t = self.bodies[key]["blocks"][b]["t"]
        k = t["k"]
        if k == "switch":
            return [x[1] for x in t["c"]] + [t["else"]]
        to = t.get("to")
        return [to] if to is not None else []

    def rpo(self, key):
        r = self._rpo.get(key)
        if r is not None:
            return r
        seen, post = set(), []
        stack = [(0, iter(self.succ(key, 0)))]
        seen.add(0)
        blocks = self.bodies[key]["blocks"]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen and blocks[m] is not None:
                    seen.add(m)
                    stack.append((m, iter(self.succ(key, m))))
                    break
            else:
                post.append(n)
                stack.pop()
        r = {b: i for i, b in enumerate(reversed(post))}
        self._rpo[key] = r
        return r

    def counters(self, key):
        """loop head -> integer locals that the loop assigns"""
        r = self._counters.get(key)
        if r is not None:
            return r
        order = self.rpo(key)
        body = self.bodies[key]
        pred, r = {}, {}
        for b in order:
            for m in self.succ(key, b):
                if m in order:
                    pred.setdefault(m, set()).add(b)
        for h in order:
            inside = {h}
            todo = [p for p in pred.get(h, ()) if order[p] >= order[h]]
            if not todo:
                continue
            while todo:
                n = todo.pop()
                if n not in inside:
                    inside.add(n)
                    todo += [p for p in pred.get(n, ()) if order[p] >= order[h]]
            ints = set()
            for n in inside:
                for st in body["blocks"][n]["s"]:
                    if st[0] == "=" and len(st[1]) == 1:
                        ints.add(st[1][0])
                t = body["blocks"][n]["t"]
                if t["k"] == "call" and t.get("d") and len(t["d"]) == 1:
                    ints.add(t["d"][0])
            r[h] = {i for i in ints if body["locals"][i] in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128")}
        self._counters[key] = r
        return r

    def kids(self, key):
        """closures/coroutines defined directly inside `key`"""
        if self._kids is None:
            self._kids = {}
            for b in self.bodies.values():
                if "parent" in b:
                    self._kids.setdefault(b["parent"], []).append(b["key"])
        return self._kids.get(key, [])

    def tree(self, key):
        """key and every closure/coroutine nested in it"""
        out = [key]
        for k in self.kids(key):
            out += self.tree(k)
        return out

    def local_fns(self):
        return [b for b in self.bodies.values() if b["kind"] in ("fn", "closure", "coroutine")]

    def callers(self, key):
        """functions (closures: their root) whose code mentions the local function `key`"""
        if self._callers is None:
            self._callers = {}

            def walk(x, me):
                if isinstance(x, dict):
                    k = x.get("k")
                    if isinstance(k, str) and "fn" in x:
                        self._callers.setdefault(k, set()).add(me)
                    for y in x.values():
                        walk(y, me)
                elif isinstance(x, list):
                    for y in x:
                        walk(y, me)

            for b in self.bodies.values():
                if b["kind"] != "std":
                    walk(b["blocks"], b.get("root", b["key"]))
        return self._callers.get(key, set())

    def find(self, suffix, one=True):
        r = [k for k, b in self.bodies.items() if b["kind"] == "fn" and (k == suffix or k.endswith("::" + suffix))]
        if one:
            if len(r) != 1:
                raise FactError(f"anchor {suffix!r}: {len(r)} matches {r[:5]}")
            return r[0]
        return r


if __name__ == "__main__":
    p = extract(verbose=True)
    print(p, os.path.getsize(p))
