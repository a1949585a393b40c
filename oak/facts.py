"""Build the rustc driver, run it over /repo's current source, load the facts it writes.

Nothing here is cached between runs: the driver is recompiled when missing and the
facts are regenerated from the working tree into a private scratch directory.
"""
import json, os, subprocess, sys, tempfile, shutil, time, glob, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OAK_REPO", "/repo")
TOOLCHAIN = "nightly"


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTC_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    return e


def _sysroot():
    r = subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("rustc +nightly is not usable: " + r.stderr[-400:])
    return r.stdout.strip()


def build_driver(dst):
    src = os.path.join(VERIF, "driver", "main.rs")
    r = subprocess.run(["rustc", "+" + TOOLCHAIN, "--edition", "2021", "-O", "-A", "warnings", src, "-o", dst], env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("driver does not compile: " + r.stderr[-2000:])


def workspace_packages():
    """(package name, lib crate name) of every member, from the manifests."""
    out = {}
    for m in sorted(glob.glob(REPO + "/projects/*/Cargo.toml") + glob.glob(REPO + "/examples/*/Cargo.toml")):
        name = None
        for l in open(m, encoding="utf-8"):
            l = l.strip()
            if l.startswith("name"):
                name = l.split("=", 1)[1].strip().strip('"')
                break
        if name:
            out[name] = os.path.dirname(m)[len(REPO) + 1:]
    return out


class Facts:
    def __init__(self, packages=None):
        """packages: list of package names, or None for the whole workspace."""
        t0 = time.time()
        base = "/var/tmp" if os.access("/var/tmp", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="oakfacts.", dir=base)
        atexit.register(self.cleanup)
        drv = os.path.join(self.dir, "oakfacts")
        build_driver(drv)
        out = os.path.join(self.dir, "facts")
        os.makedirs(out)
        env = _env()
        env["LD_LIBRARY_PATH"] = _sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["OAKFACTS_OUT"] = out
        env["OAKFACTS_ROOT"] = REPO
        env["CARGO_TARGET_DIR"] = os.path.join(self.dir, "target")
        env["CARGO_NET_OFFLINE"] = "true"
        env["CARGO_INCREMENTAL"] = "0"
        env["CARGO_TERM_COLOR"] = "never"
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        made_lock = False
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/oaks/Cargo.lock"):
            shutil.copy("/opt/vp/oaks/Cargo.lock", lock)
            made_lock = True
        cmd = ["cargo", "+" + TOOLCHAIN, "check", "--offline", "--all-features", "--keep-going"]
        if packages is None:
            cmd.append("--workspace")
        else:
            for p in packages:
                cmd += ["-p", p]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        self.build_log = r.stderr
        if r.returncode:
            errs = [l for l in r.stderr.splitlines() if l.startswith("error")]
            raise BuildError("cargo check failed: " + " | ".join(errs[:6]) + "\n" + r.stderr[-3000:])
        shutil.rmtree(os.path.join(self.dir, "target"), ignore_errors=True)
        self.files = {os.path.basename(f)[:-6]: f for f in glob.glob(out + "/*.jsonl")}
        self.build_s = time.time() - t0
        if packages is None:
            missing = [p for p in workspace_packages() if p.replace("-", "_") not in self.files]
            if missing:
                raise BuildError("no facts for " + ", ".join(missing))

    @classmethod
    def existing(cls, d):
        o = cls.__new__(cls)
        o.dir = None
        o.files = {os.path.basename(f)[:-6]: f for f in glob.glob(d + "/*.jsonl")}
        o.build_s = 0
        return o

    def cleanup(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def crate(self, name):
        return Crate(name, self.files[name])


class Crate:
    def __init__(self, name, path):
        self.name = name
        self.fns = {}      # key -> fn record (first of that key)
        self.all_fns = []
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = []
        dup = {}
        with open(path, encoding="utf-8") as f:
            for l in f:
                d = json.loads(l)
                k = d["k"]
                if k == "fn":
                    d["crate"] = name
                    key = d["key"]
                    if key in self.fns:
                        dup[key] = dup.get(key, 1) + 1
                        d["key"] = key + "#%d" % dup[key]
                    self.fns[d["key"]] = d
                    self.all_fns.append(d)
                elif k == "adt":
                    self.adts[d["key"]] = d
                elif k == "impl":
                    self.impls.append(d)
                elif k == "trait":
                    self.traits[d["key"]] = d
                elif k == "static":
                    self.statics.append(d)


# ------------------------------------------------------------------ CFG helpers
def succs(bb):
    t = bb[1]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[2]]
    return []


def reachable(fn):
    seen = {0}
    st = [0]
    bbs = fn["bbs"]
    while st:
        b = st.pop()
        if bbs[b] is None:
            continue
        for s in succs(bbs[b]):
            if s not in seen:
                seen.add(s)
                st.append(s)
    return seen


def dominators(fn):
    """immediate-dominator style sets, iterative; returns dict bb -> set of dominators."""
    bbs = fn["bbs"]
    reach = reachable(fn)
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(succs(bbs[b])))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen and bbs[s] is not None:
                    seen.add(s)
                    stack.append((s, iter(succs(bbs[s]))))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(0)
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(bbs[b]):
            if s in preds:
                preds[s].append(b)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom, order, preds


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b == 0 or b not in idom:
            return False
        b = idom[b]


def loops(fn):
    """header -> set of blocks (natural loops); also set of back edges."""
    idom, order, preds = dominators(fn)
    bbs = fn["bbs"]
    res = {}
    back = set()
    for u in order:
        for h in succs(bbs[u]):
            if h in idom and dominates(idom, h, u):
                back.add((u, h))
                body = res.setdefault(h, {h})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return res, back
