"""Shared by the checks: building what a check needs from /repo's working tree."""
import fcntl, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


def repo_files():
    out = []
    for d in ("src", "annealers/src", "classical_solver/src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    for f in ("Cargo.toml", "annealers/Cargo.toml", "classical_solver/Cargo.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read() + b"\0")
    return h.hexdigest()


def run(cmd, cwd=None, env=None, timeout=None, **kw):
    e = dict(os.environ)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, errors="replace", **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_harness():
    """(path of the binary or None, message)"""
    src = os.path.join(VERIF, "harness")
    tgt = os.path.join(BUILD, "harness")
    binp = os.path.join(tgt, "release", "vh")
    stamp = os.path.join(tgt, "repo.stamp")
    if REPO != "/repo":
        return None, "the harness is tied to /repo"
    with Lock("harness"):
        os.makedirs(tgt, exist_ok=True)
        mine = [os.path.join(src, "src", f) for f in sorted(os.listdir(os.path.join(src, "src")))]
        mine += [os.path.join(src, "Cargo.toml"), os.path.join(src, "Cargo.lock")]
        want = tree_hash(repo_files() + mine)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(binp):
            return binp, "up to date"
        env = {"CARGO_TARGET_DIR": tgt}
        if os.path.exists(os.path.join(tgt, "release")):
            # file times are no evidence in copied trees: rebuild the crates under test
            run(["cargo", "clean", "--release", "--offline", "-p", "rustqubo", "-p", "annealers", "-p",
                 "classical_solver", "-p", "vh"], cwd=src, env=env)
        if os.path.exists(stamp):
            os.remove(stamp)
        try:
            r = run(["cargo", "build", "--release", "--offline"], cwd=src, env=env, timeout=600)
        except subprocess.TimeoutExpired:
            return None, "building the harness took more than 600 s"
        if r.returncode != 0 or not os.path.exists(binp):
            return None, r.stderr[-4000:]
        with open(stamp, "w") as f:
            f.write(want)
        return binp, "built"


def build_vx():
    src = os.path.join(VERIF, "vx")
    tgt = os.path.join(BUILD, "vx")
    binp = os.path.join(tgt, "release", "vx")
    stamp = os.path.join(tgt, "vx.stamp")
    if not os.path.isdir(src):
        return None, "no extractor"
    with Lock("vx"):
        os.makedirs(tgt, exist_ok=True)
        mine = [os.path.join(src, "src", f) for f in sorted(os.listdir(os.path.join(src, "src")))]
        mine += [os.path.join(src, "Cargo.toml"), os.path.join(src, "Cargo.lock")]
        want = tree_hash(mine)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(binp):
            return binp, "up to date"
        r = run(["cargo", "build", "--release", "--offline"], cwd=src, env={"CARGO_TARGET_DIR": tgt}, timeout=600)
        if r.returncode != 0:
            return None, r.stderr[-4000:]
        with open(stamp, "w") as f:
            f.write(want)
        return binp, "built"
