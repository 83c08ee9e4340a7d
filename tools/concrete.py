"""The concrete leg: runs the real code (through its public interface) on generated cases."""
import json, os, resource, shutil, subprocess, tempfile
from common import build_harness

MEM = 20 << 30


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def _go(binp, args, timeout):
    env = dict(os.environ, RUST_BACKTRACE="0")
    p = subprocess.Popen([binp] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", preexec_fn=_limit, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return None, o, e


def run_concrete(prop, tier, seed, secs):
    """dict with: status 'pass' | 'violation' | 'unbuilt' | 'error', and the harness' figures"""
    binp, msg = build_harness()
    if binp is None:
        return {"status": "unbuilt", "message": msg}
    d = tempfile.mkdtemp(prefix="vh.")
    try:
        out = os.path.join(d, "out.json")
        args = [prop, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--out", out, "--cur", d]
        rc, so, se = _go(binp, args, secs + 45)
        if rc in (0, 1) and os.path.exists(out):
            res = json.load(open(out))
            res["status"] = "violation" if res["violation"] else "pass"
            return res
        # hang, abort or out of memory: which of the running cases does it alone?
        for f in sorted(os.listdir(d)):
            if not f.startswith("cur."):
                continue
            fam, idx = open(os.path.join(d, f)).read().rsplit(" ", 1)
            out2 = os.path.join(d, "one.json")
            rc2, so2, se2 = _go(binp, [prop, "--seed", str(seed), "--tier", tier, "--secs", "60", "--out", out2,
                                       "--family", fam, idx, "--threads", "1"], 60)
            if rc2 in (0, 1) and os.path.exists(out2):
                res = json.load(open(out2))
                os.remove(out2)
                if res["violation"]:
                    res["status"] = "violation"
                    return res
                continue
            how = "does not end within 60 s" if rc2 is None else "ends the process (code %s): %s" % (rc2, se2[-500:])
            return {"status": "violation", "evaluations": 1, "cases": 1, "distinct_nontrivial": 1, "truncated": True,
                    "families": [{"family": fam, "cases": 1}], "samples": [],
                    "violation": {"family": fam, "idx": int(idx), "input": "case %s of family %s, seed %d" % (idx, fam, seed),
                                  "message": how}}
        return {"status": "error", "message": "exit %s, no case reproduces it alone: %s" % (rc, se[-800:])}
    finally:
        shutil.rmtree(d, ignore_errors=True)
