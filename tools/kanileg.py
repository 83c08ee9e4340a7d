"""Contracts that Kani (CBMC) checks over the whole domain: /verif/kani.  The
functions under contract have no loops, so no bound is involved."""
import os, re, shutil, signal, subprocess, tempfile, time
import common

SRC = os.path.join(common.VERIF, "kani")
LIMIT = {"quick": 540, "thorough": 800}


def groups():
    """contract name -> kind of function"""
    names = re.findall(r"^fn k_(\w+)\(\)", open(os.path.join(SRC, "src", "lib.rs")).read(), re.M)
    return names


LIB = {"abs": "Real::abs", "min": "Real::min", "max": "Real::max", "finite": "Real::is_finite", "as": "Real::as_f64", "fromi32": "Real::from_i32",
       "fromf64": "Real::from_f64", "limits": "Real::{MAX, MIN, zero, one}", "from": "ConvertFrom::convert_from", "to": "ConvertTo::convert_to",
       "force": "ConvertForce::convert_force", "narrow": "ConvertForce::convert_force", "lhs": "ConvertWith::convert_lhs",
       "rhs": "ConvertWith::convert_rhs", "lhsw": "ConvertWith::convert_lhs", "rhsw": "ConvertWith::convert_rhs"}


def go(cmd, cwd, env, timeout):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o
    return p.returncode, o


def run(prop, tier):
    t0 = time.time()
    names = groups()
    d = tempfile.mkdtemp(prefix="vkani.")
    cmd = ["cargo", "kani", "-Z", "function-contracts", "--output-format", "terse", "-j", "6"]
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(d, "target")}
    failed, und, ok = [], [], set()
    try:
        w = os.path.join(d, "vk")
        shutil.copytree(SRC, w, ignore=shutil.ignore_patterns("target"))
        ct = open(os.path.join(w, "Cargo.toml")).read().replace('path = "/repo/', 'path = "%s/' % common.REPO)
        open(os.path.join(w, "Cargo.toml"), "w").write(ct)
        rc, o = go(cmd, w, env, LIMIT[tier])
        cur, bad = {}, {}
        for blk in re.split(r"^(?=Thread \d+: )", o, flags=re.M):
            m = re.match(r"Thread (\d+): Checking harness (?:\w+::)*k_(\w+)\.\.\.", blk)
            if m:
                cur[m.group(1)] = m.group(2)
                continue
            m = re.match(r"Thread (\d+): ", blk)
            if not m or m.group(1) not in cur:
                continue
            if "VERIFICATION:- SUCCESSFUL" in blk:
                ok.add(cur[m.group(1)])
            elif "VERIFICATION:- FAILED" in blk:
                bad[cur[m.group(1)]] = blk
        if rc is None:
            und.append("kani took more than %d s" % LIMIT[tier])
        elif not ok and not bad:
            und.append("kani does not take the crate: " + o[-800:])
        for n in sorted(bad):
            blk = bad[n]
            # what was not decided is no alarm
            if not re.search(r"Failed Checks: ", blk) or re.search(r"unwinding assertion|CBMC (timed out|failed)|out of memory|not currently supported", blk):
                und.append("kani: %s: %s" % (n, blk.strip()[-300:]))
                continue
            msg = "; ".join(re.findall(r"Failed Checks: (.*)", blk))
            out = blk
            if len(failed) < 2:
                # the counterexample, as kani states it
                rc2, o2 = go(["cargo", "kani", "-Z", "function-contracts", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", "k_" + n, "--exact"], w, env, 120)
                out += "\n" + o2[-2500:]
            kind = n.split("_")[0]
            failed.append({"unit": "kani", "function": "%s (%s)" % (LIB.get(kind, kind), n), "file": "annealers/src/variable.rs", "props": None,
                           "message": msg, "output": out[:5000]})
        missing = [n for n in names if n not in ok and n not in bad]
        if missing and rc is not None and (ok or bad):
            und.append("kani gave no verdict for " + ", ".join(missing[:20]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    secs = time.time() - t0
    return {"failed": failed, "undecided": und, "obligations": len(names), "discharged": len(ok), "cmd": "cd kani && " + " ".join(cmd),
            "summary": {"unit": "kani", "back_end": "kani (cbmc)", "verified": len(ok), "errors": len(failed), "seconds": round(secs, 1),
                        "note": "each contract is checked for every input of its types; no loops, so no unwinding bound"},
            "functions": [{"function": "%s (%s)" % (LIB.get(n.split("_")[0], "?"), n), "source": "annealers/src/variable.rs", "unit": "kani", "lost": []} for n in names],
            "trusted": ["kani and cbmc, with their model of the float casts and comparisons",
                        "f32/f64 min, max, abs and is_finite of std as kani compiles or models them"]}
