#!/usr/bin/env python3
"""plant.py bugs.py [ID..]: write /verif/seeded/<ID> for the bugs described and
confirm each in a scratch copy of /repo: it builds, the stable tests pass, the
demonstration passes without the change and fails with it."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(H)), "seeded")
W = "/tmp/plant"


def sh(c, cwd=None, t=900, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=e)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.exists(W + "/repo/src"):
        os.makedirs(W, exist_ok=True)
        sh(f"cp -a /repo {W}/repo")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", f"{W}/repo")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    base = os.environ.get("BASEFILES")
    for b in ns["BUGS"]:
        i = b["id"]
        if want and i not in want:
            continue
        d = os.path.join(OUT, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{W}/repo/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "PATTERN", f, s.count(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if ok:
            diff = sh("git diff", f"{W}/repo").stdout
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(H + "/demo.sh", d); shutil.copy(H + "/lib.rs", d)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.rs", "w").write("#[allow(dead_code)]\n#[path = \"lib_.rs\"]\n#[macro_use]\nmod l;\n#[allow(unused_imports)]\nuse l::*;\n" + b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            passed = set()
            log = ""
            for pk, nm in (("annealers", "annealers"), ("classical_solver", "classical_solver"), (".", "rustqubo")):
                r = sh("cargo test --no-fail-fast --offline -- --test-threads 8" + (" --skip sa_test" if pk[0] == "c" else ""), f"{W}/repo/{pk}",
                       env={"RAYON_NUM_THREADS": "64", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "PYO3_PYTHON": "/usr/bin/python3"})
                log += r.stdout
            open(f"{W}/{i}.log", "w").write(log)
            bad = [l for l in log.splitlines() if l.startswith("test ") and "test result" not in l and "ignored" not in l and not l.rstrip().endswith("ok") and "sa_test" not in l]
            npass = sum(1 for l in log.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok"))
            withp = sh(d + "/demo.sh", f"{W}/repo", 400)
            sh("git checkout -q -- .", f"{W}/repo")
            without = sh(d + "/demo.sh", f"{W}/repo", 400)
            good = not bad and npass >= len(stable) and withp.returncode not in (0, 3) and without.returncode == 0
            print(i, "OK" if good else "BAD", f"tests {npass} ok {bad}", "demo with", withp.returncode, "without", without.returncode, flush=True)
            if not good:
                print(withp.stdout[-600:], without.stdout[-1500:])
                ok = False
            elif os.environ.get("SHOW"):
                print(withp.stdout[-400:])
        sh("git checkout -q -- .", f"{W}/repo")
        if not ok:
            shutil.rmtree(d, ignore_errors=True)


main()
