"""The deductive leg: units/<name>.vu says which functions of /repo are put under
contract; vx extracts them from the current source and verus discharges every
obligation, function by function.  No result is kept between runs."""
import json, os, re, shutil, subprocess, tempfile, threading, time
import common
from propmap import UNITS, KANI

SHAPES = json.load(open(os.path.join(common.VERIF, "units", "shapes.json")))
# set by the caller: says when the search for a failing input is over
FOUND = None
RLIMIT = {"quick": 40, "thorough": 120}


def verus_json(path, extra, cwd, timeout):
    p = subprocess.Popen(["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded",
                          "--error-format=json", "--multiple-errors", "4"] + extra,
                         cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, [], "verus took more than %d s" % timeout
    msgs, rest = [], []
    for l in e.splitlines():
        try:
            msgs.append(json.loads(l))
        except ValueError:
            rest.append(l)
    try:
        res = json.loads(o[o.index("{"):])
    except ValueError:
        return None, msgs, "\n".join(rest)[-1500:] or o[-1500:]
    return res, msgs, "\n".join(rest)[-1500:]


def last(name):
    return re.sub(r"<.*", "", name).split("::")[-1]


def span_text(m):
    out = [m.get("rendered") or m["message"]]
    return out[0][:3000]


def clause_props(m):
    """a clause, invariant or assertion that speaks of predicates `cNN_..` only is
    about property CNN: the function's other properties do not rest on it"""
    out = set()
    for s in m.get("spans", []):
        if not s.get("is_primary") and "failed this" not in (s.get("label") or ""):
            continue
        t = " ".join(x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1] for x in s.get("text", []))
        out |= set(re.findall(r"\bc(\d\d)_\w+", t))
    return ["C" + x for x in sorted(out)]


def trusted(src):
    """what the verifier took for granted in a generated file"""
    out = []
    lines = src.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l:
            for k in range(i + 1, min(i + 8, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    out.append("assumed contract: %s %s" % (m.group(1), m.group(2)))
                    break
        for w in ("assume(", "admit(", "axiom fn", "assume_specification", "external_fn_specification"):
            if w in l:
                out.append("assumption: " + l.strip()[:160])
        m = re.search(r"\buninterp spec fn (\w+)", l)
        if m:
            out.append("uninterpreted: " + m.group(1))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


class Unit:
    """one run of verus over one generated file"""

    def __init__(self, name, tier, d):
        self.name, self.tier, self.d = name, tier, d
        self.fns, self.failed, self.undecided, self.proved, self.lemmas = [], [], [], [], []
        self.verified = self.errors = self.smt_ms = self.rlimit = 0
        self.trusted, self.probe, self.seconds = [], None, 0.0

    def extract(self, probe=False):
        vx, msg = common.build_vx()
        if vx is None:
            return None, "the extractor does not build: " + msg[-500:]
        tag = self.name + (".probe" if probe else "")
        out, meta = os.path.join(self.d, tag.replace(".", "_") + ".rs"), os.path.join(self.d, tag + ".json")
        r = common.run([vx, "--repo", common.REPO, "--unit", os.path.join(common.VERIF, "units", self.name + ".vu"),
                        "--out", out, "--meta", meta] + (["--probe", "yes"] if probe else []), timeout=120)
        if r.returncode != 0:
            return None, "extraction failed: " + r.stderr[-800:]
        return out, json.load(open(meta))["functions"]

    def once(self, path, extra, timeout):
        res, msgs, rest = verus_json(path, extra, self.d, timeout)
        errs = [m for m in msgs if m.get("level") == "error" and not m["message"].startswith("aborting due to")]
        return res, errs, rest

    def run(self):
        t0 = time.time()
        try:
            self.go()
        except Exception as e:
            import traceback
            self.undecided.append("unit %s: %r %s" % (self.name, e, traceback.format_exc()[-800:]))
        self.seconds = time.time() - t0

    def go(self):
        path, fns = self.extract()
        if path is None:
            self.undecided.append("unit %s: %s" % (self.name, fns))
            return
        self.fns = fns
        src = open(path).read()
        self.trusted = trusted(src)
        lines = src.split("\n")
        for f in fns:
            # functions with clauses of a property they are not tagged with
            f["also"] = sorted({"C" + x for x in re.findall(r"\bc(\d\d)_\w+", "\n".join(lines[f["lo"] - 1:f["hi"]]))} - set(f["props"]))
        for f in fns:
            if f["lost"]:
                self.undecided.append("unit %s: %s in %s cannot be brought under its contract as it is written now: %s" % (
                    self.name, f["name"], f["file"], "; ".join(f["lost"])))
        rl = RLIMIT[self.tier]
        res, errs, rest = self.once(path, ["--rlimit", str(rl)], 400)
        if res is None or res.get("verification-results", {}).get("encountered-vir-error") or "verified" not in res.get("verification-results", {}) \
                or any(m.get("code") for m in errs) or not self.breakdown(res):
            m = "; ".join(m["message"] for m in errs[:3]) or rest
            where = self.locate(errs[0]) if errs else None
            self.undecided.append("unit %s: verus does not take the extracted text%s: %s" % (
                self.name, " (%s)" % where["name"] if where else "", m[:600]))
            return
        if res["verification-results"]["errors"]:
            # a second opinion, so that an unlucky search is not an alarm
            res, errs = self.again(path, res, errs, rl)
        bd = self.breakdown(res)
        vr = res["verification-results"]
        self.verified, self.errors = vr["verified"], vr["errors"]
        self.smt_ms = sum(b["time-micros"] for b in bd) / 1000.0
        self.rlimit = sum(b["rlimit"] for b in bd)
        bad = {b["function"] for b in bd if not b["success"]}
        badlast = {last(b) for b in bad}
        ranges = [f for f in fns]
        for b in bd:
            if b.get("mode:", b.get("mode")) not in ("exec", "proof"):
                continue
            (self.proved if b["success"] else self.lemmas).append(b["function"])
        lost_names = {f["name"] for f in fns if f["lost"]}
        for m in errs:
            f = self.locate(m, badlast)
            name = f["name"] if f else "lemma"
            low = m["message"].lower()
            if "resource limit" in low or "rlimit" in low or "timeout" in low or "canceled" in low:
                self.undecided.append("unit %s: %s: %s" % (self.name, name, m["message"]))
                continue
            if f and f["lost"]:
                continue
            was = SHAPES.get("%s: %s" % (self.name, name))
            if f and was is not None and was != f["shape"]:
                # the invariants belong to loops that are no longer there
                self.undecided.append("unit %s: %s has other loops than those its invariants were written for (%s, not %s): %s" % (
                    self.name, name, f["shape"] or "none", was or "none", m["message"]))
                continue
            self.failed.append({"unit": self.name, "function": name, "file": f["src_lines"] if f else "",
                                "props": clause_props(m) or (f["props"] if f else None), "message": m["message"], "output": span_text(m)})
        if vr["errors"] and not errs:
            self.undecided.append("unit %s: errors without messages: %s" % (self.name, rest[:300]))
        # a function that lost an anchor can fail for that reason only, and what
        # failed elsewhere beside a lost contract or item is not to be relied on
        if any(f["lost"] and (not f["props"] or any("cannot find" in x or "not found" in x for x in f["lost"])) for f in fns):
            for x in self.failed:
                self.undecided.append("unit %s: %s: %s (beside a lost item)" % (self.name, x["function"], x["message"]))
            self.failed = []
        if self.tier == "thorough" and not self.failed:
            self.do_probe()

    def again(self, path, res, errs, rl):
        """what failed once more, each function by itself, with twice the resources"""
        if FOUND is not None:
            # a failing input settles it
            FOUND.wait(150)
            if getattr(FOUND, "violation", False):
                return res, errs
        bd = self.breakdown(res)
        bad = [b for b in bd if not b["success"]]
        t0 = time.time()
        good = set()
        for b in bad[:6]:
            left = 240 - (time.time() - t0)
            if left < 10:
                break
            n = last(b["function"])
            r2, e2, _ = self.once(path, ["--rlimit", str(rl * 2), "--verify-root", "--verify-function", "*" + n], min(left, 120))
            if r2 is None:
                continue
            b2 = self.breakdown(r2)
            mine = [x for x in b2 if last(x["function"]) == n]
            if mine and all(x["success"] for x in mine) and not e2:
                good.add(n)
        if not good:
            return res, errs
        for b in bad:
            if last(b["function"]) in good:
                b["success"] = True
        keep = []
        for m in errs:
            f = self.locate(m)
            nm = None
            if f:
                nm = f["name"].split(" as ")[-1] if " as " in f["name"] else last(f["name"].split(" (")[0])
            if nm not in good and not (nm is None and all(last(b["function"]) in good for b in bad)):
                keep.append(m)
        n = len([b for b in bad if b["success"]])
        res["verification-results"]["verified"] += n
        res["verification-results"]["errors"] = max(0, res["verification-results"]["errors"] - n) if keep else 0
        return res, keep

    def breakdown(self, res):
        try:
            mods = res["times-ms"]["verification"]["smt"]["smt-run-module-times"]
        except KeyError:
            try:
                mods = res["times-ms"]["smt"]["smt-run-module-times"]
            except KeyError:
                mods = self.find(res, "smt-run-module-times") or []
        out = []
        for m in mods:
            out += m.get("function-breakdown", [])
        return out

    def find(self, o, k):
        if isinstance(o, dict):
            if k in o:
                return o[k]
            for v in o.values():
                r = self.find(v, k)
                if r is not None:
                    return r
        return None

    def locate(self, m, badlast=None):
        spans = sorted(m.get("spans", []), key=lambda s: not s["is_primary"])
        first = None
        for s in spans:
            for f in self.fns:
                if f["lo"] <= s["line_start"] <= f["hi"] and f["src_lines"]:
                    nm = f["name"].split(" as ")[-1] if " as " in f["name"] else last(f["name"].split(" (")[0])
                    if badlast is None or nm in badlast:
                        return f
                    first = first or f
        return first

    def do_probe(self):
        """vacuity guard: `assert(false)` at the end of every function must be refuted"""
        path, fns = self.extract(probe=True)
        if path is None:
            return
        res, errs, rest = self.once(path, ["--rlimit", "40"], 400)
        if res is None or not self.breakdown(res):
            self.undecided.append("unit %s: the vacuity probe did not run: %s" % (self.name, rest[:300]))
            return
        hit = set()
        keep, self.fns = self.fns, fns
        for m in errs:
            if "assertion" in m["message"] or "resource" in m["message"].lower():
                f = self.locate(m)
                if f:
                    hit.add(f["name"])
        self.fns = keep
        miss = [f["name"] for f in fns if f["props"] and not f["lost"] and f["name"] not in hit]
        self.probe = {"functions": len([f for f in fns if f["props"]]), "reached": len(hit), "not_reached": miss}
        if miss:
            self.undecided.append("unit %s: the end of %s is unreachable under its contract" % (self.name, ", ".join(miss)))


def run(prop, tier):
    us = UNITS.get(prop, [])
    d = tempfile.mkdtemp(prefix="vded.")
    units = [Unit(n, tier, d) for n in us]
    try:
        ths = [threading.Thread(target=u.run) for u in units]
        for t in ths:
            t.start()
        kani = None
        if prop in KANI:
            import kanileg
            kani = kanileg.run(prop, tier)
        for t in ths:
            t.join()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    failed, und = [], []
    for u in units:
        for x in u.failed:
            if x["props"] is None or prop in x["props"]:
                failed.append(x)
            else:
                und.append("unit %s: %s fails, which %s does not rest on directly: %s" % (u.name, x["function"], prop, x["message"]))
        und += u.undecided
    if kani:
        failed += kani["failed"]
        und += kani["undecided"]
    return {"units": units, "failed": failed, "undecided": und, "kani": kani}


def coverage(prop, ded):
    units = ded.get("units", [])
    fns, tb, per = [], [], []
    obl = dis = 0
    for u in units:
        mine = [f for f in u.fns if prop in f["props"] or prop in f.get("also", [])]
        other = [f for f in u.fns if f["props"] and f not in mine]
        names = {f["name"] for f in mine}
        # obligations: one per function or lemma of the unit that verus reports a verdict for
        obl += len(u.proved) + len(u.lemmas) + (0 if u.proved or u.lemmas else len(mine))
        dis += len(u.proved)
        fns += [{"function": f["name"], "source": f["src_lines"], "unit": u.name, "lost": f["lost"]} for f in mine]
        per.append({"unit": u.name, "back_end": "verus (z3)", "verified": u.verified, "errors": u.errors, "smt_ms": round(u.smt_ms, 1),
                    "rlimit_used": u.rlimit, "seconds": round(u.seconds, 1), "vacuity_probe": u.probe,
                    "functions_of_other_properties": len(other)})
        for t in u.trusted:
            if t not in tb:
                tb.append(t)
    k = ded.get("kani")
    if k:
        obl += k["obligations"]
        dis += k["discharged"]
        per.append(k["summary"])
        fns += k["functions"]
        tb += k["trusted"]
    tb += ["vx, the extractor of /verif/vx: its fixed rewriting rules (DESIGN.md)", "verus and z3", "rustc"] if units else []
    return {"obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(["vx --repo %s --unit units/%s.vu && verus %s.rs" % (common.REPO, u.name, u.name) for u in units]
                                     + ([k["cmd"]] if k else [])) or "none",
            "trusted_base": tb, "functions_under_contract": fns, "back_ends": per,
            "failed_obligations": [{"function": f["function"], "message": f["message"]} for f in ded.get("failed", [])],
            "undecided": ded.get("undecided", [])}


def level(prop):
    return "proof"


def assumptions(prop, ded):
    import propmap
    return propmap.ASSUME_ALL + propmap.ASSUME.get(prop, [])
