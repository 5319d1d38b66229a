"""Drives one property: generate cases with Hypothesis in several forked
workers, run the oracle on each, shrink a failure into a replay file and write
the evidence file.

A check module (checks/cXX.py) provides
    PROPERTY   "CXX"
    TITLE      short text
    RULE       what makes a case non-trivial
    parts      list of Part(name, strategy, check, quick=N, thorough=N)
where strategy is a zero-argument function returning a Hypothesis strategy of
JSON-able cases and check(case) runs the real code on the case.  check returns
a dict {"nontrivial": bool, "labels": [str...]} or raises Violation.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import boot


class Violation(AssertionError):
    pass


class Inconclusive(Exception):
    """The case does not decide anything (counted, never a violation)."""


class _Stop(BaseException):
    pass


class Part:
    def __init__(self, name, strategy, check, quick, thorough, rule=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


def canon(case):
    return json.dumps(case, sort_keys=True)


def in_repo(tb):
    src = boot.SRC + os.sep
    return any(f.filename.startswith(src) for f in traceback.extract_tb(tb))


def run_case(part, case):
    """-> (info|None, violation message|None); harness errors propagate."""
    try:
        case = json.loads(canon(case))
        with boot.quiet():
            info = part.check(case)
        return (info or {}), None
    except Violation as e:
        return None, str(e)
    except Inconclusive as e:
        return {"labels": ["inconclusive:%s" % e], "nontrivial": False}, None
    except Exception as e:
        if in_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(boot.SRC + os.sep)][-1]
            return None, "unexpected exception from the code under test: %s: %s (at %s:%s)" % (
                type(e).__name__, str(e)[:300], os.path.relpath(last.filename, boot.SRC), last.name)
        raise


def _worker(part, n, seed, deadline, shrink_s, q):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {"evaluations": 0, "skipped": 0, "labels": {}, "distinct": set(), "nontrivial": set(), "samples": []}
    fail = {"case": None, "size": None, "msg": None, "t": None}

    def body(case):
        now = time.time()
        if fail["t"] is None and now > deadline:
            stats["skipped"] += 1
            return
        if fail["t"] is not None and now > fail["t"] + shrink_s:
            raise _Stop()
        info, bad = run_case(part, case)
        stats["evaluations"] += 1
        txt = canon(case)
        h = hashlib.sha1(txt.encode()).hexdigest()[:16]
        if bad is not None:
            key = (len(txt), txt)
            if fail["case"] is None or key < fail["size"]:
                fail.update(case=case, size=key, msg=bad)
            if fail["t"] is None:
                fail["t"] = time.time()
            raise Violation(bad)
        if fail["t"] is not None:
            return
        stats["distinct"].add(h)
        for l in info.get("labels", ()):
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if info.get("nontrivial"):
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                if len(stats["samples"]) < 3 and len(txt) < 6000:
                    stats["samples"].append(case)

    err = None
    try:
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False, print_blob=False,
        )(hypothesis.seed(seed)(given(part.strategy())(body)))
        with boot.quiet():
            test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException:
        if fail["case"] is None:
            err = traceback.format_exc()
    q.put((stats, fail, err))


def _spread(n, workers):
    workers = max(1, min(workers, n))
    return [n // workers + (1 if i < n % workers else 0) for i in range(workers)]


def run_part(part, n, workers, seed, wall, shrink_s):
    ctx = mp.get_context("fork")
    deadline = time.time() + wall
    procs, q = [], ctx.Queue()
    for i, k in enumerate(_spread(n, workers)):
        s = int(hashlib.sha256(("%s|%s|%s" % (part.name, seed, i)).encode()).hexdigest()[:12], 16)
        p = ctx.Process(target=_worker, args=(part, k, s, deadline, shrink_s, q))
        p.start()
        procs.append(p)
    out = []
    waiting = len(procs)
    hard = deadline + shrink_s + 60
    while waiting and time.time() < hard:
        try:
            out.append(q.get(timeout=1))
            waiting -= 1
        except Exception:
            if not any(p.is_alive() for p in procs):
                try:
                    while True:
                        out.append(q.get(timeout=1))
                        waiting -= 1
                except Exception:
                    break
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    tot = {"evaluations": 0, "skipped": 0, "labels": {}, "distinct": set(), "nontrivial": set(), "samples": []}
    fails, errs = [], []
    for stats, fail, err in out:
        tot["evaluations"] += stats["evaluations"]
        tot["skipped"] += stats["skipped"]
        for k, v in stats["labels"].items():
            tot["labels"][k] = tot["labels"].get(k, 0) + v
        tot["distinct"] |= stats["distinct"]
        tot["nontrivial"] |= stats["nontrivial"]
        tot["samples"] += stats["samples"][:1]
        if fail["case"] is not None:
            fails.append(fail)
        if err:
            errs.append(err)
    tot["lost_workers"] = waiting
    fails.sort(key=lambda f: f["size"])
    return tot, fails, errs


def known_findings(prop):
    """known-findings.txt: '#' comments; 'finding: property=CXX part=P case=<relative json file> what=<text>'."""
    out = []
    path = os.path.join(boot.VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding: property=%s " % prop):
            continue
        body = line[len("finding: "):]
        fields, what = body.split(" what=", 1)
        d = dict(x.split("=", 1) for x in fields.split())
        d["what"] = what
        out.append(d)
    return out


def warm(names):
    """Derive the component models the check needs (slow, symbolic) side by side, once, before the workers fork.

    The children leave them in the private derivative cache of this run, from which the parent takes them."""
    try:
        import logic.network.networkloader  # noqa: F401
        from logic.stamping.lagrangesegment import LagrangeSegment
    except Exception:
        return    # whatever is wrong shows up in the cases
    segs = []
    for n, m in sorted((n, m) for n, m in sys.modules.items() if n.startswith("models.")):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, LagrangeSegment) and v not in segs and n.split(".")[-1] + "." + k in names:
                segs.append(v)
    ctx = mp.get_context("fork")

    def derive(s):
        with boot.quiet():
            s.get_derivatives()
    procs = [ctx.Process(target=derive, args=(s,)) for s in segs]
    for p in procs:
        p.start()
    for p in procs:
        p.join(120)
        if p.is_alive():
            p.kill()
    for p, s in zip(procs, segs):
        try:
            if p.exitcode == 0:
                derive(s)
        except Exception:
            pass


WARM_DX = ("load.lh_pq", "load.lh_Ic", "line.line_lh", "line.shunt_lh", "slack.lh", "transformer.xfrmr_lh",
           "center_tap_transformer.center_tap_xfmr_lh", "voltagesource.lh", "L2infeasibility.lh")
WARM_TX = ("generator.lh", "load.lh_pq", "load.lh_Ic_pf", "line.line_lh", "line.shunt_lh", "slack.lh", "transformer.xfrmr_lh",
           "voltagesource.lh", "L2infeasibility.lh")


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args(sys.argv[2:])
    prop = mod.PROPERTY
    t0 = time.time()

    if a.replay:
        r = json.load(open(a.replay))
        part = [p for p in mod.parts if p.name == r["part"]][0]
        info, bad = run_case(part, r["case"])
        if bad:
            print(bad)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay passes: %s" % info)
        return 0

    if getattr(mod, "WARM", None):
        warm(mod.WARM)
    evdir = os.path.join(boot.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    violations, cov_parts, errs = [], {}, []
    samples, ev, dn = [], 0, 0
    findings = []
    for f in known_findings(prop):
        part = [p for p in mod.parts if p.name == f["part"]][0]
        case = json.load(open(os.path.join(boot.VERIF, f["case"])))
        info, bad = run_case(part, case)
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            findings.append({"what": f["what"], "observed": bad})
    wall_total = 600 if a.tier == "quick" else 3 * 3600
    for part in mod.parts:
        if a.part and part.name != a.part:
            continue
        n = part.quick if a.tier == "quick" else part.thorough
        n = max(1, int(n * a.scale))
        left = max(20.0, wall_total - (time.time() - t0))
        tot, fails, e = run_part(part, n, a.workers, boot.SEED, left, 60 if a.tier == "quick" else 300)
        errs += e
        cov_parts[part.name] = {
            "evaluations": tot["evaluations"], "distinct": len(tot["distinct"]),
            "distinct_nontrivial": len(tot["nontrivial"]), "skipped_for_time": tot["skipped"],
            "classes": dict(sorted(tot["labels"].items(), key=lambda kv: -kv[1])[:60]),
            "rule": part.rule or mod.RULE,
        }
        if tot["lost_workers"]:
            errs.append("%d workers of part %s gave no result" % (tot["lost_workers"], part.name))
        ev += tot["evaluations"]
        dn += len(tot["nontrivial"])
        samples += [{"part": part.name, "case": s} for s in tot["samples"][:3]]
        if fails:
            f = fails[0]
            name = "replay-%s-%s-%s.json" % (prop, part.name, hashlib.sha1(canon(f["case"]).encode()).hexdigest()[:8])
            path = os.path.join(evdir, name)
            json.dump({"property": prop, "part": part.name, "message": f["msg"], "case": f["case"]}, open(path, "w"), indent=1)
            violations.append({"part": part.name, "message": f["msg"], "replay": path})
            break
    evidence = {
        "property": prop, "tier": a.tier, "seed": boot.SEED, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": mod.RULE, "samples": samples[:12], "parts": cov_parts},
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": [{"message": v["message"], "replay": v["replay"]} for v in violations],
    }
    if findings:
        evidence["coverage"]["known_findings"] = findings
    json.dump(evidence, open(os.path.join(evdir, "%s.json" % prop), "w"), indent=1)
    for p, c in cov_parts.items():
        print("%s/%s: %d cases, %d non-trivial, %s" % (prop, p, c["evaluations"], c["distinct_nontrivial"], dict(list(c["classes"].items())[:14])))
    for v in violations:
        print(v["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%.1f s" % (time.time() - t0))
    if violations:
        return 1
    if errs:
        print("HARNESS ERROR\n" + errs[0], file=sys.stderr)
        return 3
    return 0
