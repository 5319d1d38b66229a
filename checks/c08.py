"""C08: derivative cache in any state against no cache."""
import copy
import io
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import sympy
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.lagrangepickler import LagrangePickler
from logic.stamping.lagrangesegment import LagrangeSegment
from logic.stamping.lagrangestampdetails import LagrangeStampDetails
from logic.stamping.matrixstamper import MatrixStamper, build_stamps_from_stampers

from checks import c07
from vf import ad, boot, glm
from vf.feeder import build_objects, glm_text, resolve, specs
from vf.runner import Inconclusive, Part, Violation

PROPERTY = "C08"
TITLE = "The on-disk derivative cache never changes results"
TECHNIQUE = "stateful: generated sequences of model uses and cache damage (Hypothesis) vs. automatic differentiation; processes started on generated cache states vs. an uncached solve"
LEVEL_NOTE = "Randomised search over cache histories; single flipped bits inside an otherwise valid entry are outside the property."
RULE = "history with at least one entry read back from the cache or one damaged entry"
WARM = ("load.lh_Ic", "line.line_lh", "line.shunt_lh", "slack.lh", "transformer.xfrmr_lh", "center_tap_transformer.center_tap_xfmr_lh", "voltagesource.lh")
ASSUMPTIONS = ["damage: missing, empty, truncated or overwritten entries, entries replaced by a directory, missing cache directory"]

DAMAGE = ["empty", "cut", "garbage", "text", "none", "object", "delete", "append"]


def damage(path, how, rnd):
    data = open(path, "rb").read() if os.path.isfile(path) else b""
    if how == "delete":
        os.unlink(path)
        return
    if how == "dir":
        os.unlink(path)
        os.mkdir(path)
        return
    new = {"empty": b"", "cut": data[: rnd.randrange(max(1, len(data)))], "garbage": bytes(rnd.randrange(256) for _ in range(40)), "text": b"not a pickle\n",
           "none": pickle.dumps(None), "object": pickle.dumps(rnd.choice([3, [], {}, {"a": 1}, "x", (1, 2)])), "append": data + b"\x00trailing"}[how]
    with open(path, "wb") as f:
        f.write(new)


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


# ------------------------------------------------------------------ models in one process

MUT = ["same", "pswap", "vswap", "dswap", "coef", "neg", "obj", "tiny"]


def sub(e, m):
    if e[0] == "s":
        return ["s", m.get(e[1], e[1])]
    return [e[0]] + [sub(x, m) if isinstance(x, (list, tuple)) else x for x in e[1:]]


def mutate(m, how):
    """a model that shares names with m; "names" gives the symbol of each position"""
    m = copy.deepcopy(m)
    if how == "pswap" and m["nc"] > 1:
        k = {"p0": "p1", "p1": "p0"}
        m["eqs"] = [sub(e, k) for e in m["eqs"]]
        m["obj"] = sub(m["obj"], k) if m["obj"] else None
        m["names"]["p"][:2] = m["names"]["p"][1], m["names"]["p"][0]
    elif how == "vswap" and m["nv"] > 1:
        k = {"v0": "v1", "v1": "v0"}
        m["eqs"] = [sub(e, k) for e in m["eqs"]]
        m["obj"] = sub(m["obj"], k) if m["obj"] else None
        m["names"]["v"][:2] = m["names"]["v"][1], m["names"]["v"][0]
    elif how == "dswap" and len(m["eqs"]) > 1:
        m["eqs"][:2] = m["eqs"][1], m["eqs"][0]
        m["names"]["d"][:2] = m["names"]["d"][1], m["names"]["d"][0]
    elif how == "coef":
        m["eqs"][0] = ["+", m["eqs"][0], ["*", ["c", 0.25], ["s", "v0"]]]
    elif how == "tiny":
        m["eqs"][0] = ["+", m["eqs"][0], ["*", ["c", 1.0000001], ["s", "v0"]]]
    elif how == "neg":
        m["eqs"][0] = ["*", ["c", -1.0], m["eqs"][0]]
    elif how == "obj":
        m["obj"] = None if m["obj"] else ["sq", ["s", "v0"]]
    return m


@st.composite
def model_cases(draw):
    base = draw(c07.model())
    base["tx"] = False
    muts = draw(st.lists(st.sampled_from(MUT), min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        if draw(st.integers(0, 2)):
            ops.append(["use", draw(st.integers(0, len(muts)))])
        else:
            ops.append(["damage", draw(st.sampled_from(DAMAGE + ["dir", "rmdir"])), draw(st.integers(0, 99))])
    return {"model": base, "muts": muts, "ops": [["use", 0]] + ops + [["use", draw(st.integers(0, len(muts)))]], "opt": draw(st.booleans()),
            "c": [draw(c07.num) for _ in range(base["nc"])], "pts": [draw(st.lists(st.floats(-2, 2).map(lambda x: round(x, 3)), min_size=8, max_size=8)) for _ in range(2)]}


def use(m, case):
    prim = [sympy.Symbol(x) for x in m["names"]["v"]]
    cons = [sympy.Symbol(x) for x in m["names"]["p"]]
    dual = [sympy.Symbol(x) for x in m["names"]["d"]]
    syms = {"v%d" % k: s for k, s in enumerate(prim)}
    syms.update({"p%d" % k: s for k, s in enumerate(cons)})
    L = sympy.Integer(0)
    for d, e in zip(dual, m["eqs"]):
        L += d * ad.to_sympy(e, syms)
    if m["obj"] is not None:
        L += ad.to_sympy(m["obj"], syms)
    seg = LagrangeSegment(L, cons, prim, dual)
    opt, nv, nd = case["opt"], m["nv"], len(m["eqs"])
    inst = {"m": 0, "c": case["c"], "pv": list(range(nv)), "dv": list(range(nv, nv + nd))}
    n = nv + nd
    vm = {s: i for s, i in zip(prim + dual, inst["pv"] + (inst["dv"] if opt else [None] * nd))}
    stamper = MatrixStamper(build_stamps_from_stampers(None, (LagrangeStampDetails(seg, vm, opt, None), list(case["c"]))), opt)
    ref = lambda v, tx: c07.reference([m], [inst], opt, n, v, tx)
    c07.run_histories(stamper, ref, n, [{"tx": 0.0, "pts": [p[:n] for p in case["pts"]], "rtx": None, "rpt": None}])


def check_models(case):
    base = copy.deepcopy(case["model"])
    base["names"] = {"v": ["v%d" % k for k in range(base["nv"])], "p": ["p%d" % k for k in range(base["nc"])], "d": ["l%d" % k for k in range(len(base["eqs"]))]}
    models = [base] + [mutate(base, h) for h in case["muts"]]
    old, oldp = tempfile.tempdir, LagrangeSegment._pickler
    tmp = tempfile.mkdtemp(dir=boot.SCRATCH)
    labels, seen = set(), set()
    try:
        tempfile.tempdir = tmp
        LagrangeSegment._pickler = LagrangePickler()
        for op in case["ops"]:
            if op[0] == "use":
                try:
                    use(models[op[1]], case)
                except Violation as e:
                    raise Violation("model %d after %s: %s" % (op[1], [o[:2] for o in case["ops"]], e))
                labels.add("reread" if op[1] in seen else "first")
                seen.add(op[1])
            elif op[1] == "rmdir":
                for x in os.listdir(tmp):
                    shutil.rmtree(os.path.join(tmp, x))
                labels.add("rmdir")
            else:
                fs = files(tmp)
                if fs:
                    damage(fs[op[2] % len(fs)], op[1], random.Random(op[2]))
                    labels.add(op[1])
    finally:
        tempfile.tempdir, LagrangeSegment._pickler = old, oldp
        shutil.rmtree(tmp, ignore_errors=True)
    if len(models) > 1:
        labels.add("siblings")
    return {"nontrivial": bool(labels - {"first", "siblings"}), "labels": sorted(labels)}


# ------------------------------------------------------------------ processes

_template = None


def spawn(path, tmp, cap):
    env = dict(os.environ, TMPDIR=tmp, VERIF_REPO=boot.REPO, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([sys.executable, "-m", "vf.child", path, "1" if cap else "0"], cwd=boot.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def finish(p):
    out, err = p.communicate(timeout=300)
    for line in out.splitlines()[::-1]:
        if line.startswith("RESULT "):
            d = json.loads(line[7:])
            return d["ok"], {(a, b): complex(x, y) for a, b, x, y in d["v"]}
    raise Violation("run failed: %s" % (err.strip().splitlines() or ["no output"])[-1][:300])


def template(path, cap):
    """cache left by an earlier run"""
    global _template
    if _template is None:
        d = tempfile.mkdtemp(dir=boot.SCRATCH)
        try:
            finish(spawn(path, d, cap))
        except Violation as e:
            raise Violation("empty cache: %s" % e)
        _template = d
    return _template


@st.composite
def proc_cases(draw):
    return {"spec": draw(specs(max_edges=4, max_loads=3)), "state": draw(st.sampled_from(["empty", "valid", "damaged", "damaged", "damaged", "missing-dir"])),
            "dmg": draw(st.lists(st.sampled_from(DAMAGE + ["valid", "delete", "dir"]), min_size=1, max_size=8)), "seed": draw(st.integers(0, 9999)), "two": draw(st.integers(0, 2)) == 0}


def check_proc(case):
    net = resolve(case["spec"])
    for l in net.loads:
        l["e"] = [e for e in l["e"] if e["t"] != "P"]
    s = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    text = glm_text(build_objects(net))
    model, res = glm.solve(text, s)
    ref = glm.voltages(res)
    path = glm.scratch_file(text)
    tmp = tempfile.mkdtemp(dir=boot.SCRATCH)
    what = case["state"]
    try:
        if what in ("valid", "damaged"):
            shutil.rmtree(tmp)
            shutil.copytree(template(path, net.cap_on), tmp)
        if what == "damaged":
            rnd = random.Random(case["seed"])
            for i, f in enumerate(files(tmp)):
                how = case["dmg"][i % len(case["dmg"])]
                if how != "valid":
                    damage(f, how, rnd)
        ps = [spawn(path, tmp, net.cap_on) for _ in range(2 if case["two"] else 1)]
        outs = []
        for p in ps:
            try:
                outs.append(finish(p))
            except Violation as e:
                raise Violation("cache %s%s: %s" % (what, " used by two processes" if case["two"] else "", e))
        for ok, v in outs:
            if ok != bool(res.is_success):
                raise Violation("cache %s: success %s, without a cache %s" % (what, ok, res.is_success))
            if ok:
                if set(v) != set(ref):
                    raise Violation("cache %s: nodes differ" % what)
                k = max(ref, key=lambda k: abs(v[k] - ref[k]))
                if not abs(v[k] - ref[k]) <= 1e-9 * net.nodes[k[0]]["vn"]:
                    raise Violation("cache %s: node %s is %s V, without a cache %s V" % (what, k, v[k], ref[k]))
    finally:
        os.unlink(path)
        shutil.rmtree(tmp, ignore_errors=True)
    return {"nontrivial": what != "empty" or case["two"], "labels": [what] + (["two-processes"] if case["two"] else [])}


parts = [Part("models", model_cases, check_models, 500, 30000), Part("processes", proc_cases, check_proc, 48, 2400)]
