"""C25: microgrid / time-series post-processing: equipment flag and balancing of the artificial swing bus."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, reference as R
from vf.feeder import PH, PICK, build_objects, conductor_phases, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, Inconclusive, Part, Violation

WARM = WARM_DX
PROPERTY = "C25"
TITLE = "Microgrid runs flag exceeded equipment ratings exactly and balance the swing bus"
TECHNIQUE = "generated feeders with generated ratings (Hypothesis): the flag vs. currents, winding powers and voltages recomputed from the file's data; balancing vs. a file with the resulting generation (differential)"
LEVEL_NOTE = "Randomised search over feeders of up to 6 links; ratings within 0.1 % of the loading are left undecided; no absence proof."
RULE = "solved feeder with line ratings or transformers (ratings), or a swing bus whose output had to be moved (balance)"
ASSUMPTIONS = ["line currents are the series currents (charging excluded), transformer loading that of each winding pair at the ideal coils against its share of the rating",
               "a node violates its rating when its magnitude is 5 % or more off nominal"]


def wires(cfg):
    """wire -> name of its conductor object"""
    pre = {"oh": "ohw%d_%s", "ug": "ugw%d_%s", "tl": "tlw%d_%s"}[cfg["kind"]]
    ph = "12N" if cfg["kind"] == "tl" else conductor_phases(cfg)
    return {w: pre % (cfg["idx"], w) for w in ph}


def currents(net, got):
    """(conductor name, |I|) of every line phase at the given voltages"""
    out = []
    zc = {n: R.z_cfg(c) for n, c in net.cfgs.items()}
    for el in net.els:
        if el["k"] not in ("oh", "ug", "tl"):
            continue
        dv = np.array([got[(el["from"], p)] - got[(el["to"], p)] for p in el["ph"]])
        z = zc[el["cfg"]] * el["len"] / 5280.0
        i = np.linalg.solve(z, dv)
        acc = np.abs(np.linalg.inv(z)).sum(axis=1) * 3e-9 * max(abs(got[(el["from"], p)]) for p in el["ph"]) + 1e-3
        w = wires(net.cfgs[el["cfg"]])
        for p, x, e in zip(el["ph"], i, acc):
            out.append((w[p], abs(x), e))
    return out


def windings(net, got):
    """(|S|, rating) of every winding pair"""
    out = []
    for el in net.els:
        k = el["k"]
        if k not in ("yy", "dd", "dy", "sp", "ct"):
            continue
        s, z = el["kva"] * 1000.0, complex(el["r"], el["x"])
        if k == "ct":
            z0 = complex(0.5 * el["r"], 0.8 * el["x"]) * el["vp"] ** 2 / s
            z1 = z2 = complex(el["r"], 0.4 * el["x"]) * el["vs"] ** 2 / s
            if el.get("z3"):
                z0 = z * el["vp"] ** 2 / s
                z1, z2 = (complex(*q) * el["vs"] ** 2 / s for q in (el["z3"][:2], el["z3"][2:]))
            n = el["vp"] / el["vs"]
            vp, v1, v2 = got[(el["from"], el["ph"])], got[(el["to"], "1")], got[(el["to"], "2")]
            E = (vp / z0 + (v1 / z1 - v2 / z2) / n) / (1 / z0 + (1 / z1 + 1 / z2) / n ** 2)
            i1, i2 = (E / n - v1) / z1, (-E / n - v2) / z2
            out.append((abs(E / n * (i1 - i2).conjugate()), s))
            continue
        r3 = math.sqrt(3)
        if k == "sp":
            n, zc, rating = el["vp"] / el["vs"], z * el["vs"] ** 2 / s, s
        else:
            a = el["vp"] if k in ("dd", "dy") else el["vp"] / r3
            b = el["vs"] if k == "dd" else el["vs"] / r3
            n, zc, rating = a / b, z * b ** 2 / (s / 3), s / 3
        for p in el["ph"]:
            q = "BCA"["ABC".index(p)]
            up = got[(el["from"], p)] - (got[(el["from"], q)] if k in ("dd", "dy") else 0)
            us = got[(el["to"], p)] - (got[(el["to"], q)] if k == "dd" else 0)
            out.append((abs(up * ((up / n - us) / zc / n).conjugate()), rating))
    return out


def ratings(case):
    net = resolve(case["net"])
    for el in net.els:
        if el["k"] in ("yy", "dd", "dy", "sp", "ct"):
            el["kva"] = float("%.4g" % (el["kva"] * case["kva"]))
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    plain = glm_text(build_objects(net))
    m, res = glm.solve(plain, settings)
    if not res.is_success:
        return {"nontrivial": False, "labels": ["unsolved"]}
    got = glm.voltages(res)
    cur = currents(net, got)
    worst = {}
    for w, x, e in cur:
        worst.setdefault(w, []).append(x)
    rate = {}
    for k, w in enumerate(sorted(worst)):
        f = case["rate"][k % len(case["rate"])]
        if f is not None:
            a = sorted(worst[w])[case["which"] % len(worst[w])]
            rate[w] = float("%.5g" % max(a * f, 0.05))
    objs = build_objects(net)
    for o in objs:
        if o.cls.endswith("_conductor"):
            if o.name in rate:
                o.props.append(("rating.summer.emergency", "%.8g" % rate[o.name]))
            elif o.name.endswith("_N") and case["neutral"]:
                # no current flows in an eliminated neutral's own model
                o.props.append(("rating.summer.emergency", "0.001"))
            if case["cont"] and o.cls != "triplex_line_conductor":
                o.props.append(("rating.summer.continuous", "0.001"))
    m2 = glm.load(glm_text(objs), settings)
    out = glm.scratch_file("", "ts")
    ts = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=net.source["name"]), PowerFlow(m2, settings))
    r = ts.execute()
    if not r.is_success:
        raise Violation("solved without line ratings, not solved with them")
    got = glm.voltages(r)
    why, near = set(), False
    for w, x, e in currents(net, got):
        if w in rate:
            if abs(x - rate[w]) <= 1e-3 * rate[w] + e:
                near = True
            elif x > rate[w]:
                why.add("line")
    for s, lim in windings(net, got):
        if abs(s - lim) <= 1e-3 * lim + 0.5:
            near = True
        elif s > lim:
            why.add("transformer")
    for (n, p), v in got.items():
        vn = net.nodes[n]["vn"]
        d = abs(abs(v) - vn) / vn
        if abs(d - 0.05) <= 1e-6:
            near = True
        elif d > 0.05:
            why.add("voltage")
    flag = bool(getattr(r, "violates_equipment_ratings", False))
    if near and not why:
        raise Inconclusive("loading at its rating")
    if flag != bool(why):
        raise Violation("flagged %s; exceeded: %s; lines %s ratings %s, windings %s" % (
            flag, sorted(why) or "nothing", [(w, round(x, 4)) for w, x, e in currents(net, got)][:9], rate, [(round(a, 2), b) for a, b in windings(net, got)][:6]))
    r.output(out)
    marks = []
    for k in ("_voltage.csv", "_power.csv"):
        marks.append("VIOLATED" in open(out + k).read())
        os.unlink(out + k)
    os.unlink(out)
    if marks != [flag, flag]:
        raise Violation("flagged %s, marked in the voltage and power file: %s" % (flag, marks))
    return {"nontrivial": bool(rate or windings(net, got)), "labels": ["+".join(sorted(why)) or "within-ratings"]}


def balance(case):
    """the negative load takes over what the swing bus supplied; everything else stays"""
    net = resolve(case["net"])
    src = net.source["name"]
    at = src
    cand = [x for x, u in net.nodes.items() if u["ph"] == "ABC" and not u["tri"] and u["zone"] == 0]
    at = cand[case["at"] % len(cand)]
    for l in net.loads:
        l["own"] = False
        if l["node"] == at:
            l["kid"] = False
    for x, u in net.nodes.items():
        if u["cls"] in ("load", "triplex_node"):
            u["cls"] = {"load": "meter", "triplex_node": "triplex_meter"}[u["cls"]]
    g0 = [complex("%.6g%+.6gj" % (case["g"][k][0] * 1e-3 * net.nodes[src]["vn"] ** 2, case["g"][k][1] * 1e-3 * net.nodes[src]["vn"] ** 2)) for k in range(3)]
    gen = {"name": "der_%s" % ["5", "gen7", "x_12"][case["name"]], "node": at, "own": False, "delta": False, "tri": None,
           "e": [{"c": p, "t": "P", "v": v} for p, v in zip(PH, g0)]}
    for e in gen["e"]:
        if abs(e["v"]) < 1:
            e["v"] = complex(-10.0, 0.0)
    net.loads.append(gen)
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    text = glm_text(build_objects(net))
    m, first = glm.solve(text, settings)
    if not first.is_success:
        return {"nontrivial": False, "labels": ["unsolved"]}
    before = [(l.load_num, l.from_bus.NodeName, l.phase, l.P, l.Q, l.Z, l.IP, l.IQ) for l in m.loads]
    s0 = sum(abs(complex(r.P, r.Q)) for r in first.generator_results)
    pf = PowerFlow(m, settings)
    n = {"k": 0}
    orig = pf.execute

    def execute():
        n["k"] += 1
        if n["k"] > 60:
            raise Inconclusive("balancing does not converge")
        r = orig()
        if not r.is_success:
            raise Inconclusive("a balancing step has no solution")
        return r
    pf.execute = execute
    ts = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=src, negativeloads=[gen["name"]]), pf)
    res = ts.execute()
    out = {r.generator.bus.NodePhase: complex(r.P, r.Q) for r in res.generator_results if r.generator.bus.NodeName == src}
    if sorted(out) != ["A", "B", "C"]:
        raise Violation("swing bus reported for phases %s" % sorted(out))
    if not sum(abs(s) for s in out.values()) < 0.11:
        raise Violation("the swing bus still supplies %s" % out)
    num = gen["name"].split("_")[-1]
    for a, l in zip(before, m.loads):
        b = (l.load_num, l.from_bus.NodeName, l.phase, l.P, l.Q, l.Z, l.IP, l.IQ)
        if a != b and a[0] != num or a[5:] != b[5:]:
            raise Violation("load %s changed to %s while balancing with %s" % (a, b, gen["name"]))
    new = {l.phase: complex(l.P, l.Q) for l in m.loads if l.load_num == num}
    if sorted(new) != ["A", "B", "C"]:
        raise Inconclusive("the negative load is not the only load of its number")
    for e in gen["e"]:
        e["v"] = complex("%.15g%+.15gj" % (new[e["c"]].real, new[e["c"]].imag))
    text2 = glm_text(build_objects(net))
    fresh = glm.solve(text2, settings)[1]
    if not fresh.is_success:
        raise Violation("balanced, but a file with the resulting generation has no solution")
    v, w = glm.voltages(res), glm.voltages(fresh)
    for k in w:
        if not abs(v[k] - w[k]) <= 1e-5 * net.nodes[k[0]]["vn"]:
            raise Violation("voltage at %s is %s after balancing, a file with the resulting generation gives %s" % (k, v[k], w[k]))
    return {"nontrivial": s0 > 1, "labels": ["steps:%d" % min(n["k"], 4), "at-swing" if at == src else "remote"]}


RATE = st.one_of(st.none(), st.sampled_from([0.9, 1.1, 1.02, 0.98, 3.0, 5.0]), fl(0.5, 4.0))

parts = [
    Part("ratings", lambda: st.fixed_dictionaries({
        "net": specs(max_edges=5, kinds=["oh", "oh", "ug", "tl", "yy", "dd", "dy", "sp", "ct", "sw", "fu"]), "kva": st.sampled_from([1.0, 0.3, 0.12, 1.0]), "rate": st.lists(RATE, min_size=1, max_size=5),
        "which": PICK, "neutral": st.booleans(), "cont": st.booleans()}), ratings, 500, 30000),
    Part("balance", lambda: st.fixed_dictionaries({
        "net": specs(max_edges=5, kinds=["oh", "oh", "ug", "sw", "yy", "ct", "tl"]), "at": PICK, "name": st.integers(0, 2), "g": st.lists(st.tuples(fl(-3, 1), fl(-2, 1)).map(list), min_size=3, max_size=3)}), balance, 200, 10000),
]
