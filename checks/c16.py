"""C16: result objects and CSV files against the solved state and the circuit the case describes."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from logic.powerflowresults import CenterTapTransformerResult, PowerFlowResults, TransformerResult
from logic.powerflowsettings import PowerFlowSettings
from models.components.center_tap_transformer import CenterTapTransformer
from models.optimization.L2infeasibility import load_infeasibility_analysis

from checks.c01 import tolerances
from vf import glm, reference as R, txgrid as T
from vf.feeder import PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C16"
TITLE = "Reported results and CSV files state exactly the solution found"
TECHNIQUE = "generated networks and solution vectors (Hypothesis): result objects and parsed CSV files vs. the state vector; source, generator and transformer powers vs. an independent circuit model"
LEVEL_NOTE = "Randomised search over feeders of up to 7 links, transmission cases of up to 7 buses and arbitrary state vectors; no absence proof."
RULE = "network with a load or a voltage-controlled bus whose results were compared row by row"
ASSUMPTIONS = ["powers are reported as drawn by the source or generator (negative when it supplies), loads by their constant-power part"]


# ---------------------------------------------------------------- rows

def split(line, what):
    f = line.split(",")
    if len(f) != 4:
        raise Violation("%s: row %r does not have four fields" % (what, line))
    return f


def printed(txt, x, digits, what):
    """txt is x rounded to at least `digits` decimals"""
    try:
        y = float(txt)
    except ValueError:
        raise Violation("%s: %r is not a number" % (what, txt))
    d = len(txt.split(".")[1]) if "." in txt and "e" not in txt else 0
    if d < digits or not abs(y - x) <= 0.5000001 * 10.0 ** -d + 1e-12 * abs(x):
        raise Violation("%s: printed %s, the value is %.9g" % (what, txt, x))


def match(rows, want, digits, what):
    """rows: [(key, txt1, txt2)]; want: [(key, x, y)]: same multiset, same numbers"""
    if sorted(r[0] for r in rows) != sorted(w[0] for w in want):
        a, b = [r[0] for r in rows], [w[0] for w in want]
        raise Violation("%s: rows %s missing, rows %s not expected" % (what, [k for k in b if b.count(k) > a.count(k)][:4], [k for k in a if a.count(k) > b.count(k)][:4]))
    order = lambda r: (r[0], round(float(r[1]), 1), float(r[2]))
    try:
        rows = sorted(rows, key=order)
    except ValueError:
        raise Violation("%s: not a number in %s" % (what, rows[:5]))
    want = sorted(want, key=order)
    groups = {}
    for r, w in zip(rows, want):
        groups.setdefault(r[0], ([], []))
        groups[r[0]][0].append(r)
        groups[r[0]][1].append(w)
    for k, (rs, ws) in groups.items():
        left = list(ws)
        for r in rs:
            for w in left:
                try:
                    printed(r[1], w[1], digits, "%s %s" % (what, k))
                    printed(r[2], w[2], digits, "%s %s" % (what, k))
                except Violation as e:
                    err = e
                    continue
                left.remove(w)
                break
            else:
                raise Violation("%s: row %s is none of %s" % (what, r, ws[:4]) if len(rs) > 1 else str(err))


def files(res):
    out = glm.scratch_file("", "out") + "dir/deeper/r"
    paths = [out + "_voltage.csv", out + "_power.csv"]
    for p in paths:
        if os.path.exists(p):
            os.unlink(p)
    res.output(out)
    got = []
    for p in paths:
        if not os.path.exists(p):
            raise Violation("file *%s not written" % os.path.basename(p))
        got.append(open(p).read())
        os.unlink(p)
    return got


def angle(v):
    return math.degrees(math.atan2(v.imag, v.real)) if abs(v) >= 1e-8 else 0.0


def deg_near(a, b, tol):
    return abs((a - b + 180) % 360 - 180) <= tol


def results(m, res, v):
    """result objects and files of a successful run against the state vector v"""
    real = [b for b in m.buses if not b.IsVirtual]
    seen = {}
    for r in res.bus_results:
        if id(r.bus) in seen:
            raise Violation("%s:%s is reported twice" % (r.bus.NodeName, r.bus.NodePhase))
        seen[id(r.bus)] = r
    if set(seen) != {id(b) for b in real}:
        raise Violation("%d node phases reported, the network has %d" % (len(seen), len(real)))
    rows = []
    for b in real:
        r = seen[id(b)]
        z = complex(v[b.node_Vr], v[b.node_Vi])
        ok = abs(r.V_mag - abs(z)) <= 1e-12 * abs(z) and deg_near(r.V_deg, angle(z), 1e-9) and -180 <= r.V_deg <= 180 and complex(r.V_r, r.V_i) == z
        if not ok:
            raise Violation("%s:%s reported as (%s, %s) |V|=%s at %s degrees, the state has %s" % (b.NodeName, b.NodePhase, r.V_r, r.V_i, r.V_mag, r.V_deg, z))
        rows.append(("%s,%s:%s" % (b.Bus, b.NodeName, b.NodePhase), abs(z), angle(z)))
    vt, pt = files(res)
    lines = vt.splitlines()
    if lines[:1] != ["bus,name,v_magnitude,v_ang_degrees"]:
        raise Violation("voltage file starts with %r" % lines[:1])
    match([(",".join(f[:2]), f[2], f[3]) for f in (split(x, "voltage file") for x in lines[1:])], rows, 3, "voltage file")
    # powers
    want = []
    gens = {id(g): g for g in m.generators}
    slks = {id(s): s for s in m.slack}
    once = set()
    for r in res.generator_results:
        if r.type_str == "Inf":
            want.append(("%s,%s" % (r.generator.bus.Bus, r.type_str), r.P, r.Q))
            continue
        g = r.generator
        if id(g) in once or id(g) not in (gens if r.type_str == "PV" else slks):
            raise Violation("source or generator %s at bus %s reported twice or unknown" % (r.type_str, g.bus.Bus))
        once.add(id(g))
        want.append(("%s,%s" % (g.bus.Bus, r.type_str), r.P, r.Q))
    if once != set(gens) | set(slks):
        raise Violation("%d generators and sources reported, the network has %d" % (len(once), len(gens) + len(slks)))
    once = set()
    for r in res.load_results:
        l = r.load
        if id(l) in once:
            raise Violation("load at %s reported twice" % l.from_bus.NodeName)
        once.add(id(l))
        if r.P != l.P or r.Q != l.Q:
            raise Violation("load at %s reported as %s, its constant power is %s" % (l.from_bus.NodeName, (r.P, r.Q), (l.P, l.Q)))
        want.append(("%s,PQ" % l.from_bus.NodeName, r.P, r.Q))
    if once != {id(l) for l in m.loads}:
        raise Violation("%d loads reported, the network has %d" % (len(once), len(m.loads)))
    lines = pt.splitlines()
    if lines[:1] != ["bus,name,P(MW),Q(MVar)"]:
        raise Violation("power file starts with %r" % lines[:1])
    match([(",".join(f[:2]), f[2], f[3]) for f in (split(x, "power file") for x in lines[1:])], want, 2, "power file")


def failed(res):
    for t, what in zip(files(res), ("voltage", "power")):
        if any(c.isdigit() for c in t) or "FAIL" not in t.upper():
            raise Violation("%s file of a failed run: %r" % (what, t[:200]))


# ---------------------------------------------------------------- feeders

def feeder(case):
    net = resolve(case["net"])
    m, res = glm.solve(glm_text(build_objects(net)), PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on))
    if not res.is_success:
        failed(res)
        return {"nontrivial": False, "labels": ["unsolved"]}
    v = np.asarray(res.v_final, float)
    results(m, res, v)
    got = glm.voltages(res)
    c = R.reference(net)
    if set(got) != set(c.keys):
        raise Violation("node phases in the result differ from the file's: %s" % sorted(set(got) ^ set(c.keys))[:5])
    labels = set()
    # the constant-power entries of the file
    want = sorted((l["node"], round(e["v"].real, 4), round(e["v"].imag, 4)) for l in net.loads for e in l["e"] if e["t"] == "P")
    have = sorted((r.load.from_bus.NodeName, round(r.P, 4), round(r.Q, 4)) for r in res.load_results if (r.P, r.Q) != (0, 0))
    have = [(n[4:] if n.startswith("kid_") else n, p, q) for n, p, q in have]
    if len(want) != len(have) or any(a[0] != b[0] or abs(a[1] - b[1]) + abs(a[2] - b[2]) > 1e-6 * (1 + abs(a[1]) + abs(a[2])) for a, b in zip(want, have)):
        raise Violation("constant-power loads reported %s, in the file %s" % (have[:6], want[:6]))
    x = np.zeros(c.n, complex)
    for k in c.keys:
        x[c.index[k]] = got[k]
    Y = c.matrix()
    try:
        ref = R.solve(c, x)
        dv = tolerances(c, Y, ref, 1e-5) + 1e-9 * np.abs(ref)
    except R.NoSolution:
        raise Inconclusive("reference Newton")
    for k in c.keys:
        if abs(ref[c.index[k]] - got[k]) > 1e-3 * net.nodes[k[0]]["vn"]:
            raise Inconclusive("not the reference solution (C01)")
    il, _ = R.load_currents(c, ref)
    i = Y @ ref + il
    by = {}
    for r in res.generator_results:
        by.setdefault(r.generator.bus.NodePhase, []).append(r)
    for p in "ABC":
        if len(by.get(p, [])) != 1 or by[p][0].generator.bus.NodeName != net.source["name"] or by[p][0].type_str != "Slack":
            raise Violation("source of phase %s is reported %d times" % (p, len(by.get(p, []))))
        k = c.index[(net.source["name"], p)]
        want = -ref[k] * np.conj(i[k])
        s = complex(by[p][0].P, by[p][0].Q)
        lim = abs(ref[k]) * (float(np.abs(Y[k]) @ dv) + 1e-4) + 1e-7 * abs(want)
        if lim > 0.02 * abs(want) + 50:
            labels.add("source-not-resolved")
            continue
        labels.add("source-power")
        if not abs(s - want) <= lim:
            raise Violation("source phase %s: reported power %s, the circuit draws %s there" % (p, s, want))
    for t in m.transformers:
        winding(net, t, res, got, labels)
    if any(abs(z) < 1 for z in got.values()):
        labels.add("zero-voltage")
    return {"nontrivial": "source-power" in labels and any(l["e"] for l in net.loads), "labels": sorted(labels)}


def winding(net, t, res, got, labels):
    """power through one transformer winding pair at the reported voltages"""
    V = lambda b: 0 if b.NodePhase == "Gnd" else got[(b.NodeName, b.NodePhase)]
    if isinstance(t, CenterTapTransformer):
        r = CenterTapTransformerResult(t, res)
        name = [b for pair in t.get_connections() for b in pair if b.NodePhase == "1"][0].NodeName
        el = [e for e in net.els if e["k"] == "ct" and e["to"] == name][0]
        s = el["kva"] * 1000.0
        z = complex(el["r"], el["x"])
        z0 = complex(0.5 * el["r"], 0.8 * el["x"]) * el["vp"] ** 2 / s
        z1 = z2 = complex(el["r"], 0.4 * el["x"]) * el["vs"] ** 2 / s
        if el.get("z3"):
            z0 = z * el["vp"] ** 2 / s
            z1, z2 = (complex(*q) * el["vs"] ** 2 / s for q in (el["z3"][:2], el["z3"][2:]))
        n = el["vp"] / el["vs"]
        vp, v1, v2 = got[(el["from"], el["ph"])], got[(name, "1")], got[(name, "2")]
        E = (vp / z0 + (v1 / z1 - v2 / z2) / n) / (1 / z0 + (1 / z1 + 1 / z2) / n ** 2)
        i1, i2 = (E / n - v1) / z1, (-E / n - v2) / z2
        # at the ideal coils, behind the winding impedances
        want = E / n * (i1 - i2).conjugate()
        lim = 1e-6 * abs(want) + (abs(v1) + abs(v2)) * 1e-8 * (abs(v1) + abs(v2)) / min(abs(z1), abs(z2)) + 5e-5 * (abs(v1) + abs(v2) + abs(vp)) + 3e-5 * (abs(v1) + abs(v2)) / min(abs(z1), abs(z2)) + 0.05
        labels.add("centre-tap-power")
    else:
        if t.to_bus_pos.IsVirtual or t.from_bus_pos.IsVirtual:
            return
        r = TransformerResult(t, res)
        el = [e for e in net.els if e["k"] in ("yy", "dd", "dy", "sp") and e["to"] == t.to_bus_pos.NodeName]
        if not el:
            return
        el = el[0]
        k = el["k"]
        s, z = el["kva"] * 1000.0, complex(el["r"], el["x"])
        r3 = math.sqrt(3)
        if k == "sp":
            n, zc = el["vp"] / el["vs"], z * el["vs"] ** 2 / s
        else:
            a = el["vp"] if k in ("dd", "dy") else el["vp"] / r3
            b = el["vs"] if k == "dd" else el["vs"] / r3
            n, zc = a / b, z * b ** 2 / (s / 3)
        up, us = V(t.from_bus_pos) - V(t.from_bus_neg), V(t.to_bus_pos) - V(t.to_bus_neg)
        want = up * ((up / n - us) / zc / n).conjugate()
        lim = 1e-6 * abs(want) + 1e-8 * abs(us) ** 2 / abs(zc) + 5e-5 * (abs(up) + abs(us) + abs(up) / n) + 3e-5 * (abs(us) + abs(up) / n) * (1 + 1 / n) / abs(zc) + 0.05
        labels.add("transformer-power")
    if lim > 0.02 * abs(want) + 50:
        labels.add("winding-not-resolved")
        return
    got_s = complex(r.get_P(), r.get_Q())
    if not min(abs(got_s - want), abs(got_s + want)) <= lim:
        raise Violation("transformer %s to %s: reported power %s, at the reported voltages it carries %s" % (el["from"], el["to"], got_s, want))


# ---------------------------------------------------------------- transmission

def grid(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    m, res = glm.solve_ext(T.raw_text(g), PowerFlowSettings(tolerance=1e-8), "RAW")
    if not res.is_success:
        failed(res)
        return {"nontrivial": False, "labels": ["unsolved"]}
    results(m, res, np.asarray(res.v_final, float))
    labels = ["solved"]
    got = {r.bus.Bus: complex(r.V_r, r.V_i) for r in res.bus_results}
    v = np.array([got[i] for i in ref.live])
    d = ref.drawn(v)
    s = sum(complex(r.P, r.Q) for r in res.generator_results if r.type_str == "Slack")
    pv = {}
    for r in res.generator_results:
        if r.type_str == "PV":
            k = ref.pos[r.generator.bus.Bus]
            pv[k] = pv.get(k, 0) + complex(r.P, r.Q)
        elif ref.pos[r.generator.bus.Bus] != ref.slack:
            raise Violation("swing source reported at bus %s" % r.generator.bus.Bus)
    if not abs(s + d[ref.slack]) <= 1e-6 * (1 + abs(d[ref.slack])):
        raise Violation("swing bus: reported power %s, the network draws %s there" % (s, d[ref.slack]))
    if set(pv) != set(ref.pv):
        raise Violation("generators reported at positions %s, in the case %s" % (sorted(pv), sorted(ref.pv)))
    for k in pv:
        if not abs(pv[k] + d[k]) <= 1e-6 * (1 + abs(d[k])) or not abs(pv[k].real + ref.pv[k]["P"]) <= 1e-9:
            raise Violation("generators at bus %d: reported power %s, the network draws %s there (scheduled %.6g)" % (ref.live[k], pv[k], d[k], ref.pv[k]["P"]))
    want = sorted((str(g.by[ref.live[k]]["name"]), round(x.real, 7), round(x.imag, 7)) for k in range(ref.n) for x in ref.S[k] if x != 0)
    have = sorted((r.load.from_bus.NodeName, round(r.P, 7), round(r.Q, 7)) for r in res.load_results if (r.P, r.Q) != (0, 0))
    if len(want) != len(have) or any(a[0] != b[0] or abs(a[1] - b[1]) + abs(a[2] - b[2]) > 1e-6 for a, b in zip(want, have)):
        raise Violation("loads reported %s, in the case %s" % (have[:6], want[:6]))
    if ref.pv:
        labels.append("pv")
    return {"nontrivial": bool(ref.pv or want), "labels": labels}


# ---------------------------------------------------------------- arbitrary states and failures

class Residuals:
    max_residual, max_residual_idx = 0.0, 0

    def __len__(self):
        return 0


def network(case):
    if "net" in case:
        net = resolve(case["net"])
        return glm.load(glm_text(build_objects(net)), PowerFlowSettings(enable_line_capacitance=net.cap_on))
    return glm.load(T.raw_text(T.resolve(case["g"])), ext="RAW")


def rows(case):
    """what a given state vector is reported as"""
    m = network(case)
    m.assign_matrix()
    n = m.size_Y
    x = case["x"]
    v = np.array([x[(7 * i + i // len(x)) % len(x)] for i in range(n)], float)
    for k, z in enumerate(case["z"]):
        b = m.buses[(5 * k + case["at"]) % len(m.buses)]
        v[b.node_Vr], v[b.node_Vi] = z
    res = PowerFlowResults(case["ok"], 3, 0, 0.1, m, v, PowerFlowSettings(), Residuals())
    if not case["ok"]:
        failed(res)
        return {"nontrivial": True, "labels": ["failed"]}
    results(m, res, v)
    for r in res.generator_results:
        g = r.generator
        if r.type_str == "Slack":
            z = complex(v[g.bus.node_Vr], v[g.bus.node_Vi])
            i = complex(v[g.get_slack_Ir_index()], v[g.get_slack_Ii_index()])
            w = z * i.conjugate()
            if not abs(complex(r.P, r.Q) - w) <= 1e-9 * abs(z) * abs(i):
                raise Violation("source at bus %s with V=%s I=%s: reported power %s" % (g.bus.Bus, z, i, complex(r.P, r.Q)))
        elif r.P != g.P or r.Q != v[g.get_Q_index()]:
            raise Violation("generator at bus %s: reported %s, the state has %s" % (g.bus.Bus, (r.P, r.Q), (g.P, v[g.get_Q_index()])))
    labels = ["rows"]
    if any(abs(complex(v[b.node_Vr], v[b.node_Vi])) < 1e-8 for b in m.buses):
        labels.append("zero-voltage")
    return {"nontrivial": True, "labels": labels}


def fails(case):
    """runs that cannot succeed leave no numbers behind"""
    s = PowerFlowSettings(max_iters=case["iters"], tolerance=case["tol"], device_control=False)
    if "net" in case:
        net = resolve(case["net"])
        m, res = glm.solve(glm_text(build_objects(net)), s)
    else:
        m, res = glm.solve_ext(T.raw_text(T.resolve(case["g"])), s, "RAW")
    if res.is_success:
        results(m, res, np.asarray(res.v_final, float))
        return {"nontrivial": False, "labels": ["solved"]}
    failed(res)
    return {"nontrivial": True, "labels": ["failed"]}


# ---------------------------------------------------------------- compensation

def compensation(case):
    """compensating powers: V conj(I) of the compensating currents, once per bus.

    Known finding (listed case, strict): the code reports Vr Ir and Vi Ii, negative values as 0; generated cases accept that too."""
    g = T.resolve(case["g"])
    s = PowerFlowSettings(max_iters=100)
    m = glm.load(T.raw_text(g), s, "RAW")
    m.optimization = load_infeasibility_analysis(m)
    from logic.powerflow import PowerFlow
    res = PowerFlow(m, s).execute()
    if not res.is_success:
        failed(res)
        return {"nontrivial": False, "labels": ["unsolved"]}
    v = np.asarray(res.v_final, float)
    results(m, res, v)
    inf = {}
    for r in res.generator_results:
        if r.type_str == "Inf":
            inf.setdefault(r.generator.bus.Bus, []).append(r)
    if sorted(inf) != sorted(b.Bus for b in m.buses) or any(len(x) != 1 for x in inf.values()):
        raise Violation("compensation reported at buses %s, the network has %s" % (sorted(inf), sorted(b.Bus for b in m.buses)))
    big = 0
    tot = [0, 0]
    for x in inf.values():
        r = x[0]
        c = r.generator
        z, i = complex(v[c.bus.node_Vr], v[c.bus.node_Vi]), complex(v[c.node_Ir_inf], v[c.node_Ii_inf])
        w = z * i.conjugate()
        p, q = z.real * i.real, z.imag * i.imag
        old = complex(p if p >= 1e-5 else 0, q if q >= 1e-5 else 0)
        a = complex(r.P, r.Q)
        if abs(a - w) > 1e-9 + 1e-9 * abs(w) and abs(a + w) > 1e-9 + 1e-9 * abs(w) and (case.get("strict") or abs(a - old) > 1e-9 + 1e-9 * abs(w)):
            raise Violation("bus %s: compensating current %s at voltage %s reported as power %s, it is %s" % (c.bus.Bus, i, z, a, w))
        tot[0] += r.P
        tot[1] += r.Q
        big += abs(i) > 1e-4
    if abs(tot[0] - res.infeasibility_totals[0]) + abs(tot[1] - res.infeasibility_totals[1]) > 1e-9 * (1 + abs(tot[0]) + abs(tot[1])):
        raise Violation("totals %s, the rows add up to %s" % (res.infeasibility_totals, tot))
    rep = {(r.generator.bus.Bus, r.P, r.Q) for r in res.report_infeasible()}
    if rep != {(k, x[0].P, x[0].Q) for k, x in inf.items() if abs(x[0].P) >= 1e-5 or abs(x[0].Q) >= 1e-5}:
        raise Violation("list of infeasible buses is %s" % sorted(rep))
    return {"nontrivial": True, "labels": ["compensated" if big else "feasible"]}


NUM = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-9, -1e-7, 0.0005, 1e6, -180.0, 7199.5]), st.floats(-1e5, 1e5, allow_nan=False))


def either(small=False, **kw):
    return st.one_of(st.fixed_dictionaries(dict(kw, net=specs(max_edges=4 if small else 7))), st.fixed_dictionaries(dict(kw, g=T.specs(max_buses=5 if small else 7))))


parts = [
    Part("feeder", lambda: st.fixed_dictionaries({"net": specs(max_edges=6)}), feeder, 250, 25000),
    Part("grid", lambda: st.fixed_dictionaries({"g": T.specs()}), grid, 350, 30000),
    Part("rows", lambda: either(x=st.lists(NUM, min_size=3, max_size=9), z=st.lists(st.tuples(NUM, NUM).map(list), max_size=4), at=PICK, ok=st.integers(0, 4).map(bool)), rows, 500, 30000,
         rule="any network with an arbitrary state vector"),
    Part("fails", lambda: either(small=True, iters=st.sampled_from([1, 1, 2, 3]), tol=st.sampled_from([1e-5, 1e-30, 1e-9])), fails, 160, 8000, rule="run that did not succeed"),
    Part("compensation", lambda: st.fixed_dictionaries({"g": T.specs(max_buses=4, stress=8.0)}), compensation, 120, 6000, rule="solved with compensating currents enabled"),
]
