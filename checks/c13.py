"""C13: voltages and compensating currents of an infeasibility run against an independent first-order optimality test."""
import cmath
import math

import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from models.optimization.L2infeasibility import load_infeasibility_analysis

from checks import c01, c02
from vf import glm, reference as R, txgrid as T
from vf.feeder import build_objects, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C13"
TITLE = "Infeasibility analysis finds stationary currents that restore solvability"
TECHNIQUE = "generated feasible and overloaded networks (Hypothesis): balance, split and numerical gradient of the compensating current evaluated on an independent circuit model"
LEVEL_NOTE = "Randomised search over feeders of up to 5 links and transmission cases of up to 5 buses; stationarity is tested, not global optimality; no absence proof."
RULE = "solved with compensation enabled, and either compensating currents flow or the case is solvable near nominal voltage"
ASSUMPTIONS = [
    "compensating currents also act at the internal nodes of fuses, regulators and centre-tap transformers; the reference distributes them accordingly",
    "'solvable without compensation' is judged by plain Newton of the reference reaching a solution within 10 % of nominal voltage",
]


def gradient(F, x, h):
    """Jacobian of the real vector function F by central differences with steps h"""
    cols = []
    for k in range(len(x)):
        a, b = x.copy(), x.copy()
        a[k] += h[k]
        b[k] -= h[k]
        cols.append((F(a) - F(b)) / (2 * h[k]))
    return np.array(cols).T


def pack(z):
    return np.concatenate([z.real, z.imag])


def stationary(what, J, w, f, names, lim, mu=None):
    """J^T W f = 0 (up to multiples of the columns of mu)"""
    g = J.T @ (w * f)
    s = np.abs(J).T @ (w * np.abs(f))
    if mu is not None and mu.shape[1]:
        c = np.linalg.lstsq(mu, -g, rcond=None)[0]
        g = g + mu @ c
        s = s + np.abs(mu) @ np.abs(c)
    bad = np.abs(g) - (lim + 1e-5 * s)
    if len(bad) and np.max(bad) > 0:
        k = int(np.argmax(bad))
        raise Violation("%s: the sum of squared compensating currents still changes with %s (slope %.4g, terms of up to %.4g)" % (what, names[k], g[k], s[k]))


# ---------------------------------------------------------------- feeders

def with_emf(net):
    """reference circuit in which the internal emf of centre-tap transformers is a node; weight (number of compensating sources) per node"""
    cts = [e for e in net.els if e["k"] == "ct"]
    els, net.els = net.els, [e for e in net.els if e["k"] != "ct"]
    try:
        c = R.reference(net)
    finally:
        net.els = els
    w = np.zeros(c.n + len(cts))
    for k in c.keys:
        w[c.index[k]] += 1
    for e in els:
        if e["k"] in ("fu", "rg"):
            for p in e["ph"]:
                w[c.index[(e["to"], p)]] += 1
    c.real = c.n
    for e in cts:
        i = c.n
        c.n += 1
        s = e["kva"] * 1000.0
        z = complex(e["r"], e["x"])
        z0 = complex(0.5 * e["r"], 0.8 * e["x"]) * e["vp"] ** 2 / s
        z1 = z2 = complex(e["r"], 0.4 * e["x"]) * e["vs"] ** 2 / s
        if e.get("z3"):
            z0 = z * e["vp"] ** 2 / s
            z1, z2 = (complex(*q) * e["vs"] ** 2 / s for q in (e["z3"][:2], e["z3"][2:]))
        n = e["vp"] / e["vs"]
        c.add([c.index[(e["from"], e["ph"])], i], [[1 / z0, -1 / z0], [-1 / z0, 1 / z0]])
        c.add([i, c.index[(e["to"], "1")]], [[1 / (n * n * z1), -1 / (n * z1)], [-1 / (n * z1), 1 / z1]])
        c.add([i, c.index[(e["to"], "2")]], [[1 / (n * n * z2), 1 / (n * z2)], [1 / (n * z2), 1 / z2]])
        w[i] = 1 + 2 / n ** 2
    return c, w


def overload(net, factor):
    """constant-power loads of about `factor` times what their point of connection can deliver"""
    c = R.reference(net)
    c.loads = []
    u = np.ones(c.n, complex)
    free = [i for i in range(c.n) if i not in c.fixed]
    if not free:
        return
    try:
        v = R.solve(c, u)
        Z = np.zeros((c.n, c.n), complex)
        Z[np.ix_(free, free)] = np.linalg.inv(c.matrix()[np.ix_(free, free)])
    except (R.NoSolution, np.linalg.LinAlgError):
        raise Inconclusive("no unloaded solution")
    for l in net.loads:
        for e in l["e"]:
            if e["t"] != "P":
                continue
            a = c.index[(l["node"], e["c"][0])]
            b = c.index[(l["node"], e["c"][1])] if len(e["c"]) == 2 else None
            z = Z[a, a] if b is None else Z[a, a] + Z[b, b] - Z[a, b] - Z[b, a]
            x = v[a] - (0 if b is None else v[b])
            if not 0.01 < abs(z) < 1e6:
                continue
            s = e["v"] / abs(e["v"]) * factor * abs(x) ** 2 / (4 * abs(z))
            e["v"] = complex("%.7g%+.7gj" % (abs(s.real), s.imag))


def feeder(case):
    net = resolve(case["net"])
    if case["stress"] > 0:
        overload(net, case["stress"])
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on, max_iters=case["iters"])
    m = glm.load(glm_text(build_objects(net)), settings)
    m.optimization = load_infeasibility_analysis(m)
    res = PowerFlow(m, settings).execute()
    ref0 = R.reference(net)
    easy = c01.easy(net, ref0)
    if not res.is_success:
        return {"nontrivial": False, "labels": ["unsolved-easy" if easy is not None else "unsolved"]}
    x = np.asarray(res.v_final, float)
    if not np.all(np.isfinite(x)):
        raise Violation("non-finite state reported as a success")
    cur, tot = {}, 0.0
    for q in m.optimization.infeasibility_currents:
        i = complex(x[q.node_Ir_inf], x[q.node_Ii_inf])
        tot += abs(i) ** 2
        k = (q.bus.NodeName, q.bus.NodePhase)
        if not q.bus.IsVirtual:
            if k in cur:
                raise Violation("two compensating currents at %s" % (k,))
            cur[k] = i
    got = glm.voltages(res)
    if set(got) != set(cur):
        raise Violation("compensating currents at %s, buses %s" % (sorted(cur)[:6], sorted(got)[:6]))
    big = max(map(abs, cur.values()))
    if easy is not None and big < 1:
        if big > 1e-3 or tot > 1e-5:
            raise Violation("solvable near nominal voltage, but compensating currents of up to %.4g A flow" % max(big, math.sqrt(tot)))
        c01.compare(net, res, set())
        return {"nontrivial": True, "labels": ["feasible"]}
    c, w = with_emf(net)
    if set(got) != set(c.keys):
        raise Violation("result nodes differ from the file's")
    Y = c.matrix()
    v = np.zeros(c.n, complex)
    for k in c.keys:
        v[c.index[k]] = got[k]
    free = [i for i in range(c.n) if i not in c.fixed]
    wf = 1 / w[free]

    def h(v):
        return (Y @ v + R.load_currents(c, v)[0])[free]
    inner = list(range(c.real, c.n))
    if inner:
        # the emfs enter linearly: take the ones of least compensation
        A = Y[np.ix_(free, inner)] * np.sqrt(wf)[:, None]
        v[inner] = np.linalg.lstsq(A, -h(v) * np.sqrt(wf), rcond=None)[0]
    hv = h(v)
    scale = np.array([sum(abs(Y[i, j] * v[j]) for j in range(c.n)) for i in free])
    slack = 1e-4 + 1e-11 * scale
    if np.max(slack, initial=0) > 0.02 * max(np.max(np.abs(hv), initial=0), 1):
        raise Inconclusive("stiff")
    for k in c.keys:
        i = c.index[k]
        if i in c.fixed:
            if abs(cur[k]) > 1e-3:
                raise Violation("compensating current of %.4g A at the source node %s" % (abs(cur[k]), k))
            if abs(v[i] - c.fixed[i]) > 1e-5:
                raise Violation("source node %s at %s, the file says %s" % (k, v[i], c.fixed[i]))
            continue
        f = free.index(i)
        want = -hv[f] / w[i]
        if not abs(cur[k] - want) <= slack[f] + 1e-5 * abs(want):
            raise Violation("node %s: compensating current %s, the network leaves %s unbalanced there (%g sources)" % (k, cur[k], -hv[f], w[i]))
    F = float(np.sum(np.abs(hv) ** 2 * wf))
    if not abs(F - tot) <= 1e-4 * F + 1e-4 * math.sqrt(F) * len(free) + 1e-6:
        raise Violation("squared compensating currents add up to %.8g, needed are %.8g" % (tot, F))
    if max(map(abs, hv), default=0) < 1:
        return {"nontrivial": False, "labels": ["no-compensation"]}
    # gradient with respect to the free voltages (analytic for the linear part)
    il, dc = R.load_currents(c, v, True)
    C = np.zeros((c.n, c.n), complex)
    for (p, q), g in dc.items():
        C[p, q] += g
    Yf, Cf = Y[np.ix_(free, free)], C[np.ix_(free, free)]
    J = np.block([[(Yf + Cf).real, (-Yf + Cf).imag], [(Yf + Cf).imag, (Yf - Cf).real]])
    names = ["V%s of %s" % (x, [k for k in c.keys if c.index[k] == i][:1] or "inner node") for x in "ri" for i in free]
    ww = np.concatenate([wf, wf])
    stationary("feeder", J, ww, pack(hv), names, 1e-4 + 10 * np.abs(J).T @ (ww * np.concatenate([slack, slack])))
    return {"nontrivial": True, "labels": ["compensated"] + (["centre-tap"] if inner else []) + (["easy-but-compensated"] if easy is not None else []) + sorted({e["k"] for e in net.els})}


# ---------------------------------------------------------------- transmission

def grid(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    settings = PowerFlowSettings(tolerance=1e-8, max_iters=case["iters"], flat_start=case["flat"], tx_stepping=case["tx"])
    m = glm.load(T.raw_text(g), settings, "RAW")
    m.optimization = load_infeasibility_analysis(m)
    res = PowerFlow(m, settings).execute()
    easy = c02.easy(g, ref)
    if not res.is_success:
        return {"nontrivial": False, "labels": ["unsolved-easy" if easy is not None else "unsolved"]}
    v = c02.volts(g, ref, res)
    x = np.asarray(res.v_final, float)
    if not np.all(np.isfinite(v)):
        raise Violation("non-finite state reported as a success")
    N = np.full(ref.n, np.nan, complex)
    for q in m.optimization.infeasibility_currents:
        k = ref.pos[q.bus.Bus]
        if not np.isnan(N[k].real):
            raise Violation("two compensating currents at bus %s" % q.bus.Bus)
        N[k] = complex(x[q.node_Ir_inf], x[q.node_Ii_inf])
    if np.any(np.isnan(N.real)):
        raise Violation("buses without a compensating current")
    big = float(np.max(np.abs(N)))
    labels = ["pv"] if ref.pv else []
    if abs(v[ref.slack] - ref.vslack) > 1e-6 or abs(N[ref.slack]) > 1e-6:
        raise Violation("swing bus at %s (specified %s), compensating current %s" % (v[ref.slack], ref.vslack, N[ref.slack]))
    for k in ref.pv:
        if abs(abs(v[k]) - ref.pv[k]["V"]) > 1e-6:
            raise Violation("bus %d: voltage %.8g, setpoint %.8g" % (ref.live[k], abs(v[k]), ref.pv[k]["V"]))
    Q = {}
    for r in res.generator_results:
        if r.type_str == "PV":
            Q[ref.pos[r.generator.bus.Bus]] = -r.Q
    if set(Q) != set(ref.pv):
        raise Violation("voltage-controlled generators reported at %s, the file has them at %s" % (sorted(Q), sorted(ref.pv)))
    pv = sorted(ref.pv)
    free = [k for k in range(ref.n) if k != ref.slack]
    nf = len(free)

    def h(y):
        z = v.copy()
        z[free] = y[:nf] + 1j * y[nf:2 * nf]
        d = ref.drawn(z)
        for j, k in enumerate(pv):
            d[k] -= complex(ref.pv[k]["P"], y[2 * nf + j])
        return pack(np.conj(d / z)[free])
    y = np.concatenate([v[free].real, v[free].imag, [Q[k] for k in pv]])
    hv = h(y)
    hz = hv[:nf] + 1j * hv[nf:]
    err = np.abs(N[free] + hz)
    if nf and np.max(err) > 1e-6 + 1e-6 * big:
        k = int(np.argmax(err))
        raise Violation("bus %d: compensating current %s, the network leaves %s unbalanced" % (ref.live[free[k]], N[free[k]], -hz[k]))
    if easy is not None and big > 1e-5:
        if np.min(np.abs(v)) > 0.85:
            raise Violation("solvable near nominal voltage, but compensating currents of up to %.4g pu flow" % big)
        labels.append("other-optimum")
    if big < 1e-5:
        c02.judge(g, ref, res, 1e-4)
        return {"nontrivial": easy is not None, "labels": labels + ["feasible"]}
    J = gradient(h, y, np.full(len(y), 1e-6))
    mu = np.zeros((len(y), len(pv)))
    for j, k in enumerate(pv):
        mu[free.index(k), j], mu[nf + free.index(k), j] = v[k].real, v[k].imag
    names = ["V%s of bus %d" % (c, ref.live[k]) for c in "ri" for k in free] + ["Q at bus %d" % ref.live[k] for k in pv]
    stationary("grid", J, np.ones(2 * nf), hv, names, 1e-6 * (1 + big), mu)
    return {"nontrivial": True, "labels": labels + ["compensated"]}


parts = [
    Part("feeder", lambda: st.fixed_dictionaries({"net": specs(max_edges=4, max_loads=2), "stress": st.sampled_from([0.0, 0.0, 0.0, 1.05, 1.5]), "iters": st.sampled_from([14])}), feeder, 110, 25000),
    Part("grid", lambda: st.fixed_dictionaries({"g": T.specs(max_buses=5, stress=8.0), "iters": st.just(120), "flat": st.booleans(), "tx": st.integers(0, 7).map(lambda k: k == 0)}), grid, 160, 20000),
    Part("grid_light", lambda: st.fixed_dictionaries({"g": T.specs(max_buses=5), "iters": st.just(50), "flat": st.booleans(), "tx": st.just(False)}), grid, 80, 15000),
]
