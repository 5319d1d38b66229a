"""C01: solved three-phase feeders against an independent nodal-admittance reference circuit."""
import numpy as np
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, reference as R
from vf.feeder import build_objects, glm_text, resolve, specs
from vf.runner import WARM_DX, Inconclusive, Part, Violation

WARM = WARM_DX
PROPERTY = "C01"
TITLE = "Three-phase solutions satisfy the circuit described by the GLM file"
TECHNIQUE = "generated feeders (Hypothesis) solved by the code vs. an independent nodal-admittance reference solver (differential)"
LEVEL_NOTE = "Randomised search over feeders of up to 9 edges with an independently written reference; no absence proof."
RULE = "solved feeder with at least two element kinds besides loads and at least one load or shunt drawing current"
ASSUMPTIONS = [
    "earth resistivity 100 ohm-m and 60 Hz, with the earth-return constants the code uses for overhead/triplex and for underground lines",
    "underground cable shunt admittance: the code's own value (half of Kersting's), which its test-suite pins",
    "regulators carry the code's 1e-4 ohm series resistance, fuses its 1e4(1+j) S series admittance",
]


def tolerances(c, Y, v, tol):
    """voltage error that a current mismatch of `tol` at every node can cause, plus round-off"""
    free = [i for i in range(c.n) if i not in c.fixed]
    m = len(free)
    _, dc = R.load_currents(c, v, True)
    C = np.zeros((c.n, c.n), complex)
    for (p, q), g in dc.items():
        C[p, q] += g
    Yf, Cf = Y[np.ix_(free, free)], C[np.ix_(free, free)]
    J = np.block([[(Yf + Cf).real, (-Yf + Cf).imag], [(Yf + Cf).imag, (Yf - Cf).real]])
    try:
        S = np.abs(np.linalg.inv(J)).sum(axis=1)
    except np.linalg.LinAlgError:
        raise Inconclusive("singular reference Jacobian")
    out = np.zeros(c.n)
    for k, i in enumerate(free):
        out[i] = 10 * tol * (S[k] + S[m + k])
    return out


def compare(net, res, labels, nominal=True, cap_closed=None):
    c = R.reference(net, cap_closed=cap_closed)
    got = glm.voltages(res)
    miss = [k for k in c.keys if k not in got]
    extra = [k for k in got if k not in c.index]
    if miss or extra:
        raise Violation("result nodes differ from the file's: missing %s, extra %s" % (miss[:5], extra[:5]))
    v = np.zeros(c.n, complex)
    for k in c.keys:
        v[c.index[k]] = got[k]
    if not np.all(np.isfinite(v)):
        raise Violation("solution reported as successful has non-finite voltages")
    try:
        ref = R.solve(c, v)
    except R.NoSolution as e:
        # nothing near the reported voltages: quantify the mismatch instead
        Y = c.matrix()
        il, _ = R.load_currents(c, v)
        mis = np.abs(Y @ v + il)
        for i in c.fixed:
            mis[i] = abs(v[i] - c.fixed[i])
        if mis.max() > 1.0:
            raise Violation("no solution of the described circuit near the reported voltages; current mismatch %.3g A" % mis.max())
        raise Inconclusive("reference Newton: %s" % e)
    slack = tolerances(c, c.matrix(), ref, 1e-5)
    worst = None
    for k in c.keys:
        i = c.index[k]
        d = abs(ref[i] - got[k])
        lim = 1e-6 * net.nodes[k[0]]["vn"] + slack[i]
        if lim > 2e-3 * net.nodes[k[0]]["vn"]:
            labels.add("ill-conditioned")
            continue
        if d > lim and (worst is None or d / lim > worst[0]):
            worst = (d / lim, k, got[k], ref[i])
    if worst:
        _, k, a, b = worst
        raise Violation("node %s phase %s: reported %.6f%+.6fj V (|V|=%.6f), the described circuit gives %.6f%+.6fj V (|V|=%.6f)" % (
            k[0], k[1], a.real, a.imag, abs(a), b.real, b.imag, abs(b)))
    return c, ref


def easy(net, c):
    """the described circuit, when plain Newton from its no-load state reaches voltages near nominal"""
    u = np.ones(c.n)
    for k in c.keys:
        u[c.index[k]] = net.nodes[k[0]]["vn"]
    try:
        loads, c.loads = c.loads, []
        v0 = R.solve(c, u)
    except R.NoSolution:
        return None
    finally:
        c.loads = loads
    try:
        v = R.solve(c, v0, iters=12)
    except R.NoSolution:
        return None
    ok = all(np.all((0.9 < np.abs(x) / u) & (np.abs(x) / u < 1.1)) for x in (v0, v))
    return v if ok else None


def check(spec):
    net = resolve(spec)
    text = glm_text(build_objects(net))
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    _, res = glm.solve(text, settings)
    kinds = {e["k"] for e in net.els}
    labels = set(kinds)
    if not res.is_success:
        ref = easy(net, R.reference(net))
        if ref is not None:
            raise Violation("reported as unsolved, but the described circuit has a solution near nominal voltage that plain Newton finds from its no-load state")
        return {"nontrivial": False, "labels": ["unsolved"]}
    compare(net, res, labels)
    for l in net.loads:
        for e in l["e"]:
            labels.add("load-%s-%s" % (e["t"], "tri" if l["tri"] else "LL" if len(e["c"]) == 2 else "LN"))
    if any(set(cp["ph"]) & set(cp["closed"]) for cp in net.caps):
        labels.add("cap")
    if any(e["id"] >= 100 for e in net.els):
        labels.add("tie")
    if net.cap_on and "oh" in kinds:
        labels.add("line-capacitance")
    return {"nontrivial": len(kinds) >= 2 and any(l["e"] for l in net.loads), "labels": sorted(labels)}


parts = [
    Part("feeder", lambda: specs(), check, 700, 40000),
    Part("focus", lambda: specs(max_edges=3, max_loads=3), check, 500, 30000),
]
