"""C10: numbering of the unknowns, and independence of the solution from numbering, order and earlier runs."""
import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.matrixbuilder import MatrixBuilder
from logic.stamping.matrixstamper import build_matrix_stamper
from models.optimization.L2infeasibility import load_infeasibility_analysis

from vf import glm, txgrid as T
from vf.feeder import PICK, build_objects, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C10"
TITLE = "Unknowns are numbered consistently and results do not depend on object order"
TECHNIQUE = "generated networks (Hypothesis): invariants of the numbering and of the assembled matrix, and metamorphic re-solves (repeated, reloaded, element lists reordered)"
LEVEL_NOTE = "Randomised search over feeders of up to 7 links and transmission cases of up to 7 buses; no absence proof."
RULE = "network with an element that has unknowns of its own besides bus voltages (transformer, regulator, fuse, switch, generator) or with optimization"
ASSUMPTIONS = ["solutions are compared only when the first run converged within 15 iterations, where round-off cannot lead Newton elsewhere"]

ORDERED = ("buses", "lines", "transformers", "slack", "switches", "generators", "loads", "regulators", "fuses", "capacitors", "voltage_sources", "shunts")


def build(case):
    if "net" in case:
        net = resolve(case["net"])
        text, ext, settings = glm_text(build_objects(net)), "glm", PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    else:
        text, ext, settings = T.raw_text(T.resolve(case["g"])), "RAW", PowerFlowSettings(tolerance=1e-8)

    def fresh():
        m = glm.load(text, settings, ext)
        if case["opt"]:
            m.optimization = load_infeasibility_analysis(m)
        return m
    return fresh, settings


def own_unknowns(m):
    """label -> index, for every unknown that an element exposes"""
    out = {}

    def add(label, i):
        if label in out:
            raise Violation("%s appears twice in the network" % (label,))
        out[label] = i
    for k, b in enumerate(m.buses):
        add(("bus", k, "Vr"), b.node_Vr)
        add(("bus", k, "Vi"), b.node_Vi)
        if m.optimization is not None:
            add(("bus", k, "Lr"), b.node_lambda_Vr)
            add(("bus", k, "Li"), b.node_lambda_Vi)
    for k, s in enumerate(m.slack):
        add(("slack", k, "Ir"), s.get_slack_Ir_index())
        add(("slack", k, "Ii"), s.get_slack_Ii_index())
    for k, g in enumerate(m.generators):
        add(("generator", k, "Q"), g.get_Q_index())
    for k, t in enumerate(m.transformers):
        for a in ("node_L1_Ir", "node_L1_Ii", "node_L2_Ir", "node_L2_Ii", "node_primary_Ir", "node_primary_Ii", "node_secondary_Vr", "node_secondary_Vi"):
            if hasattr(t, a):
                add(("transformer", k, a), getattr(t, a))
    if m.optimization is not None:
        for k, c in enumerate(m.optimization.infeasibility_currents):
            add(("infeasibility", k, "Ir"), c.node_Ir_inf)
            add(("infeasibility", k, "Ii"), c.node_Ii_inf)
    return out


def matrix(m, v):
    ms = build_matrix_stamper(m)
    mb, J = MatrixBuilder(PowerFlowSettings()), np.zeros(m.size_Y)
    ms.stamp_linear(mb, J, 0)
    ms.stamp_nonlinear(mb, J, v, 0)
    Y = mb.to_matrix()
    if Y.shape != (m.size_Y, m.size_Y):
        raise Violation("matrix is %s for %d unknowns" % (Y.shape, m.size_Y))
    return Y.toarray(), J


def numbering(case):
    fresh, settings = build(case)
    m = fresh()
    rnd = np.random.default_rng(case["seed"])
    m.assign_matrix()
    n = m.size_Y
    idx = own_unknowns(m)
    for l, i in idx.items():
        if not (isinstance(i, (int, np.integer)) and 0 <= i < n):
            raise Violation("unknown %s has index %r in a system of size %d" % (l, i, n))
    if len(set(idx.values())) != len(idx):
        seen = {}
        for l, i in idx.items():
            if i in seen:
                raise Violation("unknowns %s and %s share index %d" % (seen[i], l, i))
            seen[i] = l
    vnom = np.zeros(n)
    vnom[:] = rnd.uniform(0.5, 1.5, n)
    for b in m.buses:
        vnom[b.node_Vr] *= max(b.V_Nominal or 1.0, 1.0)
        vnom[b.node_Vi] *= max(b.V_Nominal or 1.0, 1.0)
    A, J = matrix(m, vnom)
    rows, cols = np.abs(A).sum(axis=1), np.abs(A).sum(axis=0)
    if not case["opt"]:
        # every index is an unknown of some equation and has an equation of its own
        for what, s in (("row", rows), ("column", cols)):
            if np.any(s == 0):
                raise Violation("%s %d of %d is empty" % (what, int(np.argmin(s)), n))
    else:
        if np.any((rows == 0) & (cols == 0)):
            raise Violation("index %d of %d is not used by any element" % (int(np.argmin(rows + cols)), n))
    for b in m.buses:
        for i, c in ((b.node_Vr, "Vr"), (b.node_Vi, "Vi")):
            lab = m.matrix_map.get(i, "")
            if not (b.NodeName in lab and str(b.NodePhase) in lab and lab.endswith(c)):
                raise Violation("unknown %s of %s phase %s is called %r" % (c, b.NodeName, b.NodePhase, lab))
    # numbering again, and numbering a second copy of the network
    m.assign_matrix()
    if m.size_Y != n or own_unknowns(m) != idx:
        raise Violation("numbering the same network again gives other indices")
    A2, J2 = matrix(m, vnom)
    k = fresh()
    k.assign_matrix()
    if k.size_Y != n or own_unknowns(k) != idx:
        raise Violation("numbering a second copy of the network gives other indices")
    A3, J3 = matrix(k, vnom)
    for X, j in ((A2, J2), (A3, J3)):
        if not (np.allclose(X, A, rtol=1e-12, atol=0) and np.allclose(j, J, rtol=1e-12, atol=0)):
            raise Violation("renumbering gives another system of equations")
    # reordered lists: the same size, and the same matrix up to a permutation of its rows and columns
    r = fresh()
    reorder(r, case["perm"])
    r.assign_matrix()
    if r.size_Y != n:
        raise Violation("%d unknowns, after reordering the elements %d" % (n, r.size_Y))
    ri = own_unknowns(r)
    if len(set(ri.values())) != len(ri):
        raise Violation("unknowns share an index after reordering the elements")
    return {"nontrivial": own(m, case), "labels": kinds(m, case)}


def own(m, case):
    return bool(case["opt"] or m.transformers or m.switches or m.generators or getattr(m, "regulators", 0) or getattr(m, "fuses", 0))


def kinds(m, case):
    out = [x for x in ("transformers", "switches", "generators", "regulators", "fuses", "shunts") if getattr(m, x, None)]
    if case["opt"]:
        out.append("optimization")
    return out


def reorder(m, perm):
    for k, name in enumerate(ORDERED):
        l = getattr(m, name, None)
        if l:
            p = perm[k % len(perm)]
            if p & 1:
                l.reverse()
            p = (p // 2) % len(l)
            l[:] = l[p:] + l[:p]


def solution(m, settings):
    res = PowerFlow(m, settings).execute()
    out = {}
    for b in res.bus_results:
        k = (b.bus.Bus, b.bus.NodeName, b.bus.NodePhase)
        if k in out:
            raise Violation("bus %s reported twice" % (k,))
        out[k] = (complex(b.V_r, b.V_i), b.bus.V_Nominal or 1.0)
    for g in res.generator_results:
        if g.type_str != "Inf":
            k = ("gen", g.type_str, id(type(g.generator)), getattr(g.generator.bus, "Bus"))
            out[k] = (complex(g.P, g.Q), None)
    return res, out


def resolves(case):
    fresh, settings = build(case)
    m = fresh()
    res, a = solution(m, settings)
    if not res.is_success or res.iterations > 15:
        return {"nontrivial": False, "labels": ["unsolved" if not res.is_success else "many-iterations"]}
    runs = [("solving the same network again", m)]
    runs.append(("a freshly loaded copy", fresh()))
    r = fresh()
    reorder(r, case["perm"])
    runs.append(("reordered element lists", r))
    lim = 1e-5 if "net" in case else 1e-6
    if case["opt"]:
        lim *= 20
    for what, k in runs + runs[:1]:
        res2, b = solution(k, settings)
        if not res2.is_success:
            raise Violation("%s: not solved, though the first run was in %d iterations" % (what, res.iterations))
        if set(a) != set(b):
            raise Violation("%s: other buses in the results" % what)
        for x in a:
            va, vn = a[x]
            vb, _ = b[x]
            t = lim * vn if vn is not None else lim * max(1.0, abs(va)) * (100 if "net" in case else 1)
            if not abs(va - vb) <= t:
                raise Violation("%s: %s is %s, in the first run %s" % (what, x, vb, va))
    return {"nontrivial": own(m, case), "labels": kinds(m, case)}


def dx(**kw):
    return st.fixed_dictionaries({"net": specs(**kw), "opt": st.booleans(), "perm": st.lists(PICK, min_size=5, max_size=5), "seed": st.integers(0, 99)})


def tx(**kw):
    return st.fixed_dictionaries({"g": T.specs(**kw), "opt": st.booleans(), "perm": st.lists(PICK, min_size=5, max_size=5), "seed": st.integers(0, 99)})


parts = [
    Part("number_dx", dx, numbering, 250, 20000),
    Part("number_tx", tx, numbering, 250, 20000),
    Part("solve_dx", lambda: dx(max_edges=5), resolves, 100, 12000),
    Part("solve_tx", lambda: tx(max_buses=5), resolves, 130, 15000),
]
