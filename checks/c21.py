"""C21: honesty of the success flag, from no load to far beyond collapse."""
import cmath
import math

import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.matrixstamper import build_matrix_stamper
from models.optimization.L2infeasibility import load_infeasibility_analysis

from checks import c01, c02
from vf import glm, reference as R, txgrid as T
from vf.feeder import PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C21"
TITLE = "Success is reported only for solutions whose mismatch is within tolerance"
TECHNIQUE = "generated networks and loadings up to and beyond collapse (Hypothesis): re-evaluated mismatch, independent references and the analytic two-bus transfer limit"
LEVEL_NOTE = "Randomised search over networks of up to 5 buses or links and loadings, tolerances, iteration limits and stepping; no absence proof."
RULE = "run that failed, needed more than four iterations or carried more than normal load; or a two-bus case within 20 % of its transfer limit or beyond it"


def execute(m, settings):
    """results, or None when the run ended with the documented exception"""
    try:
        return PowerFlow(m, settings).execute()
    except Exception as e:
        if "linear system" not in str(e):
            raise
        return None


def honest(m, settings, res, opt=False):
    """what a result must say about itself; returns the mismatch"""
    v = np.asarray(res.v_final, float)
    if res.is_success and not np.all(np.isfinite(v)):
        raise Violation("success reported with a state that is not finite")
    if not 0 <= res.iterations <= settings.max_iters:
        raise Violation("%r iterations used, %d allowed" % (res.iterations, settings.max_iters))
    r = np.array(build_matrix_stamper(m).calc_residuals(0, v, 0).residuals)
    mis = float(np.max(np.abs(r)))
    if np.isfinite(mis) and not abs(mis - res.max_residual) <= 1e-6 * mis + 1e-9:
        raise Violation("reported maximum residual %.6g, re-evaluated %.6g" % (res.max_residual, mis))
    if np.isfinite(mis) and not abs(abs(r[res.residuals.max_residual_idx]) - mis) <= 1e-6 * mis + 1e-9:
        raise Violation("the largest residual is not at the reported equation %d" % res.residuals.max_residual_idx)
    if res.is_success and not mis < settings.tolerance * 1.001 + 1e-12:
        raise Violation("success reported with a mismatch of %.3g, tolerance %.3g" % (mis, settings.tolerance))
    for b in res.bus_results:
        if res.is_success and not (math.isfinite(b.V_r) and math.isfinite(b.V_i)):
            raise Violation("success reported with a voltage that is not finite")
    return mis


def tx(case):
    g = T.resolve(case["g"])
    k = case["stress"]
    for l in g.load:
        for f in ("pl", "ql", "ip", "iq"):
            l[f] = float("%.8g" % (l[f] * k))
    for x in g.gen:
        if x["i"] != g.bus[0]["i"]:
            x["pg"] = float("%.8g" % (x["pg"] * k))
    ref = T.Ref(g)
    settings = PowerFlowSettings(tolerance=case["tol"], max_iters=case["iters"], tx_stepping=case["stepping"], flat_start=case["flat"], voltage_limiting=case["lim"])
    m = glm.load(T.raw_text(g), settings, "RAW")
    if case["opt"]:
        m.optimization = load_infeasibility_analysis(m)
    res = execute(m, settings)
    labels = set()
    if res is None:
        return {"nontrivial": True, "labels": ["singular"]}
    honest(m, settings, res)
    labels.add("success" if res.is_success else "failure")
    if k > 2:
        labels.add("heavy")
    if case["opt"]:
        labels.add("optimization")
    if res.is_success and not case["opt"]:
        # independent equations, per bus: current mismatch of tol is a power mismatch of about tol * |V|
        v = c02.volts(g, ref, res)
        lim = 60 * settings.tolerance * max(1.0, np.max(np.abs(v)) ** 2) + 1e-7 * (1 + k) * max(1.0, np.max(np.abs(v)) ** 2)
        c02.judge(g, ref, res, lim)
    return {"nontrivial": bool(not res.is_success or res.iterations > 4 or k > 1), "labels": sorted(labels)}


def dx(case):
    net = resolve(case["net"])
    k = case["stress"]
    for l in net.loads:
        for e in l["e"]:
            e["v"] = complex("%.9g%+.9gj" % (e["v"].real * (k if e["t"] != "Z" else 1 / max(k, 0.05)), e["v"].imag * (k if e["t"] != "Z" else 1 / max(k, 0.05))))
    settings = PowerFlowSettings(tolerance=case["tol"], max_iters=case["iters"], tx_stepping=case["stepping"], device_control=False, enable_line_capacitance=net.cap_on)
    m = glm.load(glm_text(build_objects(net)), settings)
    if case["opt"]:
        m.optimization = load_infeasibility_analysis(m)
    res = execute(m, settings)
    labels = set()
    if res is None:
        return {"nontrivial": True, "labels": ["singular"]}
    honest(m, settings, res)
    labels.add("success" if res.is_success else "failure")
    if k > 2:
        labels.add("heavy")
    if case["opt"]:
        labels.add("optimization")
    if res.is_success and not case["opt"]:
        c = R.reference(net)
        got = glm.voltages(res)
        v = np.zeros(c.n, complex)
        for x in c.keys:
            v[c.index[x]] = got[x]
        Y = c.matrix()
        il, _ = R.load_currents(c, v)
        mis = np.abs(Y @ v + il)
        size = np.abs(Y) @ np.abs(v)
        for x in c.keys:
            i = c.index[x]
            if i in c.fixed:
                continue
            # eliminated internal nodes may carry their share of the mismatch, seen through the element
            if not mis[i] <= 50 * settings.tolerance + 1e-7 * size[i] + 1e-3 * settings.tolerance * np.abs(Y[i]).max():
                raise Violation("success reported, but %.3g A are missing at %s (tolerance %.3g)" % (mis[i], x, settings.tolerance))
    return {"nontrivial": bool(not res.is_success or res.iterations > 4 or k > 1), "labels": sorted(labels)}


MARGIN = 2e-3


def nose(E, z, phi):
    """largest |S| = s drawn at angle phi through z from a source of magnitude E"""
    a = z.real * math.cos(phi) + z.imag * math.sin(phi)
    return E * E / (2 * (a + abs(z)))


def two_bus_tx(case):
    z = complex(case["r"], case["x"])
    s = nose(case["e"], z, case["phi"]) * case["lam"] * 100.0
    if s > 2e5:
        raise Inconclusive("limit too far away")
    P, Q = s * math.cos(case["phi"]), s * math.sin(case["phi"])
    n = case["split"]
    g = T.Grid()
    g.ver, g.lay = case["ver"], {"perm": [0] * 4, "sp": 0, "cmt": False, "at": False, "trim": 0, "order": False}
    bus = lambda i, ide, vm: {"i": i, "name": "B%d" % i, "kv": 138.0, "ide": ide, "vm": vm, "va": 0.0, "gl": 0.0, "bl": 0.0}
    g.bus = [bus(1, 3, case["e"]), bus(2, 1, case["vm"])]
    g.load = [{"i": 2, "id": str(k + 1), "st": 1, "pl": float("%.10g" % (P / n)), "ql": float("%.10g" % (Q / n)), "ip": 0.0, "iq": 0.0, "yp": 0.0, "yq": 0.0} for k in range(n)]
    g.fsh, g.ssh, g.xf = [], [], []
    g.br = [{"i": 1, "j": 2, "ckt": "1", "r": z.real, "x": z.imag, "b": 0.0, "sh": [0.0] * 4, "st": 1}]
    g.gen = [{"i": 1, "id": "1", "pg": 5.0, "qg": 1.0, "qt": 100.0, "qb": -100.0, "vs": case["e"], "st": 1, "wmod": 0, "wpf": 1.0}]
    settings = PowerFlowSettings(tolerance=case["tol"], tx_stepping=case["stepping"], voltage_limiting=case["lim"], flat_start=case["flat"])
    m = glm.load(T.raw_text(g), settings, "RAW")
    return verdict(case, execute(m, settings), m, settings)


def verdict(case, res, m, settings):
    lam = case["lam"]
    near = lam > 0.8
    if res is None:
        return {"nontrivial": near, "labels": ["singular"]}
    honest(m, settings, res)
    if res.is_success and lam > 1 + MARGIN:
        raise Violation("success reported for %.4f times the most that can be transferred; largest mismatch %.3g" % (lam, res.max_residual))
    return {"nontrivial": near, "labels": [("beyond" if lam > 1 else "within") + ("-solved" if res.is_success else "-failed")]}


def two_bus_dx(case):
    net = resolve(case["net"])
    el = net.els[0]
    p = el["ph"][case["p"] % len(el["ph"])]
    cfg = net.cfgs[el["cfg"]]
    z = R.z_oh(cfg)
    i = cfg["phases"].index(p)
    z = z[i, i] * el["len"] / 5280.0
    if z.real <= 0 or abs(z) < 1e-9:
        raise Inconclusive("no physical impedance")
    s = nose(abs(net.source["v"][p]), z, case["phi"]) * case["lam"]
    S = cmath.rect(s, case["phi"])
    n = case["split"]
    net.loads = [{"name": "ld%d" % k, "node": el["to"], "own": False, "delta": False, "tri": None, "e": [{"c": p, "t": "P", "v": complex("%.10g%+.10gj" % (S.real / n, S.imag / n))}]} for k in range(n)]
    net.nodes[el["to"]]["cls"] = "node"
    settings = PowerFlowSettings(tolerance=case["tol"], tx_stepping=case["stepping"], device_control=False, enable_line_capacitance=False)
    m = glm.load(glm_text(build_objects(net)), settings)
    return verdict(case, execute(m, settings), m, settings)


STRESS = st.one_of(st.sampled_from([0.0, 1.0, 1.0]), fl(0.1, 3), fl(1, 40), fl(1, 2000))
TOL = st.sampled_from([1e-5, 1e-5, 1e-3, 1e-4, 1e-7, 1e-8])
ITERS = st.sampled_from([50, 50, 20, 10, 5, 3, 2, 1])
LAM = st.one_of(fl(0.2, 1.0), fl(0.95, 1.05, 5), fl(1.003, 1.1, 5), fl(1.0, 30))
FEW = lambda n: st.integers(0, n).map(lambda k: k == 0)


def common(**kw):
    return dict({"tol": TOL, "iters": ITERS, "stepping": FEW(9), "stress": STRESS, "opt": FEW(6)}, **kw)


def two(**kw):
    return st.fixed_dictionaries(dict({"lam": LAM, "phi": fl(-3.1, 3.1, 3), "split": st.integers(1, 3), "tol": st.sampled_from([1e-5, 1e-6, 1e-8]), "stepping": FEW(7)}, **kw))


parts = [
    Part("tx", lambda: st.fixed_dictionaries(common(g=T.specs(max_buses=5), flat=st.booleans(), lim=FEW(5))), tx, 300, 30000),
    Part("dx", lambda: st.fixed_dictionaries(common(net=specs(max_edges=4, max_loads=4))), dx, 220, 20000),
    Part("limit_tx", lambda: two(r=fl(0.0, 0.1), x=fl(0.01, 0.3), e=fl(0.95, 1.06), vm=fl(0.3, 1.1), ver=st.sampled_from([30, 33]), lim=FEW(3), flat=st.booleans()), two_bus_tx, 500, 40000),
    Part("limit_dx", lambda: two(net=specs(max_edges=1, kinds=["oh"], max_loads=1, caps=False, ties=False, cap_on=False), p=PICK), two_bus_dx, 180, 15000),
]
