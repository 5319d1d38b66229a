"""C15: relaxation stepping with forced and natural failures; what is reported against the unrelaxed network."""
import functools
import inspect

import numpy as np
from hypothesis import strategies as st
from logic.nrsolver import NRSolver
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.matrixstamper import build_matrix_stamper

from checks import c01, c02, c03
from vf import glm, txgrid as T
from vf.feeder import PICK, build_objects, fl, glm_text, resolve, specs
from vf.probe import linear_system
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C15"
TITLE = "Homotopy only relaxes intermediate problems, never the reported answer"
TECHNIQUE = "generated networks, starting points and injected step failures (Hypothesis): the reported flag, fraction and solution vs. the unrelaxed network (independent references) and the record of solved steps"
LEVEL_NOTE = "Randomised search with failures injected at generated steps of the relaxation path, on cases of up to 5 buses or links; no absence proof."
RULE = "run in which the direct solve failed, so that relaxation steps were taken, or equations compared after another relaxation value was used"


class Record:
    """records every Newton solve (relaxation factor, outcome) and makes chosen ones fail"""

    def __init__(self, fail):
        self.fail, self.calls = set(fail), []

    def __enter__(self):
        self.orig = orig = NRSolver.run_powerflow
        sig = inspect.signature(orig)
        me = self

        @functools.wraps(orig)
        def run(this, *a, **k):
            args = sig.bind(this, *a, **k)
            args.apply_defaults()
            tx = [v for n, v in args.arguments.items() if n.startswith("tx")][0]
            out = orig(this, *a, **k)
            n = len(me.calls)
            if n in me.fail:
                out = (False,) + tuple(out[1:])
            me.calls.append((float(tx), bool(out[0]), np.array(out[1])))
            return out
        NRSolver.run_powerflow = run
        return self

    def __exit__(self, *x):
        NRSolver.run_powerflow = self.orig


def mismatch(m, v):
    m.assign_matrix()
    return float(np.max(np.abs(np.array(build_matrix_stamper(m).calc_residuals(0, np.asarray(v, float), 0).residuals))))


def run(case):
    tx = "g" in case
    if tx:
        g = T.resolve(case["g"])
        ref = T.Ref(g)
        for b, (vm, va) in zip(g.bus[1:], (case["start"] or [(1.0, 0.0)]) * len(g.bus)):
            if case["start"]:
                b["vm"], b["va"] = vm, va
        settings = PowerFlowSettings(tolerance=1e-8, tx_stepping=case["stepping"], max_iters=case["iters"])
        m = glm.load(T.raw_text(g), settings, "RAW")
    else:
        net = resolve(case["net"])
        settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on, tx_stepping=case["stepping"], max_iters=case["iters"])
        m = glm.load(glm_text(build_objects(net)), settings)
    with Record(case["fail"]) as rec:
        try:
            res = PowerFlow(m, settings).execute()
        except Exception as e:
            if "linear system" not in str(e):
                raise
            return {"nontrivial": False, "labels": ["singular"]}
    calls = rec.calls
    txs = [c[0] for c in calls]
    if not calls or txs[0] != 0:
        raise Violation("the first solve used relaxation %r" % txs[:1])
    if not settings.tx_stepping and any(txs):
        raise Violation("relaxed problems were solved although stepping is off: %s" % txs)
    if not np.array_equal(np.array(res.v_final), calls[-1][2]):
        raise Violation("the reported state is not that of the last solve")
    ok = bool(res.is_success)
    if ok != calls[-1][1]:
        raise Violation("reported %s, but the last solve (relaxation %r) %s" % ("success" if ok else "failure", txs[-1], "failed" if not calls[-1][1] else "succeeded"))
    labels = {"success" if ok else "failure"}
    if len(calls) > 1:
        labels.add("stepped")
        if not (0 < txs[1] <= 1) or any(b >= a for a, b in zip(txs[1:], txs[2:])):
            raise Violation("relaxation factors do not decrease from one: %s" % txs)
    if ok:
        if txs[-1] != 0 or res.tx_percent != 0:
            raise Violation("success reported with relaxation %r solved last and %r reported" % (txs[-1], res.tx_percent))
        r = mismatch(m, res.v_final)
        if not r < settings.tolerance * 1.05 + 1e-9 * (0 if tx else 1):
            raise Violation("success reported, but the mismatch of the unrelaxed equations is %.3g" % r)
        if tx:
            c02.judge(g, ref, res, 1e-6)
        else:
            try:
                c01.compare(net, res, set())
            except Inconclusive:
                labels.add("inconclusive")
    else:
        if len(calls) == 1 and settings.tx_stepping:
            raise Violation("gave up without taking a relaxation step")
        if len(calls) > 1:
            labels.add("stuck")
            if abs(res.tx_percent - txs[-1]) > 1e-9:
                raise Violation("stopped at relaxation %r but reports %r" % (txs[-1], res.tx_percent))
            if any(not c[1] for c in calls[1:-1]):
                raise Violation("went on after a failed step")
    return {"nontrivial": len(calls) > 1, "labels": sorted(labels)}


def zero(case):
    """the equations at zero relaxation do not remember other values, and at zero they are the file's"""
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    m = glm.load(T.raw_text(g), ext="RAW")
    rnd = np.random.default_rng(case["seed"])
    volts = (0.8 + 0.4 * rnd.random(ref.n)) * np.exp(1j * rnd.uniform(-3, 3, ref.n))
    m.assign_matrix()
    ms = build_matrix_stamper(m)
    v = rnd.uniform(-1.5, 1.5, m.size_Y)
    first = np.array(ms.calc_residuals(0, v, 0).residuals)
    moved = False
    for t in case["tx"]:
        r = np.array(ms.calc_residuals(t, v, 0).residuals)
        moved = moved or np.max(np.abs(r - first)) > 1e-6
        again = np.array(ms.calc_residuals(0, v, 0).residuals)
        if not np.allclose(again, first, rtol=1e-12, atol=1e-12):
            raise Violation("after relaxation %r the unrelaxed equations differ by %.3g" % (t, np.max(np.abs(again - first))))
    c03.check_model(g, ref, m, volts)
    return {"nontrivial": bool(moved), "labels": ["relaxation-acts"] if moved else []}


def steps():
    """injected failures: mostly the direct solve, then perhaps one or two later steps"""
    later = st.one_of(st.integers(1, 101), st.integers(99, 101), st.integers(1, 3))
    return st.tuples(st.integers(0, 9), st.lists(later, max_size=2)).map(lambda t: ([0] if t[0] else []) + sorted(t[1]))


def tx_cases(start, fail):
    return st.fixed_dictionaries({"g": T.specs(max_buses=4), "stepping": st.integers(0, 5).map(bool), "iters": st.sampled_from([50, 50, 50, 20, 6]), "fail": fail,
                                  "start": st.lists(st.tuples(fl(0.1, 1.9, 3), fl(-180, 180, 4)).map(list), min_size=1, max_size=4) if start else st.just([])})


def dx_cases():
    return st.fixed_dictionaries({"net": specs(max_edges=3, max_loads=3), "stepping": st.integers(0, 5).map(bool), "iters": st.sampled_from([50, 50, 20]), "fail": steps()})


def zero_cases():
    return st.fixed_dictionaries({"g": T.specs(max_buses=5), "seed": st.integers(0, 999), "tx": st.lists(st.one_of(st.sampled_from([1.0, 0.5, 0.01]), st.floats(0.001, 1)), min_size=1, max_size=4)})


parts = [
    Part("forced_tx", lambda: tx_cases(False, steps()), run, 150, 9000),
    Part("forced_dx", dx_cases, run, 90, 6000),
    Part("bad_start", lambda: tx_cases(True, st.just([])), run, 250, 15000),
    Part("zero", zero_cases, zero, 250, 15000),
]
