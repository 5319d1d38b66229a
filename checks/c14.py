"""C14: voltage limiting, on generated pairs of iterates and on the iterates of real runs."""
import functools

import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.matrixstamper import MatrixStamper
from logic.v_limiting import PositiveSeqVoltageLimiting
from models.optimization.L2infeasibility import load_infeasibility_analysis

from checks import c02
from vf import glm, txgrid as T
from vf.feeder import PICK, fl
from vf.runner import WARM_TX, Part, Violation

WARM = WARM_TX
PROPERTY = "C14"
TITLE = "Voltage limiting bounds steps without changing solutions"
TECHNIQUE = "generated networks, index layouts and iterates (Hypothesis): bounds and untouched-components invariants on the limiter and on every iterate of real runs; solved runs vs. the independent power-balance reference"
LEVEL_NOTE = "Randomised search over transmission cases of up to 7 buses; no absence proof."
RULE = "pair of iterates in which some voltage component is limited and some is not, or run in which the limiter acted"

STEP, HIGH = 1.0, 2.0
EPS = 1e-9


def bus_indices(m):
    return sorted(i for b in m.buses for i in (b.node_Vr, b.node_Vi))


def check_pair(m, prev, wanted, got, what=""):
    """the invariants of one limiting step from prev towards wanted"""
    mine = set(bus_indices(m))
    acted = free = 0
    if len(got) != len(wanted):
        raise Violation("%slimiting changed the number of unknowns" % what)
    for i in range(len(wanted)):
        p, w, g = float(prev[i]), float(wanted[i]), float(got[i])
        if i not in mine:
            if not (g == w or (np.isnan(g) and np.isnan(w))):
                raise Violation("%sunknown %d is no bus voltage but changed from %r to %r" % (what, i, w, g))
            continue
        if not abs(g) <= HIGH + EPS:
            raise Violation("%svoltage component %d limited to %r, outside +-2" % (what, i, g))
        if abs(p) <= HIGH and not abs(g - p) <= STEP + EPS:
            raise Violation("%svoltage component %d moved from %r to %r, more than 1" % (what, i, p, g))
        if abs(w - p) <= STEP and abs(w) <= HIGH:
            free += 1
            if not abs(g - w) <= EPS:
                raise Violation("%svoltage component %d needs no limiting (%r to %r) but became %r" % (what, i, p, w, g))
        elif abs(p) <= HIGH:
            acted += 1
            if (g - p) * (w - p) < 0 or abs(g - p) > abs(w - p) + EPS:
                raise Violation("%svoltage component %d should move from %r towards %r but became %r" % (what, i, p, w, g))
            # limited no further than needed: it reaches one of the bounds
            if not (abs(abs(g - p) - STEP) <= EPS or abs(abs(g) - HIGH) <= EPS):
                raise Violation("%svoltage component %d moving from %r towards %r was held at %r, short of every bound" % (what, i, p, w, g))
    return acted, free


def clip(case):
    m = glm.load(T.raw_text(T.resolve(case["g"])), ext="RAW")
    lim = PositiveSeqVoltageLimiting(m)
    rnd = np.random.default_rng(case["seed"])
    special = np.array(case["special"] or [0.0])
    labels, acted, free = set(), 0, 0
    for layout, scale in case["steps"]:
        if layout == "opt":
            m.optimization = load_infeasibility_analysis(m)
        elif layout == "plain":
            m.optimization = None
        elif layout == "swap" and len(m.buses) > 1:
            m.buses.append(m.buses.pop(0))
        labels.add(layout)
        m.assign_matrix()
        n = m.size_Y
        prev = rnd.uniform(-2, 2, n)
        prev[rnd.random(n) < 0.2] = 2.0
        prev[rnd.random(n) < 0.2] = -2.0
        nxt = prev + rnd.normal(0, scale, n)
        pick = rnd.random(n) < 0.5
        nxt[pick] = prev[pick] + rnd.choice(special, n)[pick]
        pick = rnd.random(n) < 0.2
        nxt[pick] = rnd.choice(np.array([2.0, -2.0, 0.0, 3.0]), n)[pick]
        p0, w0 = prev.copy(), nxt.copy()
        got = lim.apply_limiting(nxt, prev)
        if not np.array_equal(prev, p0):
            raise Violation("the previous iterate was modified")
        a, f = check_pair(m, p0, w0, np.asarray(got))
        acted += a
        free += f
    return {"nontrivial": acted > 0 and free > 0, "labels": sorted(labels)}


class _Patch:
    """records limiting steps and the points at which the equations are expanded"""

    def __init__(self):
        self.steps, self.points = [], []

    def __enter__(self):
        self.a, self.b = PositiveSeqVoltageLimiting.apply_limiting, MatrixStamper.stamp_nonlinear
        a, b, me = self.a, self.b, self

        @functools.wraps(a)
        def limiting(this, v_next, v_previous, *r, **k):
            w, p = np.array(v_next), np.array(v_previous)
            out = a(this, v_next, v_previous, *r, **k)
            me.steps.append((p, w, np.array(out)))
            return out

        @functools.wraps(b)
        def stamp(this, Y, J, v, *r, **k):
            me.points.append(np.array(v))
            return b(this, Y, J, v, *r, **k)
        PositiveSeqVoltageLimiting.apply_limiting, MatrixStamper.stamp_nonlinear = limiting, stamp
        return self

    def __exit__(self, *x):
        PositiveSeqVoltageLimiting.apply_limiting, MatrixStamper.stamp_nonlinear = self.a, self.b


def iterates(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    for b, (vm, va) in zip(g.bus[1:], case["start"] * len(g.bus)):
        b["vm"], b["va"] = vm, va
    settings = PowerFlowSettings(tolerance=1e-8, voltage_limiting=True, flat_start=case["flat"], max_iters=30)
    m = glm.load(T.raw_text(g), settings, "RAW")
    if case["opt"]:
        m.optimization = load_infeasibility_analysis(m)
    labels = set()
    with _Patch() as p:
        try:
            res = PowerFlow(m, settings).execute()
        except Exception as e:
            if "linear system" not in str(e):
                raise
            res = None
    acted = 0
    for k, (a, w, got) in enumerate(p.steps):
        x, _ = check_pair(m, a, w, got, "iteration %d: " % k)
        acted += x
    idx = bus_indices(m)
    for k in range(1, len(p.points)):
        a, b = p.points[k - 1][idx], p.points[k][idx]
        if k == 1 and np.any(np.abs(a) > HIGH):
            continue
        if not np.max(np.abs(b - a)) <= STEP + EPS or not np.max(np.abs(b)) <= HIGH + EPS:
            raise Violation("iterate %d: a voltage component moved by %.6g to %.6g" % (k, np.max(np.abs(b - a)), np.max(np.abs(b))))
    if res is None:
        return {"nontrivial": acted > 0, "labels": ["singular"]}
    labels.add("solved" if res.is_success else "unsolved")
    if acted:
        labels.add("limited")
        if res.is_success:
            labels.add("limited-solved")
    if res.is_success and not case["opt"]:
        # the solution of the file's equations, wherever the start was; the swing voltage is the file's
        c02.judge(g, ref, res, 1e-6)
    return {"nontrivial": acted > 0, "labels": sorted(labels)}


def clip_cases():
    sp = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1.0000001, -1.0000001, 0.9999999, 2.0, -2.0, 4.0, -4.0, 1e300, -1e300, 1e-300, 0.5, -0.5]), st.floats(-5, 5))
    return st.fixed_dictionaries({"g": T.specs(max_buses=5, zip_loads=False), "seed": st.integers(0, 9999), "special": st.lists(sp, max_size=6),
                                  "steps": st.lists(st.tuples(st.sampled_from(["same", "opt", "plain", "swap"]), st.sampled_from([0.01, 0.5, 1.0, 3.0, 1e6])).map(list), min_size=1, max_size=4)})


def iter_cases():
    return st.fixed_dictionaries({"g": T.specs(max_buses=5), "flat": st.integers(0, 3).map(lambda k: k == 0), "opt": st.integers(0, 3).map(lambda k: k == 0),
                                  "start": st.lists(st.tuples(fl(0.05, 1.9, 3), fl(-180, 180, 4)).map(list), min_size=1, max_size=6)})


parts = [
    Part("clip", clip_cases, clip, 700, 40000),
    Part("iterates", iter_cases, iterates, 320, 40000),
]
