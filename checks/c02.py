"""C02: solved transmission cases against the power-balance equations written from the RAW format."""
import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, txgrid as T
from vf.feeder import fl
from vf.runner import WARM_TX, Part, Violation

WARM = WARM_TX
PROPERTY = "C02"
TITLE = "Positive-sequence solutions satisfy the AC power-flow equations"
TECHNIQUE = "generated transmission cases in RAW form (Hypothesis) solved by the code vs. the power-balance residual of an independent admittance model"
LEVEL_NOTE = "Randomised search over cases of up to 7 buses, all RAW versions and unit codes; no absence proof."
RULE = "solved case with a load, a voltage-controlled bus or a transformer"
ASSUMPTIONS = [
    "100 MVA system base",
    "transformer magnetizing admittance is outside the model (the code leaves it out, with a note in its source)",
    "a continuous switched shunt (mode 2) acts as a reactive source holding the middle of its band; reactive limits are not enforced",
]


def solve(g, settings):
    return glm.solve_ext(T.raw_text(g), settings, "RAW")


def volts(g, ref, res):
    names = {b["i"]: b["name"] for b in g.bus}
    got = {}
    for b in res.bus_results:
        if b.bus.Bus in got:
            raise Violation("bus %s reported twice" % b.bus.Bus)
        got[b.bus.Bus] = complex(b.V_r, b.V_i)
        if b.bus.NodeName != names[b.bus.Bus]:
            raise Violation("bus %s reported under the name %r" % (b.bus.Bus, b.bus.NodeName))
    if set(got) != set(ref.live):
        raise Violation("buses in the result %s, in service in the file %s" % (sorted(got), sorted(ref.live)))
    return np.array([got[i] for i in ref.live])


def judge(g, ref, res, lim):
    v = volts(g, ref, res)
    if not np.all(np.isfinite(v)):
        raise Violation("solution reported as successful has non-finite voltages")
    bad = [m for m in ref.mismatch(v) if not m[2] <= lim]
    if bad:
        what, k, x = max(bad, key=lambda m: m[2])
        raise Violation("%s: bus %d is off by %.3g pu" % (what, ref.live[k], x))
    d = ref.drawn(v)
    seen = {}
    for r in res.generator_results:
        if r.type_str != "PV":
            continue
        k = ref.pos[r.generator.bus.Bus]
        seen[k] = seen.get(k, 0) + r.Q
    for k in ref.pv:
        if k not in seen:
            raise Violation("no generator reported at the voltage-controlled bus %d" % ref.live[k])
        if not abs(-seen[k] - d[k].imag) <= lim:
            raise Violation("bus %d: reported reactive output %.8g, balance needs %.8g" % (ref.live[k], -seen[k], d[k].imag))
    return v


def easy(g, ref):
    """solution near nominal that plain Newton reaches from the flat start"""
    v = ref.newton(np.full(ref.n, ref.vslack / abs(ref.vslack)), 10)
    if v is None or not np.all((0.9 < np.abs(v)) & (np.abs(v) < 1.1)):
        return None
    return v


def check(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    settings = PowerFlowSettings(tolerance=1e-8, flat_start=case["flat"], voltage_limiting=case["lim"], tx_stepping=case["tx"])
    _, res = solve(g, settings)
    if not res.is_success:
        if easy(g, ref) is not None:
            raise Violation("reported as unsolved, but there is a solution near nominal voltage that plain Newton finds from the flat start")
        return {"nontrivial": False, "labels": ["unsolved"]}
    v = judge(g, ref, res, 1e-6)
    labels = ["v%d" % g.ver, "flat" if case["flat"] else "stored"]
    if case["lim"]:
        labels.append("limiting")
    if case["tx"]:
        labels.append("stepping")
    if ref.pv:
        labels.append("pv")
    for x in g.xf:
        if x["st"]:
            labels += ["cw%d" % x["cw"], "cz%d" % x["cz"]] + (["shift"] if x["ang"] else [])
    if np.any(ref.I):
        labels.append("const-current")
    if np.min(np.abs(v)) < 0.8:
        labels.append("low-voltage")
    return {"nontrivial": bool(ref.pv or g.xf or any(ref.S)), "labels": sorted(set(labels))}


def cases(**kw):
    return st.fixed_dictionaries({"g": T.specs(**kw), "flat": st.booleans(), "lim": st.integers(0, 3).map(lambda k: k == 0), "tx": st.integers(0, 7).map(lambda k: k == 0)})


parts = [
    Part("grid", cases, check, 900, 60000),
    Part("small", lambda: cases(max_buses=3), check, 900, 60000),
]
