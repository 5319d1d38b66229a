"""C03: RAW files in every supported version and layout against the values the format defines."""
import math

import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, txgrid as T
from vf.feeder import fl
from vf.probe import Probe, isolate, terminal_admittance
from vf.runner import WARM_TX, Part, Violation

WARM = WARM_TX
PROPERTY = "C03"
TITLE = "RAW import keeps every in-service record, and only those, with correct values"
TECHNIQUE = "generated RAW files (Hypothesis) imported by the code; the electrical content of the model vs. an independent reading of the records"
LEVEL_NOTE = "Randomised search over cases of up to 7 buses in versions 30, 32, 33 and 34; no absence proof."
RULE = "case with an out-of-service record or bus, several records on one bus, or a unit code other than 1"
ASSUMPTIONS = [
    "100 MVA system base",
    "transformer magnetizing admittance is outside the model (the code leaves it out, with a note in its source)",
    "a continuous switched shunt (mode 2) is a reactive source; switched shunts in the other modes are at their initial susceptance",
]


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(scale)) + 1e-9 * abs(b)


def check_model(g, ref, net, volts):
    by = {b.Bus: b for b in net.buses}
    if len(by) != len(net.buses):
        raise Violation("bus number used twice: %s" % sorted(b.Bus for b in net.buses))
    if set(by) != set(ref.live):
        raise Violation("buses %s, the file has in service %s" % (sorted(by), sorted(ref.live)))
    for i, b in by.items():
        f = g.by[i]
        if b.NodeName != f["name"]:
            raise Violation("bus %d named %r, the file says %r" % (i, b.NodeName, f["name"]))
        want = f["vm"] * complex(math.cos(math.radians(f["va"])), math.sin(math.radians(f["va"])))
        if not near(complex(b.Vr_init, b.Vi_init), want):
            raise Violation("bus %d: stored voltage %s, the file says %s" % (i, complex(b.Vr_init, b.Vi_init), want))
    buses = [by[i] for i in ref.live]
    # linear part
    Y, skew, J = terminal_admittance(isolate(net, lines=net.lines, transformers=net.transformers, shunts=net.shunts), buses)
    # loads at a random voltage profile
    p = Probe(isolate(net, loads=net.loads))
    r = p.residual(p.at(dict(zip(buses, volts))))
    S = volts * np.conj(Y @ volts + np.array([p.current(r, b) for b in buses]))
    want = ref.drawn(volts)
    size = np.abs(ref.Y).sum(axis=1) + 1.0
    for k in range(ref.n):
        if not abs(S[k] - want[k]) <= 1e-8 * size[k]:
            raise Violation("bus %d draws %.9g%+.9gj pu at the probed voltages, the file's records draw %.9g%+.9gj" % (
                ref.live[k], S[k].real, S[k].imag, want[k].real, want[k].imag))
    if np.max(np.abs(J), initial=0) > 1e-9 or skew > 1e-8 * size.max():
        raise Violation("linear elements do not form an admittance (offset %.3g, asymmetry %.3g)" % (np.max(np.abs(J)), skew))
    lim = 1e-8 * np.maximum(1.0, np.sqrt(np.outer(size, size)))
    if np.any(np.abs(Y - (ref.Y - np.diag(zload(g, ref)))) > lim):
        a, b = np.unravel_index(np.argmax(np.abs(Y - (ref.Y - np.diag(zload(g, ref)))) / lim), Y.shape)
        raise Violation("admittance between buses %d and %d is %s, the file's lines, transformers and shunts give %s" % (
            ref.live[a], ref.live[b], Y[a, b], (ref.Y - np.diag(zload(g, ref)))[a, b]))
    # one model load per constant-power record
    got = [[] for _ in range(ref.n)]
    for l in net.loads:
        if (l.P, l.Q) != (0, 0):
            got[ref.pos[l.from_bus.Bus]].append(complex(l.P, l.Q))
    for k in range(ref.n):
        a = sorted(got[k], key=lambda z: (round(z.real, 9), round(z.imag, 9)))
        b = sorted([s for s in ref.S[k] if s != 0], key=lambda z: (round(z.real, 9), round(z.imag, 9)))
        if len(a) != len(b) or any(not near(x, y) for x, y in zip(a, b)):
            raise Violation("bus %d: constant-power loads %s pu, the file says %s" % (ref.live[k], a, b))
    # generators
    seen = {}
    for q in net.generators:
        k = ref.pos[q.bus.Bus]
        if k in seen:
            raise Violation("bus %d has two voltage-controlled generators" % q.bus.Bus)
        seen[k] = q
    if set(seen) != set(ref.pv):
        raise Violation("voltage-controlled buses %s, the file says %s" % (sorted(ref.live[k] for k in seen), sorted(ref.live[k] for k in ref.pv)))
    for k, q in seen.items():
        d = ref.pv[k]
        for what, a, b in [("active power", -q.P, d["P"]), ("voltage setpoint", q.Vset, d["V"])] + (
                [("maximum reactive power", -q.Qmax, d["qt"]), ("minimum reactive power", -q.Qmin, d["qb"]), ("stored reactive power", -q.Qinit, d["q0"])] if d["kinds"] == {0} else []):
            if not near(a, b):
                raise Violation("generator at bus %d: %s %.9g, the file says %.9g" % (q.bus.Bus, what, a, b))
    if len(net.slack) != 1 or net.slack[0].bus.Bus != ref.live[ref.slack]:
        raise Violation("swing buses %s, the file says %s" % ([s.bus.Bus for s in net.slack], ref.live[ref.slack]))
    s = net.slack[0]
    v = complex(s.Vr_set, s.Vi_set)
    if not near(v, ref.vslack):
        raise Violation("swing voltage %s, the file says %s" % (v, ref.vslack))


def zload(g, ref):
    z = np.zeros(ref.n, complex)
    for l in g.load:
        if l["st"] == 1 and l["i"] in ref.pos:
            z[ref.pos[l["i"]]] += complex(l["yp"], l["yq"]) / T.SB
    return z


def check(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    net = glm.load(T.raw_text(g), PowerFlowSettings(), "RAW")
    rnd = np.random.default_rng(case["seed"])
    volts = (0.8 + 0.4 * rnd.random(ref.n)) * np.exp(1j * rnd.uniform(-3, 3, ref.n))
    check_model(g, ref, net, volts)
    labels = ["v%d" % g.ver]
    off = [x for l in (g.load, g.fsh, g.gen, g.br, g.xf, g.ssh) for x in l if x["st"] != 1]
    if off:
        labels.append("record-off")
    if any(b["ide"] == 4 for b in g.bus):
        labels.append("bus-off")
    per = [x["i"] for x in g.load]
    if len(set(per)) < len(per):
        labels.append("several-loads")
    if any(d["n"] > 1 for d in ref.pv.values()):
        labels.append("several-gens")
    if any(x["cw"] != 1 or x["cz"] != 1 for x in g.xf):
        labels.append("codes")
    if g.ssh:
        labels.append("switched-shunt")
    if any(any(b["sh"]) for b in g.br):
        labels.append("line-shunt")
    if any(x["kind"] == "fix" for x in case["g"]["gen"]) and g.gen:
        labels.append("fixed-gen")
    return {"nontrivial": len(labels) > 1, "labels": labels}


def cases(**kw):
    return st.fixed_dictionaries({"g": T.specs(**kw), "seed": st.integers(0, 999)})


parts = [
    Part("grid", cases, check, 1500, 80000),
    Part("small", lambda: cases(max_buses=3), check, 1500, 80000),
]
