"""C24: the model objects read from generated GLM files against the file's own statements."""
import cmath
import math

import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from checks import c04
from vf import glm, probe, reference as R
from vf.feeder import PH, PICK, build_objects, glm_text, num, resolve, specs
from vf.runner import Part, Violation

PROPERTY = "C24"
TITLE = "Loads, transformers and devices are read with the values the GLM file states"
TECHNIQUE = "generated GLM files with mixed units (Hypothesis) vs. the generating description: load/device lists and the assembled nodal admittance matrix"
LEVEL_NOTE = "Randomised search; loads and device settings are compared with the generating description, impedances through the code's assembled matrix after eliminating internal unknowns."
RULE = "file with at least one load and one transformer, regulator, capacitor, switch or fuse"


def units(objs, u):
    """write values with the units and alternatives the reader documents"""
    n = 0
    for o in objs:
        out = []
        for k, v in o.props:
            pick = u[n % len(u)]
            n += 1
            if o.cls == "transformer_configuration":
                if k in ("primary_voltage", "secondary_voltage") and pick & 1:
                    v = "%.15gkV" % (float(v) / 1000)
                elif k == "power_rating":
                    if pick in (1, 3):
                        v += "kVA"
                    elif pick == 2:
                        out += [("powerA_rating", num(0.25 * float(v))), ("powerB_rating", num(0.5 * float(v)) + "kVA")]
                        k, v = "powerC_rating", num(0.25 * float(v))
            elif o.cls == "capacitor" and k.startswith("capacitor_") and pick & 1:
                v = "%.15g MVAr" % (float(v) / 1e6)
            elif k in ("bustype", "status", "configuration", "class") and pick & 2:
                v = '"%s"' % v
            elif k == "phases" and pick & 1:
                v = '"%s"' % v
            out.append((k, v))
        o.props = out


@st.composite
def cases(draw, kinds=None):
    spec = draw(specs(max_edges=6, max_loads=5, kinds=kinds))
    for e in spec["edges"]:
        if e["k"] == "fu":
            e["limit"] = draw(st.sampled_from([20.0, 65.0, 100.0, 0.5, 1234.5]))
    return {"spec": spec, "u": draw(st.lists(PICK, min_size=3, max_size=11)), "volt": draw(st.lists(st.integers(0, 3), min_size=2, max_size=2))}


def key(c):
    return ("%.9g" % c.real, "%.9g" % c.imag)


def same_multiset(what, got, want):
    g, w = sorted(map(str, got)), sorted(map(str, want))
    if g != w:
        extra = [x for x in g if g.count(x) > w.count(x)]
        miss = [x for x in w if w.count(x) > g.count(x)]
        raise Violation("%s: the file states %s, read as %s" % (what, miss[:4] or "no such entry", extra[:4] or "nothing"))


def near(what, got, want, tol=1e-9):
    if got is None or not abs(float(got) - want) <= tol * max(1, abs(want)):
        raise Violation("%s: %r, the file states %r" % (what, got, want))


def check(case):
    net = resolve(case["spec"], states=True)
    for cp, v in zip(net.caps, case["volt"]):
        if v:
            vn = net.nodes[cp["node"]]["vn"]
            cp["mode"] = "VOLT"
            cp["high"], cp["low"] = float("%.6g" % (vn * 1.05)), float("%.6g" % (vn * 0.95))
    objs = build_objects(net)
    units(objs, case["u"])
    model = glm.load(glm_text(objs), PowerFlowSettings(enable_line_capacitance=net.cap_on))
    labels = {e["k"] for e in net.els}

    # nodes
    real = [b for b in model.buses if not b.IsVirtual]
    same_multiset("node phases", [(b.NodeName, b.NodePhase) for b in real], [(x, p) for x, u in net.nodes.items() for p in u["ph"]])
    bus = {(b.NodeName, b.NodePhase): b for b in real}
    for b in real:
        near("nominal voltage of %s" % b.NodeName, b.V_Nominal, net.nodes[b.NodeName]["vn"], 1e-6)

    # loads
    def end(b):
        return "ground" if b.NodePhase == "Gnd" else (b.NodeName, b.NodePhase)
    got, want = [], []
    for l in model.loads:
        ent = [("power", complex(l.P, l.Q)), ("current", complex(l.IP, l.IQ)), ("impedance", complex(l.Z))]
        ent = [(k, v) for k, v in ent if v != 0]
        for k, v in ent:
            got.append((end(l.from_bus), end(l.to_bus), k) + key(v))
    for l in net.loads:
        for e in l["e"]:
            a, b = e["c"][0], e["c"][1] if len(e["c"]) == 2 else None
            want.append(((l["node"], a), (l["node"], b) if b else "ground", {"P": "power", "I": "current", "Z": "impedance"}[e["t"]]) + key(e["v"]))
            labels.add("load-" + e["t"] + ("LL" if b else ""))
    same_multiset("loads", got, want)
    for l in model.loads:
        tri = {net.nodes[end(l.from_bus)[0]]["tri"]} - {None}
        if tri and l.triplex_phase not in tri:
            raise Violation("triplex load phase %s, the file states %s" % (l.triplex_phase, tri))

    # switches, fuses
    same_multiset("switches", [(s.from_node.NodeName, s.from_node.NodePhase, s.to_node.NodeName, s.to_node.NodePhase, s.phase, s.status.name) for s in model.switches],
                  [(e["from"], p, e["to"], p, p, "OPEN" if p in e["open"] else "CLOSED") for e in net.els if e["k"] == "sw" for p in e["ph"]])
    same_multiset("fuses", [(s.from_node.NodeName, s.from_node.NodePhase, s.to_node.NodeName, s.to_node.NodePhase, s.phase, s.status.name, "%.9g" % s.current_limit) for s in model.fuses],
                  [(e["from"], p, e["to"], p, p, "BLOWN" if p in e["open"] else "GOOD", "%.9g" % e["limit"]) for e in net.els if e["k"] == "fu" for p in e["ph"]])

    # capacitors
    want = []
    for cp in net.caps:
        for p in cp["ph"]:
            if cp["mode"] == "MANUAL":
                want.append((cp["node"], p, "MANUAL", "CLOSED" if p in cp["closed"] else "OPEN", "%.8g" % (cp["var"][p] / cp["vn"] ** 2)))
            else:
                want.append((cp["node"], p, "VOLT", "%.9g" % cp["high"], "%.9g" % cp["low"], "%.8g" % (cp["var"][p] / cp["vn"] ** 2)))
            labels.add("cap-" + cp["mode"])
    got = []
    for cp in model.capacitors:
        head = (cp.from_bus.NodeName, cp.from_bus.NodePhase, cp.mode.name)
        got.append(head + ((cp.switch.name,) if cp.mode.name == "MANUAL" else ("%.9g" % cp.high_voltage, "%.9g" % cp.low_voltage)) + ("%.8g" % cp.B,))
    same_multiset("capacitors", got, want)

    # regulators
    want = []
    for e in net.els:
        if e["k"] == "rg":
            vn = net.nodes[e["to"]]["vn"]
            for p, t in zip(PH, e["taps"]):
                t = max(-e["down"], min(e["up"], t))
                want.append((e["from"], e["to"], p, t, e["type"], "MANUAL", e["up"], e["down"], "%.7g" % (vn * 0.99), "%.7g" % (vn * 1.01)))
    got = [(r.from_node.NodeName, r.to_node.NodeName, r.from_node.NodePhase, r.tap_position, r.reg_type.name, r.reg_control.name, r.raise_taps, r.lower_taps, "%.7g" % r.vlow, "%.7g" % r.vhigh)
           for r in model.regulators]
    same_multiset("regulators", got, want)

    # transformer ratings (three- and single-phase windings)
    want = sorted("%.9g" % (e["kva"] * 1000 / n) for e in net.els if e["k"] in ("yy", "dd", "dy", "sp", "ct") for n in [3 if e["k"] in ("yy", "dd", "dy") else 1] for _ in range(n))
    same_multiset("transformer ratings", sorted("%.9g" % t.power_rating for t in model.transformers), want)

    # swing source
    sub = probe.isolate(model, slack=model.slack)
    A, J = probe.linear_system(sub)
    src = [bus[("src", p)] for p in PH]
    used = [i for i in range(len(A)) if np.any(A[i] != 0) or np.any(A[:, i] != 0)]
    x = np.zeros(len(A))
    try:
        x[used] = np.linalg.solve(A[np.ix_(used, used)], J[used])
    except np.linalg.LinAlgError:
        raise Violation("swing source equations are singular")
    for p, b in zip(PH, src):
        v = complex(x[b.node_Vr], x[b.node_Vi])
        if not abs(v - net.source["v"][p]) < 1e-6:
            raise Violation("swing voltage of phase %s is %r, the file states %r" % (p, v, net.source["v"][p]))
    if len(model.slack) != 3:
        raise Violation("%d swing sources for 3 phases" % len(model.slack))

    # every impedance, through the assembled matrix; switches are compared above
    zl = [l for l in model.loads if l.Z != 0]
    sub = probe.isolate(model, lines=model.lines, transformers=model.transformers, regulators=model.regulators,
                        fuses=[f for f in model.fuses if f.status.name == "GOOD"],
                        capacitors=[c for c in model.capacitors if c.mode.name == "MANUAL"], loads=zl)
    c = R.reference(net, merge=False, cap_closed={cp["name"]: cp["closed"] if cp["mode"] == "MANUAL" else "" for cp in net.caps})
    buses = [bus[k] for k in c.keys]
    try:
        Y, skew, j = probe.terminal_admittance(sub, buses)
    except np.linalg.LinAlgError:
        raise Violation("element equations are singular with all terminals held")
    Yr = c.matrix()
    scale = np.maximum(np.sqrt(np.outer(np.abs(np.diag(Yr)), np.abs(np.diag(Yr)))), 1e-9)
    err = np.abs(Y - Yr) / scale
    err[~np.isfinite(err)] = np.inf
    if skew > 1e-6 * np.max(scale) or np.max(np.abs(j)) > 1e-9:
        raise Violation("element equations are not those of passive linear elements")
    if np.max(err) > 1e-6:
        i, k = map(int, np.unravel_index(np.argmax(err), err.shape))
        raise Violation("admittance between %s and %s is %s S in the model, %s S by the file" % (c.keys[i], c.keys[k], Y[i, k], Yr[i, k]))
    return {"nontrivial": bool(want and net.loads) or len(labels) > 2, "labels": sorted(labels)}


parts = [
    Part("files", cases, check, 500, 40000),
    Part("transformers", lambda: cases(["yy", "dd", "dy", "sp", "ct", "rg", "oh"]), check, 250, 20000),
]
