"""C19: the equations each element contributes against the physical law of the device, element by element and in groups."""
import cmath
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st
import logic.network.networkloader  # noqa: F401  (resolves the components' import cycle)
from logic.network.networkmodel import DxNetworkModel, TxNetworkModel
from models.components.bus import GROUND, Bus
from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState
from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
from models.components.fuse import Fuse, FuseStatus
from models.components.generator import Generator
from models.components.line import Line
from models.components.load import Load
from models.components.regulator import RegControl, RegType, Regulator
from models.components.shunt import Shunt
from models.components.slack import Slack
from models.components.switch import Switch, SwitchStatus
from models.components.transformer import Transformer
from models.components.unbalanced_line import UnbalancedLine
from models.components.voltagesource import CurrentSensor, VoltageSource

from vf import probe
from vf.feeder import PICK, fl
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C19"
TITLE = "Each element's terminal currents obey its physical law"
TECHNIQUE = "generated parameters and terminal conditions (Hypothesis): the equations an element stamps, closed with random loads and injections, vs. the device law written independently"
LEVEL_NOTE = "Randomised search over single elements and groups of up to 6 elements on 4 buses; no absence proof."
RULE = "element with a non-zero terminal current or voltage whose law was evaluated"
ASSUMPTIONS = [
    "fuses are 1e4(1+j) S, regulators have 1e-4 ohm in series, as the models define",
    "transformer magnetizing (shunt) admittance is outside the model",
]


def world(n, tx=False):
    m = TxNetworkModel() if tx else DxNetworkModel()
    bs = []
    for i in range(n):
        b = Bus(i + 1, 1, 1.0, 0.0, 1, "n%d" % i, "A")
        bs.append(b)
        m.buses.append(b)
        if not tx:
            m.bus_name_map["n%d_A" % i] = b
    return m, bs


def polar(p):
    return cmath.rect(p[0], p[1])


# Each kind: (build(m, terminal buses, params) , number of terminals, law(V, I, params) -> [(what, error, scale)])

def law_y(Y):
    def law(V, I, q):
        Z = np.asarray(Y(q))
        want = Z @ V
        return [("current at terminal %d" % k, I[k] - want[k], np.abs(Z[k]) @ np.abs(V)) for k in range(len(V))]
    return law


def two(y):
    return [[y, -y], [-y, y]]


def k_line(m, t, q):
    m.lines.append(Line(t[0], t[1], q["r"], q["x"], q["b"], True, 1, 1, 1))


def k_shunt(m, t, q):
    m.shunts.append(Shunt(t[0], q["g"] * 100, q["b"] * 100, 1, 1, 1, 1, 1, 0, 0))


def k_cap(m, t, q):
    c = Capacitor(t[0], t[1], q["var"], q["vn"], [CapacitorMode.MANUAL, CapacitorMode.VOLT][q["sel"] % 2], 1.0, 2.0)
    c.switch = CapSwitchState.OPEN if q["off"] else CapSwitchState.CLOSED
    m.capacitors.append(c)


def k_switch(m, t, q):
    m.switches.append(Switch(t[0], t[1], SwitchStatus.OPEN if q["off"] else SwitchStatus.CLOSED, "A"))


def k_fuse(m, t, q):
    i = Bus(900 + len(m.fuses), 1, 0.1, 0.1, 1, "f", "A", True)
    m.buses.append(i)
    m.fuses.append(Fuse(t[0], t[1], i, 10.0, FuseStatus.GOOD, "A"))


def k_vs(m, t, q):
    m.misc.append(VoltageSource(t[0], t[1], q["v"].real, q["v"].imag))


def k_sensor(m, t, q):
    m.misc.append(CurrentSensor(t[0], t[1]))


def k_slack(m, t, q):
    m.slack.append(Slack(t[0], abs(q["v"]), cmath.phase(q["v"]), q["r"], q["x"]))


def k_xf(m, t, q):
    m.transformers.append(Transformer(t[0], t[1], t[2], t[3], q["r"], q["x"], True, q["tr"], q["ang"], 0, 0, 1.0))


def l_source(set_):
    def law(V, I, q):
        d = V[0] - (V[1] if len(V) > 1 else 0)
        out = [("voltage across", d - set_(q), abs(V).max() + abs(set_(q)))]
        if len(V) > 1:
            out.append(("current through", I[0] + I[1], abs(I).max() + abs(V).max()))
        return out
    return law


def l_xf(V, I, q):
    a = cmath.rect(q["tr"], math.radians(q["ang"]))
    z = complex(q["r"], q["x"])
    E = V[2] - z * I[2] - V[3]
    s = abs(I).max() + abs(V).max()
    sv = abs(V).max() + abs(z) * abs(I[2])
    return [("primary winding current", I[0] + I[1], s), ("secondary winding current", I[2] + I[3], s),
            ("turns ratio", V[0] - V[1] - a * E, sv * (1 + abs(a))), ("ampere turns", I[2] + a.conjugate() * I[0], s * (1 + abs(a))),
            ("ideal power balance", (V[0] - V[1]) * I[0].conjugate() + E * I[2].conjugate(), s * sv * (1 + abs(a)))]


def k_ct(m, t, q):
    bus = []
    for k in range(3):
        b = Bus(700 + 3 * len(m.transformers) + k, 1, 0.1, 0.1, 1, "c%d" % k, "A", True)
        m.buses.append(b)
        bus.append(b)
    coils = [CenterTapTransformerCoil(vn, q["kva"] * 1000, c, None, *z) for vn, c, z in zip((q["vp"], q["vs"], q["vs"]), "ABC", q["z3"])]
    coils[0].from_node, coils[0].primary_node = t[0], bus[0]
    coils[1].sending_node, coils[1].to_node = bus[1], t[1]
    coils[2].sending_node, coils[2].to_node = bus[2], t[2]
    m.transformers.append(CenterTapTransformer(*coils, "A", q["vp"] / q["vs"], q["kva"] * 1000, 0, 0))


def ct_y(q):
    n = q["vp"] / q["vs"]
    z0, z1, z2 = (complex(*z) * v ** 2 / (q["kva"] * 1000) for z, v in zip(q["z3"], (q["vp"], q["vs"], q["vs"])))
    # unknown emf E on the primary, E/n and -E/n on the secondaries; KCL at E: (Vp-E)/z0 = ((E/n - V1)/z1 - (-E/n - V2)/z2)/n
    D = 1 / z0 + (1 / z1 + 1 / z2) / n ** 2
    e = np.array([1 / z0, 1 / (n * z1), -1 / (n * z2)]) / D
    return np.array([(np.array([1, 0, 0]) - e) / z0, (np.array([0, 1, 0]) - e / n) / z1, (np.array([0, 0, 1]) + e / n) / z2])


def k_reg(m, t, q):
    i = Bus(800 + len(m.regulators), 1, 0.1, 0.1, 1, "r", "A", True)
    m.buses.append(i)
    m.regulators.append(Regulator(t[0], t[1], i, q["tap"], q["step"], RegType.A if q["off"] else RegType.B, RegControl.MANUAL, 100, 120, q["up"], q["down"]))


def reg_y(q):
    tap = min(max(q["tap"], -q["down"]), q["up"])
    n = 1 / (1 + q["step"] * tap) if q["off"] else 1 - q["step"] * tap
    return np.array([[1e4 / n ** 2, -1e4 / n], [-1e4 / n, 1e4]])


def zmat(q):
    n = len(q["zd"])
    Z = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            d = (complex(*q["zd"][i]) + complex(*q["zd"][j])) / 2
            Z[i, j] = d if i == j else d * q["zm"][i + j] * 0.45
    return Z


def bmat(q):
    n = len(q["zd"])
    return np.array([[1j * (q["bm"][i] if i == j else -0.2 * q["bm"][3 + i + j]) for j in range(n)] for i in range(n)])


def k_ul(m, t, q):
    n = len(q["zd"])
    for p in range(n):
        m.bus_name_map["u%d_%s" % (len(m.lines), "ABC"[p])] = t[p]
        m.bus_name_map["w%d_%s" % (len(m.lines), "ABC"[p])] = t[n + p]
    k = len(m.lines)
    m.lines.append(UnbalancedLine(m, zmat(q) / q["len"], bmat(q) / q["len"] if q["off"] else None, "u%d" % k, "w%d" % k, q["len"], "ABC"[:n]))


def ul_y(q):
    n = len(q["zd"])
    y = np.linalg.inv(zmat(q))
    sh = bmat(q) / 2 if q["off"] else np.zeros((n, n))
    return np.block([[y + sh, -y], [-y, y + sh]])


def line_y(q):
    y = 1 / complex(q["r"], q["x"])
    s = 0.5j * q["b"]
    return [[y + s, -y], [-y, y + s]]


KINDS = {
    "line": (2, k_line, law_y(line_y), line_y),
    "shunt": (1, k_shunt, law_y(lambda q: [[complex(q["g"], q["b"])]]), lambda q: [[complex(q["g"], q["b"])]]),
    "capacitor": (2, k_cap, law_y(lambda q: two(0 if q["off"] else 1j * q["var"] / q["vn"] ** 2)), lambda q: two(0 if q["off"] else 1j * q["var"] / q["vn"] ** 2)),
    "switch": (2, k_switch, lambda V, I, q: law_y(lambda q: two(0))(V, I, q) if q["off"] else l_source(lambda q: 0)(V, I, q), None),
    "fuse": (2, k_fuse, law_y(lambda q: two(1e4 + 1e4j)), lambda q: two(1e4 + 1e4j)),
    "source": (2, k_vs, l_source(lambda q: q["v"]), None),
    "sensor": (2, k_sensor, l_source(lambda q: 0), None),
    "slack": (1, k_slack, l_source(lambda q: q["v"]), None),
    "transformer": (4, k_xf, l_xf, None),
    "centre-tap": (3, k_ct, law_y(ct_y), ct_y),
    "regulator": (2, k_reg, law_y(reg_y), reg_y),
    "lines1": (2, k_ul, law_y(ul_y), ul_y),
    "lines2": (4, k_ul, law_y(ul_y), ul_y),
    "lines3": (6, k_ul, law_y(ul_y), ul_y),
}


def params(kind, q):
    q = dict(q, v=polar(q["v"]))
    q["zd"] = q["zd"][:int(kind[-1])] if kind.startswith("lines") else q["zd"]
    return q


def solve(m, bs, Yload, inj):
    """terminal voltages and currents into the element when every bus has a shunt Yload and a current injection"""
    A, J = probe.linear_system(m)
    J = J.copy()
    for b, y, i in zip(bs, Yload, inj):
        r, c = b.node_Vr, b.node_Vi
        A[r, r] += y.real
        A[r, c] -= y.imag
        A[c, r] += y.imag
        A[c, c] += y.real
        J[r] += i.real
        J[c] += i.imag
    rows = np.abs(A).max(axis=1)
    if np.any(rows == 0):
        raise Violation("unknown %d has no equation" % int(np.argmin(rows)))
    try:
        x = np.linalg.solve(A / rows[:, None], J / rows)
    except np.linalg.LinAlgError:
        raise Violation("equations of the element are not solvable at generic terminal conditions")
    V = np.array([complex(x[b.node_Vr], x[b.node_Vi]) for b in bs])
    return V, np.array(inj) - np.array(Yload) * V, np.linalg.cond(A / rows[:, None])


def element(case):
    kind = case["kind"]
    nt, build, law, _ = KINDS[kind]
    q = params(kind, case["q"])
    gnd = [k for k in range(1, nt) if (case["gnd"] >> k) & 1] if kind in ("line", "capacitor", "source", "transformer") else []
    if kind == "transformer" and 2 in gnd:
        gnd.remove(2)
    if kind == "line":
        gnd = []          # its far-end charging is defined between buses
    m, bs = world(nt, tx=kind in ("line", "shunt", "slack"))
    term = [GROUND if k in gnd else bs[k] for k in range(nt)]
    if kind == "line" and case["gnd"] & 1:
        term = term[::-1]
    if case["gnd"] & 4:
        m.buses.append(Bus(500, 1, 1.0, 0.0, 1, "other", "A"))      # numbering with a hole between terminals and inner unknowns
        bs2 = bs + [m.buses[-1]]
    else:
        bs2 = bs
    build(m, term, q)
    Yl = [polar(p) for p in case["y"]]
    inj = [polar(p) * case["amp"] for p in case["i"]]
    Yl = [Yl[k % len(Yl)] * (1 + 0.1 * k) for k in range(len(bs2))]
    inj = [inj[k % len(inj)] * (1 - 0.07 * k) for k in range(len(bs2))]
    V, I, cond = solve(m, bs2, Yl, inj)
    if cond > 1e11:
        raise Inconclusive("stiff")
    by = {id(b): (v, i) for b, v, i in zip(bs2, V, I)}
    for b, v, i in zip(bs2, V, I):
        if not any(b is t for t in term) and abs(i) > 1e-9 * (1 + abs(v)):
            raise Violation("%s: current %s at a bus it is not connected to" % (kind, i))
    tv = np.array([by[id(t)][0] if t is not GROUND else 0 for t in term], complex)
    ti = np.array([by[id(t)][1] if t is not GROUND else 0 for t in term], complex)
    if kind == "transformer":
        for a, b in ((0, 1), (2, 3)):
            if term[b] is GROUND:
                ti[b] = -ti[a]
    if term[-1] is GROUND and kind in ("capacitor", "source"):
        ti[1] = -ti[0]
    if kind == "line" and case["gnd"] & 1:
        pass
    for what, err, scale in law(tv, ti, q):
        if not abs(err) <= (1e-9 + 1e-13 * cond) * (scale + 1e-3 * max(map(abs, inj)) + 1e-9):
            raise Violation("%s: %s off by %.4g (scale %.4g) at voltages %s currents %s" % (kind, what, abs(err), scale, np.round(tv, 6), np.round(ti, 6)))
    return {"nontrivial": bool(np.any(ti != 0) or np.any(tv != 0)), "labels": [kind + ("-off" if q["off"] and kind in ("capacitor", "switch") else "")] + (["grounded"] if gnd else [])}


# ---------------------------------------------------------------- nonlinear elements and groups

def load_current(q, V):
    i = 0
    if q["S"]:
        i += (q["S"] / V).conjugate()
    if q["Z"]:
        i += V / q["Z"]
    if q["I"]:
        i += (q["I"] / (V / abs(V))).conjugate() if q["pf"] else q["I"]
    return i


def group(case):
    n = case["n"]
    tx = case["tx"]
    m, bs = world(n, tx)
    V = np.array([polar(case["V"][k % len(case["V"])]) * case["vb"] * (1 + 0.01 * k) for k in range(n)])
    want = np.zeros(n, complex)
    size = np.zeros(n)
    gens = []
    labels = set()

    def put(t, i):
        for k, x in zip(t, i):
            if k is not None:
                want[k] += x
                size[k] += abs(x)
    for e in case["els"]:
        kind = e["kind"]
        q = params(kind, e["q"])
        if kind == "load":
            a, b = e["t"][0] % n, e["t"][1] % (n + 1)
            b = None if b in (n, a) else b
            u = V[a] - (V[b] if b is not None else 0)
            if abs(u) < 1e-3 * case["vb"]:
                continue
            s = case["vb"] ** 2
            ld = {"S": polar(e["q"]["v"]) * s if q["parts"] & 1 else 0, "Z": polar((e["q"]["v"][0] + 0.1, e["q"]["v"][1] / 3)) if q["parts"] & 2 else 0,
                  "I": polar((e["q"]["v"][0], -e["q"]["v"][1])) * case["vb"] if q["parts"] & 4 else 0, "pf": bool(tx)}
            if q["off"] and ld["S"]:
                ld["S"] = complex(ld["S"].real, 0) if q["sel"] % 2 else complex(0, ld["S"].imag)
            m.loads.append(Load(bs[a], GROUND if b is None else bs[b], complex(ld["S"]).real, complex(ld["S"]).imag, ld["Z"], complex(ld["I"]).real, complex(ld["I"]).imag,
                                constant_current_pf=ld["pf"]))
            i = load_current(ld, u)
            put((a, b), (i, -i))
            labels.add("load-%d" % q["parts"])
            continue
        if kind == "gen":
            a = e["t"][0] % n
            if any(g[0] == a for g in gens) or not tx:
                continue
            P = q["r"] - 0.2
            m.generators.append(Generator(bs[a], P, q["tr"], 1, -1, 1, 0, q["x"], None, None, None))
            gens.append((a, P, q["b"] - 0.5, q["tr"], m.generators[-1]))
            labels.add("gen")
            continue
        nt, build, _, Y = KINDS[kind]
        if Y is None or (kind in ("line", "shunt")) != tx and kind != "line" or kind == "line" and not tx:
            continue
        t = []
        for k in range(nt):
            t.append(next(j % n for j in range(e["t"][k % len(e["t"])], 99) if j % n not in t)) if len(t) < n else None
        if len(t) < nt or kind in ("fuse", "centre-tap", "regulator"):
            continue      # elements with inner unknowns are judged alone
        build(m, [bs[k] for k in t], q)
        put(t, np.asarray(Y(q)) @ V[t])
        labels.add(kind)
    p = probe.Probe(m)
    x = np.zeros(p.n)
    for b, v in zip(bs, V):
        x[b.node_Vr], x[b.node_Vi] = v.real, v.imag
    extra = {}
    for a, P, Q, vs, g in gens:
        x[g.get_Q_index()] = Q
        # the unknown is the reactive power drawn; P is generated
        i = (complex(-P, Q) / V[a]).conjugate()
        put((a,), (i,))
        extra[g.get_Q_index()] = (a, vs)
    r = p.residual(x)
    for k, b in enumerate(bs):
        got = complex(r[b.node_Vr], r[b.node_Vi])
        if not abs(got - want[k]) <= 1e-9 * (size[k] + 1e-12):
            raise Violation("current leaving bus %d is %s, the elements there draw %s" % (k, got, want[k]))
    taken = {i for b in bs for i in (b.node_Vr, b.node_Vi)}
    rest = [i for i in range(p.n) if i not in taken]
    if len(rest) != len(gens):
        raise Violation("%d further equations for %d voltage-controlled generators" % (len(rest), len(gens)))
    # each generator has one equation that fixes its voltage: zero exactly at the setpoint
    for a, P, Q, vs, g in gens:
        y = x.copy()
        z = V[a] / abs(V[a]) * vs
        y[bs[a].node_Vr], y[bs[a].node_Vi] = z.real, z.imag
        r1 = p.residual(y)
        k = g.get_Q_index()
        if not abs(r1[k]) <= 1e-9 * (1 + vs ** 2):
            raise Violation("voltage equation of the generator at bus %d is %g at its setpoint %g" % (a, r1[k], vs))
        y[bs[a].node_Vr] *= 1.01
        y[bs[a].node_Vi] *= 1.01
        if abs(p.residual(y)[k]) < 1e-6 * vs ** 2:
            raise Violation("generator at bus %d does not hold its voltage" % a)
    return {"nontrivial": bool(np.any(size > 0)), "labels": sorted(labels) or ["empty"]}


def q():
    ang = fl(-3.14, 3.14)
    return st.fixed_dictionaries({
        "r": st.one_of(st.just(0.0), fl(0.001, 2.0)), "x": fl(0.01, 3.0), "b": st.one_of(st.just(0.0), fl(0.0, 1.0)), "g": fl(-1.0, 1.0),
        "tr": st.one_of(st.just(1.0), fl(0.2, 30.0)), "ang": st.one_of(st.just(0.0), st.sampled_from([30.0, -30.0, 180.0, 90.0]), fl(-180, 180)),
        "v": st.tuples(fl(0.1, 3.0), ang).map(list), "var": fl(1.0, 1e5), "vn": fl(100.0, 8000.0), "off": st.booleans(), "sel": PICK, "parts": st.integers(1, 7),
        "tap": st.integers(-20, 20), "step": st.sampled_from([0.00625, 0.003125, 0.01]), "up": st.integers(1, 16), "down": st.integers(1, 16),
        "vp": st.sampled_from([7199.6, 2400.0, 240.0]), "vs": st.sampled_from([120.0, 240.0]), "kva": fl(5.0, 100.0), "z3": st.lists(st.tuples(fl(0.001, 0.05), fl(0.001, 0.05)).map(list), min_size=3, max_size=3),
        "zd": st.lists(st.tuples(fl(0.01, 1.0), fl(0.05, 2.0)).map(list), min_size=3, max_size=3), "zm": st.lists(st.one_of(st.just(0.0), fl(0.1, 0.9)), min_size=6, max_size=6),
        "bm": st.lists(fl(0.0, 0.01), min_size=9, max_size=9), "len": fl(1.0, 5000.0)})


parts = [
    Part("element", lambda: st.fixed_dictionaries({
        "kind": st.sampled_from(sorted(KINDS) + ["transformer", "transformer", "centre-tap", "regulator"]), "q": q(), "gnd": st.integers(0, 15), "amp": st.sampled_from([1.0, 1.0, 100.0]),
        "y": st.lists(st.tuples(fl(0.05, 5.0), fl(-1.2, 1.2)).map(list), min_size=2, max_size=3), "i": st.lists(st.tuples(fl(0.1, 5.0), fl(-3.1, 3.1)).map(list), min_size=2, max_size=3)}), element, 2500, 120000),
    Part("group", lambda: st.fixed_dictionaries({
        "n": st.integers(2, 6), "tx": st.booleans(), "vb": st.sampled_from([1.0, 120.0, 7200.0]), "V": st.lists(st.tuples(fl(0.5, 1.5), fl(-3.1, 3.1)).map(list), min_size=2, max_size=6),
        "els": st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["load", "load", "load", "gen", "line", "shunt", "capacitor", "lines1", "lines2", "lines3"]), "q": q(),
                                               "t": st.lists(PICK, min_size=2, max_size=6)}), min_size=1, max_size=6)}), group, 1200, 60000),
]
