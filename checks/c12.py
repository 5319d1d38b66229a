"""C12: final fuse and capacitor states against the solution reached, by an independent reference circuit."""
import cmath
import itertools

import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
import logic.network.networkloader  # noqa: F401  (resolves the components' import cycle)
from models.components.bus import GROUND, Bus
from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState

from checks.c01 import compare
from vf import glm, reference as R
from vf.feeder import PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, Inconclusive, Part, Violation

WARM = WARM_DX
PROPERTY = "C12"
TITLE = "Protective and switched devices end in a state consistent with the solution"
TECHNIQUE = "generated feeders with fuses and controlled capacitors (Hypothesis): final states vs. the control rule evaluated on an independent reference solution; reachability of a settled state over all switch states"
LEVEL_NOTE = "Randomised search over feeders of up to 6 links, 2 capacitor banks and any number of fuses; no absence proof."
RULE = "solved feeder with a fuse whose limit is near its current, or with a voltage-controlled capacitor"
ASSUMPTIONS = [
    "runs in which a fuse blows end with the program's 'Blown fuses are not supported' error; that error is accepted only when some combination of switch states drives a fuse above its limit",
    "either direction of the capacitor rule is accepted in generated cases (the program closes above the band, a known finding), but it must be the same everywhere",
]
STATES = {CapSwitchState.OPEN: False, CapSwitchState.CLOSED: True}


def bus_at(k):
    b = Bus(1, 2, 120.0, 0.0, 1, "n", "A")
    b.node_Vr, b.node_Vi = k, k + 1
    return b


def after(cap, k, v, closed):
    cap.switch = CapSwitchState.CLOSED if closed else CapSwitchState.OPEN
    ret = cap.try_adjust_device(v)
    new = STATES[cap.switch]
    if bool(ret) != (new != closed):
        raise Violation("state %s -> %s, but adjustment reported as %s" % (closed, new, ret))
    return new


def direction():
    """True: closes above its band (and opens below)"""
    cap = Capacitor(bus_at(0), GROUND, 1000.0, 100.0, CapacitorMode.VOLT, 110.0, 90.0)
    t = {}
    for name, v in (("above", 120.0), ("below", 80.0), ("inside", 100.0)):
        for s in (False, True):
            t[name, s] = after(cap, 0, np.array([v, 0.0]), s)
    if t["inside", True] is not True or t["inside", False] is not False:
        raise Violation("capacitor switched inside its band: %s" % t)
    for name in ("above", "below"):
        if t[name, True] != t[name, False]:
            raise Violation("capacitor state %s its band depends on the earlier state: %s" % (name, t))
    if t["above", True] == t["below", True]:
        raise Violation("capacitor takes the same state above and below its band")
    return t["above", True]


def want(d, mag, high, low, closed):
    if mag > high:
        return d
    if mag < low:
        return not d
    return closed


def rule(case):
    d = direction()
    if case.get("strict") and d:
        raise Violation("the capacitor closes above its band and opens below it; GridLAB-D opens it above and closes it below")
    low = case["low"]
    high = low * (1 + case["width"])
    k = 2 * case["k"]
    n = 0
    for mode in (CapacitorMode.VOLT, CapacitorMode.MANUAL):
        for rel, ang, closed in case["at"]:
            mag = {"low": low, "high": high}.get(rel[0], low + (high - low) * rel[1])
            if rel[0] != "in":
                mag *= 1 + rel[1] * 0.1
            z = cmath.rect(mag, ang)
            if min(abs(abs(z) - low), abs(abs(z) - high)) < 1e-9 * high:
                continue
            v = np.full(k + 6, 1e9 if closed else 0.0)
            v[k], v[k + 1] = z.real, z.imag
            cap = Capacitor(bus_at(k), GROUND, case["var"], low, mode, high, low)
            got = after(cap, k, v, closed)
            exp = closed if mode == CapacitorMode.MANUAL else want(d, abs(z), high, low, closed)
            if got != exp:
                raise Violation("%s capacitor, band %g..%g, voltage %g: %s -> %s" % (mode.value, low, high, abs(z), closed, got))
            n += mode == CapacitorMode.VOLT
    return {"nontrivial": n > 0, "labels": ["closes-above" if d else "opens-above"]}


# ---------------------------------------------------------------- feeders

def fuse_currents(net, c, v):
    out = []
    for el in net.els:
        if el["k"] == "fu":
            for p in el["ph"]:
                a, b = c.index[(el["from"], p)], c.index[(el["to"], p)]
                out.append((el, p, abs(complex(1e4, 1e4) * (v[a] - v[b]))))
    return out


def start(net, c):
    u = np.ones(c.n, complex)
    for k in c.keys:
        u[c.index[k]] = net.nodes[k[0]]["vn"]
    loads, c.loads = c.loads, []
    try:
        return R.solve(c, u)
    finally:
        c.loads = loads


class Map:
    """reference solution per capacitor state"""

    def __init__(self, net):
        self.net, self.memo = net, {}
        self.units = [(cp["name"], p) for cp in net.caps if cp["mode"] != "MANUAL" for p in cp["ph"]]

    def closed(self, bits):
        d = {cp["name"]: cp["closed"] for cp in self.net.caps if cp["mode"] == "MANUAL"}
        for cp in self.net.caps:
            if cp["mode"] != "MANUAL":
                d[cp["name"]] = "".join(p for (n, p), s in zip(self.units, bits) if s and n == cp["name"])
        return d

    def solve(self, bits):
        if bits not in self.memo:
            c = R.reference(self.net, cap_closed=self.closed(bits))
            try:
                self.memo[bits] = (c, R.solve(c, start(self.net, c), iters=30))
            except R.NoSolution:
                self.memo[bits] = (c, None)
        return self.memo[bits]

    def adjust(self, d, bits):
        """next state, or None when it cannot be told"""
        c, v = self.solve(bits)
        if v is None:
            return None
        caps = {cp["name"]: cp for cp in self.net.caps}
        out = []
        for (n, p), s in zip(self.units, bits):
            cp = caps[n]
            mag = abs(v[c.index[(cp["node"], p)]])
            if min(abs(mag - cp["high"]), abs(mag - cp["low"])) < 1e-5 * mag:
                return None
            out.append(want(d, mag, cp["high"], cp["low"], s))
        return tuple(out)


def states(model, net):
    """capname -> string of closed phases, from the model"""
    pool = {}
    for cp in net.caps:
        for p in cp["ph"]:
            high, low = (cp["high"], cp["low"]) if cp["mode"] == "VOLT" else (None, None)
            pool.setdefault((cp["node"], p), []).append((cp, cp["var"][p] / cp["vn"] ** 2, high, low))
    out = {cp["name"]: "" for cp in net.caps}
    for x in model.capacitors:
        key = (x.from_bus.NodeName, x.from_bus.NodePhase)
        best = None
        for u in pool.get(key, []):
            cp, b, high, low = u
            if abs(x.B - b) <= 1e-9 * b and (x.mode == CapacitorMode.VOLT) == (cp["mode"] == "VOLT") and (
                    high is None or abs(x.high_voltage - high) + abs(x.low_voltage - low) < 1e-9 * high):
                best = u
                break
        if best is None:
            raise Violation("capacitor at %s (%s, B=%g) is not in the file" % (key, x.mode, x.B))
        pool[key].remove(best)
        if STATES[x.switch]:
            out[best[0]["name"]] += key[1]
    left = [(k, u[0]["name"]) for k, l in pool.items() for u in l]
    if left:
        raise Violation("capacitors missing from the model: %s" % left)
    return out


def intact(model):
    return [f.status.value == "GOOD" for f in model.fuses]


def settle(case):
    spec = case["net"]
    if not spec["caps"] and case["more"]:
        spec = dict(spec, caps=[case["more"]])
    net = resolve(spec)
    net.caps = net.caps[:2]
    d = direction()
    # 1. bands and limits around the voltages and currents of a feeder without control
    for cp, k in zip(net.caps, case["caps"]):
        cp["mode"] = "MANUAL"
        if not set(cp["ph"]) & set(cp["var"]):
            cp["ph"] = cp["all"]
    c0 = R.reference(net, cap_closed={cp["name"]: "" for cp in net.caps})
    try:
        v0 = R.solve(c0, start(net, c0), iters=20)
    except R.NoSolution:
        return {"nontrivial": False, "labels": ["unsolved"]}
    for cp, k in zip(net.caps, case["caps"]):
        for p in cp["var"]:
            cp["var"][p] = float("%.6g" % (cp["var"][p] * k["size"]))
        if not k["volt"]:
            continue
        m = abs(v0[c0.index[(cp["node"], cp["ph"][k["ph"] % len(cp["ph"])])]])
        cp["mode"] = "VOLT"
        cp["low"] = float("%.9g" % (m * (1 + k["low"])))
        cp["high"] = float("%.9g" % (cp["low"] * (1 + k["width"])))
    tight = False
    lim = {}
    for el, p, i in fuse_currents(net, c0, v0):
        lim.setdefault(id(el), (el, []))[1].append(i)
    for k, (el, cur) in enumerate(lim.values()):
        f = case["fuse"][k % len(case["fuse"])]
        if f is not None and max(cur) > 1e-3:
            el["limit"] = float("%.7g" % (max(cur) * f))
            tight = True
    settings = PowerFlowSettings(device_control=case["on"], enable_line_capacitance=net.cap_on)
    model = glm.load(glm_text(build_objects(net)), settings)
    first = states(model, net)
    for cp in net.caps:
        if cp["mode"] == "MANUAL" and set(first[cp["name"]]) != set(cp["closed"]) & set(cp["ph"]):
            raise Violation("manual capacitor %s loaded with closed phases %r, the file says %r" % (cp["name"], first[cp["name"]], cp["closed"]))
    taps = [(r.tap_position, r.turn_ratio) for r in model.regulators]
    sw = [(s.from_bus.NodeName if hasattr(s, "from_bus") else "", s.status) for s in model.switches]
    M = Map(net)
    labels = {"control-on" if case["on"] else "control-off"}
    volt = bool(M.units)
    solved = 0
    for run in range(case["runs"]):
        try:
            res = PowerFlow(model, settings).execute()
        except Exception as e:
            msg = str(e)
            if not case["on"]:
                raise Violation("without device control: %s: %s" % (type(e).__name__, e))
            if "lown fuse" in msg:
                labels.add("fuse-blown")
                if not may_blow(net, M):
                    raise Violation("%r, but no fuse exceeds its limit in any switch state" % msg)
            elif "no device adjustments" in msg:
                labels.add("no-settled-state")
                if always_settles(M, d):
                    raise Violation("%r, but the rule settles from every initial state" % msg)
            else:
                raise
            return {"nontrivial": bool(solved or tight or volt), "labels": sorted(labels)}
        if not res.is_success:
            return {"nontrivial": bool(solved), "labels": sorted(labels | {"unsolved"})}
        now = states(model, net)
        for cp in net.caps:
            if (cp["mode"] == "MANUAL" or not case["on"]) and set(now[cp["name"]]) != set(first[cp["name"]]):
                raise Violation("%s capacitor %s went from closed phases %r to %r" % (cp["mode"], cp["name"], first[cp["name"]], now[cp["name"]]))
        if [(r.tap_position, r.turn_ratio) for r in model.regulators] != taps:
            raise Violation("manual regulator taps changed from %s" % taps)
        if [(s.from_bus.NodeName if hasattr(s, "from_bus") else "", s.status) for s in model.switches] != sw:
            raise Violation("switch states changed")
        if not all(intact(model)):
            raise Violation("solution reported with a blown fuse")
        c, ref = compare(net, res, labels, cap_closed=now)
        solved += 1
        if case["on"]:
            for el, p, i in fuse_currents(net, c, ref):
                if abs(i - el["limit"]) <= 1e-3 * el["limit"] + 1e-3:
                    raise Inconclusive("fuse at its limit")
                if i > el["limit"]:
                    raise Violation("fuse %s-%s phase %s carries %.6g A, its limit is %g A" % (el["from"], el["to"], p, i, el["limit"]))
            for cp in net.caps:
                if cp["mode"] != "VOLT":
                    continue
                for p in cp["ph"]:
                    mag = abs(ref[c.index[(cp["node"], p)]])
                    if min(abs(mag - cp["high"]), abs(mag - cp["low"])) < 1e-5 * mag:
                        raise Inconclusive("capacitor at its threshold")
                    s = p in now[cp["name"]]
                    if want(d, mag, cp["high"], cp["low"], s) != s:
                        raise Violation("capacitor %s phase %s is %s at %.7g V, band %g..%g (closes %s the band)" % (
                            cp["name"], p, "closed" if s else "open", mag, cp["low"], cp["high"], "above" if d else "below"))
                    labels.add("cap-%s" % ("above" if mag > cp["high"] else "below" if mag < cp["low"] else "inside"))
            if any(set(now[k]) != set(first[k]) for k in now):
                labels.add("switched")
    return {"nontrivial": tight or volt, "labels": sorted(labels)}


def combos(M):
    return itertools.product((False, True), repeat=len(M.units))


def may_blow(net, M):
    for bits in combos(M):
        c, v = M.solve(bits)
        if v is None:
            return True
        if any(i > el["limit"] * (1 - 1e-3) - 1e-3 for el, p, i in fuse_currents(net, c, v)):
            return True
    return False


def always_settles(M, d):
    for bits in combos(M):
        for _ in range(8):
            n = M.adjust(d, bits)
            if n is None:
                return False
            if n == bits:
                break
            bits = n
        else:
            return False
    return True


parts = [
    Part("settle", lambda: st.fixed_dictionaries({
        "net": specs(max_edges=6, kinds=["oh", "oh", "oh", "fu", "fu", "fu", "ug", "yy", "dy", "rg", "sw", "sp"]),
        "caps": st.lists(st.fixed_dictionaries({"volt": st.integers(0, 4).map(bool), "size": st.sampled_from([1.0, 3.0, 0.3]), "ph": PICK, "low": st.one_of(st.sampled_from([-0.1, 0.1, 0.002, -0.002]), fl(-0.02, 0.02)),
                                                   "width": st.sampled_from([0.0005, 0.004, 0.02, 0.1])}), min_size=2, max_size=2),
        "more": st.one_of(st.none(), *[st.fixed_dictionaries({"n": PICK, "v": st.lists(fl(0.0005, 0.01), min_size=3, max_size=3), "sw": st.integers(0, 7), "ph": st.integers(0, 7), "vn": fl(0.95, 1.05)})] * 3),
        "fuse": st.lists(st.sampled_from([None, None, 1.01, 0.99, 1.2, 3.0, 1.004]), min_size=1, max_size=4),
        "on": st.integers(0, 4).map(bool), "runs": st.integers(1, 2)}), settle, 450, 30000),
    Part("rule", lambda: st.fixed_dictionaries({
        "low": st.sampled_from([0.0, 0.9, 100.0, 114.0, 2300.0, 7100.0]).map(lambda x: x or 0.5), "width": st.sampled_from([0.001, 0.05, 0.5]), "k": st.integers(0, 5), "var": fl(1, 1e6),
        "at": st.lists(st.tuples(st.tuples(st.sampled_from(["low", "high", "in"]), fl(-1, 1, 6)), fl(-3.2, 3.2), st.booleans()), min_size=1, max_size=6)}), rule, 600, 20000,
         rule="voltage off the thresholds seen by a voltage-controlled capacitor"),
]
