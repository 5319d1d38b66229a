"""C22: metamorphic re-solves: symmetries of the physical problem applied to generated feeders and transmission cases."""
import cmath
import copy
import math
import random

import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from checks import c01, c02
from vf import glm, reference as R, txgrid as T
from vf.feeder import PH, PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C22"
TITLE = "Solutions respect the symmetries of the physical problem"
TECHNIQUE = "metamorphic relations on generated networks (Hypothesis): rename, permute phases, rotate, split, reverse and scale a case, solve both, map the solution back"
LEVEL_NOTE = "Randomised search over feeders of up to 6 links and transmission cases of up to 6 buses, one to three composed transformations; no absence proof."
RULE = "case solvable near nominal voltage, solved in original and transformed form, with a link and a load"
ASSUMPTIONS = ["compared where a plain Newton finds a solution near nominal voltage from no load, so that both runs are bound to find the same solution",
               "phase permutations rotate the source by the matching 120 degrees, so that the default starting voltages are permuted too"]


def say(v):
    return complex("%.12g%+.12gj" % (v.real, v.imag))


# ---------------------------------------------------------------- feeders: each takes a resolved net, changes it, returns key/voltage map

def permute(net, k):
    s = {p: PH[(i + k) % 3] for i, p in enumerate(PH)}
    rot = cmath.rect(1, -2 * math.pi / 3 * k)
    m = lambda ph: "".join(p for p in PH if p in {s.get(x, x) for x in ph}) if not ph.startswith("1") else ph
    for u in net.nodes.values():
        u["ph"] = m(u["ph"])
        if u["tri"]:
            u["tri"] = s[u["tri"]]
    net.source["v"] = {s[p]: say(v * rot) for p, v in net.source["v"].items()}
    new = {}
    for name, c in net.cfgs.items():
        if c["kind"] != "tl":
            c["phases"] = m(c["phases"])
            order = [PH.index(next(p for p in PH if s[p] == q)) for q in PH]
            for f in ("c", "g"):
                if f in c and not c.get("same"):
                    c[f] = [c[f][i] for i in order] + list(c[f][3:])
            if c["kind"] == "ug":
                # positions along the trench stay with their cable
                x, pos = 0.0, []
                for dx in c["x"]:
                    x += dx
                    pos.append(x)
                c["pos"] = [pos[i] for i in order] + [x + 0.25]
        new[name] = c
    for el in net.els:
        if el["k"] != "tl":
            el["ph"] = m(el["ph"])
        else:
            el["tri"] = s[el["tri"]]
        if "open" in el:
            el["open"] = [s[p] for p in el["open"]]
        if "taps" in el:
            t = dict(zip(PH, el["taps"]))
            el["taps"] = [t[next(p for p in PH if s[p] == q)] for q in PH]
    for l in net.loads:
        if l["tri"]:
            l["tri"] = s[l["tri"]]
        for e in l["e"]:
            if not l["tri"]:
                e["c"] = "".join(s[x] for x in e["c"])
            if e["t"] == "I":
                e["v"] = say(e["v"] * rot)
    for c in net.caps:
        c["ph"], c["all"], c["closed"] = m(c["ph"]), m(c["all"]), m(c["closed"])
        c["var"] = {s[p]: x for p, x in c["var"].items()}
    tri = {x for x, u in net.nodes.items() if u["tri"]}
    return lambda key, v: ((key[0], s.get(key[1], key[1])), v * rot)


def rotate(net, deg):
    rot = cmath.rect(1, math.radians(deg))
    net.source["v"] = {p: say(v * rot) for p, v in net.source["v"].items()}
    for l in net.loads:
        for e in l["e"]:
            if e["t"] == "I":
                e["v"] = say(e["v"] * rot)
    return lambda key, v: (key, v * rot)


def scale(net, k):
    for u in net.nodes.values():
        u["vn"] = float("%.12g" % (u["vn"] * k))
    net.source["v"] = {p: say(v * k) for p, v in net.source["v"].items()}
    for el in net.els:
        for f in ("vp", "vs"):
            if f in el:
                el[f] = float("%.12g" % (el[f] * k))
        if "kva" in el:
            el["kva"] = float("%.12g" % (el["kva"] * k * k))
    for l in net.loads:
        for e in l["e"]:
            if e["t"] != "Z":
                e["v"] = say(e["v"] * (k * k if e["t"] == "P" else k))
    for c in net.caps:
        c["vn"] = float("%.12g" % (c["vn"] * k))
        c["var"] = {p: float("%.12g" % (x * k * k)) for p, x in c["var"].items()}
    return lambda key, v: (key, v * k)


def split_line(net, f, pick):
    lines = [e for e in net.els if e["k"] in ("oh", "ug", "tl")]
    if not lines or net.cap_on:
        return None
    e = lines[pick % len(lines)]
    u = net.nodes[e["to"]]
    mid = "mid%d" % len(net.nodes)
    net.nodes[mid] = dict(u, ph=e["ph"], cls="triplex_meter" if e["k"] == "tl" else "node", idx=len(net.nodes))
    if e["k"] != "tl":
        net.nodes[mid]["tri"] = None
    b = dict(e, **{"from": mid, "len": float("%.12g" % (e["len"] * (1 - f)))})
    b["id"] = e["id"] if e["id"] < 100 else e["id"]
    e["len"], e["to"] = float("%.12g" % (e["len"] * f)), mid
    net.els.append(b)
    return lambda key, v: (key, v)


def split_load(net, f, pick):
    cand = [l for l in net.loads if l["e"]]
    if not cand:
        return None
    l = cand[pick % len(cand)]
    k = dict(l, name="%sx%d" % (l["name"], len(net.loads)), own=False, e=[])
    for e in l["e"]:
        if e["t"] == "Z":
            k["e"].append(dict(e, v=say(e["v"] / (1 - f))))
            e["v"] = say(e["v"] / f)
        else:
            k["e"].append(dict(e, v=say(e["v"] * (1 - f))))
            e["v"] = say(e["v"] * f)
    net.loads.append(k)
    return lambda key, v: (key, v)


def turn_switch(net, pick):
    """a closed switch, line or fuse drawn from the other end"""
    cand = [e for e in net.els if e["k"] in ("sw", "fu", "oh", "ug", "tl")]
    if not cand:
        return None
    e = cand[pick % len(cand)]
    e["from"], e["to"] = e["to"], e["from"]
    return lambda key, v: (key, v)


WORDS = ["load", "node", "R1-12-47-1", "Meter_7", "a", "tn", "bus", "X9", "line", "cap", "N", "src", "swing", "sub_station", "house3", "f_12", "zz", "A", "B_1", "tm-4"]


def rename(objs, seed):
    rnd = random.Random(seed)
    new = {}
    for o in objs:
        while True:
            w = "_".join(rnd.choice(WORDS) for _ in range(rnd.randint(1, 2))) + rnd.choice(["", "_%d" % rnd.randint(0, 99), "%d" % rnd.randint(0, 9)])
            if w not in new.values() and not w[0].isdigit():
                break
        new[o.name] = w
    for o in objs:
        o.name = new[o.name]
        o.props = [(k, new.get(v, v) if k in ("from", "to", "parent", "configuration", "spacing") or k.startswith("conductor_") and "resist" not in k else v) for k, v in o.props]
    return lambda key, v: ((new[key[0]], key[1]), v)


def run(net, objs, settings):
    return glm.solve(glm_text(objs), settings)[1]


def feeder(case):
    net = resolve(case["net"])
    if any(t["t"] == "split" for t in case["do"]):
        net.cap_on = False
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    ref = R.reference(net)
    if c01.easy(net, ref) is None:
        return {"nontrivial": False, "labels": ["not-easy"]}
    base = run(net, build_objects(net), settings)
    if not base.is_success:
        return {"nontrivial": False, "labels": ["unsolved"]}
    got = glm.voltages(base)
    vn0 = {k: net.nodes[k[0]]["vn"] for k in got}
    v = np.zeros(ref.n, complex)
    for k in ref.keys:
        v[ref.index[k]] = got[k]
    slack = c01.tolerances(ref, ref.matrix(), v, 1e-5)
    two = copy.deepcopy(net)
    steps, factor, done = [], 1.0, []
    seed = None
    for t in case["do"]:
        w = t["t"]
        f = None
        if w == "permute":
            if any(c["kind"] == "ug" for c in two.cfgs.values()) and any("pos" in c for c in two.cfgs.values()):
                continue
            f = permute(two, 1 + t["k"] % 2)
        elif w == "rotate":
            f = rotate(two, t["deg"])
        elif w == "scale":
            f = scale(two, t["s"])
            factor *= t["s"]
        elif w == "split":
            f = split_line(two, t["f"], t["k"])
        elif w == "load":
            f = split_load(two, t["f"], t["k"])
        elif w == "turn":
            f = turn_switch(two, t["k"])
        else:
            seed = t["k"] + 12 * int(t["f"] * 1000)
            done.append(w)
        if f:
            steps.append(f)
            done.append(w)
    objs = build_objects(two)
    if seed is not None:
        steps.append(rename(objs, seed))
    res = run(two, objs, settings)
    if not res.is_success:
        raise Violation("solved, but not after %s" % done)
    new = glm.voltages(res)
    for k, x in got.items():
        key, want = k, x
        for f in steps:
            key, want = f(key, want)
        if key not in new:
            raise Violation("after %s there is no node %s (was %s)" % (done, key, k))
        lim = (1e-6 * vn0[k] + slack[ref.index[k]]) * factor + slack[ref.index[k]] / min(factor, 1.0)
        if lim > 2e-3 * vn0[k] * factor:
            continue
        if not abs(new[key] - want) <= lim:
            raise Violation("after %s: voltage at %s is %s, expected %s (was %s at %s)" % (done, key, new[key], want, x, k))
    return {"nontrivial": bool(done and net.els and any(l["e"] for l in net.loads)), "labels": sorted(set(done)) or ["nothing"]}


# ---------------------------------------------------------------- transmission

def tx_renumber(g, t):
    rnd = random.Random(t["k"] * 1000 + int(t["f"] * 999))
    nums = rnd.sample(range(1, 997), len(g.bus))
    m = {b["i"]: n for b, n in zip(g.bus, nums)}
    for b in g.bus:
        b["i"] = m[b["i"]]
        b["name"] = rnd.choice(["", "Q", "ZONE ", "x-"]) + "%d" % rnd.randint(1, 9999) + "_%d" % b["i"]
    for l in g.load + g.fsh + g.gen + g.ssh:
        l["i"] = m[l["i"]]
    for l in g.br + g.xf:
        l["i"], l["j"] = m[l["i"]], m[l["j"]]
    g.by = {b["i"]: b for b in g.bus}
    return lambda i, v: (m[i], v)


def tx_rotate(g, t):
    d = t["deg"]
    for b in g.bus:
        b["va"] = float("%.9g" % (b["va"] + d))
    rot = cmath.rect(1, math.radians(d))
    return lambda i, v: (i, v * rot)


def tx_scale(g, t):
    k = t["s"]
    def mul(d, f, keys):
        for x in keys:
            d[x] = float("%.12g" % (d[x] * f))
    for b in g.bus:
        mul(b, k, ("gl", "bl"))
    for l in g.load:
        mul(l, k, ("pl", "ql", "ip", "iq", "yp", "yq"))
    for s in g.fsh:
        mul(s, k, ("gl", "bl"))
    for s in g.ssh:
        mul(s, k, ("bi",))
    for x in g.gen:
        mul(x, k, ("pg", "qg", "qt", "qb"))
    for b in g.br:
        mul(b, 1 / k, ("r", "x"))
        mul(b, k, ("b",))
        b["sh"] = [float("%.12g" % (s * k)) for s in b["sh"]]
    for x in g.xf:
        mul(x, 1 / k, ("r", "x"))
    return lambda i, v: (i, v)


def tx_reverse(g, t):
    k = t["k"]
    for n, b in enumerate(g.br):
        if (k >> (n % 3)) & 1:
            b["i"], b["j"] = b["j"], b["i"]
            b["sh"] = b["sh"][2:] + b["sh"][:2]
    for n, x in enumerate(g.xf):
        if (k >> ((n + 1) % 3)) & 1:
            x["i"], x["j"], x["w1"], x["w2"], x["n1"], x["n2"], x["ang"], x["cod"] = x["j"], x["i"], x["w2"], x["w1"], x["n2"], x["n1"], -x["ang"], 0
            x["kv"] = x["kv"][::-1]
    return lambda i, v: (i, v)


def tx_split(g, t):
    cand = [b for b in g.br if b["st"] == 1 and (b["b"] == 0 or t["k"] % 2)]
    if not cand:
        return None
    b = cand[t["k"] // 2 % len(cand)]
    if t["k"] % 2:
        # two parallel circuits
        c = dict(b, ckt="%d" % (9 + len(g.br)), sh=[s / 2 for s in b["sh"]], b=b["b"] / 2, r=2 * b["r"], x=2 * b["x"])
        b.update(sh=[s / 2 for s in b["sh"]], b=b["b"] / 2, r=2 * b["r"], x=2 * b["x"])
        g.br.append(c)
        return lambda i, v: (i, v)
    num = max(x["i"] for x in g.bus) + 1
    f = t["f"]
    e = g.by[b["j"]]
    if e["ide"] == 4 or g.by[b["i"]]["ide"] == 4:
        return None
    n = dict(g.bus[0], i=num, name="MID%d" % num, ide=1, kv=e["kv"], gl=0.0, bl=0.0)
    n["vm"], n["va"] = e["vm"], e["va"]
    g.bus.append(n)
    g.by[num] = n
    c = dict(b, i=num, r=b["r"] * (1 - f), x=b["x"] * (1 - f), b=0.0, sh=[0.0, 0.0] + b["sh"][2:])
    b.update(j=num, r=b["r"] * f, x=b["x"] * f, b=0.0, sh=b["sh"][:2] + [0.0, 0.0])
    g.br.append(c)
    return lambda i, v: (i, v)


def tx_load(g, t):
    cand = [l for l in g.load if l["st"] == 1]
    if not cand:
        return None
    l = cand[t["k"] % len(cand)]
    k = dict(l, id="S%d" % len(g.load))
    for f in ("pl", "ql", "ip", "iq", "yp", "yq"):
        k[f] = float("%.12g" % (l[f] * t["f"]))
        l[f] = float("%.12g" % (l[f] * (1 - t["f"])))
    g.load.append(k)
    return lambda i, v: (i, v)


TX = {"rename": tx_renumber, "rotate": tx_rotate, "scale": tx_scale, "turn": tx_reverse, "split": tx_split, "load": tx_load}


def grid(case):
    g = T.resolve(case["g"])
    ref = T.Ref(g)
    settings = PowerFlowSettings(tolerance=1e-8)
    if c02.easy(g, ref) is None:
        return {"nontrivial": False, "labels": ["not-easy"]}
    base = c02.solve(g, settings)[1]
    if not base.is_success:
        return {"nontrivial": False, "labels": ["unsolved"]}
    got = {b.bus.Bus: complex(b.V_r, b.V_i) for b in base.bus_results}
    if min(map(abs, got.values())) < 0.85:
        return {"nontrivial": False, "labels": ["other-solution"]}
    two = copy.deepcopy(g)
    done, steps = [], []
    for t in case["do"]:
        f = TX[t["t"]](two, t) if t["t"] in TX else None
        if f:
            done.append(t["t"])
            steps.append(f)
    res = c02.solve(two, settings)[1]
    if not res.is_success:
        raise Violation("solved, but not after %s" % done)
    new = {b.bus.Bus: complex(b.V_r, b.V_i) for b in res.bus_results}
    for i, x in got.items():
        j, want = i, x
        for f in steps:
            j, want = f(j, want)
        if j not in new:
            raise Violation("after %s there is no bus %s (was %s)" % (done, j, i))
        if not abs(new[j] - want) <= 2e-5:
            raise Violation("after %s: voltage at bus %s is %s, expected %s (was %s)" % (done, j, new[j], want, x))
    return {"nontrivial": bool(done and (g.load or g.xf)), "labels": sorted(set(done)) or ["nothing"]}


STEP = st.fixed_dictionaries({"t": st.sampled_from(["permute", "rotate", "scale", "split", "load", "rename", "turn"]), "k": PICK, "deg": st.one_of(st.sampled_from([90.0, 180.0, -120.0, 30.0]), fl(-180, 180, 5)),
                              "f": fl(0.05, 0.95, 3), "s": st.sampled_from([2.0, 0.5, 1.3, 4.0])})
STEPX = st.fixed_dictionaries({"t": st.sampled_from(["rename", "rotate", "scale", "turn", "split", "split", "load"]), "k": PICK, "deg": st.one_of(st.sampled_from([90.0, 180.0, -120.0, 30.0]), fl(-180, 180, 5)),
                               "f": fl(0.05, 0.95, 3), "s": st.sampled_from([2.0, 0.5, 1.3, 4.0])})

parts = [
    Part("feeder", lambda: st.fixed_dictionaries({"net": specs(max_edges=6), "do": st.lists(STEP, min_size=1, max_size=3)}), feeder, 320, 30000),
    Part("grid", lambda: st.fixed_dictionaries({"g": T.specs(max_buses=6), "do": st.lists(STEPX, min_size=1, max_size=3)}), grid, 320, 30000),
]
