"""Random three-phase feeders: generated spec -> concrete net -> GLM text / reference circuit.

The spec (drawn by Hypothesis) only contains picks and numbers; resolve() turns it into a
valid concrete net by construction, so that every spec, also a shrunk one, is in the domain.
"""
import cmath
import math

from hypothesis import strategies as st

PH = "ABC"
ANG = {"A": 0.0, "B": -120.0, "C": 120.0}


def fl(lo, hi, digits=4):
    def r(x):
        return float("%.*g" % (digits, round(x, 9)))
    return st.floats(lo, hi).map(r).map(lambda x: min(max(x, lo), hi))


PICK = st.integers(0, 11)


def geometry():
    """positions (ft) of A,B,C,N: list of (x, h)"""
    def ok(pts):
        return all(math.dist(pts[i], pts[j]) > 0.8 for i in range(4) for j in range(i))
    xs = st.sampled_from([-4.0, -2.5, -1.0, 0.0, 0.5, 2.0, 4.5])
    hs = st.sampled_from([20.0, 21.3, 24.0, 25.1, 28.0, 29.7])
    free = st.tuples(fl(-5, 5, 3), fl(18, 40, 3))
    p = st.one_of(st.tuples(xs, hs), st.tuples(xs, hs), free)
    return st.lists(p, min_size=4, max_size=4).filter(ok).map(lambda l: [list(q) for q in l])


def conductor():
    return st.fixed_dictionaries({"r": fl(0.08, 3.0), "gmr": fl(0.002, 0.05), "dia": fl(0.15, 1.5)})


def cable():
    # concentric neutral cable: strand diameter, overall diameter ...
    return st.fixed_dictionaries({
        "r": fl(0.1, 3.0), "gmr": fl(0.005, 0.03), "cdia": fl(0.2, 0.9), "ndia": fl(0.03, 0.12), "nr": fl(1.0, 20.0),
        "ngmr": fl(0.001, 0.004), "k": st.integers(3, 20), "od_extra": fl(0.25, 0.6)})


EDGE_KINDS = ["oh", "oh", "oh", "ug", "tl", "yy", "dd", "dy", "sp", "ct", "ct", "rg", "sw", "fu"]


@st.composite
def edge(draw, kinds):
    k = draw(st.sampled_from(kinds))
    e = {"k": k, "p": draw(PICK), "ph": draw(st.sampled_from([0, 7, 3, 5, 6, 1, 2, 4, 7, 0])), "cls": draw(st.integers(0, 3))}
    if k in ("oh", "ug", "tl"):
        e["len"] = draw(fl(50, 4000))
        e["cfg"] = draw(PICK)
    elif k in ("yy", "dd", "dy", "sp", "ct"):
        e["ratio"] = draw(st.integers(0, 5))
        e["kva"] = draw(fl(0.2, 3.0))
        e["r"] = draw(fl(0.002, 0.04))
        e["x"] = draw(fl(0.005, 0.08))
        e["style"] = draw(st.integers(0, 3))
        if k == "ct":
            e["z3"] = draw(st.one_of(st.none(), st.none(), st.lists(fl(0.003, 0.05), min_size=4, max_size=4)))
    elif k == "rg":
        e["type"] = draw(st.sampled_from("AB"))
        e["taps"] = [draw(st.integers(-18, 18)) for _ in range(3)]
        e["raise"], e["lower"] = draw(st.sampled_from([(16, 16), (16, 16), (8, 16), (10, 5)]))
        e["reg"] = draw(st.sampled_from([0.1, 0.05, 0.125]))
    elif k == "sw":
        e["style"] = draw(st.integers(0, 2))
        e["open"] = draw(st.integers(0, 7))
    elif k == "fu":
        e["style"] = draw(st.integers(0, 2))
        e["open"] = draw(st.integers(0, 7))
        e["limit"] = 1e6
    return e


LOADV = st.tuples(fl(-0.2, 1.0), fl(-0.5, 0.6)).map(list)


@st.composite
def load(draw):
    n = draw(st.integers(1, 4))
    return {"n": draw(PICK), "own": draw(st.integers(0, 3)), "delta": draw(st.booleans()),
            "e": [{"c": draw(st.integers(0, 5)), "t": draw(st.sampled_from("PPPZZI")), "v": draw(LOADV)} for _ in range(n)]}


@st.composite
def specs(draw, max_edges=7, kinds=None, max_loads=5, caps=True, ties=True, cap_on=None):
    kinds = kinds or EDGE_KINDS
    return {
        "vln": draw(st.sampled_from([7199.56, 2401.78, 1000.0, 14376.0, 4160.0, 480.0])),
        "src": {"mag": [draw(fl(0.97, 1.05)) for _ in range(3)], "rot": draw(st.sampled_from([0.0, 0.0, 30.0, -47.5, 180.0])),
                "dang": [draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])) for _ in range(3)], "cls": draw(st.integers(0, 1))},
        "cap": draw(st.booleans()) if cap_on is None else cap_on,
        "ohc": draw(st.lists(st.fixed_dictionaries({"g": geometry(), "c": st.lists(conductor(), min_size=4, max_size=4), "n": st.booleans(),
                                                      "earth": st.booleans(), "super": st.booleans()}), min_size=1, max_size=2)),
        "ugc": draw(st.lists(st.fixed_dictionaries({"x": st.lists(fl(0.35, 2.0, 3), min_size=3, max_size=3), "c": st.lists(cable(), min_size=3, max_size=3),
                                                      "same": st.booleans(), "n": st.booleans(), "nc": cable()}), min_size=1, max_size=2)),
        "tlc": draw(st.lists(st.fixed_dictionaries({"c": st.lists(conductor(), min_size=3, max_size=3), "dia": fl(0.2, 0.6), "ins": fl(0.04, 0.12)}), min_size=1, max_size=2)),
        "edges": draw(st.lists(edge(kinds), min_size=1, max_size=max_edges)),
        "loads": draw(st.lists(load(), min_size=1, max_size=max_loads)),
        "caps": draw(st.lists(st.fixed_dictionaries({"n": PICK, "v": st.lists(fl(0.0005, 0.01), min_size=3, max_size=3), "sw": st.integers(0, 7), "ph": st.integers(0, 7),
                                                       "vn": fl(0.95, 1.05)}), max_size=2)) if caps else [],
        "ties": draw(st.lists(st.fixed_dictionaries({"a": PICK, "b": PICK, "k": st.integers(0, 2), "ph": st.integers(0, 7), "len": fl(200, 4000), "cfg": PICK}), max_size=2)) if ties else [],
    }


def subset(phases, mask):
    s = "".join(p for i, p in enumerate(PH) if (mask >> i) & 1 and p in phases)
    return s or phases


class Net:
    """nodes: name -> dict(ph, vn, cls, zone, tph, float); els: list of dicts in order; loads, caps"""

    def __init__(self):
        self.nodes, self.els, self.loads, self.caps, self.cfgs = {}, [], [], [], {}
        self.kids = []      # child nodes: (name, parent)
        self.cap_on = True


def _sgn(vn, v, t):
    """load entry in SI units; v is relative, |y| up to ~1 -> a few percent of vn^2"""
    return complex(v[0], v[1])


def resolve(spec, states=False):
    """states: also open switches and blow fuses of the tree (such nets are not solvable in general)"""
    net = Net()
    net.cap_on = spec["cap"]
    net.spec = spec
    vln = spec["vln"]
    s = spec["src"]
    net.nodes["src"] = {"ph": "ABC", "vn": vln, "cls": ["node", "meter"][s["cls"]], "zone": 0, "tri": None, "idx": 0}
    net.source = {"name": "src", "v": {p: cmath.rect(vln * s["mag"][i], math.radians(ANG[p] + s["rot"] + s["dang"][i])) for i, p in enumerate(PH)}}
    net.source["v"] = {p: complex("%.9g%+.9gj" % (v.real, v.imag)) for p, v in net.source["v"].items()}
    zones = [0]
    uf = {}

    def find(a):
        while uf.get(a, a) != a:
            a = uf[a]
        return a

    def join(a, b):
        uf[find(a)] = find(b)

    def oh_cfg(i, phases):
        i %= len(spec["ohc"])
        name = "ohcfg%d_%s" % (i, phases)
        if name not in net.cfgs:
            net.cfgs[name] = dict(spec["ohc"][i], kind="oh", phases=phases, idx=i)
        return name

    def ug_cfg(i, phases):
        i %= len(spec["ugc"])
        name = "ugcfg%d_%s" % (i, phases)
        if name not in net.cfgs:
            net.cfgs[name] = dict(spec["ugc"][i], kind="ug", phases=phases, idx=i)
        return name

    def tl_cfg(i):
        i %= len(spec["tlc"])
        name = "tlcfg%d" % i
        if name not in net.cfgs:
            net.cfgs[name] = dict(spec["tlc"][i], kind="tl", phases="12", idx=i)
        return name

    grounding = []
    for n, e in enumerate(spec["edges"]):
        k = e["k"]
        names = list(net.nodes)
        if k == "tl":
            elig = [x for x in names if net.nodes[x]["tri"]]
            if not elig:
                k = "ct"
                e = dict(e, ratio=0, kva=1.0, r=0.01, x=0.02, style=0)
        if k != "tl":
            elig = [x for x in names if not net.nodes[x]["tri"]]
            if k in ("yy", "dd", "dy", "rg"):
                elig = [x for x in elig if net.nodes[x]["ph"] == "ABC"]
        src = elig[e["p"] % len(elig)]
        u = net.nodes[src]
        name = "n%d" % (n + 1)
        cls = ["node", "meter", "load", "meter"][e["cls"]]
        new = {"ph": u["ph"], "vn": u["vn"], "cls": cls, "zone": u["zone"], "tri": None, "idx": n + 1}
        el = {"k": k, "from": src, "to": name, "id": n}
        # line lengths shrink with the voltage level so that drops stay moderate
        scale = min(1.0, u["vn"] / 2400.0)
        if k in ("oh", "ug"):
            ph = subset(u["ph"], e["ph"])
            new["ph"] = ph
            el.update(ph=ph, len=float("%.5g" % (e["len"] * scale)), cfg=(oh_cfg if k == "oh" else ug_cfg)(e["cfg"], ph))
        elif k == "tl":
            new.update(ph="12", tri=u["tri"], cls=["triplex_node", "triplex_meter"][e["cls"] % 2])
            el.update(ph="12", tri=u["tri"], len=float("%.5g" % (e["len"] * 0.05)), cfg=tl_cfg(e["cfg"]))
        elif k in ("yy", "dd", "dy", "sp"):
            if k == "sp":
                ph = u["ph"][e["ph"] % len(u["ph"])]
            else:
                ph = "ABC"
            ratio = [1.0, 2.0, 3.0, 0.5, 5.196, 15.0][e["ratio"]]
            vs = float("%.7g" % (u["vn"] / ratio))
            if vs < 100:
                vs = 120.0
            zones.append(len(zones))
            new.update(ph=ph, vn=vs, zone=zones[-1])
            kva = float("%.4g" % (e["kva"] * u["vn"] ** 2 * 0.05 / 1000 + 5))
            lnp, lns = u["vn"], vs
            if k != "sp":
                vp, vs2 = float("%.9g" % (lnp * math.sqrt(3))), float("%.9g" % (lns * math.sqrt(3)))
            else:
                vp, vs2 = lnp, lns
            el.update(ph=ph, vp=vp, vs=vs2, kva=kva, r=e["r"], x=e["x"], style=e["style"])
            if k == "dd":
                grounding.append((name, vs, kva))
        elif k == "ct":
            ph = u["ph"][e["ph"] % len(u["ph"])]
            zones.append(len(zones))
            new.update(ph="12", vn=120.0, zone=zones[-1], tri=ph, cls=["triplex_node", "triplex_meter"][e["cls"] % 2])
            el.update(ph=ph, vp=u["vn"], vs=120.0, kva=float("%.4g" % (10 + 15 * e["kva"])), r=e["r"], x=e["x"], style=e["style"], z3=e.get("z3"))
        elif k == "rg":
            zones.append(len(zones))
            new.update(ph="ABC", zone=zones[-1])
            el.update(ph="ABC", type=e["type"], taps=e["taps"], up=e["raise"], down=e["lower"], reg=e["reg"])
        elif k in ("sw", "fu"):
            ph = subset(u["ph"], e["ph"])
            new["ph"] = ph
            el.update(ph=ph, style=e["style"], open=[])
            if states:
                el["open"] = [p for i, p in enumerate(PH) if p in ph and (e["open"] >> i) & 1]
                if e["style"] == 1:
                    el["open"] = list(ph) if e["open"] & 1 else []
                elif e["style"] == 2:
                    el["open"] = []
            if k == "fu":
                el["limit"] = e["limit"]
            else:
                join(src, name)
        if new["cls"] == "load" and new["tri"]:
            new["cls"] = "triplex_node"
        net.nodes[name] = new
        net.els.append(el)

    for n, t in enumerate(spec["ties"]):
        names = [x for x in net.nodes if not net.nodes[x]["tri"]]
        a = names[t["a"] % len(names)]
        others = [x for x in names if x != a and net.nodes[x]["zone"] == net.nodes[a]["zone"] and set(net.nodes[x]["ph"]) & set(net.nodes[a]["ph"])]
        if not others:
            continue
        b = others[t["b"] % len(others)]
        common = "".join(p for p in PH if p in net.nodes[a]["ph"] and p in net.nodes[b]["ph"])
        ph = subset(common, t["ph"])
        el = {"from": a, "to": b, "id": 100 + n, "ph": ph}
        kind = ["oh", "sw", "open"][t["k"]]
        if any(set((x["from"], x["to"])) == {a, b} for x in net.els):
            kind = "oh" if kind == "sw" else kind
        if kind == "sw" and find(a) == find(b):
            kind = "open"
        if kind == "oh":
            scale = min(1.0, net.nodes[a]["vn"] / 2400.0)
            el.update(k="oh", len=float("%.5g" % (t["len"] * scale)), cfg=oh_cfg(t["cfg"], ph))
        elif kind == "sw":
            # phases of the same pair may not close a loop of ideal switches
            join(a, b)
            el.update(k="sw", style=0, open=[])
        else:
            el.update(k="sw", style=0, open=list(ph))
        net.els.append(el)

    for n, l in enumerate(spec["loads"]):
        names = [x for x in net.nodes if x != "src" or len(net.nodes) == 1]
        x = names[l["n"] % len(names)]
        u = net.nodes[x]
        add_load(net, n, x, u, l)
    for name, vs, kva in grounding:
        y = kva * 1000 / 3 / vs ** 2 * 0.3
        net.loads.append({"name": "gz_%s" % name, "node": name, "own": False, "delta": False, "tri": None,
                          "e": [{"c": p, "t": "Z", "v": complex("%.6g%+.6gj" % (1 / y, 0.1 / y))} for p in PH]})
    for n, c in enumerate(spec["caps"]):
        names = [x for x in net.nodes if not net.nodes[x]["tri"] and x != "src"]
        if not names:
            continue
        x = names[c["n"] % len(names)]
        u = net.nodes[x]
        ph = subset(u["ph"], c["ph"])
        net.caps.append({"name": "cap%d" % n, "node": x, "ph": ph, "vn": float("%.6g" % (u["vn"] * c["vn"])), "mode": "MANUAL",
                         "var": {p: float("%.6g" % (c["v"][PH.index(p)] * u["vn"] ** 2)) for p in u["ph"]},
                         "closed": "".join(p for i, p in enumerate(PH) if (c["sw"] >> i) & 1), "all": u["ph"]})
    # a node of class load or triplex_node carries its own load (possibly none): attach the first load to it
    for x, u in net.nodes.items():
        if u["cls"] in ("load", "triplex_node"):
            mine = [l for l in net.loads if l["node"] == x]
            if mine:
                mine[0]["own"] = True
    return net


def add_load(net, n, x, u, l):
    vn = u["vn"]
    ent = []
    if u["tri"]:
        conns = ["1", "2", "12"]
        base = vn ** 2 * 0.12
    elif l["delta"] and len(u["ph"]) > 1:
        conns = [c for c in ("AB", "BC", "CA") if c[0] in u["ph"] and c[1] in u["ph"]]
        base = vn ** 2 * 0.004
    else:
        conns = list(u["ph"]) + [c for c in ("AB", "BC", "CA") if c[0] in u["ph"] and c[1] in u["ph"]]
        base = vn ** 2 * 0.004
    seen = set()
    delta = bool(l["delta"] and not u["tri"] and len(u["ph"]) > 1)
    for e in l["e"]:
        c = conns[e["c"] % len(conns)]
        t = e["t"]
        if t != "P" and len(c) == 2 and c != "12" and not delta:
            t = "P"       # only constant power has line-to-line property names
        if t == "I" and u["tri"]:
            t = "Z"
        if (c, t) in seen:
            continue
        seen.add((c, t))
        v = complex(e["v"][0], e["v"][1]) * base
        if abs(v) < 1e-3 * base:
            v = complex(0.3 * base, 0.05 * base)
        vnom = vn * (math.sqrt(3) if len(c) == 2 and c != "12" else 2 if c == "12" else 1)
        if t == "Z":
            v = complex(abs(v.real), v.imag)
            v = vnom ** 2 / v.conjugate()
        elif t == "I":
            ph = {"A": 0.0, "B": -120.0, "C": 120.0, "AB": 30.0, "BC": -90.0, "CA": 150.0}[c]
            v = (v / cmath.rect(vnom, math.radians(ph))).conjugate()
        v = complex("%.7g%+.7gj" % (v.real, v.imag))
        ent.append({"c": c, "t": t, "v": v})
    net.loads.append({"name": "ld%d" % n, "node": x, "own": False, "delta": delta, "tri": u["tri"], "e": ent, "kid": l["own"] == 3})


# ---------------------------------------------------------------- GLM text

def cx(v):
    return "%.12g%+.12gj" % (v.real, v.imag)


def num(x):
    return "%.12g" % x


class Obj:
    def __init__(self, cls, name, props, after=()):
        self.cls, self.name, self.props, self.after = cls, name, props, list(after)


def conductor_phases(cfg):
    return cfg["phases"] + ("N" if cfg.get("n") else "")


def oh_distances(cfg, wires):
    pos = {w: cfg["g"]["ABCN".index(w)] for w in wires}
    d = {}
    for i, a in enumerate(wires):
        for b in wires[i + 1:]:
            d[a + b] = float("%.6g" % math.dist(pos[a], pos[b]))
        if cfg["earth"]:
            d[a + "E"] = pos[a][1]
    return d


def ug_distances(cfg, wires):
    """cables in a trench at increasing x; the bare neutral at the end"""
    x, pos = 0.0, {}
    for w, dx in zip("ABC", cfg["x"]):
        x += dx
        pos[w] = x
    pos["N"] = x + 0.25
    if "pos" in cfg:
        pos = dict(zip("ABCN", cfg["pos"]))
    d = {}
    for i, a in enumerate(wires):
        for b in wires[i + 1:]:
            d[a + b] = float("%.6g" % abs(pos[a] - pos[b]))
    return d


def ug_cable(cfg, p):
    c = cfg["nc"] if p == "N" else cfg["c"][0 if cfg["same"] else PH.index(p)]
    c = dict(c)
    c["od"] = float("%.5g" % (c["cdia"] + c["od_extra"] + 2 * c["ndia"]))
    return c


def build_objects(net):
    """list of Obj in a valid order (configurations, nodes, links, loads, capacitors)"""
    out = []
    spacings = {}
    for name, c in net.cfgs.items():
        props = []
        if c["kind"] == "oh":
            wires = conductor_phases(c)
            for w in wires:
                k = c["c"]["ABCN".index(w)]
                cn = "ohw%d_%s" % (c["idx"], w)
                if not any(o.name == cn for o in out):
                    pr = [("geometric_mean_radius", num(k["gmr"])), ("resistance", num(k["r"]))]
                    pr.append(("diameter", num(k["dia"])))
                    out.append(Obj("overhead_line_conductor", cn, pr))
                props.append(("conductor_" + w, cn))
            sw = "ABCN" if c["super"] else wires
            sn = "ohs%d_%s" % (c["idx"], sw)
            if sn not in spacings:
                spacings[sn] = 1
                out.append(Obj("line_spacing", sn, [("distance_" + fix_pair(k), num(v)) for k, v in oh_distances(c, sw).items()]))
            props.append(("spacing", sn))
            out.append(Obj("line_configuration", name, props))
        elif c["kind"] == "ug":
            wires = conductor_phases(c)
            for w in wires:
                k = ug_cable(c, w)
                cn = "ugw%d_%s" % (c["idx"], w)
                if not any(o.name == cn for o in out):
                    out.append(Obj("underground_line_conductor", cn, [
                        ("outer_diameter", num(k["od"])), ("conductor_gmr", num(k["gmr"])), ("conductor_diameter", num(k["cdia"])),
                        ("conductor_resistance", num(k["r"])), ("neutral_gmr", num(k["ngmr"])), ("neutral_diameter", num(k["ndia"])),
                        ("neutral_resistance", num(k["nr"])), ("neutral_strands", num(k["k"]))]))
                props.append(("conductor_" + w, cn))
            sn = "ugs%d_%s" % (c["idx"], wires)
            if sn not in spacings:
                spacings[sn] = 1
                out.append(Obj("line_spacing", sn, [("distance_" + fix_pair(k), num(v)) for k, v in ug_distances(c, wires).items()]))
            props.append(("spacing", sn))
            out.append(Obj("line_configuration", name, props))
        else:
            for j, w in enumerate("12N"):
                k = c["c"][j]
                cn = "tlw%d_%s" % (c["idx"], w)
                out.append(Obj("triplex_line_conductor", cn, [("resistance", num(k["r"])), ("geometric_mean_radius", num(k["gmr"]))]))
                props.append(("conductor_" + w, cn))
            props += [("insulation_thickness", num(c["ins"])), ("diameter", num(c["dia"]))]
            out.append(Obj("triplex_line_configuration", name, props))
    loads_own = {l["node"]: l for l in net.loads if l["own"]}
    for x, u in net.nodes.items():
        if u["tri"]:
            props = [("phases", u["tri"] + "S"), ("nominal_voltage", num(u["vn"]))]
        else:
            ph = u["ph"] + "N"
            l = loads_own.get(x)
            if l and l["delta"]:
                ph = u["ph"] + "D"
            props = [("phases", ph), ("nominal_voltage", num(u["vn"]))]
        if x == net.source["name"]:
            props.append(("bustype", "SWING"))
            for p in PH:
                props.append(("voltage_" + p, cx(net.source["v"][p])))
        if x in loads_own:
            props += load_props(loads_own[x])
        out.append(Obj(u["cls"], x, props))
    for name, parent in net.kids:
        u = net.nodes[parent]
        out.append(Obj("triplex_meter" if u["tri"] else "meter", name, [("parent", parent), ("phases", (u["tri"] + "S") if u["tri"] else u["ph"] + "N"), ("nominal_voltage", num(u["vn"]))], [parent]))
    for el in net.els:
        k = el["k"]
        nm = "%s_%s_%s" % (k, el["from"], el["to"]) + ("_t%d" % el["id"] if el["id"] >= 100 else "")
        ends = [("from", el["from"]), ("to", el["to"])]
        if k in ("oh", "ug"):
            c = net.cfgs[el["cfg"]]
            out.append(Obj("overhead_line" if k == "oh" else "underground_line", nm, [("phases", conductor_phases(c) if k == "oh" else el["ph"] + "N")] + ends + [
                ("length", num(el["len"])), ("configuration", el["cfg"])]))
        elif k == "tl":
            out.append(Obj("triplex_line", nm, [("phases", el["tri"] + "S")] + ends + [("length", num(el["len"])), ("configuration", el["cfg"])]))
        elif k in ("yy", "dd", "dy", "sp", "ct"):
            cn = "xc_" + el["to"]
            ct = {"yy": ["WYE_WYE", "1"], "dd": ["DELTA_DELTA", "2"], "dy": ["DELTA_GWYE", "3"], "sp": ["SINGLE_PHASE", "4"], "ct": ["SINGLE_PHASE_CENTER_TAPPED", "5"]}[k][el["style"] & 1]
            pr = [("connect_type", ct), ("primary_voltage", num(el["vp"])), ("secondary_voltage", num(el["vs"])), ("power_rating", num(el["kva"]))]
            if el["style"] & 2:
                pr.append(("impedance", cx(complex(el["r"], el["x"]))))
            else:
                pr += [("resistance", num(el["r"])), ("reactance", num(el["x"]))]
            if el.get("z3"):
                r1, x1, r2, x2 = el["z3"]
                pr += [("impedance1", cx(complex(r1, x1))), ("impedance2", cx(complex(r2, x2)))]
            out.append(Obj("transformer_configuration", cn, pr))
            out.append(Obj("transformer", nm, [("phases", el["ph"] + ("S" if k == "ct" else "N"))] + ends + [("configuration", cn)]))
        elif k == "rg":
            cn = "rc_" + el["to"]
            vn = net.nodes[el["to"]]["vn"]
            out.append(Obj("regulator_configuration", cn, [
                ("connect_type", "1"), ("band_center", num(vn)), ("band_width", num(vn * 0.02)), ("raise_taps", str(el["up"])), ("lower_taps", str(el["down"])),
                ("regulation", num(el["reg"])), ("Control", "MANUAL"), ("Type", el["type"])] + [("tap_pos_" + p, str(t)) for p, t in zip(PH, el["taps"])]))
            out.append(Obj("regulator", nm, [("phases", "ABCN")] + ends + [("configuration", cn)]))
        elif k == "sw":
            pr = [("phases", el["ph"] + "N")] + ends
            if el["style"] == 0:
                pr += [("phase_%s_state" % p, "OPEN" if p in el["open"] else "CLOSED") for p in el["ph"]]
            elif el["style"] == 1:
                pr += [("status", "OPEN" if el["open"] else "CLOSED")]
            out.append(Obj("switch", nm, pr))
        elif k == "fu":
            pr = [("phases", el["ph"] + "N")] + ends + [("current_limit", num(el["limit"]))]
            if el["style"] == 0:
                pr += [("phase_%s_status" % p, "BLOWN" if p in el["open"] else "GOOD") for p in el["ph"]]
            elif el["style"] == 1:
                pr += [("status", "OPEN" if el["open"] else "CLOSED")]
            out.append(Obj("fuse", nm, pr))
    for l in net.loads:
        if l["own"]:
            continue
        u = net.nodes[l["node"]]
        parent = l["node"]
        if l.get("kid"):
            kn = "kid_" + l["name"]
            out.append(Obj("triplex_meter" if u["tri"] else "meter", kn, [("parent", parent), ("phases", (u["tri"] + "S") if u["tri"] else u["ph"] + "N"), ("nominal_voltage", num(u["vn"]))], [parent]))
            parent = kn
        if u["tri"]:
            props = [("parent", parent), ("phases", u["tri"] + "S"), ("nominal_voltage", num(u["vn"]))]
            cls = "triplex_node"
        else:
            props = [("parent", parent), ("phases", u["ph"] + ("D" if l["delta"] else "N")), ("nominal_voltage", num(u["vn"]))]
            cls = "load"
        out.append(Obj(cls, l["name"], props + load_props(l), [parent]))
    for c in net.caps:
        pr = [("parent", c["node"]), ("phases", c["all"] + "N"), ("control", c["mode"]), ("cap_nominal_voltage", num(c["vn"])), ("nominal_voltage", num(net.nodes[c["node"]]["vn"]))]
        if c["ph"] != c["all"]:
            pr.append(("phases_connected", c["ph"] + "N"))
        pr += [("capacitor_" + p, num(v)) for p, v in c["var"].items()]
        if c["mode"] == "MANUAL":
            pr += [("switch" + p, "CLOSED" if p in c["closed"] else "OPEN") for p in c["all"]]
        else:
            pr += [("voltage_set_high", num(c["high"])), ("voltage_set_low", num(c["low"])), ("pt_phase", c["all"])]
        out.append(Obj("capacitor", c["name"], pr, [c["node"]]))
    return out


def fix_pair(k):
    return {"CA": "AC"}.get(k, k)


def load_props(l):
    out = []
    for e in l["e"]:
        c = e["c"]
        if l["tri"]:
            out.append((("power_" if e["t"] == "P" else "impedance_") + c, cx(e["v"])))
        else:
            if l["delta"]:
                c = {"AB": "A", "BC": "B", "CA": "C"}[c]
            out.append(({"P": "constant_power_", "Z": "constant_impedance_", "I": "constant_current_"}[e["t"]] + c, cx(e["v"])))
    return out


def glm_text(objs):
    out = ["clock {", "  timezone PST+8PDT;", "  starttime '2001-01-01 00:00:00';", "}", "module powerflow {", "  solver_method NR;", "}", ""]
    for o in objs:
        out.append("object %s {" % o.cls)
        out.append("  name %s;" % o.name)
        for k, v in o.props:
            out.append("  %s %s;" % (k, v))
        out.append("}")
        out.append("")
    return "\n".join(out)
