"""C11: which networks PowerFlow.execute refuses before solving, against connectivity computed from the file's own objects."""
import math

from hypothesis import strategies as st
from logic.graphanalyzer import GraphAnalyzer
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, txgrid as T
from vf.feeder import PICK, add_load, build_objects, glm_text, resolve, specs  # noqa: F401
from vf.runner import Part, Violation

PROPERTY = "C11"
TITLE = "Disconnected or voltage-inconsistent networks are rejected, and only those"
TECHNIQUE = "generated networks with random device states, parallel elements and nominal voltages (Hypothesis) vs. union-find over the file's objects"
LEVEL_NOTE = "Randomised search over feeders of up to 12 links and transmission cases of up to 9 buses; no absence proof."
RULE = "network with an open or blown device, an out-of-service branch, a parallel element or a shifted nominal voltage"
ASSUMPTIONS = ["a link connects two nodes when at least one of its phases conducts", "voltage regions matter for three-phase networks only: buses of RAW files carry per-unit voltages"]


class Reached(Exception):
    pass


class Sets:
    def __init__(self, items):
        self.p = {x: x for x in items}

    def find(self, a):
        while self.p[a] != a:
            a = self.p[a]
        return a

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)

    def parts(self):
        out = {}
        for x in self.p:
            out.setdefault(self.find(x), set()).add(x)
        return sorted(out.values(), key=sorted)


def shuffle(model, perm):
    for k, name in enumerate(("buses", "lines", "transformers", "slack", "switches", "generators", "loads", "regulators", "fuses", "capacitors", "voltage_sources", "shunts")):
        l = getattr(model, name, None)
        if l:
            p = perm[k % len(perm)]
            if p & 1:
                l.reverse()
            p = (p // 2) % len(l)
            l[:] = l[p:] + l[:p]


def refused(model):
    """the reason for refusing to solve, or None when solving starts"""
    def reached(*a, **k):
        raise Reached()
    model.assign_matrix = reached
    try:
        PowerFlow(model, PowerFlowSettings()).execute()
    except Reached:
        return None
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    raise Violation("power flow finished without numbering the network")


def judge(model, islands, bad, name):
    count = len(islands)
    ga = GraphAnalyzer(model)
    got = ga.get_island_count()
    if got != count:
        raise Violation("%d islands counted, the network has %d: %s" % (got, count, [sorted(x) for x in islands]))
    if name is not None:
        mine = sorted([{name(x) for x in i} for i in islands], key=sorted)
        theirs = sorted([set(i) for i in ga.get_islands()], key=sorted)
        if mine != theirs:
            raise Violation("islands %s, the network has %s" % (theirs, mine))
    why = refused(model)
    if count > 1 and why is None:
        raise Violation("accepted, but it has %d islands: %s" % (count, [sorted(x) for x in islands]))
    if count == 1 and bad and why is None:
        raise Violation("accepted, but nominal voltages differ by more than the margin in %s" % bad)
    if count == 1 and not bad and why is not None:
        raise Violation("refused (%s), but it is connected and its voltage regions are consistent" % why)


# ------------------------------------------------------------------------------------- three-phase

MARGIN = 10


def dx_cases():
    shift = st.sampled_from([0, 0, 0, 0, 3, -6, 9, -9.5, 9.99, 10.01, 10.5, -12, 7, 200])
    extra = st.fixed_dictionaries({"a": PICK, "b": PICK, "k": st.sampled_from(["oh", "sw", "fu", "sp", "par", "parx"]), "open": st.integers(0, 7), "ph": st.integers(0, 7)})
    return st.fixed_dictionaries({"net": specs(max_edges=9, max_loads=2), "states": st.integers(0, 1), "shift": st.lists(shift, min_size=1, max_size=10),
                                  "doshift": st.booleans(), "extra": st.lists(extra, max_size=4), "perm": st.lists(PICK, min_size=5, max_size=5),
                                  "rename": st.text("abcdefgh", min_size=1, max_size=4)})


def conducting(el):
    return any(p not in el.get("open", ()) for p in el["ph"])


def three_phase(case):
    net = resolve(case["net"], states=case["states"] == 0)
    labels = set()
    net.cfgs["ovx"] = dict(case["net"]["ohc"][0], kind="oh", phases="ABC", idx=0, n=False)
    for p in "ABC":
        net.cfgs["ovx" + p] = dict(case["net"]["ohc"][0], kind="oh", phases=p, idx=0, n=False)
    names = [x for x in net.nodes if not net.nodes[x]["tri"]]
    for n, e in enumerate(case["extra"]):
        k = e["k"]
        if k in ("par", "parx"):
            # beside an existing transformer or regulator: a line, or one more transformer
            els = [x for x in net.els if x["k"] in ("yy", "dd", "dy", "sp", "rg") and x["id"] < 100]
            if not els:
                continue
            a, b = els[e["a"] % len(els)]["from"], els[e["a"] % len(els)]["to"]
            if e["b"] & 1:
                a, b = b, a
            k = "oh" if k == "par" else "sp"
            labels.add("parallel")
        else:
            a, b = names[e["a"] % len(names)], names[e["b"] % len(names)]
            if a == b:
                continue
        common = [p for p in "ABC" if p in net.nodes[a]["ph"] and p in net.nodes[b]["ph"]]
        if not common:
            continue
        el = {"from": a, "to": b, "id": 200 + n, "k": k}
        if k == "oh":
            ph = "ABC" if len(common) == 3 and e["ph"] & 1 else common[e["ph"] % len(common)]
            el.update(ph=ph, len=300.0, cfg="ovx" if len(ph) == 3 else "ovx" + ph)
        elif k == "sp":
            el.update(ph=common[e["ph"] % len(common)], vp=net.nodes[a]["vn"], vs=net.nodes[b]["vn"], kva=50.0, r=0.01, x=0.02, style=0)
        else:
            el.update(ph="".join(common), style=0, open=[p for i, p in enumerate("ABC") if (e["open"] >> i) & 1 and p in common], limit=100.0)
        net.els.append(el)
    if case["doshift"]:
        for (x, u), d in zip(net.nodes.items(), case["shift"]):
            if d:
                u["vn"] = u["vn"] + d
                labels.add("shift")
    objs, seen = [], set()
    for o in build_objects(net):
        # several transformers may share one configuration name: keep the first
        if (o.cls, o.name) in seen and o.cls.endswith("configuration"):
            continue
        while (o.cls, o.name) in seen:
            o.name += "x"
        seen.add((o.cls, o.name))
        objs.append(o)
    model = glm.load(glm_text(objs))
    tag = case["rename"]
    for b in model.buses:
        b.NodeName = tag + b.NodeName       # other names, other hash order of sets
    shuffle(model, case["perm"])
    con, reg = Sets(net.nodes), Sets(net.nodes)
    for el in net.els:
        if el["k"] in ("sw", "fu") and not conducting(el):
            labels.add("open")
            continue
        con.join(el["from"], el["to"])
        if el["k"] not in ("yy", "dd", "dy", "sp", "ct", "rg"):
            reg.join(el["from"], el["to"])
    bad = []
    for r in reg.parts():
        v = [net.nodes[x]["vn"] for x in r]
        if max(v) - min(v) > MARGIN:
            bad.append(sorted(r))
    islands = con.parts()
    judge(model, islands, bad, lambda x: tag + x)
    nontrivial = bool(labels)
    labels.add("islands:%d" % min(len(islands), 4) if len(islands) > 1 else "inconsistent" if bad else "accepted")
    return {"nontrivial": nontrivial, "labels": sorted(labels)}


# ------------------------------------------------------------------------------- positive sequence

def tx_cases():
    return st.fixed_dictionaries({"g": T.specs(max_buses=9), "cut": st.lists(PICK, max_size=4), "stat": st.booleans(), "names": st.integers(0, 4), "perm": st.lists(PICK, min_size=5, max_size=5)})


def positive(case):
    g = T.resolve(case["g"])
    labels = set()
    for c in case["cut"]:
        every = g.br + g.xf
        x = every[c % len(every)]
        if case["stat"]:
            x["st"] = 0
        elif len(every) > 1:
            (g.br if any(x is y for y in g.br) else g.xf)[:] = [y for y in (g.br if any(x is y for y in g.br) else g.xf) if y is not x]
        labels.add("cut")
    for k, b in enumerate(g.bus):
        if case["names"] == 1:
            b["name"] = "SAME"
        elif case["names"] == 2:
            b["name"] = "PAIR%d" % (k // 2)
    if case["names"] in (1, 2):
        labels.add("equal-names")
    live = [b["i"] for b in g.bus if b["ide"] != 4]
    con = Sets(live)
    for x in g.br + g.xf:
        if x["st"] == 1 and x["i"] in con.p and x["j"] in con.p:
            con.join(x["i"], x["j"])
        else:
            labels.add("off")
    model = glm.load(T.raw_text(g), ext="RAW")
    shuffle(model, case["perm"])
    islands = con.parts()
    judge(model, islands, [], None)
    nontrivial = bool(labels)
    labels.add("islands:%d" % min(len(islands), 4) if len(islands) > 1 else "accepted")
    return {"nontrivial": nontrivial, "labels": sorted(labels)}


parts = [
    Part("three_phase", dx_cases, three_phase, 1200, 60000),
    Part("positive_sequence", tx_cases, positive, 1200, 60000),
]
