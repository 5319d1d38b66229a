"""C20: island selection against a file that only contains the island."""
import cmath
import math

from hypothesis import strategies as st
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from vf import digest, glm
from vf.feeder import ANG, EDGE_KINDS, PICK, Net, build_objects, cx, glm_text, resolve, specs
from vf.runner import WARM_DX, Part, Violation

WARM = WARM_DX
PROPERTY = "C20"
TITLE = "Selecting an island keeps exactly that island, intact"
TECHNIQUE = "generated feeders split by open switches and blown fuses (Hypothesis); the selected island vs. a file holding only its objects (differential, model and solution)"
LEVEL_NOTE = "Randomised search over feeders of up to 10 links and all islands of each; no absence proof."
RULE = "feeder with at least two islands, the selected one having a link, a load or a capacitor"
ASSUMPTIONS = ["open switches outside the island or leading out of it conduct nothing and may stay or go"]


def cases():
    kinds = EDGE_KINDS + ["sw", "sw", "fu", "sw"]
    return st.fixed_dictionaries({"net": specs(max_edges=10, max_loads=6, kinds=kinds, cap_on=True), "pick": PICK, "node": PICK, "partly": st.integers(0, 4).map(lambda k: k == 0), "more": st.lists(PICK, max_size=3)})


def islands(net):
    p = {x: x for x in net.nodes}

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for el in net.els:
        if el["k"] in ("sw", "fu") and all(q in el["open"] for q in el["ph"]):
            continue
        p[find(el["from"])] = find(el["to"])
    out = {}
    for x in net.nodes:
        out.setdefault(find(x), []).append(x)
    return list(out.values())


def restrict(net, keep):
    r = Net()
    r.spec, r.cap_on, r.cfgs, r.source = net.spec, net.cap_on, net.cfgs, net.source
    r.nodes = {x: u for x, u in net.nodes.items() if x in keep}
    r.els = [e for e in net.els if e["from"] in keep and e["to"] in keep]
    r.loads = [l for l in net.loads if l["node"] in keep]
    r.caps = [c for c in net.caps if c["node"] in keep]
    return r


def energized(net, sub, swing):
    """every phase of every node is fed (no floating phases, no delta winding fed backwards): the circuit is well posed"""
    src = {"src"} & set(sub.nodes) or swing
    if not src or ("src" not in src and any(e["k"] in ("dd", "dy") for e in sub.els)):
        return False
    p = {(x, q): (x, q) for x, u in sub.nodes.items() for q in u["ph"]}

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for e in sub.els:
        for q in e["ph"]:
            if q in e.get("open", ()):
                continue
            if e["k"] in ("yy", "dd", "dy"):
                ends = [(e["from"], r) for r in "ABC"] + [(e["to"], r) for r in "ABC"]
            elif e["k"] == "ct":
                ends = [(e["from"], q), (e["to"], "1"), (e["to"], "2")]
            else:
                ends = [(e["from"], q), (e["to"], q)]
            for x in ends[1:]:
                p[find(x)] = find(ends[0])
    fed = {find((x, q)) for x in src for q in sub.nodes[x]["ph"]}
    return all(find(k) in fed for k in p)


def text(net, swing):
    objs = build_objects(net)
    for o in objs:
        if o.name in swing and ("bustype", "SWING") not in o.props:
            u = net.nodes[o.name]
            o.props.append(("bustype", "SWING"))
            o.props += [("voltage_" + p, cx(cmath.rect(u["vn"], math.radians(ANG[p])))) for p in u["ph"]]
    return glm_text(objs)


def check(case):
    net = resolve(case["net"], states=True)
    # more breaks: all phases of a few switches and fuses
    devs = [e for e in net.els if e["k"] in ("sw", "fu")]
    for m in case["more"]:
        if devs:
            e = devs[m % len(devs)]
            e["open"] = list(e["ph"])
            e["style"] = 0
    # a fuse that blew on some phases only would stop the solver, a switch that opened some may leave others
    # without a source: mostly all phases or none
    for e in devs:
        if e["open"] and (e["k"] == "fu" or not case["partly"]):
            e["open"] = list(e["ph"])
    isl = islands(net)
    mine = isl[case["pick"] % len(isl)]
    # every other island, and the selected one, have a swing node where a plain node allows it
    swing = set()
    for i in isl:
        for x in i:
            if net.nodes[x]["cls"] in ("node", "meter") and not net.nodes[x]["tri"] and x != "src" and "src" not in i:
                swing.add(x)
                break
    model = glm.load(text(net, swing))
    node = mine[case["node"] % len(mine)]
    settings = PowerFlowSettings(device_control=False)
    pf = PowerFlow(model, settings)
    TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=node, select_island=True), pf)
    keep = set(mine)
    model.switches = [s for s in model.switches if s.status.name != "OPEN" or (s.from_node.NodeName in keep and s.to_node.NodeName in keep)]
    sub = restrict(net, keep)
    alone = glm.load(text(sub, swing & keep))
    what = "island of %s out of %d" % (node, len(isl))
    a, b = digest.lists(model), digest.lists(alone)
    digest.compare_lists(a, b, what)
    for k in ("lines", "transformers", "regulators", "fuses", "capacitors", "loads", "generators", "slack"):
        x, y = len(getattr(model, k)), len(getattr(alone, k))
        if x != y:
            raise Violation("%s: %d %s, a file with the island alone has %d" % (what, x, k, y))
    if len(model.buses) != len(alone.buses):
        raise Violation("%s: %d buses with the internal ones, a file with the island alone has %d" % (what, len(model.buses), len(alone.buses)))
    digest.compare_admittance(digest.admittance(model), digest.admittance(alone), what)
    labels = {"islands:%d" % min(len(isl), 4)}
    if any(f.status.name == "BLOWN" for f in model.fuses):
        labels.add("blown-inside")
    elif not energized(net, sub, swing & keep):
        labels.add("not-energized")
    else:
        res2 = PowerFlow(alone, settings).execute()
        res = pf.execute()
        if bool(res.is_success) != bool(res2.is_success):
            raise Violation("%s: solved %s, a file with the island alone %s" % (what, bool(res.is_success), bool(res2.is_success)))
        if res.is_success:
            labels.add("solved")
            v, w = glm.voltages(res), glm.voltages(res2)
            if set(v) != set(w):
                raise Violation("%s: results for %s" % (what, sorted(set(v) ^ set(w))))
            for k in w:
                if not abs(v[k] - w[k]) <= 1e-4 * net.nodes[k[0]]["vn"]:
                    raise Violation("%s: voltage at %s is %s, alone %s" % (what, k, v[k], w[k]))
    return {"nontrivial": len(isl) > 1 and bool(sub.els or sub.loads or sub.caps), "labels": sorted(labels)}


parts = [Part("select", cases, check, 700, 40000)]
