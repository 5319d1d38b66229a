"""C04: series impedances of every line of generated files against modified Carson + Kron."""
import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from vf import glm, probe, reference as R
from vf.feeder import PICK, build_objects, glm_text, num, resolve, specs
from vf.runner import Part, Violation

PROPERTY = "C04"
TITLE = "Line series impedances equal Carson's equations with Kron reduction"
TECHNIQUE = "generated line data and geometry (Hypothesis) vs. an independent Carson/Kron computation, compared through the line's stamped equations"
LEVEL_NOTE = "Randomised search; the line's behaviour is probed through its stamped equations and compared with an independent matrix computation."
RULE = "file with at least two lines, one of them with two or more phases"
ASSUMPTIONS = [
    "60 Hz, 100 ohm-m; earth-return constants 0.0953/7.93402 (overhead, triplex) and 0.09327/7.95153 (cables) as in the code",
    "line phases equal the configuration's conductors; lists of direct matrices z11.. are not covered (the reader refuses them)",
]


def units(objs, u):
    """rewrite some values with the units the reader supports"""
    n = 0
    for o in objs:
        out = []
        for k, v in o.props:
            pick = u[n % len(u)]
            n += 1
            if pick & 1:
                if (o.cls == "overhead_line_conductor" and k == "resistance") or (o.cls == "underground_line_conductor" and k == "conductor_resistance"):
                    v = num(float(v) / 1.609344) + "Ohm/km"
                elif o.cls == "overhead_line_conductor" and k == "geometric_mean_radius":
                    v = num(float(v) * 30.48) + "cm"
                elif k == "length" and o.cls.endswith("_line"):
                    v = "%.14g" % (float(v) * 0.3048 / 1000) + "km"
                elif o.cls == "line_spacing" and k.startswith("distance"):
                    v = "%.14g in" % (float(v) * 12)
            out.append((k, v))
        o.props = out


@st.composite
def cases(draw, kinds):
    return {"spec": draw(specs(max_edges=7, max_loads=1, kinds=kinds, caps=False, cap_on=False)), "u": draw(st.lists(PICK, min_size=3, max_size=11)), "shuffle": draw(st.integers(0, 5))}


CONF = ("overhead_line_conductor", "underground_line_conductor", "triplex_line_conductor", "line_spacing", "line_configuration", "triplex_line_configuration")
LINES = ("overhead_line", "underground_line", "triplex_line")


def arrange(objs, k):
    """independent objects may come in any order"""
    if k == 0:
        return objs
    conf = [o for o in objs if o.cls in CONF]
    lines = [o for o in objs if o.cls in LINES]
    rest = [o for o in objs if o.cls not in CONF + LINES]
    if k & 1:
        conf.reverse()
    if k & 2:
        lines.reverse()
    nodes = [o for o in rest if "parent" not in dict(o.props)]
    kids = [o for o in rest if "parent" in dict(o.props)]
    return nodes + kids + lines + conf if k & 4 else conf + nodes + lines + kids


def line_models(model):
    out = []
    for l in model.lines:
        con = [(a, b) for a, b in l.get_connections()]
        out.append((l, con))
    return out


def find_line(models, used, el):
    want = sorted((el["from"], el["to"], p) for p in el["ph"])
    return [i for i, (l, con) in enumerate(models) if i not in used and sorted((a.NodeName, b.NodeName, a.NodePhase) for a, b in con) == want
            and all(a.NodePhase == b.NodePhase for a, b in con)]


def line_blocks(model, l, con, ph):
    by = {a.NodePhase: (a, b) for a, b in con}
    buses = [by[p][0] for p in ph] + [by[p][1] for p in ph]
    Y, r0, p = probe.yprim(model, buses, lines=[l])
    if Y is None:
        raise Violation("line %s: equations are not those of a linear admittance" % l.from_element)
    if np.max(np.abs(r0)) > 0:
        raise Violation("line draws current at zero voltage")
    # nothing outside its own terminals
    m = len(ph)
    rows = {b.node_Vr for b in buses} | {b.node_Vi for b in buses}
    r = p.residual(p.at({b: complex(1 + 0.3 * k, 0.7 - k) for k, b in enumerate(buses)}))
    if any(abs(x) > 0 for i, x in enumerate(r) if i not in rows):
        raise Violation("line contributes to equations of foreign nodes")
    return Y, m


def check(case):
    net = resolve(case["spec"])
    objs = build_objects(net)
    units(objs, case["u"])
    objs = arrange(objs, case["shuffle"])
    model = glm.load(glm_text(objs), PowerFlowSettings(enable_line_capacitance=False))
    lines = [e for e in net.els if e["k"] in ("oh", "ug", "tl")]
    if not lines:
        return {"nontrivial": False, "labels": ["no-lines"]}
    models = line_models(model)
    if len(models) != len(lines):
        raise Violation("%d line models for %d lines of the file" % (len(models), len(lines)))
    used, labels = set(), set()
    for el in lines:
        cand = find_line(models, used, el)
        if not cand:
            raise Violation("no line model for %s %s->%s phases %s" % (el["k"], el["from"], el["to"], el["ph"]))
        zref = R.z_cfg(net.cfgs[el["cfg"]]) * el["len"] / R.FT_PER_MILE
        best = None
        for i in cand:
            Y, m = line_blocks(model, *models[i], el["ph"])
            zs = [np.linalg.inv(-Y[:m, m:]), np.linalg.inv(-Y[m:, :m]), np.linalg.inv(Y[:m, :m]), np.linalg.inv(Y[m:, m:])]
            err = max(np.max(np.abs(z - zref)) / np.max(np.abs(zref)) for z in zs)
            if best is None or err < best[0]:
                best = (err, i, zs[0])
        if not best[0] < 2e-6:
            raise Violation("%s %s->%s phases %s: impedance matrix\n%s ohm, Carson/Kron gives\n%s ohm" % (el["k"], el["from"], el["to"], el["ph"], np.round(best[2], 8), np.round(zref, 8)))
        used.add(best[1])
        c = net.cfgs[el["cfg"]]
        labels.add("%s%d%s" % (el["k"], len(el["ph"]), "N" if c.get("n") else ""))
        if c.get("super"):
            labels.add("shared-spacing")
    if case["shuffle"]:
        labels.add("reordered")
    return {"nontrivial": len(lines) > 1 and any(len(e["ph"]) > 1 for e in lines), "labels": sorted(labels)}


parts = [
    Part("overhead", lambda: cases(["oh"]), check, 250, 20000),
    Part("underground", lambda: cases(["ug"]), check, 250, 20000),
    Part("mixed", lambda: cases(["oh", "ug", "ct", "tl", "tl"]), check, 350, 30000),
]
