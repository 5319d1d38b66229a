"""C06: two renderings of one GLM file must mean the same."""
import random

import numpy as np
from hypothesis import strategies as st
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from checks import c01, c04, c24
from vf import digest, glm, reference as R
from vf.feeder import PICK, build_objects, resolve, specs
from vf.runner import WARM_DX, Part, Violation

WARM = WARM_DX
PROPERTY = "C06"
TITLE = "Meaning of a GLM file does not depend on its layout"
TECHNIQUE = "metamorphic: generated feeders (Hypothesis) written plainly and in a random meaning-preserving layout; models and solutions compared"
LEVEL_NOTE = "Randomised search over rewrites; no absence proof."
RULE = "pair of files that differ in at least two kinds of rewrite and contain at least three objects that refer to others"
ASSUMPTIONS = ["one statement per line, as the reader requires"]

FILLER = ["object recorder {\n  name rec%d;\n  property voltage_A;\n  interval 60;\n  file out.csv;\n}", "// a comment; with { braces }", "", "   ", "\t", "//", "module tape;", "#set iteration_limit=100;",
          "object voltdump {\n  filename dump%d.csv;\n}"]
REFS = ("parent", "from", "to", "configuration", "spacing")


def rename(objs, rnd, opts):
    """numbered instead of named objects, unnamed links"""
    new = {}
    if opts["number"]:
        count = 0
        for o in objs:
            if rnd.random() < 0.5 and o.cls != "load":
                count += 1
                new[o.name] = "%s:%d" % (o.cls, 1000 + count)
    pairs = {}
    for o in objs:
        d = dict(o.props)
        if "from" in d:
            pairs[(d["from"], d["to"])] = pairs.get((d["from"], d["to"]), 0) + 1
    for o in objs:
        d = dict(o.props)
        if opts["unnamed"] and "from" in d and pairs[(d["from"], d["to"])] == 1 and rnd.random() < 0.5:
            o.style = "unnamed"
        elif o.name in new:
            o.style = "numbered"
        else:
            o.style = "named"
        o.props = [(k, new.get(v, v) if k in REFS or k.startswith("conductor_") else v) for k, v in o.props]
        o.out = new.get(o.name, o.name)
    return new


def reorder(objs, rnd):
    """any order in which parents and configurations... only parents must come first"""
    left, out, done = list(objs), [], set()
    names = {o.out for o in objs}
    while left:
        ready = [o for o in left if all(v in done or v not in names for k, v in o.props if k == "parent")]
        o = rnd.choice(ready)
        left.remove(o)
        out.append(o)
        done.add(o.out)
    return out


def render(objs, rnd, opts, include):
    out = []
    n = 0

    def filler():
        nonlocal n
        if opts["filler"]:
            while rnd.random() < 0.3:
                n += 1
                f = rnd.choice(FILLER)
                out.append(f % n if "%d" in f else f)
    if opts["filler"]:
        out.append("// header comment")
    out += ["clock {", "  timezone PST+8PDT;", "}", "module powerflow {", "  solver_method NR;", "}"]
    if include:
        out.append('#include "%s";' % include)
    for o in objs:
        filler()
        head = "object %s" % o.cls if o.style != "numbered" else "object %s" % o.out
        if opts["brace"] and rnd.random() < 0.3:
            out += [head, "{"]
        else:
            out.append(head + " {")
        if opts["comment"] and rnd.random() < 0.3:
            out[-1] += " // starts here"
        props = list(o.props)
        if o.style == "named":
            props.insert(0, ("name", o.out))
        if opts["props"]:
            rnd.shuffle(props)
        for k, v in props:
            ind = rnd.choice(["", "  ", "\t", "      "]) if opts["space"] else "  "
            gap = rnd.choice([" ", "   ", "\t"]) if opts["space"] else " "
            if opts["quote"] and " " not in v and rnd.random() < 0.3:
                v = '"%s"' % v
            line = ind + k + gap + v + (rnd.choice([";", " ;", ";  "]) if opts["space"] else ";")
            if opts["comment"] and rnd.random() < 0.2:
                line += rnd.choice(["// note", " // was 3;", "  //"])
            out.append(line)
            if opts["filler"] and rnd.random() < 0.1:
                out.append(rnd.choice(["", "  // inner comment", "//x y;"]))
        tail = "}"
        if opts["semi"] and rnd.random() < 0.4:
            tail = "};"
        if opts["space"] and rnd.random() < 0.3:
            tail = "  " + tail + "  "
        if opts["comment"] and rnd.random() < 0.3:
            tail += " // end of " + o.cls
        out.append(tail)
    filler()
    return "\n".join(out) + ("\n" if rnd.random() < 0.7 else "")


OPTS = ("filler", "comment", "brace", "props", "space", "quote", "semi", "number", "unnamed", "order", "units", "include")


def variant(net, case):
    rnd = random.Random(case["seed"])
    opts = {k: bool(case["opts"] >> i & 1) for i, k in enumerate(OPTS)}
    objs = build_objects(net)
    new = rename(objs, rnd, opts)
    if opts["units"]:
        c04.units(objs, case["u"])
        c24.units(objs, case["u"][::-1])
    if opts["order"]:
        objs = reorder(objs, rnd)
    inc = None
    if opts["include"]:
        conf = [o for o in objs if o.cls in c04.CONF or o.cls.endswith("_configuration")]
        if conf:
            objs = [o for o in objs if o not in conf]
            inc = glm.scratch_file("\n".join(render(conf, rnd, dict(opts, filler=False), None).split("\n")[6:]), name="inc.glm")
    return render(objs, rnd, opts, inc), new, [k for k in OPTS if opts[k]]


def check(case):
    net = resolve(case["spec"])
    for cp, v in zip(net.caps, case["volt"]):
        if v:
            vn = net.nodes[cp["node"]]["vn"]
            cp["mode"] = "VOLT"
            cp["high"], cp["low"] = float("%.6g" % (vn * 1.05)), float("%.6g" % (vn * 0.95))
    settings = PowerFlowSettings(device_control=False, enable_line_capacitance=net.cap_on)
    plain = build_objects(net)
    for o in plain:
        o.style, o.out = "named", o.name
    base = glm.load(render(plain, random.Random(0), dict.fromkeys(OPTS, False), None), settings)
    text, new, used = variant(net, case)
    other = glm.load(text, settings)
    back = {v: k for k, v in new.items()}
    name = lambda x: back.get(x, x)
    digest.compare_lists(digest.lists(base), digest.lists(other, name), "plain file against rewritten file (%s)" % " ".join(used))
    try:
        a, b = digest.admittance(base), digest.admittance(other, name)
    except np.linalg.LinAlgError:
        a = b = None
    if a:
        digest.compare_admittance(a, b, "plain file against rewritten file (%s)" % " ".join(used))
    if case["solve"]:
        r1 = PowerFlow(base, settings).execute()
        r2 = PowerFlow(other, settings).execute()
        if r1.is_success and r2.is_success:
            c = R.reference(net, cap_closed={cp["name"]: cp["closed"] if cp["mode"] == "MANUAL" else "" for cp in net.caps})
            v1 = glm.voltages(r1)
            v2 = {(name(x), p): v for (x, p), v in glm.voltages(r2).items()}
            if set(v1) != set(v2):
                raise Violation("solved node phases differ: %s" % sorted(set(v1) ^ set(v2))[:4])
            v = np.ones(c.n, complex)
            for k in c.keys:
                v[c.index[k]] = v1[k]
            slack = c01.tolerances(c, c.matrix(), v, 1e-5)
            for k in v1:
                if abs(v1[k] - v2[k]) > 1e-6 * net.nodes[k[0]]["vn"] + 2 * slack[c.index[k]]:
                    raise Violation("node %s phase %s: %s V from the plain file, %s V from the rewritten one (%s)" % (k + (v1[k], v2[k], " ".join(used))))
    nref = sum(any(k in REFS for k, _ in o.props) for o in build_objects(net))
    return {"nontrivial": len(used) >= 2 and nref >= 3, "labels": used + (["solved"] if case["solve"] else [])}


@st.composite
def cases(draw):
    return {"spec": draw(specs(max_edges=6, max_loads=4)), "volt": draw(st.lists(st.integers(0, 1), min_size=2, max_size=2)), "u": draw(st.lists(PICK, min_size=3, max_size=9)),
            "seed": draw(st.integers(0, 9999)), "opts": draw(st.integers(0, 2 ** len(OPTS) - 1)), "solve": draw(st.integers(0, 3)) == 0}


parts = [Part("rewrite", cases, check, 900, 60000)]
