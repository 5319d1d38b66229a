"""C05: overhead line shunt admittance against the method of images."""
import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings

from checks import c04
from vf import glm, reference as R
from vf.feeder import PICK, build_objects, glm_text, resolve, specs
from vf.runner import Part, Violation

PROPERTY = "C05"
TITLE = "Overhead line shunt capacitance equals the method-of-images value"
TECHNIQUE = "generated line geometry (Hypothesis) vs. an independent potential-coefficient computation, compared through the line's stamped equations"
LEVEL_NOTE = "Randomised search; the shunt part of each line's stamped admittance is compared with an independent computation."
RULE = "file with an overhead line of two or more phases that has height data, capacitance enabled"
ASSUMPTIONS = ["60 Hz; 11.17689 mile/microfarad potential-coefficient constant (air)", "value claimed for overhead lines only; for cables only: none when disabled"]


@st.composite
def cases(draw):
    spec = draw(specs(max_edges=6, max_loads=1, kinds=["oh", "oh", "oh", "ug", "tl"], caps=False))
    spec["cap"] = draw(st.integers(0, 4)) < 4
    for c in spec["ohc"]:
        c["earth"] = draw(st.integers(0, 3)) < 3
    return {"spec": spec, "u": draw(st.lists(PICK, min_size=3, max_size=7)), "shuffle": draw(st.integers(0, 5))}


def check(case):
    net = resolve(case["spec"])
    objs = build_objects(net)
    c04.units(objs, case["u"])
    objs = c04.arrange(objs, case["shuffle"])
    model = glm.load(glm_text(objs), PowerFlowSettings(enable_line_capacitance=net.cap_on))
    lines = [e for e in net.els if e["k"] in ("oh", "ug", "tl")]
    models = c04.line_models(model)
    if len(models) != len(lines):
        raise Violation("%d line models for %d lines of the file" % (len(models), len(lines)))
    used, labels, nt = set(), set(), False
    for el in lines:
        cfg = net.cfgs[el["cfg"]]
        m = len(el["ph"])
        want = np.zeros((m, m), complex)
        if net.cap_on and el["k"] == "oh":
            y = R.y_oh(cfg)
            if y is not None:
                want = y * el["len"] / R.FT_PER_MILE / 2
                labels.add("capacitance-%d%s" % (m, "N" if cfg.get("n") else ""))
                nt = nt or m > 1
            else:
                labels.add("no-heights")
        elif not net.cap_on:
            labels.add("disabled")
        ser = np.linalg.inv(R.z_cfg(cfg) * el["len"] / R.FT_PER_MILE)
        best = None
        for i in c04.find_line(models, used, el):
            Y, _ = c04.line_blocks(model, *models[i], el["ph"])
            a, b = Y[:m, :m] + Y[:m, m:], Y[m:, m:] + Y[m:, :m]
            lim = 1e-7 * np.max(np.abs(want)) + 1e-12 * np.max(np.abs(Y))
            if el["k"] == "ug" and net.cap_on:
                # value not claimed; it must be a plain shunt susceptance, alike at both ends
                d = max(np.max(np.abs(a - b)), np.max(np.abs(a.real)))
            else:
                d = max(np.max(np.abs(a - want)), np.max(np.abs(b - want)))
            far = np.max(np.abs(-Y[:m, m:] - ser)) / np.max(np.abs(ser))
            if best is None or far < best[0]:
                best = (far, i, d, lim, a, b)
        if best is None:
            raise Violation("no line model for %s->%s phases %s" % (el["from"], el["to"], el["ph"]))
        used.add(best[1])
        _, _, d, lim, a, b = best
        if not d <= lim:
            raise Violation("%s %s->%s phases %s, capacitance %s: shunt admittance at the ends\n%s\n%s S, method of images gives at each end\n%s S" % (
                el["k"], el["from"], el["to"], el["ph"], "on" if net.cap_on else "off", a, b, want))
    return {"nontrivial": nt, "labels": sorted(labels)}


parts = [Part("lines", cases, check, 800, 50000)]
