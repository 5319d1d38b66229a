"""C18: load scaling, on the model, against a rescaled file and through the command line."""
import numbers
import os
import sys

import numpy as np
from hypothesis import strategies as st
from logic.network.loadfactor import modify_load_factor
from logic.powerflowsettings import PowerFlowSettings
from models.components.bus import Bus

from vf import boot, digest, glm, txgrid as T
from vf.feeder import PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C18"
TITLE = "Load scaling multiplies every load's power and nothing else"
TECHNIQUE = "generated networks and factor sequences (Hypothesis): full before/after comparison of the model, comparison with a rescaled file, and the program without --load_factor vs. the library"
LEVEL_NOTE = "Randomised search over feeders of up to 7 links and transmission cases of up to 7 buses; no absence proof."
RULE = "network with a constant-power load and a factor other than one"

LISTS = ("buses", "lines", "transformers", "slack", "switches", "generators", "loads", "regulators", "fuses", "capacitors", "voltage_sources", "shunts")


def numbers_of(o, seen, depth=0):
    """every number reachable from an element (not through buses or the network)"""
    out = []
    if depth > 4 or id(o) in seen:
        return out
    seen.add(id(o))
    for k, v in sorted(vars(o).items()):
        if isinstance(v, Bus):
            out.append((k, v.Bus))
        elif isinstance(v, (numbers.Number, str, type(None))):
            out.append((k, v))
        elif isinstance(v, np.ndarray):
            out.append((k, v.tolist()))
        elif isinstance(v, (list, tuple)):
            out.append((k, [numbers_of(x, seen, depth + 1) if hasattr(x, "__dict__") and not isinstance(x, Bus) else repr(getattr(x, "Bus", x)) for x in v]))
        elif hasattr(v, "name") and hasattr(v, "value"):
            out.append((k, v.name))
        elif type(v).__module__.startswith("models.components"):
            out.append((k, numbers_of(v, seen, depth + 1)))
    return out


def snapshot(m, skip_power):
    out = {}
    for name in LISTS:
        rows = []
        for e in getattr(m, name, []):
            r = numbers_of(e, set())
            if name == "loads" and skip_power:
                r = [x for x in r if x[0] not in ("P", "Q")]
            rows.append((id(e), type(e).__name__, r))
        out[name] = rows
    return out


def network(case):
    if "net" in case:
        net = resolve(case["net"])
        return glm.load(glm_text(build_objects(net)), PowerFlowSettings(enable_line_capacitance=net.cap_on))
    return glm.load(T.raw_text(T.resolve(case["g"])), ext="RAW")


def near(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def scaling(case):
    m = network(case)
    before = snapshot(m, True)
    power = [(l.P, l.Q) for l in m.loads]
    want = [list(x) for x in power]
    for fp, fq in case["factors"]:
        modify_load_factor(m, fp, fq)
        for w in want:
            w[0] *= fp
            w[1] *= fq
        for l, w in zip(m.loads, want):
            if not (near(l.P, w[0]) and near(l.Q, w[1])):
                raise Violation("load at %s: power %s after factors %s, expected %s" % (l.from_bus.NodeName, (l.P, l.Q), (fp, fq), w))
    after = snapshot(m, True)
    for k in before:
        if before[k] != after[k]:
            x = [(a, b) for a, b in zip(before[k], after[k]) if a != b][:1] or (len(before[k]), len(after[k]))
            raise Violation("%s changed: %s" % (k, str(x)[:600]))
    labels = []
    if any(f == 0 for p in case["factors"] for f in p):
        labels.append("zero")
    if any(f < 0 for p in case["factors"] for f in p):
        labels.append("negative")
    if any(p[0] != p[1] for p in case["factors"]):
        labels.append("unequal")
    return {"nontrivial": any(x != (0, 0) for x in power) and any(p != [1, 1] for p in case["factors"]), "labels": labels}


def rescaled(case):
    """scaling the model gives the model of a file with scaled constant-power entries"""
    fp, fq = case["f"]
    net = resolve(case["net"])
    a = glm.load(glm_text(build_objects(net)))
    modify_load_factor(a, fp, fq)
    n = 0
    for l in net.loads:
        for e in l["e"]:
            if e["t"] == "P":
                e["v"] = complex(e["v"].real * fp, e["v"].imag * fq)
                n += 1
    b = glm.load(glm_text(build_objects(net)))
    la, lb = digest.lists(a), digest.lists(b)
    la.pop("loads"), lb.pop("loads")
    digest.compare_lists(la, lb, "scaled model against scaled file")
    ca, cb = ([(digest.end(l.from_bus), digest.end(l.to_bus), complex(l.P, l.Q), complex(l.IP, l.IQ), complex(l.Z)) for l in m.loads if (l.P, l.Q, l.IP, l.IQ, l.Z) != (0, 0, 0, 0, 0)] for m in (a, b))
    if len(ca) != len(cb):
        raise Violation("%d loads, the scaled file has %d" % (len(ca), len(cb)))
    for x, y in zip(ca, cb):
        if x[:2] != y[:2] or any(abs(u - w) > 1e-10 * abs(w) for u, w in zip(x[2:], y[2:])):
            raise Violation("load %s, in the scaled file %s" % (x, y))
    digest.compare_admittance(digest.admittance(a), digest.admittance(b), "scaled model against scaled file")
    return {"nontrivial": n > 0 and [fp, fq] != [1, 1], "labels": ["file"]}


def run_main(argv):
    """the program's own entry point; returns an exception or None"""
    import run_solver
    old = sys.argv
    sys.argv = ["run_solver.py"] + argv
    try:
        run_solver.main()
    except Exception as e:      # noqa: BLE001
        return e
    finally:
        sys.argv = old
    return None


def program(case):
    from logic.network.networkloader import NetworkLoader
    from logic.powerflow import PowerFlow
    if "net" in case:
        text, ext = glm_text(build_objects(resolve(case["net"]))), "glm"
    else:
        text, ext = T.raw_text(T.resolve(case["g"])), "RAW"
    f = glm.scratch_file(text, ext)
    out = f + "_out"
    files = [out + "_voltage.csv", out + "_power.csv"]
    for p in files:
        if os.path.exists(p):
            os.unlink(p)
    k = case["factor"]
    err = run_main([f, "--outputfile", out] + ([] if k is None else ["--load_factor=%r" % k]))
    got = [open(p).read() if os.path.exists(p) else None for p in files]
    s = PowerFlowSettings()
    m = NetworkLoader(s).from_file(f)
    if k is not None:
        for l in m.loads:
            l.P, l.Q = l.P * k, l.Q * k
    try:
        res = PowerFlow(m, s).execute()
    except Exception as e:
        if err is None:
            raise Violation("the program finished, the library raises %s" % e)
        return {"nontrivial": False, "labels": ["exception"]}
    if err is not None:
        raise Violation("the program raises %s, the library solves the case" % err)
    if not res.is_success or res.iterations > 15:
        return {"nontrivial": False, "labels": ["unsolved"]}
    for p in files:
        os.unlink(p)
    res.output(out)
    want = [open(p).read() for p in files]
    for a, b, p in zip(got, want, ("voltages", "powers")):
        if not same_csv(a, b):
            raise Violation("the program with load factor %s reports other %s than solving the file's loads%s:\n%s\nagainst\n%s" % (
                k, p, "" if k is None else " times the factor", a, b))
    return {"nontrivial": any((l.P, l.Q) != (0, 0) for l in m.loads), "labels": ["factor" if k is not None else "no-factor"]}


def same_csv(a, b):
    """same rows; numbers equal up to one unit of the last printed digit"""
    if a is None:
        return False
    x, y = a.splitlines(), b.splitlines()
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        f, g = p.split(","), q.split(",")
        if len(f) != len(g):
            return False
        for u, w in zip(f, g):
            if u == w:
                continue
            try:
                if u.split(".")[1:] and len(u.split(".")[1]) == len(w.split(".")[1]) and abs(float(u) - float(w)) <= 1.01 * 10 ** -len(u.split(".")[1]):
                    continue
            except (ValueError, IndexError):
                pass
            return False
    return True


FACTOR = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 1e-6, 1e6]), st.floats(-50, 50, allow_nan=False))


def either(**kw):
    nets = [st.fixed_dictionaries(dict(kw, net=specs())), st.fixed_dictionaries(dict(kw, g=T.specs()))]
    return st.one_of(nets)


parts = [
    Part("scaling", lambda: either(factors=st.lists(st.one_of(st.tuples(FACTOR, FACTOR), FACTOR.map(lambda f: (f, f))).map(list), min_size=1, max_size=4)), scaling, 400, 20000),
    Part("file", lambda: st.fixed_dictionaries({"net": specs(), "f": st.tuples(fl(-3, 3), fl(-3, 3)).map(list)}), rescaled, 300, 15000),
    Part("program", lambda: st.one_of(
        st.fixed_dictionaries({"net": specs(max_edges=4, cap_on=True), "factor": st.one_of(st.none(), fl(0.2, 1.3))}),
        st.fixed_dictionaries({"g": T.specs(max_buses=4), "factor": st.one_of(st.none(), fl(0.2, 1.3))})), program, 220, 12000),
]
