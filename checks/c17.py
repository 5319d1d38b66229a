"""C17: time-series runs against fresh single runs of a file with that hour's loads."""
import cmath
import glob
import os

from hypothesis import strategies as st
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from vf import glm
from vf.feeder import EDGE_KINDS, PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, Part, Violation

WARM = WARM_DX
PROPERTY = "C17"
TITLE = "Time-series runs equal independent runs with each hour's loads"
TECHNIQUE = "generated feeders, load tables and hour ranges (Hypothesis): each hour of the series vs. a fresh run of a file rewritten with that hour's loads (differential), and the set of results and files"
LEVEL_NOTE = "Randomised search over feeders of up to 6 links, tables of up to 6 hours and ranges inside the table; no absence proof."
RULE = "at least two hours, the first or a later one after a different hour, with a column that names a load"
ASSUMPTIONS = ["hours inside the table; automatically switched capacitors and limiting fuses, whose state legitimately depends on earlier hours, are not part of the feeders"]


def columns(net):
    """column name -> (load, entry) for constant-power entries with a name of their own"""
    out = {}
    for l in net.loads:
        host = l["node"] if l["own"] else l["name"]
        for e in l["e"]:
            if e["t"] != "P":
                continue
            num = host.split("_")[-1]
            col = "rl_%s_%s" % (num, e["c"][0]) if l["tri"] else "cl_%s%s" % (num, e["c"])
            out.setdefault(col, []).append(e)
    # another load object of the same number
    return {k: v[0] for k, v in out.items() if len(v) == 1}


def series(case):
    net = resolve(case["net"])
    for l in net.loads:
        # names with several parts: the number is the last one
        if not l["own"] and case["long"]:
            l["name"] = "feeder_1_" + l["name"]
    text = glm_text(build_objects(net))
    own = columns(net)
    names = sorted(own)
    table, rows = {}, case["rows"]
    for k, c in enumerate(names):
        if case["use"][k % len(case["use"])] and c in own:
            s = abs(own[c]["v"])
            table[c] = [float("%.8g" % (s * case["m"][(h * 5 + k * 3 + h // 2) % len(case["m"])])) for h in range(rows)]
    cols = sorted(table)
    if case["rev"]:
        cols.reverse()
    lines = [",".join(["hour"] + cols + ["cl_nosuch9A", "rl_77_1"])]
    for h in range(rows):
        lines.append(",".join([str(h)] + ["%.8g" % table[c][h] for c in cols] + ["12", "13"]))
    f = glm.scratch_file("\n".join(lines) + "\n", "csv")
    start = case["start"] % rows
    end = start + (0 if case["n"] == 11 else 1 + case["n"] % (rows - start))
    out = f + "_ts"
    for p in glob.glob(out + "*"):
        os.unlink(p)
    settings = PowerFlowSettings(enable_line_capacitance=net.cap_on)
    m = glm.load(text, settings)
    ts = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=f, loadfile_start=str(start), loadfile_end=str(end), outputfile=out if case["out"] else None), PowerFlow(m, settings))
    got = {}
    keep = {}
    err = None
    try:
        for k in range(case["again"] + 1):
            res = ts.execute()
            got = dict(res.powerflow_snapshot_results)
            if case["again"] and case["alter"] and k == 0:
                # a second series on the same processor, after some other hours
                start2 = (start + 1) % rows
                ts.settings.loadfile_start, ts.settings.loadfile_end = start2, rows
                if case["out"]:
                    ts.settings.outputfile = out + "x"
                start, end, first = start2, rows, (start, end)
    except Exception as e:      # noqa: BLE001
        err = e
    written = sorted(os.path.basename(p)[len(os.path.basename(out)):] for p in glob.glob(out + "_*"))
    if case["again"] and case["alter"]:
        written = sorted(os.path.basename(p)[len(os.path.basename(out)) + 1:] for p in glob.glob(out + "x_*"))
    for p in glob.glob(out + "*"):
        keep[os.path.basename(p)] = open(p).read()
        os.unlink(p)
    os.unlink(f)
    # fresh runs
    labels = {"hours:%d" % min(end - start, 3)}
    want = {}
    for h in range(start, end):
        for c in cols:
            own[c]["now"] = cmath.rect(table[c][h], cmath.phase(own[c]["v"])) if own[c]["v"] != 0 else own[c]["v"]
        save = {c: own[c]["v"] for c in cols}
        for c in cols:
            own[c]["v"] = own[c]["now"]
        t = glm_text(build_objects(net))
        for c in cols:
            own[c]["v"] = save[c]
        try:
            want[h] = glm.solve(t, settings)[1]
        except Exception as e:      # noqa: BLE001
            if err is None:
                raise Violation("hour %d: a single run raises %s, the series does not" % (h, e))
            return {"nontrivial": False, "labels": ["exception"]}
    if err is not None:
        raise Violation("the series raises %s: %s, single runs of its hours do not" % (type(err).__name__, err))
    if set(got) != set(range(start, end)):
        raise Violation("results for hours %s, asked for %s to %s" % (sorted(got), start, end))
    if case["out"]:
        must = sorted("_%d_%s.csv" % (h, k) for h in range(start, end) for k in ("voltage", "power"))
        if written != must:
            raise Violation("files %s, expected %s" % (written, must))
    for h in range(start, end):
        a, b = got[h], want[h]
        if b.iterations > 15 or a.iterations > 15:
            labels.add("slow")
            continue
        if bool(a.is_success) != bool(b.is_success):
            raise Violation("hour %d: solved %s, a single run %s" % (h, bool(a.is_success), bool(b.is_success)))
        if not b.is_success:
            labels.add("unsolved")
            continue
        labels.add("solved")
        v, w = glm.voltages(a), glm.voltages(b)
        if set(v) != set(w):
            raise Violation("hour %d: node phases differ: %s" % (h, sorted(set(v) ^ set(w))[:4]))
        for k in w:
            if not abs(v[k] - w[k]) <= 1e-6 * net.nodes[k[0]]["vn"]:
                raise Violation("hour %d: voltage at %s is %s, a single run gives %s" % (h, k, v[k], w[k]))
        x = sorted((r.load.from_bus.NodeName, r.load.phase, r.P, r.Q) for r in a.load_results if abs(complex(r.P, r.Q)) > 1e-6)
        y = sorted((r.load.from_bus.NodeName, r.load.phase, r.P, r.Q) for r in b.load_results if abs(complex(r.P, r.Q)) > 1e-6)
        if len(x) != len(y) or any(p[:2] != q[:2] or abs(p[2] - q[2]) + abs(p[3] - q[3]) > 1e-6 * (1 + abs(q[2]) + abs(q[3])) for p, q in zip(x, y)):
            raise Violation("hour %d: loads %s, a single run has %s" % (h, x[:4], y[:4]))
        if case["out"]:
            name = "%s%s_%d_voltage.csv" % (os.path.basename(out), "x" if case["again"] and case["alter"] else "", h)
            body = keep[name]
            if len([r for r in body.splitlines()[1:] if "," in r]) != len(w):
                raise Violation("hour %d: the voltage file has other rows:\n%s" % (h, body[:500]))
            sums = sum(float(r.split(",")[2]) for r in body.splitlines()[1:] if "," in r)
            if abs(sums - sum(abs(z) for z in w.values())) > 1e-3 * len(w) + 1e-6 * sums:
                raise Violation("hour %d: the voltages in the file are not those of the hour:\n%s" % (h, body[:500]))
    if any(table[c][h] == 0 for c in cols for h in range(start, end - 1)):
        labels.add("zero-hour")
    if case["again"]:
        labels.add("again")
    return {"nontrivial": bool(cols) and (end - start > 1 or case["again"] > 0) and "solved" in labels, "labels": sorted(labels)}


def cases():
    kinds = [k for k in EDGE_KINDS if k != "fu"]
    return st.fixed_dictionaries({
        "net": specs(max_edges=6, kinds=kinds, cap_on=None), "rows": st.sampled_from([3, 4, 6, 2, 5, 1]), "start": st.integers(0, 5), "n": st.integers(0, 11),
        "m": st.lists(st.one_of(st.sampled_from([0.0, 1.0, -0.5, 2.0]), fl(0, 1.5)), min_size=2, max_size=7), "use": st.lists(st.integers(0, 3).map(bool), min_size=1, max_size=4),
        "rev": st.booleans(), "long": st.booleans(), "out": st.booleans(), "again": st.integers(0, 3).map(lambda k: int(k == 0)), "alter": st.booleans()})


parts = [Part("series", cases, series, 450, 20000)]
