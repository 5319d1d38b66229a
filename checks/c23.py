"""C23: the command-line program against library calls made with the requested options."""
import contextlib
import functools
import http.server
import io
import os
import re
import shutil
import signal
import subprocess
import sys
import threading

from hypothesis import strategies as st
from logic.network.networkloader import NetworkLoader
from logic.network.timeseriesprocessor import TimeSeriesProcessor
from logic.network.timeseriessettings import TimeSeriesSettings
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings
from models.optimization.L2infeasibility import load_infeasibility_analysis

from checks.c17 import columns
from checks.c18 import same_csv
from vf import boot, glm, txgrid as T
from vf.feeder import EDGE_KINDS, PH, PICK, build_objects, fl, glm_text, resolve, specs
from vf.runner import WARM_DX, WARM_TX, Inconclusive, Part, Violation

WARM = tuple(sorted(set(WARM_DX + WARM_TX)))
PROPERTY = "C23"
TITLE = "The command-line solver reports what the library computes"
TECHNIQUE = "generated cases and option combinations (Hypothesis): the program (entry point in-process and as a process of its own, local files and URLs) vs. library calls with these options (differential on output files, printed verdicts and failures)"
LEVEL_NOTE = "Randomised search over feeders of up to 4 links, transmission cases of up to 4 buses and all options; no absence proof."
RULE = "at least one option beyond the case file and an output file requested, library run without an exception"
ASSUMPTIONS = ["a time-series request that the library refuses with an exception is printed and answered with a plain run, which is not compared"]


class Slow(BaseException):
    pass


@contextlib.contextmanager
def limit(sec):
    def stop(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(sec)
    try:
        yield
    except Slow:
        raise Inconclusive("takes too long")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def work(case):
    """writes the case into a fresh folder; returns folder, case file name, options (as given on the command line, without outputfile)"""
    d = os.path.join(boot.SCRATCH, "cli%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    opt = {}
    if "net" in case:
        net = resolve(case["net"], states=case["states"])
        if case["states"]:
            for e in net.els:
                if e.get("open"):
                    e["open"] = list(e["ph"])
        name = ["case.glm", "feeder one.glm"][case["fn"] % 2]
        if case["neg"] and case["micro"]:
            vn = net.nodes["src"]["vn"]
            e = [{"c": p, "t": "P", "v": complex("%.6g%+.6gj" % (1e-3 * vn ** 2 * g[0] - 20, 1e-3 * vn ** 2 * g[1]))} for p, g in zip(PH, case["g"])]
            net.loads.append({"name": "der_gen7", "node": "src", "own": False, "delta": False, "tri": None, "e": e, "kid": False})
        if case["series"]:
            own = columns(net)
            cols = sorted(own)[:6]
            rows = 3
            lines = [",".join(["hour"] + cols + ["rl_77_1"])]
            for h in range(rows):
                lines.append(",".join([str(h)] + ["%.8g" % (abs(own[c]["v"]) * case["m"][(h * 2 + k) % len(case["m"])]) for k, c in enumerate(cols)] + ["7"]))
            with open(os.path.join(d, "loads.csv"), "w") as f:
                f.write("\n".join(lines) + "\n")
            opt["loadfile"] = "loads.csv"
            a = case["from"] % rows
            if a or case["from"] > 5:
                opt["loadstart"] = a
            opt["loadend"] = a + 1 + case["to"] % (rows - a)
        if case["micro"]:
            opt["artificialswingbus"] = "src"
            if case["neg"]:
                opt["negativeloads"] = ["der_gen7"] + (["nothing_here9z"] if case["neg"] == 2 else [])
            if case["island"]:
                opt["select_island"] = "True"
        text = glm_text(build_objects(net))
    else:
        name, text = ["case.RAW", "IEEE 9.RAW"][case["fn"] % 2], T.raw_text(T.resolve(case["g"]))
    with open(os.path.join(d, name), "w") as f:
        f.write(text)
    if case["factor"] is not None:
        opt["load_factor"] = case["factor"]
    for k in ("infeasibility", "tx_stepping", "verbose", "debug"):
        if case[k]:
            opt[k] = True
    return d, name, opt


def argv(d, name, opt, out):
    a = [os.path.join(d, name)]
    for k, v in opt.items():
        if v is True:
            a.append("--" + k)
        elif isinstance(v, list):
            a += ["--" + k] + v
        elif k == "loadfile":
            a += ["--" + k, os.path.join(d, v)]
        else:
            a += ["--%s=%s" % (k, v)]
    if out:
        a += ["--outputfile", os.path.join(d, out)]
    return a


def library(d, name, opt):
    """what the options ask for: list of (suffix, result) or raises"""
    s = PowerFlowSettings(debug=bool(opt.get("debug")), tx_stepping=bool(opt.get("tx_stepping")), load_factor=float(opt.get("load_factor", 1)))
    m = NetworkLoader(s).from_file(os.path.join(d, name))
    if opt.get("infeasibility"):
        m.optimization = load_infeasibility_analysis(m)
    k = float(opt.get("load_factor", 1))
    for l in m.loads:
        l.P, l.Q = l.P * k, l.Q * k
    pf = PowerFlow(m, s)
    if "loadfile" not in opt and "artificialswingbus" not in opt:
        return [("", pf.execute())]
    ts = TimeSeriesProcessor(TimeSeriesSettings(
        loadfile_name=os.path.join(d, opt["loadfile"]) if "loadfile" in opt else None, loadfile_start=opt.get("loadstart"), loadfile_end=opt.get("loadend"),
        artificialswingbus=opt.get("artificialswingbus"), negativeloads=opt.get("negativeloads"), select_island="select_island" in opt), pf)
    try:
        if "loadfile" not in opt:
            return [("", ts.execute())]
        # hour by hour: results refer to the state of the model, which the next hour changes
        a, b = int(opt.get("loadstart", 0)), int(opt["loadend"])
        out = []
        for h in range(a, b):
            ts.settings.loadfile_start, ts.settings.loadfile_end = h, h + 1
            r = ts.execute().powerflow_snapshot_results[h]
            p = os.path.join(d, "lib")
            r.output(p)
            out.append(("_%d" % h, r, [open(p + x).read() for x in ("_voltage.csv", "_power.csv")]))
        return out
    except Exception as e:      # noqa: BLE001
        raise Refused("%s: %s" % (type(e).__name__, e))


class Refused(Exception):
    pass


def contents(d, r):
    if len(r) == 3:
        return r[2]
    p = os.path.join(d, "lib")
    r[1].output(p)
    return [open(p + x).read() for x in ("_voltage.csv", "_power.csv")]


def judge(d, opt, out, printed, err, want, lib_err):
    desc = " ".join("--%s %s" % (k, v) for k, v in opt.items()) or "no options"
    if isinstance(lib_err, Refused):
        return {"nontrivial": False, "labels": ["refused"]}
    if lib_err is not None:
        if err is None:
            raise Violation("%s: the program ends normally, the library raises %s: %s" % (desc, type(lib_err).__name__, lib_err))
        return {"nontrivial": False, "labels": ["exception"]}
    if err is not None:
        raise Violation("%s: the program fails with %s, the library does not" % (desc, str(err)[-600:]))
    if any(r[1].iterations > 15 for r in want) and not opt.get("tx_stepping"):
        return {"nontrivial": False, "labels": ["slow"]}
    got = re.findall(r"Successful: (\w+)", printed)
    if got != [str(bool(r[1].is_success)) for r in want]:
        raise Violation("%s: the program prints success %s, the library has %s" % (desc, got, [bool(r[1].is_success) for r in want]))
    labels = {"failed" if not r[1].is_success else "solved" for r in want}
    if out:
        base = os.path.join(d, out)
        have = sorted(f for f in os.listdir(os.path.dirname(base)) if f.startswith(os.path.basename(base)))
        must = sorted(os.path.basename(base) + r[0] + x for r in want for x in ("_voltage.csv", "_power.csv"))
        if have != must:
            raise Violation("%s: the program wrote %s, requested were %s" % (desc, have, must))
        for r in want:
            for x, w in zip(("_voltage.csv", "_power.csv"), contents(d, r)):
                a = open(base + r[0] + x).read()
                if not same_csv(a, w):
                    raise Violation("%s: file %s of the program:\n%s\nthe library call gives\n%s" % (desc, os.path.basename(base) + r[0] + x, a[:900], w[:900]))
                if not r[1].is_success and "FAILURE" not in a:
                    raise Violation("%s: unsolved, but %s reads %r" % (desc, x, a[:200]))
    for k in opt:
        labels.add(k)
    labels.add("raw" if any(f.endswith(".RAW") for f in os.listdir(d)) else "glm")
    return {"nontrivial": bool(out and opt), "labels": sorted(labels)}


def reference(d, name, opt):
    try:
        with limit(100):
            return library(d, name, opt), None
    except Inconclusive:
        raise
    except Exception as e:      # noqa: BLE001
        return None, e


def program(case):
    import run_solver
    d, name, opt = work(case)
    out = case["out"]
    args = argv(d, name, opt, out)
    old, sys.argv = sys.argv, ["run_solver.py"] + args
    buf, err = io.StringIO(), None
    try:
        with contextlib.redirect_stdout(buf), limit(100):
            run_solver.main()
    except Inconclusive:
        raise
    except SystemExit as e:
        err = e if e.code else None
    except Exception as e:      # noqa: BLE001
        err = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = old
    want, lib_err = reference(d, name, opt)
    try:
        return judge(d, opt, out, buf.getvalue(), err, want, lib_err)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def process(case):
    """the program as a user starts it: own process, relative names, other working directory; or the case from a URL"""
    d, name, opt = work(case)
    out = case["out"] or "res"
    args = argv(d, name, opt, out)
    srv = None
    bad = case["bad"]
    if bad == 1:
        args[0] = os.path.join(d, "missing.glm")
    elif bad == 2:
        os.rename(args[0], args[0] + ".txt")
        args[0] += ".txt"
        if ".glm" in args[0]:
            args[0] = shutil.copy(args[0], os.path.join(d, "case.txt"))
        else:
            args[0] = shutil.copy(args[0], os.path.join(d, "case.dat"))
    elif case["url"]:
        h = functools.partial(http.server.SimpleHTTPRequestHandler, directory=d)
        h.log_message = lambda *a: None
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), h)
        srv.RequestHandlerClass = type("H", (http.server.SimpleHTTPRequestHandler,), {
            "log_message": lambda *a: None, "__init__": lambda self, *a, **k: http.server.SimpleHTTPRequestHandler.__init__(self, *a, directory=d, **k)})
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        args[0] = "http://127.0.0.1:%d/%s" % (srv.server_address[1], name.replace(" ", "%20"))
    else:
        args = [os.path.relpath(a, d) if a.startswith(d) else a for a in args]
    env = dict(os.environ, PYTHONPATH=boot.SRC, TMPDIR=boot.SCRATCH, no_proxy="*")
    try:
        p = subprocess.run([sys.executable, os.path.join(boot.SRC, "run_solver.py")] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        raise Inconclusive("takes too long")
    finally:
        if srv:
            srv.shutdown()
            srv.server_close()
    err = None if p.returncode == 0 else p.stderr
    try:
        if bad:
            if err is None:
                raise Violation("the program ends normally on %s" % (args[0],))
            if os.path.exists(os.path.join(d, out + "_voltage.csv")):
                raise Violation("the program writes results for %s" % (args[0],))
            return {"nontrivial": True, "labels": ["refused-case"]}
        want, lib_err = reference(d, name, opt)
        info = judge(d, opt, out, p.stdout, err, want, lib_err)
        info["labels"].append("url" if case["url"] else "relative")
        return info
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fetch(case):
    """two downloads of different cases with one file name at the same time; the first gets its last bytes after the second is complete"""
    ext = case["ext"]
    texts = {k: (glm_text(build_objects(resolve(c))) if ext == "glm" else T.raw_text(T.resolve(c))).encode() for k, c in (("a", case["a"]), ("b", case["b"]))}
    d = os.path.join(boot.SCRATCH, "fetch%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    second, asked, begun = threading.Event(), {"a": 0, "b": 0}, threading.Event()
    lock = threading.Lock()

    class H(http.server.BaseHTTPRequestHandler):
        def log_message(self, *a):
            pass

        def do_GET(self):
            k = self.path.split("/")[1]
            with lock:
                asked[k] += 1
            t = texts[k]
            try:
                self.send_response(200)
                self.send_header("Content-Length", str(len(t)))
                self.end_headers()
                self.wfile.write(t[:-20])
                if k == "a":
                    begun.set()
                    second.wait(case["hold"])
                self.wfile.write(t[-20:])
            except OSError:
                pass        # the reader closed the connection early
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    res = {}

    def get(k):
        try:
            res[k] = NetworkLoader(PowerFlowSettings()).from_file("http://127.0.0.1:%d/%s/case.%s" % (srv.server_address[1], k, ext))
        except Exception as e:      # noqa: BLE001
            res[k] = e
        if k == "b":
            second.set()
    try:
        ta, tb = (threading.Thread(target=get, args=(k,)) for k in "ab")
        ta.start()
        begun.wait(5)
        tb.start()
        tb.join(60)
        ta.join(60)
        if ta.is_alive() or tb.is_alive():
            raise Inconclusive("takes too long")
    finally:
        second.set()
        srv.shutdown()
        srv.server_close()
    for k in "ab":
        try:
            own = glm.load(texts[k].decode(), None, ext)
        except Exception as e:      # noqa: BLE001
            own = e
        if isinstance(own, Exception):
            if not isinstance(res[k], Exception):
                raise Violation("case %s is refused with %s as a file and accepted from a URL" % (k, own))
            continue
        if isinstance(res[k], Exception):
            raise Violation("two downloads of one name: case %s ends with %s: %s" % (k, type(res[k]).__name__, res[k]))
        if content(res[k]) != content(own):
            raise Violation("two downloads of one name: the network loaded for URL %s is not the one served there" % k)
    return {"nontrivial": texts["a"] != texts["b"], "labels": [ext]}


def content(m):
    return sorted((str(getattr(b, "Bus", "")), str(b.NodeName), str(b.NodePhase)) for b in m.buses), sorted("%.9g %.9g" % (l.P, l.Q) for l in m.loads), \
        len(m.lines), len(m.transformers)


rare = lambda n: st.integers(0, n).map(lambda k: k == n)


def cases(**kw):
    common = dict(kw, fn=st.integers(0, 1), factor=st.one_of(st.none(), st.none(), fl(0.2, 1.4), st.just(0.5), st.just(200.0)), infeasibility=rare(4), tx_stepping=rare(5), verbose=rare(4), debug=rare(5),
                  out=st.sampled_from(["r", "deep/er/out", "r_v", None, "x.csv"]))
    net = st.fixed_dictionaries(dict(common, net=specs(max_edges=4, max_loads=3, kinds=[k for k in EDGE_KINDS if k != "fu"], cap_on=True), states=rare(3), series=st.booleans(), micro=st.booleans(), neg=st.sampled_from([0, 1, 0, 2]),
                                     island=st.booleans(), g=st.lists(st.tuples(fl(-3, 1), fl(-2, 1)).map(list), min_size=3, max_size=3),
                                     m=st.lists(st.one_of(st.sampled_from([0.0, 1.0, -0.5]), fl(0, 1.5)), min_size=2, max_size=5), **{"from": PICK, "to": PICK}))
    grid = st.fixed_dictionaries(dict(common, g=T.specs(max_buses=4)))
    return st.one_of(net, net, grid)


parts = [
    Part("program", lambda: cases(), program, 220, 20000),
    Part("fetch", lambda: st.one_of(
        st.fixed_dictionaries({"ext": st.just("glm"), "a": specs(max_edges=3), "b": specs(max_edges=3), "hold": st.just(5)}),
        st.fixed_dictionaries({"ext": st.just("RAW"), "a": T.specs(max_buses=4), "b": T.specs(max_buses=4), "hold": st.just(5)})), fetch, 60, 3000,
        rule="the two cases differ"),
    Part("process", lambda: cases(url=st.booleans(), bad=st.sampled_from([0, 0, 0, 0, 1, 2])), process, 24, 1500),
]
