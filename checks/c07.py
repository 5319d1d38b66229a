"""C07: stamps of generated model definitions against second-order automatic
differentiation of the same equations."""
import itertools

import numpy as np
import sympy
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.lagrangesegment import Eq, KCL_i, KCL_r, LagrangeSegment, Objective, TwoTerminalModelDefinition
from logic.stamping.lagrangestampdetails import LagrangeStampDetails, build_two_terminal_stamp_details
from logic.stamping.matrixbuilder import MatrixBuilder
from logic.stamping.matrixstamper import MatrixStamper, build_stamps_from_stampers
from models.components.bus import GROUND, Bus
from models.wellknownvariables import Li_from, Li_to, Lr_from, Lr_to, Vi_from, Vi_to, Vr_from, Vr_to, tx_factor

from vf import ad
from vf.runner import Part, Violation

PROPERTY = "C07"
TITLE = "Assembled equations are the exact Newton linearization of the model equations"
TECHNIQUE = "generated model equations and histories vs. second-order automatic differentiation (Hypothesis)"
LEVEL_NOTE = "Randomised search: matrix, right-hand side and residual of generated models are compared with an independent second-order automatic differentiation; trusts the AD oracle and floating-point tolerances."
RULE = "at least one nonlinear term and at least two evaluation points, or two models/instances assembled together"
_uid = itertools.count()

num = st.one_of(st.sampled_from([1.0, -1.0, 2.0, 0.5, 0.0]), st.floats(-3, 3).map(lambda x: round(x, 3)))


def leaf(nc, nv):
    opts = [st.tuples(st.just("v"), st.integers(0, nv - 1))]
    opts.append(st.tuples(st.just("k"), num))
    if nc:
        opts.append(st.tuples(st.just("p"), st.integers(0, nc - 1)))

    def fix(t):
        if t[0] == "k":
            return ["c", t[1]]
        return ["s", (t[0], t[1])] if False else ["s", "%s%d" % t]
    return st.one_of(*opts).map(fix)


def expr(nc, nv):
    return st.recursive(
        leaf(nc, nv),
        lambda c: st.one_of(
            st.tuples(st.sampled_from(["+", "-", "*", "*", "/"]), c, c).map(list),
            st.tuples(st.sampled_from(["sq", "cu", "sin", "cos", "rt"]), c).map(list)),
        max_leaves=5)


@st.composite
def linear_expr(draw, nc, nv):
    e = ["c", 0.0]
    for _ in range(draw(st.integers(1, 3))):
        t = ["*", draw(leaf(nc, 1)) if nc and draw(st.booleans()) else ["c", draw(num)], ["s", "v%d" % draw(st.integers(0, nv - 1))]]
        if nc and draw(st.booleans()):
            t = ["*", ["s", "p%d" % draw(st.integers(0, nc - 1))], t]
        e = [draw(st.sampled_from(["+", "-"])), e, t]
    return e


@st.composite
def model(draw, nv=None):
    nv = nv or draw(st.integers(1, 4))
    nc = draw(st.integers(0, 3))
    nd = draw(st.integers(1, nv))
    eqs = [draw(st.one_of(expr(nc, nv), linear_expr(nc, nv))) for _ in range(nd)]
    obj = draw(st.one_of(st.none(), expr(nc, nv)))
    return {"nv": nv, "nc": nc, "tx": draw(st.booleans()) and nc > 0, "eqs": eqs, "obj": obj}


@st.composite
def cases(draw):
    models = draw(st.lists(model(), min_size=1, max_size=2))
    opt = draw(st.booleans())
    n = draw(st.integers(2, 7))
    insts = []
    for _ in range(draw(st.integers(1, 4))):
        m = draw(st.integers(0, len(models) - 1))
        idx = st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, n - 1))
        inst = {"m": m, "c": [draw(num) for _ in range(models[m]["nc"])],
                "pv": [draw(idx) for _ in range(models[m]["nv"])], "dv": [draw(idx) for _ in models[m]["eqs"]]}
        if draw(st.integers(0, 3)) == 0:
            inst["prow"] = [draw(idx) for _ in range(models[m]["nv"])]
            inst["drow"] = [draw(idx) for _ in models[m]["eqs"]]
        insts.append(inst)
        if draw(st.integers(0, 4)) == 0:
            insts.append(dict(inst))
    pt = st.lists(st.one_of(st.sampled_from([0.0, 1.0, -1.0]), st.floats(-2, 2).map(lambda x: round(x, 4))), min_size=n, max_size=n)
    runs = [{"tx": draw(st.sampled_from([0.0, 0.0, 1.0, 0.37])), "pts": draw(st.lists(pt, min_size=1, max_size=3)),
             "rtx": draw(st.sampled_from([None, 0.0, 0.5])), "rpt": draw(st.one_of(st.none(), pt))} for _ in range(draw(st.integers(1, 2)))]
    return {"models": models, "opt": opt, "n": n, "insts": insts, "runs": runs}


def reference(case_models, insts, opt, n, v, tx):
    """-> residual vector, Jacobian, scale of the residual and of the jacobian"""
    g, A = np.zeros(n), np.zeros((n, n))
    gs, As = np.zeros(n), np.zeros((n, n))
    v = np.asarray(v)
    for it in insts:
        m = case_models[it["m"]]
        nv, nd = m["nv"], len(m["eqs"])
        N = nv + nd
        vals = [0.0 if i is None else v[i] for i in it["pv"]]
        dvals = [0.0 if (i is None or not opt) else v[i] for i in it["dv"]]
        env = {"v%d" % k: ad.D2.var(x, k, N) for k, x in enumerate(vals)}
        for k, c in enumerate(it["c"]):
            env["p%d" % k] = ad.D2.const(tx if (m["tx"] and k == 0) else c, N)
        L = ad.D2.const(0, N)
        rows = it.get("prow", it["pv"]), it.get("drow", it["dv"])
        cols = list(it["pv"]) + list(it["dv"])
        parts = []
        for k, e in enumerate(m["eqs"]):
            q = ad.ev(e, env, N)
            parts.append(q)
            if opt:
                L = L + ad.D2.var(dvals[k], nv + k, N) * q
        if opt:
            if m["obj"] is not None:
                L = L + ad.ev(m["obj"], env, N)
            eqn = [(r, L.g[y], L.h[y]) for y, r in enumerate(list(rows[0]) + list(rows[1]))]
        else:
            eqn = [(rows[0][k], q.v, q.g) for k, q in enumerate(parts)]
            cols = list(it["pv"]) + [None] * nd
        for r, val, grad in eqn:
            if r is None:
                continue
            g[r] += val
            gs[r] += abs(val) + sum(abs(grad[c] * v[ci]) for c, ci in enumerate(cols) if ci is not None)
            for c, ci in enumerate(cols):
                if ci is not None:
                    A[r, ci] += grad[c]
                    As[r, ci] += abs(grad[c])
    return g, A, gs, As


def build(models):
    segs = []
    for m in models:
        u = next(_uid)
        prim = [sympy.Symbol("v%d_%d" % (u, k)) for k in range(m["nv"])]
        cons = [sympy.Symbol("p%d_%d" % (u, k)) for k in range(m["nc"])]
        if m["tx"]:
            cons[0] = tx_factor
        dual = [sympy.Symbol("l%d_%d" % (u, k)) for k in range(len(m["eqs"]))]
        syms = {"v%d" % k: s for k, s in enumerate(prim)}
        syms.update({"p%d" % k: s for k, s in enumerate(cons)})
        L = sympy.Integer(0)
        for d, e in zip(dual, m["eqs"]):
            L += d * ad.to_sympy(e, syms)
        if m["obj"] is not None:
            L += ad.to_sympy(m["obj"], syms)
        segs.append((LagrangeSegment(L, cons, prim, dual), prim, dual))
    return segs


def dense(Y, n):
    a = np.zeros((n, n))
    if Y.get_usage():
        d = Y.to_matrix().toarray()
        if d.shape[0] > n or d.shape[1] > n:
            raise Violation("stamps outside the unknowns: %s > %d" % (d.shape, n))
        a[: d.shape[0], : d.shape[1]] = d
    return a


def run_histories(stamper, ref, n, runs):
    """ref(v, tx) -> g, A, gs, As"""
    it = 0
    for run in runs:
        tx = run["tx"]
        Y, J0 = MatrixBuilder(PowerFlowSettings()), np.zeros(n)
        stamper.stamp_linear(Y, J0, tx)
        keep = Y.get_usage()
        for it, p in enumerate(run["pts"]):
            v = np.array(p)
            J = J0.copy()
            stamper.stamp_nonlinear(Y, J, v, it)
            A = dense(Y, n)
            g, Aref, gs, As = ref(v, tx)
            tol = 1e-9 * (1 + As)
            if not np.all(np.abs(A - Aref) <= tol):
                i, j = map(int, np.argwhere(~(np.abs(A - Aref) <= tol))[0])
                raise Violation("Jacobian (%d,%d) is %r, exact value %r (point %s, tx %s)" % (i, j, A[i, j], Aref[i, j], p, tx))
            r = A @ v - J
            rt = 1e-8 * (1 + gs)
            if not np.all(np.abs(r - g) <= rt):
                i = int(np.argwhere(~(np.abs(r - g) <= rt))[0][0])
                raise Violation("row %d: matrix*point - rhs is %r, residual of the equations %r (point %s, tx %s)" % (i, r[i], g[i], p, tx))
            rp = v if run["rpt"] is None else np.array(run["rpt"])
            rtx = tx if run["rtx"] is None else run["rtx"]
            res = stamper.calc_residuals(rtx, rp, it)
            g2, _, gs2, _ = ref(rp, rtx)
            if not np.all(np.abs(res.residuals - g2) <= 1e-8 * (1 + gs2)):
                i = int(np.argwhere(~(np.abs(res.residuals - g2) <= 1e-8 * (1 + gs2)))[0][0])
                raise Violation("reported residual %d at %s (tx %s) is %r, equations give %r" % (i, list(rp), rtx, res.residuals[i], g2[i]))
            if abs(res.max_residual - np.max(np.abs(res.residuals))) > 0 or abs(abs(res.residuals[res.max_residual_idx]) - res.max_residual) > 0:
                raise Violation("max residual %r at %r does not match the residual vector" % (res.max_residual, res.max_residual_idx))
            # the solver restores the relaxation of the run before it stamps again
            Y.clear(retain_idx=keep)
            if rtx != tx:
                Y, J0 = MatrixBuilder(PowerFlowSettings()), np.zeros(n)
                stamper.stamp_linear(Y, J0, tx)
                keep = Y.get_usage()


def nonlinear(e):
    return e[0] in ("sq", "cu", "sin", "cos", "rt", "/", "*") or any(nonlinear(x) for x in e[1:] if isinstance(x, (list, tuple)))


def check(case):
    segs = build(case["models"])
    n, opt = case["n"], case["opt"]
    coll = []
    for it in case["insts"]:
        seg, prim, dual = segs[it["m"]]
        vm = {s: i for s, i in zip(prim + dual, it["pv"] + (it["dv"] if opt else [None] * len(dual)))}
        em = None
        if "prow" in it:
            em = {s: i for s, i in zip(prim + dual, it["prow"] + (it["drow"] if opt else [None] * len(dual)))}
        coll += build_stamps_from_stampers(None, (LagrangeStampDetails(seg, vm, opt, em), list(it["c"])))
    stamper = MatrixStamper(coll, opt)
    ref = lambda v, tx: reference(case["models"], case["insts"], opt, n, v, tx)
    run_histories(stamper, ref, n, case["runs"])
    nl = any(nonlinear(e) for m in case["models"] for e in m["eqs"] + ([m["obj"]] if m["obj"] else []))
    npts = sum(len(r["pts"]) for r in case["runs"])
    return {"nontrivial": (nl and npts > 1) or len(case["insts"]) > 1,
            "labels": (["optimization"] if opt else ["plain"]) + (["nonlinear"] if nl else ["linear"]) + (["tx"] if any(m["tx"] for m in case["models"]) else [])
            + (["grounded"] if any(None in i["pv"] for i in case["insts"]) else []) + (["own-rows"] if any("prow" in i for i in case["insts"]) else [])}


# ---- two-terminal definitions between buses (as the components use them)

@st.composite
def tt_cases(draw):
    nx = draw(st.integers(0, 2))  # extra internal variables, one equality each
    nc = draw(st.integers(0, 2))
    m = {"nv": 4 + nx, "nc": nc, "tx": False,
         "eqs": [draw(st.one_of(expr(nc, 4 + nx), linear_expr(nc, 4 + nx))) for _ in range(2)],
         "to": [draw(linear_expr(nc, 4 + nx)) for _ in range(2)] if draw(st.booleans()) else None,
         "eqx": [draw(expr(nc, 4 + nx)) for _ in range(nx)],
         "obj": draw(st.one_of(st.none(), expr(nc, 4 + nx)))}
    nb = draw(st.integers(1, 3))
    b = st.one_of(st.none(), st.integers(0, nb - 1), st.integers(0, nb - 1))
    insts = [{"f": draw(b), "t": draw(b), "c": [draw(num) for _ in range(nc)]} for _ in range(draw(st.integers(1, 3)))]
    seeds = st.integers(0, 10 ** 6)
    return {"m": m, "nb": nb, "insts": insts, "opt": draw(st.booleans()), "pts": [draw(seeds) for _ in range(draw(st.integers(1, 3)))]}


def check_tt(case):
    m, opt = case["m"], case["opt"]
    u = next(_uid)
    prim = [Vr_from, Vi_from, Vr_to, Vi_to] + [sympy.Symbol("x%d_%d" % (u, k)) for k in range(m["nv"] - 4)]
    cons = [sympy.Symbol("p%d_%d" % (u, k)) for k in range(m["nc"])]
    syms = {"v%d" % k: s for k, s in enumerate(prim)}
    syms.update({"p%d" % k: s for k, s in enumerate(cons)})
    S = lambda e: ad.to_sympy(e, syms) + sympy.Integer(0)
    seg = TwoTerminalModelDefinition(
        tuple(prim), tuple(cons), KCL_r(S(m["eqs"][0])), KCL_i(S(m["eqs"][1])),
        *( (KCL_r(S(m["to"][0])), KCL_i(S(m["to"][1]))) if m["to"] else ()),
        equalities=[Eq(S(e)) for e in m["eqx"]], objective=Objective(S(m["obj"])) if m["obj"] is not None else None)
    ni = itertools.count()
    buses = [Bus(k, 1, 1.0, 0.0, None) for k in range(case["nb"])]
    for b in buses:
        b.assign_nodes(ni, opt)
    coll, ref_insts = [], []
    for it in case["insts"]:
        fb = GROUND if it["f"] is None else buses[it["f"]]
        tb = GROUND if it["t"] is None else buses[it["t"]]
        det = build_two_terminal_stamp_details(seg, fb, tb, ni, opt)
        coll += build_stamps_from_stampers(None, (det, list(it["c"])))
        extra = [det.get_var_col_index(s) for s in prim[4:]]
        for e in extra:
            if not isinstance(e, int):
                raise Violation("internal variable has no index of its own: %r" % (e,))
        ex_d = [det.get_lambda_index(4 + k) for k in range(len(m["eqx"]))]
        ref_insts.append({"m": 0, "c": it["c"], "pv": [fb.node_Vr, fb.node_Vi, tb.node_Vr, tb.node_Vi] + extra,
                          "dv": [fb.node_lambda_Vr, fb.node_lambda_Vi, tb.node_lambda_Vr, tb.node_lambda_Vi] + ex_d})
    n = next(ni)
    used = [i for r in ref_insts for i in r["pv"][4:] + (r["dv"][4:] if opt else [])]
    if len(used) != len(set(used)) or any(i is None for i in used):
        raise Violation("internal unknowns are not numbered uniquely: %s" % used)
    to = m["to"] or m["eqs"]
    rm = {"nv": m["nv"], "nc": m["nc"], "tx": False, "obj": m["obj"],
          "eqs": m["eqs"] + [["*", ["c", -1.0], to[0]], ["*", ["c", -1.0], to[1]]] + m["eqx"]}
    if n == 0:
        return {"nontrivial": False, "labels": ["empty"]}
    stamper = MatrixStamper(coll, opt)
    pts = []
    for s in case["pts"]:
        pts.append([float(round(x, 4)) for x in np.random.default_rng(s).uniform(-2, 2, n)])
    ref = lambda v, tx: reference([rm], ref_insts, opt, n, v, tx)
    run_histories(stamper, ref, n, [{"tx": 0.0, "pts": pts, "rtx": None, "rpt": None}])
    return {"nontrivial": len(case["insts"]) > 1 or len(pts) > 1, "labels": (["optimization"] if opt else ["plain"]) + (["objective"] if m["obj"] else []) + ["extra%d" % (m["nv"] - 4)]}


parts = [Part("segments", cases, check, 800, 40000), Part("two-terminal", tt_cases, check_tt, 400, 20000)]
