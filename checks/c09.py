"""C09: MatrixBuilder against a list-of-entries reference model."""
import math

import numpy as np
from hypothesis import strategies as st
from logic.powerflowsettings import PowerFlowSettings
from logic.stamping.matrixbuilder import MatrixBuilder

from vf.runner import Part, Violation

PROPERTY = "C09"
TITLE = "Sparse matrix assembly accumulates exactly what was stamped"
TECHNIQUE = "generated stamp/clear/convert histories vs. a reference sum model (Hypothesis)"
LEVEL_NOTE = "Randomised search over operation histories against a dictionary-sum reference model; no absence proof."
RULE = "history with at least one partial clear that keeps a non-empty prefix and discards entries, followed by a conversion, or with duplicate positions"

vals = st.one_of(st.integers(-4, 4).map(float), st.sampled_from([0.0, -0.0, 1e-300, 1e300, 0.1, -0.1]),
                 st.floats(-1e6, 1e6, allow_nan=False))


@st.composite
def histories(draw):
    n = draw(st.integers(1, 7))
    idx = st.integers(0, n - 1)
    stamp = st.tuples(st.just("s"), idx, idx, vals)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops += draw(st.lists(stamp, min_size=0, max_size=14))
        kind = draw(st.sampled_from(["m", "m", "c0", "ck", "rows", "usage", "again"]))
        if kind == "again" and ops:
            # Newton pattern: keep a prefix, restamp as many entries with other values
            ops.append(["ck", draw(st.floats(0, 1))])
            ops += draw(st.lists(stamp, min_size=0, max_size=20))
        elif kind == "ck":
            ops.append(["ck", draw(st.floats(0, 1))])
        else:
            ops.append([kind])
    ops.append(["m"])
    return {"n": n, "ops": ops, "debug": draw(st.booleans())}


def dense(entries, n):
    a = np.zeros((n, n))
    for r, c, v in entries:
        a[r, c] += v
    return a


def check(case):
    n = case["n"]
    mb = MatrixBuilder(PowerFlowSettings(debug=case["debug"]))
    ref, high, labels = [], 0, set()
    dup = partial = False
    for op in case["ops"]:
        k = op[0]
        if k == "s":
            _, r, c, v = op
            mb.stamp(r, c, v)
            if v != 0:
                dup = dup or any(e[0] == r and e[1] == c for e in ref)
                ref.append((r, c, v))
                high = max(high, len(ref))
        elif k == "c0":
            mb.clear()
            ref = []
        elif k == "ck":
            keep = int(op[1] * len(ref))
            if 0 < keep < len(ref):
                partial = True
                labels.add("partial-clear")
            mb.clear(retain_idx=keep)
            ref = ref[:keep]
        elif k == "usage":
            if mb.get_usage() != len(ref):
                raise Violation("usage %s, expected %s" % (mb.get_usage(), len(ref)))
        elif k == "rows":
            for i in range(n):
                if sorted(mb.get_row(i)) != sorted((c, v) for r, c, v in ref if r == i):
                    raise Violation("row %d: %s" % (i, list(mb.get_row(i))))
                if sorted(mb.get_col(i)) != sorted((r, v) for r, c, v in ref if c == i):
                    raise Violation("column %d: %s" % (i, list(mb.get_col(i))))
        elif k in ("m", "again"):
            stale = len(ref) < high
            if stale:
                labels.add("shrunk")
            if not ref:
                continue  # an empty assembly has no defined shape
            try:
                m = mb.to_matrix()
            except Exception as e:
                if case["debug"] and stale:
                    labels.add("stale-rejected")
                    continue
                raise
            got = np.zeros((n, n))
            d = m.toarray()
            if d.shape[0] > n or d.shape[1] > n:
                raise Violation("matrix shape %s exceeds every stamped index (n=%d)" % (d.shape, n))
            got[: d.shape[0], : d.shape[1]] = d
            exp = dense(ref, n)
            scale = dense([(r, c, abs(v)) for r, c, v in ref], n)
            if not np.all(np.abs(got - exp) <= 1e-12 * scale):
                i, j = map(int, np.argwhere(~(np.abs(got - exp) <= 1e-12 * scale))[0])
                raise Violation("matrix entry (%d,%d) is %r, stamped sum is %r" % (i, j, got[i, j], exp[i, j]))
            labels.add("converted")
    return {"nontrivial": ("converted" in labels) and (dup or partial), "labels": sorted(labels)}


@st.composite
def bad(draw):
    return {"n": draw(st.integers(1, 6)),
            "kind": draw(st.sampled_from(["neg-row", "neg-col", "none-row", "float-row", "nan", "empty-row", "empty-col", "ok", "rect"])),
            "k": draw(st.integers(0, 5)), "extra": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(1, 5)), max_size=6))}


def check_debug(case):
    """debug mode: malformed stamps and singular-by-structure matrices are rejected; good ones accepted."""
    n, k = case["n"], case["k"] % case["n"]
    mb = MatrixBuilder(PowerFlowSettings(debug=True))
    kind = case["kind"]
    try:
        if kind in ("empty-row", "empty-col") and n == 1:
            n, k = 2, 0
        if kind == "empty-row":
            k = min(k, n - 2)
        for i in range(n):
            if kind == "empty-row":
                mb.stamp(i if i != k else (i + 1), i, 1.0)
            elif kind == "empty-col":
                kk = min(k, n - 2)
                mb.stamp(i, i if i != kk else (i + 1), 1.0)
            else:
                mb.stamp(i, i, 1.0)
        if kind not in ("empty-row", "empty-col"):
            for r, c, v in case["extra"]:
                mb.stamp(r % n, c % n, float(v))
        if kind == "neg-row":
            mb.stamp(-1 - k, 0, 1.0)
        elif kind == "neg-col":
            mb.stamp(0, -1 - k, 1.0)
        elif kind == "none-row":
            mb.stamp(None, 0, 1.0)
        elif kind == "float-row":
            mb.stamp(0.0, 0, 1.0)
        elif kind == "nan":
            mb.stamp(0, 0, math.nan)
        elif kind == "rect":
            mb.stamp(0, n + k, 1.0)
        mb.assert_valid(check_zeros=True)
        mb.to_matrix()
        ok = True
    except Exception:
        ok = False
    if ok != (kind == "ok"):
        raise Violation("debug mode %s a %s stamp" % ("accepted" if ok else "rejected", kind))
    return {"nontrivial": True, "labels": [kind]}


parts = [Part("history", histories, check, 12000, 400000),
         Part("debug", bad, check_debug, 2000, 40000, "every case: one malformed (or well-formed) assembly")]
