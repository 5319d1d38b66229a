"""Reference circuit for a concrete three-phase net (vf.feeder.Net).

Written from the textbook equations (Kersting, Distribution System Modeling and Analysis),
not from the code under test: modified Carson equations, Kron reduction, potential coefficients,
transformer connections as nodal admittance primitives.
"""
import cmath
import math

import numpy as np

from .feeder import PH, conductor_phases, oh_distances, ug_cable, ug_distances

FT_PER_MILE = 5280.0
# GridLAB-D's constants for 60 Hz, 100 ohm-m
OH = (0.09530, 0.12134, 7.93402)
UG = (0.09327, 0.12134, 7.95153)      # the code uses its own earth constants for cables


class NoSolution(Exception):
    pass


def kron(z, keep):
    n = len(z)
    if n == keep:
        return z
    a, b, c, d = z[:keep, :keep], z[:keep, keep:], z[keep:, :keep], z[keep:, keep:]
    return a - b @ np.linalg.solve(d, c)


def carson(r, gmr, dist, k):
    """ohm per mile; dist(i, j) in ft; gmr in ft"""
    n = len(r)
    z = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            g = gmr[i] if i == j else dist(i, j)
            z[i, j] = (r[i] if i == j else 0) + k[0] + 1j * k[1] * (math.log(1 / g) + k[2])
    return z


def pair(d, a, b):
    return d[a + b] if a + b in d else d[b + a]


def z_oh(cfg):
    w = conductor_phases(cfg)
    d = oh_distances(cfg, w)
    cs = [cfg["c"]["ABCN".index(x)] for x in w]
    z = carson([c["r"] for c in cs], [c["gmr"] for c in cs], lambda i, j: pair(d, w[i], w[j]), OH)
    return kron(z, len(cfg["phases"]))


def y_oh(cfg):
    """shunt admittance matrix, siemens per mile (j*B), or None without heights"""
    if not cfg["earth"]:
        return None
    w = conductor_phases(cfg)
    d = oh_distances(cfg, w)
    n = len(w)
    p = np.zeros((n, n))
    for i in range(n):
        hi = d[w[i] + "E"]
        for j in range(n):
            if i == j:
                rd = cfg["c"]["ABCN".index(w[i])]["dia"] / 24.0
                p[i, j] = 11.17689 * math.log(2 * hi / rd)
            else:
                hj = d[w[j] + "E"]
                dij = pair(d, w[i], w[j])
                s = math.sqrt(dij ** 2 + 4 * hi * hj)
                p[i, j] = 11.17689 * math.log(s / dij)
    p = kron(p, len(cfg["phases"]))
    return 1j * 2 * math.pi * 60 * np.linalg.inv(p) * 1e-6


def ug_effective(c):
    """concentric neutral: (r_n, gmr_n, R) of the equivalent neutral; ft"""
    k = c["k"]
    rad = (c["od"] - c["ndia"]) / 24.0
    gmrn = (c["ngmr"] * k * rad ** (k - 1)) ** (1.0 / k)
    return c["nr"] / k, gmrn, rad, k


def z_ug(cfg):
    ph = cfg["phases"]
    w = conductor_phases(cfg)
    d = ug_distances(cfg, w)
    cab = [ug_cable(cfg, x) for x in w]
    m = len(ph)
    n = len(w)
    # order: phase conductors, concentric neutrals, (bare neutral)
    tot = 2 * m + (n - m)
    r, gmr = [], []
    for c in cab[:m]:
        r.append(c["r"]), gmr.append(c["gmr"])
    for c in cab[:m]:
        a, b, _, _ = ug_effective(c)
        r.append(a), gmr.append(b)
    for c in cab[m:]:
        r.append(c["r"]), gmr.append(c["gmr"])

    def who(i):
        return ("p", i) if i < m else ("n", i - m)

    def dist(i, j):
        (ki, a), (kj, b) = who(i), who(j)
        if a == b:
            return ug_effective(cab[a])[2]
        dd = pair(d, w[a], w[b])
        if ki != kj and (a if ki == "n" else b) < m:
            ka = a if ki == "n" else b
            _, _, rad, k = ug_effective(cab[ka])
            return (dd ** k - rad ** k) ** (1.0 / k)
        return dd
    z = carson(r, gmr, dist, UG)
    return kron(z, m)


def z_tl(cfg):
    dia, ins = cfg["dia"], cfg["ins"]
    d12, d1n = (dia + 2 * ins) / 12.0, (dia + ins) / 12.0
    z = carson([c["r"] for c in cfg["c"]], [c["gmr"] for c in cfg["c"]], lambda i, j: d12 if {i, j} == {0, 1} else d1n, OH)
    return kron(z, 2)


def z_cfg(cfg):
    return {"oh": z_oh, "ug": z_ug, "tl": z_tl}[cfg["kind"]](cfg)


def b_ug(cfg):
    """cable shunt admittance per mile. The code applies half of Kersting's value (pinned by its tests)."""
    out = []
    for x in cfg["phases"]:
        c = ug_cable(cfg, x)
        rb = (c["od"] - c["ndia"]) / 2
        out.append(77.3619e-6 / (math.log(2 * rb / c["cdia"]) - math.log(c["k"] * c["ndia"] / 2 / rb) / c["k"]))
    return 0.5j * np.diag(out)


class Circuit:
    """unknown voltages by index; names[(node, phase)] -> index; Y, loads and fixed voltages"""

    def __init__(self):
        self.index, self.y, self.loads, self.fixed, self.iconst = {}, [], [], {}, []

    def add(self, idx, ymat):
        for a, i in enumerate(idx):
            if i is None:
                continue
            for b, j in enumerate(idx):
                if j is not None:
                    self.y.append((i, j, ymat[a][b]))

    def matrix(self):
        n = self.n
        m = np.zeros((n, n), complex)
        for i, j, v in self.y:
            m[i, j] += v
        return m


def reference(net, cap_on=None, cap_closed=None, merge=True):
    """merge: closed switches join their end nodes (otherwise they are left out)"""
    c = Circuit()
    uf = {}

    def find(a):
        while uf.get(a, a) != a:
            a = uf[a]
        return a
    keys = [(x, p) for x, u in net.nodes.items() for p in u["ph"]]
    for el in net.els:
        if el["k"] == "sw" and merge:
            for p in el["ph"]:
                if p not in el["open"]:
                    a, b = find((el["from"], p)), find((el["to"], p))
                    if a != b:
                        uf[a] = b
    reps = []
    for k in keys:
        if find(k) not in reps:
            reps.append(find(k))
    c.index = {k: reps.index(find(k)) for k in keys}
    c.keys = keys
    c.n = len(reps)
    cap_on = net.cap_on if cap_on is None else cap_on
    for p in PH:
        c.fixed[c.index[(net.source["name"], p)]] = net.source["v"][p]
    zc, yc = {}, {}
    for name, cfg in net.cfgs.items():
        zc[name] = z_cfg(cfg)
        if cap_on and cfg["kind"] == "oh":
            yc[name] = y_oh(cfg)
    for el in net.els:
        k = el["k"]
        I = lambda node, p: c.index[(el[node], p)]
        if k in ("oh", "ug", "tl"):
            m = len(el["ph"])
            L = el["len"] / FT_PER_MILE
            y = np.linalg.inv(zc[el["cfg"]] * L)
            sh = yc.get(el["cfg"])
            sh = np.zeros((m, m), complex) if sh is None else sh * L / 2
            if k == "ug" and cap_on:
                sh = b_ug(net.cfgs[el["cfg"]]) * L / 2
            idx = [I("from", p) for p in el["ph"]] + [I("to", p) for p in el["ph"]]
            c.add(idx, np.block([[y + sh, -y], [-y, y + sh]]))
        elif k in ("yy", "dd", "dy", "sp"):
            s = el["kva"] * 1000.0
            z = complex(el["r"], el["x"])
            nph = len(el["ph"])
            vp, vs = el["vp"], el["vs"]
            if k == "sp":
                n, zc1 = vp / vs, z * vs ** 2 / s
                coils = [((el["ph"],), (el["ph"],))]
            else:
                # config voltages are line to line; per-phase base = s/3
                lnp, lns = vp / math.sqrt(3), vs / math.sqrt(3)
                vcp = vp if k in ("dd", "dy") else lnp
                vcs = vs if k == "dd" else lns
                n = vcp / vcs
                zc1 = z * vcs ** 2 / (s / 3)
                prim = [("A", "B"), ("B", "C"), ("C", "A")] if k in ("dd", "dy") else [("A",), ("B",), ("C",)]
                sec = [("A", "B"), ("B", "C"), ("C", "A")] if k == "dd" else [("A",), ("B",), ("C",)]
                coils = list(zip(prim, sec))
            y = 1 / zc1
            # ideal n:1, impedance on the secondary: Is = y (Vs - Vp/n), Ip = -Is/n
            yp = np.array([[y / n ** 2, -y / n], [-y / n, y]])
            for a, b in coils:
                idx, inc = [], []
                for t, (side, node) in ((a, (0, "from")), (b, (1, "to"))):
                    for q, p in enumerate(t):
                        idx.append(I(node, p))
                        inc.append((side, 1 if q == 0 else -1))
                A = np.zeros((2, len(idx)))
                for col, (side, sg) in enumerate(inc):
                    A[side, col] = sg
                c.add(idx, A.T @ yp @ A)
        elif k == "ct":
            s = el["kva"] * 1000.0
            z = complex(el["r"], el["x"])
            z0 = complex(0.5 * el["r"], 0.8 * el["x"]) * el["vp"] ** 2 / s
            z1 = z2 = complex(el["r"], 0.4 * el["x"]) * el["vs"] ** 2 / s
            if el.get("z3"):
                z0 = z * el["vp"] ** 2 / s
                z1, z2 = (complex(*q) * el["vs"] ** 2 / s for q in (el["z3"][:2], el["z3"][2:]))
            n = el["vp"] / el["vs"]
            # unknown internal primary emf E: (Vp-E)/z0 = (1/n)(i1-i2),
            # i1 = (E/n - V1)/z1 out of terminal 1, i2 = (-E/n - V2)/z2 out of terminal 2
            # currents into terminals from the network
            D = 1 / z0 + 1 / (n * n * z1) + 1 / (n * n * z2)
            e = np.array([1 / z0, 1 / (n * z1), -1 / (n * z2)]) / D
            Y = np.zeros((3, 3), complex)
            Y[0] = (np.array([1, 0, 0]) - e) / z0
            Y[1] = (np.array([0, 1, 0]) - e / n) / z1
            Y[2] = (np.array([0, 0, 1]) + e / n) / z2
            c.add([I("from", el["ph"]), c.index[(el["to"], "1")], c.index[(el["to"], "2")]], Y)
        elif k == "rg":
            step = 2 * el["reg"] / (el["up"] + el["down"])
            for p, t in zip(PH, el["taps"]):
                t = max(-el["down"], min(el["up"], t))
                n = 1 / (1 + step * t) if el["type"] == "A" else 1 - step * t
                y = 1e4
                c.add([I("from", p), I("to", p)], [[y / n ** 2, -y / n], [-y / n, y]])
        elif k == "fu":
            y = complex(1e4, 1e4)
            for p in el["ph"]:
                if p not in el["open"]:
                    c.add([I("from", p), I("to", p)], [[y, -y], [-y, y]])
    for l in net.loads:
        for e in l["e"]:
            q = e["c"]
            a = c.index[(l["node"], q[0])]
            b = c.index[(l["node"], q[1])] if len(q) == 2 else None
            if e["t"] == "Z":
                y = 1 / e["v"]
                c.add([a, b], [[y, -y], [-y, y]])
            else:
                c.loads.append((a, b, e["t"], e["v"]))
    for cp in net.caps:
        closed = cp["closed"] if cap_closed is None else cap_closed[cp["name"]]
        for p in cp["ph"]:
            if p in closed:
                i = c.index[(cp["node"], p)]
                c.y.append((i, i, 1j * cp["var"][p] / cp["vn"] ** 2))
    return c


def load_currents(c, v, jac=False):
    n = c.n
    f = np.zeros(n, complex)
    dv, dc = {}, {}
    for a, b, t, s in c.loads:
        u = v[a] - (v[b] if b is not None else 0)
        if t == "P":
            i, g = np.conj(s / u), -np.conj(s) / np.conj(u) ** 2
        else:
            i, g = s, 0
        f[a] += i
        if b is not None:
            f[b] -= i
        if jac and g != 0:
            for p, sp in ((a, 1), (b, -1)):
                for q, sq in ((a, 1), (b, -1)):
                    if p is not None and q is not None:
                        dc[(p, q)] = dc.get((p, q), 0) + sp * sq * g
    return f, dc


def solve(c, v0, iters=60):
    """Newton from v0 (dict index -> complex or array); returns v, mismatch"""
    n = c.n
    Y = c.matrix()
    v = np.array(v0, complex)
    fixed = sorted(c.fixed)
    for i in fixed:
        v[i] = c.fixed[i]
    free = [i for i in range(n) if i not in c.fixed]
    if not free:
        return v
    m = len(free)
    for _ in range(iters):
        il, dc = load_currents(c, v, True)
        F = (Y @ v + il)[free]
        J = np.zeros((2 * m, 2 * m))
        Yf = Y[np.ix_(free, free)]
        C = np.zeros((m, m), complex)
        pos = {i: k for k, i in enumerate(free)}
        for (p, q), g in dc.items():
            if p in pos and q in pos:
                C[pos[p], pos[q]] += g
        # F = Yf dv + C conj(dv)
        J[:m, :m] = (Yf + C).real
        J[:m, m:] = (-Yf + C).imag
        J[m:, :m] = (Yf + C).imag
        J[m:, m:] = (Yf - C).real
        # scale rows for conditioning
        sc = np.maximum(np.abs(J).max(axis=1), 1e-300)
        try:
            d = np.linalg.solve(J / sc[:, None], -np.concatenate([F.real, F.imag]) / sc)
        except np.linalg.LinAlgError:
            raise NoSolution("singular")
        dv = d[:m] + 1j * d[m:]
        if not np.all(np.isfinite(dv)):
            raise NoSolution("diverged")
        v[free] += dv
        if np.max(np.abs(dv) / (np.abs(v[free]) + 1e-9)) < 1e-13:
            break
    else:
        if np.max(np.abs(dv) / (np.abs(v[free]) + 1e-9)) > 1e-9:
            raise NoSolution("no convergence")
    return v
