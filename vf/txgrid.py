"""Random transmission cases: generated spec -> concrete grid -> RAW text (v30/32/33/34) / reference equations."""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from .feeder import PICK, fl

SB = 100.0
KVS = [138.0, 230.0, 69.0, 13.8, 345.0]


@st.composite
def specs(draw, max_buses=7, offline=True, versions=(30, 32, 33, 34), gens=True, zip_loads=True, stress=1.0):
    n = draw(st.integers(2, max_buses))
    flag = st.integers(0, 9).map(lambda k: 0 if k == 0 else 1) if offline else st.just(1)
    mw = fl(-20, 90, 4).map(lambda x: float("%.5g" % (x * stress)))
    maybe = lambda s: st.one_of(st.just(0.0), st.just(0.0), s)
    return {
        "ver": draw(st.sampled_from(versions)),
        "bus": [{"num": draw(st.integers(0, 6)), "kv": draw(st.integers(0, 4)), "off": draw(st.integers(0, 11)) == 0 if offline else False,
                 "pv": draw(st.integers(0, 2)) == 0 if gens else False,
                 "vm": draw(fl(0.93, 1.07)), "va": draw(fl(-20, 20, 3)), "p": draw(PICK), "name": draw(st.integers(0, 3)),
                 "gb": [draw(maybe(fl(0, 15, 3))), draw(maybe(fl(-25, 35, 3)))],
                 "k": draw(st.sampled_from("LLLLTTTN"))} for _ in range(n)],
        "slack": {"vs": draw(fl(0.96, 1.06)), "va": draw(st.sampled_from([0.0, 0.0, 12.5, -31.0])), "n": draw(st.integers(1, 2))},
        "line": [draw(branch(flag)) for _ in range(n)],
        "extra": [dict(draw(branch(flag)), a=draw(PICK), b=draw(PICK), t=draw(st.booleans())) for _ in range(draw(st.integers(0, 4)))],
        "xf": [draw(xfmr(flag)) for _ in range(n + 4)],
        "load": [{"b": draw(PICK), "st": draw(flag), "pl": draw(mw), "ql": draw(fl(-15, 35, 4).map(lambda x: float("%.5g" % (x * stress)))),
                  "ip": draw(maybe(fl(-10, 25, 4))) if zip_loads else 0.0, "iq": draw(maybe(fl(-10, 15, 4))) if zip_loads else 0.0,
                  "yp": draw(maybe(fl(0, 25, 4))) if zip_loads else 0.0, "yq": draw(maybe(fl(-20, 15, 4))) if zip_loads else 0.0}
                 for _ in range(draw(st.integers(0, 2 * n)))],
        "fsh": [{"b": draw(PICK), "st": draw(flag), "gl": draw(maybe(fl(0, 12, 3))), "bl": draw(fl(-25, 40, 3))} for _ in range(draw(st.integers(0, 3)))],
        "ssh": [{"b": draw(PICK), "st": draw(flag), "mode": draw(st.sampled_from([0, 1, 1, 2, 3])), "hi": draw(fl(1.0, 1.05)), "lo": draw(fl(0.95, 1.0)),
                 "bi": draw(fl(-25, 40, 3)), "steps": [[draw(st.integers(1, 4)), draw(fl(-20, 30, 3))] for _ in range(draw(st.integers(0, 3)))]} for _ in range(draw(st.integers(0, 2)))],
        "gen": [{"b": draw(PICK), "st": draw(flag), "pg": draw(fl(-10, 80, 4).map(lambda x: float("%.5g" % (x * stress)))), "qg": draw(fl(-30, 30, 4)), "qr": [draw(fl(1, 200, 3)), draw(fl(-200, -1, 3))],
                 "kind": draw(st.sampled_from(["v", "v", "v", "v", "fix", "w1", "w2", "w3"])), "wpf": draw(st.sampled_from([0.95, 0.9, -0.97, 1.0]))}
                for _ in range(draw(st.integers(0, n + 2)))] if gens else [],
        "lay": draw(st.fixed_dictionaries({"perm": st.lists(PICK, min_size=4, max_size=4), "sp": st.integers(0, 3), "cmt": st.booleans(), "at": st.booleans(),
                                           "trim": st.integers(0, 2), "order": st.booleans()})),
    }


@st.composite
def branch(draw, flag):
    maybe = lambda s: st.one_of(st.just(0.0), st.just(0.0), st.just(0.0), s)
    return {"r": draw(st.one_of(fl(0.0, 0.04, 3), st.just(0.0))), "x": draw(fl(0.02, 0.2, 3)), "b": draw(fl(0.0, 0.2, 3)), "st": draw(flag),
            "sh": [draw(maybe(fl(-0.05, 0.05, 3))) for _ in range(4)]}


@st.composite
def xfmr(draw, flag):
    return {"cw": draw(st.integers(1, 3)), "cz": draw(st.integers(1, 3)), "r": draw(fl(0.0, 0.02, 3)), "x": draw(fl(0.03, 0.2, 3)), "sb": draw(st.sampled_from([100.0, 50.0, 250.0, 33.0])),
            "t1": draw(st.one_of(st.just(1.0), fl(0.92, 1.08))), "t2": draw(st.one_of(st.just(1.0), fl(0.95, 1.05))), "ang": draw(st.one_of(st.just(0.0), st.just(0.0), fl(-15, 15, 3), st.just(30.0))),
            "nom": [draw(st.sampled_from([0, 0, 1, 2])), draw(st.sampled_from([0, 0, 1, 2]))], "st": draw(flag), "cod": draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


class Grid:
    pass


def resolve(spec):
    """concrete grid; the in-service part is connected by in-service tree branches by construction"""
    g = Grid()
    g.ver = spec["ver"]
    g.lay = spec["lay"]
    g.bus, g.load, g.fsh, g.gen, g.br, g.xf, g.ssh = [], [], [], [], [], [], []
    for i, b in enumerate(spec["bus"]):
        num = 1 + 16 * b["num"] + i
        ide = 3 if i == 0 else 4 if b["off"] and i > 1 else 2 if b["pv"] else 1
        kv = KVS[b["kv"]]
        parent = None
        if i:
            # stay with the parent's level unless the edge is a transformer
            live = [k for k in range(i) if g.bus[k]["ide"] != 4] if ide != 4 else list(range(i))
            parent = live[b["p"] % len(live)]
            if b["k"] != "T":
                kv = g.bus[parent]["kv"]
        va = spec["slack"]["va"] if i == 0 else float("%.6g" % (b["va"] + spec["slack"]["va"]))
        nm = ["BUS-%d" % num, "B %d" % num, "Bus_%d" % num, "N%d'" % num][b["name"]]
        if b["name"] == 3:
            nm = "N%d" % num
        g.bus.append({"i": num, "name": nm, "kv": kv, "ide": ide, "vm": b["vm"], "va": va, "gl": b["gb"][0] if g.ver == 30 else 0.0, "bl": b["gb"][1] if g.ver == 30 else 0.0})
        if i:
            a, c = g.bus[parent], g.bus[i]
            if b["k"] == "N":
                a, c = c, a
            if b["k"] == "T":
                add_xf(g, spec["xf"][i], a, c, 1)
            else:
                add_br(g, dict(spec["line"][i], st=1), a, c)
    for k, e in enumerate(spec["extra"]):
        a, c = g.bus[e["a"] % len(g.bus)], g.bus[e["b"] % len(g.bus)]
        if a is c:
            continue
        if e["t"]:
            # parallel or meshed transformer without extra phase shift against the levels around it
            add_xf(g, spec["xf"][len(g.bus) + k], a, c, spec["xf"][len(g.bus) + k]["st"])
        elif a["kv"] == c["kv"]:
            add_br(g, e, a, c)
    ids = {}

    def nid(kind, i):
        ids[(kind, i)] = ids.get((kind, i), 0) + 1
        return str(ids[(kind, i)])
    for l in spec["load"]:
        b = g.bus[l["b"] % len(g.bus)]
        g.load.append(dict(l, i=b["i"], id=nid("l", b["i"])))
    if g.ver != 30:
        for s in spec["fsh"]:
            b = g.bus[s["b"] % len(g.bus)]
            g.fsh.append(dict(s, i=b["i"], id=nid("f", b["i"])))
    # slack generators, then the others on PV buses
    s = spec["slack"]
    for k in range(s["n"]):
        g.gen.append({"i": g.bus[0]["i"], "id": nid("g", g.bus[0]["i"]), "pg": 10.0 * k + 5, "qg": 1.0, "qt": 100.0, "qb": -100.0, "vs": s["vs"], "st": 1, "wmod": 0, "wpf": 1.0})
    vset = {}
    for q in spec["gen"]:
        pv = [b for b in g.bus[1:] if b["ide"] in (2, 4)]
        if not pv:
            break
        b = pv[q["b"] % len(pv)]
        kind = q["kind"]
        if kind.startswith("w") and g.ver == 30:
            kind = "v"
        qt, qb = q["qr"]
        wpf, wm = 1.0, 0
        pg = q["pg"]
        if kind == "fix":
            qt = qb = q["qg"]
        elif kind != "v":
            wm = int(kind[1])
            wpf = q["wpf"] if wm != 2 else abs(q["wpf"])
            if wm == 3:
                pg = abs(pg)
        vset.setdefault(b["i"], b["vm"])
        g.gen.append({"i": b["i"], "id": nid("g", b["i"]), "pg": pg, "qg": q["qg"] if kind != "fix" else qt, "qt": qt, "qb": qb, "vs": vset[b["i"]], "st": q["st"], "wmod": wm, "wpf": wpf})
    seen = set()
    for s in spec["ssh"]:
        b = g.bus[s["b"] % len(g.bus)]
        if b["i"] in seen or (s["mode"] == 2 and (b["ide"] == 3 or g.ver == 30 and b["ide"] == 4)):
            continue
        seen.add(b["i"])
        d = dict(s, i=b["i"])
        if s["mode"] == 2 and b["i"] in vset:
            d["hi"] = d["lo"] = vset[b["i"]]
        if g.ver == 30:
            d["st"] = 1
        g.ssh.append(d)
    g.by = {b["i"]: b for b in g.bus}
    return g


def add_br(g, e, a, c):
    ck = 1 + sum({x["i"], x["j"]} == {a["i"], c["i"]} for x in g.br + g.xf)
    x = e["x"]
    g.br.append({"i": a["i"], "j": c["i"], "ckt": str(ck), "r": e["r"], "x": x, "b": e["b"], "sh": e["sh"], "st": e["st"]})


def add_xf(g, t, a, c, stat):
    ck = 1 + sum({x["i"], x["j"]} == {a["i"], c["i"]} for x in g.br + g.xf)
    nom = [[0.0, kv, float("%.5g" % (kv * 1.04))][k] for k, kv in zip(t["nom"], (a["kv"], c["kv"]))]
    w1, w2 = t["t1"], t["t2"]
    if t["cw"] == 2:
        w1, w2 = float("%.6g" % (w1 * a["kv"])), float("%.6g" % (w2 * c["kv"]))
    r, x = t["r"], t["x"]
    if t["cz"] == 2:
        r, x = float("%.6g" % (r * t["sb"] / SB)), float("%.6g" % (x * t["sb"] / SB))
    elif t["cz"] == 3:
        z = math.hypot(r, x) * t["sb"] / SB
        r, x = float("%.6g" % (r * t["sb"] / SB * t["sb"] * 1e6)), float("%.7g" % z)
    g.xf.append({"i": a["i"], "j": c["i"], "ckt": str(ck), "cw": t["cw"], "cz": t["cz"], "r": r, "x": x, "sb": t["sb"], "w1": w1, "w2": w2,
                 "n1": nom[0], "n2": nom[1], "ang": t["ang"], "st": stat, "cod": t["cod"], "kv": (a["kv"], c["kv"])})


# -------------------------------------------------------------------------------------------- text

def num(x):
    return "%.12g" % x


def raw_text(g):
    lay = g.lay
    v = g.ver
    pads = ["", " ", "  ", "   "][lay["sp"]]
    out = []

    def row(*f):
        out.append(("," + pads).join(f))

    def end(what):
        out.append("0" + (" / END OF %s DATA, BEGIN NEXT DATA" % what if lay["cmt"] else ""))

    def at(cols):
        if lay["at"] and v == 34:
            out.append("@!" + cols)

    def shuffled(l, k):
        l = list(l)
        p = lay["perm"][k % 4]
        if p & 1:
            l.reverse()
        if l:
            p = (p // 2) % len(l)
            l = l[p:] + l[:p]
        return l
    q = lambda s: "'%s'" % s
    if v == 30:
        row("0", num(SB) + (" / a comment, with a comma" if lay["cmt"] else ""))
    else:
        at("IC,SBASE,REV,XFRRAT,NXFRAT,BASFRQ")
        row("0", num(SB), str(v), "0", "0", "60.00" + (" / a comment, with a comma" if lay["cmt"] else ""))
    out.append("title one")
    out.append("title two")
    if v == 34:
        out.append("GENERAL, THRSHZ=0.0002")
        end("SYSTEM-WIDE")
    at("I,'NAME',BASKV,IDE")
    for b in shuffled(g.bus, 0):
        if v == 30:
            row(str(b["i"]), q(b["name"]), num(b["kv"]), str(b["ide"]), num(b["gl"]), num(b["bl"]), "1", "1", num(b["vm"]), num(b["va"]), "1")
        else:
            f = [str(b["i"]), q(b["name"]), num(b["kv"]), str(b["ide"]), "1", "1", "1", num(b["vm"]), num(b["va"])]
            row(*(f + (["1.1", "0.9", "1.1", "0.9"] if v != 32 else [])))
    end("BUS")
    at("I,'ID',STAT")
    for l in shuffled(g.load, 1):
        f = [str(l["i"]), q(l["id"]), str(l["st"]), "1", "1", num(l["pl"]), num(l["ql"]), num(l["ip"]), num(l["iq"]), num(l["yp"]), num(l["yq"]), "1"]
        if v != 30:
            f.append("1")
        if v >= 33:
            f.append("0")
        if v == 34:
            f += ["0.0", "0.0", "0"]
        row(*f)
    end("LOAD")
    if v != 30:
        at("I,'ID',STATUS,GL,BL")
        for s in shuffled(g.fsh, 2):
            row(str(s["i"]), q(s["id"]), str(s["st"]), num(s["gl"]), num(s["bl"]))
        end("FIXED SHUNT")
    at("I,'ID',PG")
    for x in shuffled(g.gen, 3) if lay["order"] else g.gen:
        f = [str(x["i"]), q(x["id"]), num(x["pg"]), num(x["qg"]), num(x["qt"]), num(x["qb"]), num(x["vs"]), "0", "100.0", "0.0", "1.0", "0.0", "0.0", "1.0", str(x["st"]), "100.0",
             "9999.0", "-9999.0"]
        if v == 30:
            f += ["1", "1.0"]
        elif x["wmod"] or lay["trim"] != 1:
            f += ["1", "1.0", "0", "1.0", "0", "1.0", "0", "1.0", str(x["wmod"]), num(x["wpf"])]
        else:
            f += ["1", "1.0"]
        row(*f)
    end("GENERATOR")
    at("I,J,'CKT'")
    for b in shuffled(g.br, 0):
        f = [str(b["i"]), str(b["j"]), q(b["ckt"]), num(b["r"]), num(b["x"]), num(b["b"])]
        tail = [num(s) for s in b["sh"]] + [str(b["st"]), "1", "0.0", "1", "1.0"]
        if v == 34:
            row(*(f + [q("line")] + ["0.0"] * 12 + tail))
        else:
            row(*(f + ["0.0"] * 3 + tail))
    end("BRANCH")
    if v == 34:
        end("SYSTEM SWITCHING DEVICE")
    for x in shuffled(g.xf, 1):
        f = [str(x["i"]), str(x["j"]), "0", q(x["ckt"]), str(x["cw"]), str(x["cz"]), "1", "0.0", "0.0", "2", q("XF %s-%s" % (x["i"], x["j"])), str(x["st"]), "1", "1.0"]
        if v >= 33:
            f += ["0", "1.0", "0", "1.0", "0", "1.0", q("            ")]
        elif lay["trim"] == 2:
            f += ["0", "1.0", "0", "1.0", "0", "1.0"]
        row(*f)
        row(num(x["r"]), num(x["x"]), num(x["sb"]))
        lim = {0: ("1.1", "0.9", "1.1", "0.9"), 1: ("1.1", "0.9", "1.05", "0.95"), 2: ("1.1", "0.9", "50.0", "10.0"), 3: ("30.0", "-30.0", "80.0", "20.0")}[x["cod"]]
        f = [num(x["w1"]), num(x["n1"]), num(x["ang"]), "0.0", "0.0", "0.0", str(x["cod"]), str(x["j"]) if x["cod"] == 1 else "0"] + list(lim) + ["33", "0", "0.0", "0.0"]
        if v >= 33:
            f.append("0.0")
        row(*f)
        row(num(x["w2"]), num(x["n2"]))
    end("TRANSFORMER")
    end("AREA")
    end("TWO-TERMINAL DC")
    end("VSC DC LINE")

    def ss():
        for s in shuffled(g.ssh, 2):
            steps = [t for n, b in s["steps"] for t in (str(n), num(b))]
            if v == 30:
                row(str(s["i"]), str(s["mode"]), num(s["hi"]), num(s["lo"]), "0", "100.0", q("            "), num(s["bi"]), *steps)
            else:
                row(str(s["i"]), str(s["mode"]), "0", str(s["st"]), num(s["hi"]), num(s["lo"]), "0", "100.0", q("            "), num(s["bi"]), *steps)
        end("SWITCHED SHUNT")
    if v == 30:
        ss()
    for w in ("IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE", "INTER-AREA TRANSFER", "OWNER", "FACTS DEVICE"):
        end(w)
    if v != 30:
        ss()
    if v >= 33:
        end("GNE")
    if v == 34:
        end("INDUCTION MACHINE")
        end("SUBSTATION")
    out.append("Q")
    return "\n".join(out) + "\n"


# --------------------------------------------------------------------------------------- reference

class Ref:
    """per-unit equations of the in-service part, written from the RAW format description"""

    def __init__(self, g):
        self.live = [b["i"] for b in g.bus if b["ide"] != 4]
        self.pos = {i: k for k, i in enumerate(self.live)}
        n = len(self.live)
        Y = np.zeros((n, n), complex)
        self.lines, self.xfs, self.shunts = [], [], {}
        on = lambda *i: all(k in self.pos for k in i)
        P = self.pos
        for b in g.br:
            if b["st"] == 1 and on(b["i"], b["j"]):
                a, c = P[b["i"]], P[b["j"]]
                y = 1 / complex(b["r"], b["x"])
                gi, bi, gj, bj = b["sh"]
                Y[a, a] += y + 0.5j * b["b"] + complex(gi, bi)
                Y[c, c] += y + 0.5j * b["b"] + complex(gj, bj)
                Y[a, c] -= y
                Y[c, a] -= y
        for x in g.xf:
            if x["st"] and on(x["i"], x["j"]):
                a, c = P[x["i"]], P[x["j"]]
                kv1, kv2 = x["kv"]
                n1, n2 = x["n1"] or kv1, x["n2"] or kv2
                if x["cw"] == 1:
                    t1, t2 = x["w1"], x["w2"]
                elif x["cw"] == 2:
                    t1, t2 = x["w1"] / kv1, x["w2"] / kv2
                else:
                    t1, t2 = x["w1"] * n1 / kv1, x["w2"] * n2 / kv2
                r, xx = x["r"], x["x"]
                if x["cz"] == 2:
                    r, xx = r * SB / x["sb"], xx * SB / x["sb"]
                elif x["cz"] == 3:
                    rp = r / 1e6 / x["sb"]
                    xp = math.sqrt(xx ** 2 - rp ** 2)
                    r, xx = rp * SB / x["sb"], xp * SB / x["sb"]
                # ideal t1 : (z) : ideal t2
                y = 1 / complex(r, xx)
                u1, u2 = cmath.rect(t1, math.radians(x["ang"])), t2
                Y[a, a] += y / abs(u1) ** 2
                Y[c, c] += y / abs(u2) ** 2
                Y[a, c] -= y / (u1.conjugate() * u2)
                Y[c, a] -= y / (u1 * u2)
        self.ysh = np.zeros(n, complex)

        def sh(i, y):
            if i in P:
                Y[P[i], P[i]] += y
        for b in g.bus:
            sh(b["i"], complex(b["gl"], b["bl"]) / SB)
        for s in g.fsh:
            if s["st"] == 1:
                sh(s["i"], complex(s["gl"], s["bl"]) / SB)
        self.S = [[] for _ in range(n)]       # constant power loads (and fixed generation as negative load)
        self.I = np.zeros(n, complex)         # power at 1 pu of constant current loads
        for l in g.load:
            if l["st"] == 1 and l["i"] in P:
                k = P[l["i"]]
                self.S[k].append(complex(l["pl"], l["ql"]) / SB)
                self.I[k] += complex(l["ip"], l["iq"]) / SB
                sh(l["i"], complex(l["yp"], l["yq"]) / SB)
        self.pv = {}
        for x in g.gen:
            if x["st"] != 1 or x["i"] not in P:
                continue
            ide = g.by[x["i"]]["ide"]
            if ide != 2:
                continue
            qt, qb, pg = x["qt"], x["qb"], x["pg"]
            if x["wmod"] == 3:
                qq = math.sqrt((pg / x["wpf"]) ** 2 - pg ** 2)
                qt = qb = qq if x["wpf"] > 0 else -qq
            if abs(qt - qb) < 1e-6 and x["wmod"] != 2:
                self.S[P[x["i"]]].append(-complex(pg, qt) / SB)
            else:
                d = self.pv.setdefault(P[x["i"]], {"P": 0.0, "V": x["vs"], "qt": 0.0, "qb": 0.0, "q0": 0.0, "n": 0, "kinds": set()})
                d["P"] += pg / SB
                d["qt"] += qt / SB
                d["qb"] += qb / SB
                d["q0"] += x["qg"] / SB
                d["n"] += 1
                d["kinds"].add(x["wmod"])
        for s in g.ssh:
            if s["st"] != 1 or s["i"] not in P:
                continue
            if s["mode"] == 2:
                d = self.pv.setdefault(P[s["i"]], {"P": 0.0, "V": (s["hi"] + s["lo"]) / 2, "qt": 0.0, "qb": 0.0, "q0": 0.0, "n": 0, "kinds": set()})
                d["n"] += 1
                d["kinds"].add("ss")
            else:
                sh(s["i"], 1j * s["bi"] / SB)
        s0 = next(x for x in g.gen if x["i"] == g.bus[0]["i"])
        self.slack = P[g.bus[0]["i"]]
        self.vslack = cmath.rect(s0["vs"], math.radians(g.bus[0]["va"]))
        self.Y = Y
        self.n = n

    def drawn(self, v):
        """complex power leaving each bus into network, shunts and loads"""
        s = v * np.conj(self.Y @ v)
        return s + np.array([sum(x) for x in self.S]) + self.I * np.abs(v)

    def mismatch(self, v):
        """complex power mismatch at PQ buses, (P mismatch, |V| error) at PV buses, slack voltage error"""
        d = self.drawn(v)
        out = []
        for k in range(self.n):
            if k == self.slack:
                out.append(("swing voltage", k, abs(v[k] - self.vslack)))
            elif k in self.pv:
                out.append(("active power at voltage-controlled bus", k, abs(d[k].real - self.pv[k]["P"])))
                out.append(("voltage setpoint", k, abs(abs(v[k]) - self.pv[k]["V"])))
            else:
                out.append(("power balance", k, abs(d[k])))
        return out

    def newton(self, v0, iters=30):
        """voltages from plain Newton in rectangular coordinates, or None"""
        v = np.array(v0, complex)
        v[self.slack] = self.vslack
        free = [k for k in range(self.n) if k != self.slack]
        if not free:
            return v
        Sl = np.array([sum(x) for x in self.S], complex)

        def F(v):
            d = v * np.conj(self.Y @ v) + Sl + self.I * np.abs(v)
            out = []
            for k in free:
                if k in self.pv:
                    out += [d[k].real - self.pv[k]["P"], abs(v[k]) ** 2 - self.pv[k]["V"] ** 2]
                else:
                    out += [d[k].real, d[k].imag]
            return np.array(out)
        for _ in range(iters):
            f = F(v)
            if not np.all(np.isfinite(f)):
                return None
            J = np.zeros((2 * len(free), 2 * len(free)))
            for c, k in enumerate(free):
                for o, h in ((0, 1e-7), (1, 1e-7j)):
                    w, u = v.copy(), v.copy()
                    w[k] += h
                    u[k] -= h
                    J[:, 2 * c + o] = (F(w) - F(u)) / 2e-7
            try:
                d = np.linalg.solve(J, -f)
            except np.linalg.LinAlgError:
                return None
            v[free] += d[0::2] + 1j * d[1::2]
            if np.max(np.abs(d)) < 1e-10:
                return v
        return None
