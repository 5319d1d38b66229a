"""What a three-phase model says, independent of the order and numbering of its objects."""
import numpy as np

from . import probe
from .runner import Violation


def end(b):
    return "ground" if b.NodePhase == "Gnd" else (b.NodeName, b.NodePhase)


def lists(model, name=lambda x: x):
    """class -> multiset of tuples; name maps node names"""
    def e(b):
        return "ground" if b.NodePhase == "Gnd" else (name(b.NodeName), b.NodePhase)
    f = lambda x: "%.8g" % (x + 0.0) if x is not None else None
    out = {}
    out["nodes"] = [(e(b), f(b.V_Nominal)) for b in model.buses if not b.IsVirtual]
    out["loads"] = [(e(l.from_bus), e(l.to_bus), k, f(complex(v).real), f(complex(v).imag), l.triplex_phase) for l in model.loads
                    for k, v in (("power", complex(l.P, l.Q)), ("current", complex(l.IP, l.IQ)), ("impedance", complex(l.Z))) if v != 0]
    out["switches"] = [(e(s.from_node), e(s.to_node), s.phase, s.status.name) for s in model.switches]
    out["fuses"] = [(e(s.from_node), e(s.to_node), s.phase, s.status.name, f(s.current_limit)) for s in model.fuses]
    out["capacitors"] = [(e(c.from_bus), c.mode.name, c.switch.name, f(c.B)) + ((f(c.high_voltage), f(c.low_voltage)) if c.mode.name == "VOLT" else ()) for c in model.capacitors]
    out["regulators"] = [(e(r.from_node), e(r.to_node), r.tap_position, r.reg_type.name, r.reg_control.name, r.raise_taps, r.lower_taps, f(r.vlow), f(r.vhigh)) for r in model.regulators]
    out["transformer ratings"] = [f(t.power_rating) for t in model.transformers]
    out["swing sources"] = [(e(s.bus), f(round(s.Vr_set, 6)), f(round(s.Vi_set, 6))) for s in model.slack]
    return {k: sorted(map(str, v)) for k, v in out.items()}


def compare_lists(a, b, what):
    for k in a:
        if a[k] != b[k]:
            x = [t for t in a[k] if a[k].count(t) > b[k].count(t)]
            y = [t for t in b[k] if b[k].count(t) > a[k].count(t)]
            raise Violation("%s: %s differ: %s against %s" % (what, k, x[:3], y[:3]))


def admittance(model, name=lambda x: x):
    """nodal admittance matrix between the real node phases, lines, transformers, regulators, closed fuses, impedance loads"""
    sub = probe.isolate(model, lines=model.lines, transformers=model.transformers, regulators=model.regulators,
                        fuses=[f for f in model.fuses if f.status.name == "GOOD"], loads=[l for l in model.loads if l.Z != 0])
    buses = sorted((b for b in model.buses if not b.IsVirtual), key=lambda b: (name(b.NodeName), b.NodePhase))
    Y, skew, j = probe.terminal_admittance(sub, buses)
    return [(name(b.NodeName), b.NodePhase) for b in buses], Y


def compare_admittance(a, b, what, tol=1e-7):
    ka, Ya = a
    kb, Yb = b
    if ka != kb:
        raise Violation("%s: node phases differ: %s" % (what, sorted(set(ka) ^ set(kb))[:4]))
    scale = np.maximum(np.sqrt(np.outer(np.abs(np.diag(Ya)), np.abs(np.diag(Ya)))), 1e-9)
    err = np.abs(Ya - Yb) / scale
    err[~np.isfinite(err)] = np.inf
    if np.max(err, initial=0) > tol:
        i, k = map(int, np.unravel_index(np.argmax(err), err.shape))
        raise Violation("%s: admittance between %s and %s is %s against %s S" % (what, ka[i], ka[k], Ya[i, k], Yb[i, k]))
