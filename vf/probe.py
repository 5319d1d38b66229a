"""Observe the equations an element contributes, by evaluating the code's own residuals.

Only relies on assign_matrix / get_stamps / build_matrix_stamper / calc_residuals."""
import copy

import numpy as np
from logic.stamping.matrixstamper import build_matrix_stamper

LISTS = ["loads", "slack", "generators", "transformers", "switches", "lines", "misc", "shunts", "voltage_sources", "capacitors", "fuses", "regulators"]


def isolate(network, **only):
    """shallow copy of the network with only the given element lists (buses are kept)"""
    sub = copy.copy(network)
    for l in LISTS:
        if hasattr(sub, l):
            setattr(sub, l, list(only.get(l, [])))
    sub.optimization = None
    return sub


class Probe:
    """residual vector of a (sub-)network at a given state"""

    def __init__(self, network, tx=0):
        self.network = network
        self.tx = tx
        network.assign_matrix()
        self.stamper = build_matrix_stamper(network)
        self.n = network.size_Y

    def residual(self, v, tx=None):
        return np.array(self.stamper.calc_residuals(self.tx if tx is None else tx, np.asarray(v, float), 0).residuals)

    def at(self, volts):
        """state vector with bus -> complex voltage"""
        v = np.zeros(self.n)
        for b, x in volts.items():
            v[b.node_Vr], v[b.node_Vi] = x.real, x.imag
        return v

    def current(self, r, bus):
        return complex(r[bus.node_Vr], r[bus.node_Vi])


def yprim(network, buses, amp=1.0, **only):
    """nodal admittance matrix seen at `buses` of elements without inner unknowns; also the offset at V=0"""
    p = Probe(isolate(network, **only))
    r0 = p.residual(p.at({}))
    m = len(buses)
    Y = np.zeros((m, m), complex)
    for j, b in enumerate(buses):
        r = p.residual(p.at({b: complex(amp, 0)})) - r0
        for i, c in enumerate(buses):
            Y[i, j] = p.current(r, c) / amp
        ri = p.residual(p.at({b: complex(0, amp)})) - r0
        for i, c in enumerate(buses):
            z = p.current(ri, c) / (1j * amp)
            if abs(z - Y[i, j]) > 1e-9 * max(1e-12, abs(Y).max()):
                return None, r0, p      # not complex-linear
    return Y, r0, p


def linear_system(network, v0=None):
    """(A, J) assembled by the code: A x = J, for a network without nonlinear elements"""
    from logic.powerflowsettings import PowerFlowSettings
    from logic.stamping.matrixbuilder import MatrixBuilder

    network.assign_matrix()
    n = network.size_Y
    ms = build_matrix_stamper(network)
    mb, J = MatrixBuilder(PowerFlowSettings()), np.zeros(n)
    ms.stamp_linear(mb, J, 0)
    ms.stamp_nonlinear(mb, J, np.zeros(n) if v0 is None else v0, 0)
    A = np.zeros((n, n))
    if mb.get_usage():
        d = mb.to_matrix().toarray()
        A[: d.shape[0], : d.shape[1]] = d
    return A, J


def terminal_admittance(network, buses):
    """complex nodal admittance at `buses` of a network of linear elements, every other unknown eliminated.

    -> Y or None when not complex-linear"""
    A, J = linear_system(network)
    keep = [b.node_Vr for b in buses] + [b.node_Vi for b in buses]
    rest = [i for i in range(len(A)) if i not in set(keep)]
    K = A[np.ix_(keep, keep)]
    j = J[keep]
    if rest:
        used = [i for i in rest if np.any(A[i] != 0) or np.any(A[:, i] != 0)]
        if used:
            S = np.linalg.solve(A[np.ix_(used, used)], np.hstack([A[np.ix_(used, keep)], J[used][:, None]]))
            K = K - A[np.ix_(keep, used)] @ S[:, :-1]
            j = j - A[np.ix_(keep, used)] @ S[:, -1]
    m = len(buses)
    G, B, B2, G2 = K[:m, :m], -K[:m, m:], K[m:, :m], K[m:, m:]
    return G + 1j * B2, max(np.max(np.abs(G - G2), initial=0), np.max(np.abs(B - B2), initial=0)), j
