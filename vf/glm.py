"""Run the code under test on GLM text."""
import os

from logic.network.networkloader import NetworkLoader
from logic.powerflow import PowerFlow
from logic.powerflowsettings import PowerFlowSettings

from . import boot

_n = 0


def scratch_file(text, ext="glm", name=None):
    global _n
    _n += 1
    d = os.path.join(boot.SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name or "case%d.%s" % (_n % 40, ext))
    with open(p, "w") as f:
        f.write(text)
    return p


def load(text, settings=None, ext="glm"):
    settings = settings or PowerFlowSettings()
    p = scratch_file(text, ext)
    try:
        return NetworkLoader(settings).from_file(p)
    finally:
        os.unlink(p)


def solve(text, settings=None):
    settings = settings or PowerFlowSettings()
    net = load(text, settings)
    return net, PowerFlow(net, settings).execute()


def voltages(res):
    """(node, phase) -> complex; every non-virtual bus once (asserted by C16)"""
    return {(b.bus.NodeName, b.bus.NodePhase): complex(b.V_r, b.V_i) for b in res.bus_results}


def solve_ext(text, settings, ext):
    net = load(text, settings, ext)
    return net, PowerFlow(net, settings).execute()
