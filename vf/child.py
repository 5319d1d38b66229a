"""Solve one GLM file in a fresh process: python -m vf.child FILE -> JSON of the node voltages on the last line."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
from logic.network.networkloader import NetworkLoader  # noqa: E402
from logic.powerflow import PowerFlow  # noqa: E402
from logic.powerflowsettings import PowerFlowSettings  # noqa: E402

s = PowerFlowSettings(device_control=False, enable_line_capacitance=sys.argv[2] == "1")
res = PowerFlow(NetworkLoader(s).from_file(sys.argv[1]), s).execute()
print("\nRESULT " + json.dumps({"ok": bool(res.is_success), "v": [[b.bus.NodeName, b.bus.NodePhase, b.V_r, b.V_i] for b in res.bus_results]}))
