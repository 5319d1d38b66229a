#!/usr/bin/python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": list(observe)} if observe else {})}})

prop("C01", "Three-phase solutions satisfy the circuit described by the GLM file",
 "For every supported unbalanced feeder (overhead, underground and triplex lines, wye/delta and centre-tap transformers, manual-tap regulators, switches, fuses, capacitors, and constant-power, constant-current and constant-impedance loads in wye, line-to-line or triplex connection), a power flow that reports success returns, for every node and phase, the voltage phasor of the circuit the file describes. Kirchhoff's current law holds at every node with each element following its defining equation, source nodes keep their specified voltage, and open switches carry no current. A feeder whose equations a plain Newton iteration from nominal voltages solves within 10 % of nominal is reported as solved.",
 ["inputs", "configurations"], "all feeders expressible in the supported GLM subset: any topology (tree or meshed), phasing, device mix, ratings, loading level, with line capacitance on or off",
 "The tests compare a few dozen fixed feeders with recorded GridLAB-D output within 0.1 %/1 V; combinations of phasing, connection, load type and topology outside those files are never solved.",
 ["src/logic/network/parsers/threephase", "src/models/components", "src/logic/nrsolver.py", "src/logic/stamping", "src/ditto/readers/gridlabd"],
 [("model construction from the parsed file", "src/logic/network/parsers/threephase/threephaseparser.py"),
  ("transformer connections and per-unit conversion", "src/logic/network/parsers/threephase/transformerparser.py"),
  ("stamping and Newton iteration", "src/logic/stamping/matrixstamper.py, src/logic/nrsolver.py")],
 ["PowerFlow.execute().bus_results"])

prop("C02", "Positive-sequence solutions satisfy the AC power-flow equations",
 "For every transmission case, a power flow that reports success returns voltages at which, at every PQ bus, net active and reactive injection balances the bus's loads, fixed shunts, lines and transformers; at every voltage-controlled bus the active injection and the voltage setpoint are met; and the swing bus has exactly its specified magnitude and angle. The reported reactive output of each voltage-controlled generator is the one that closes its bus's reactive balance, and a case that a plain Newton iteration solves within 10 % of nominal voltage is reported as solved.",
 ["inputs", "configurations"], "all networks of buses, loads (constant power, current and admittance parts), generators, shunts, lines with charging, tap-changing and phase-shifting transformers in any winding units on a 100 MVA system base (magnetizing admittances excluded), from a flat or a stored start",
 "The tests solve a handful of standard cases and compare bus voltages with recorded values; none varies transformer units, phase shifters, statuses or load mixes.",
 ["src/logic/network/parsers/raw", "src/logic/network/networkloader.py", "src/models/components", "src/logic/nrsolver.py"],
 [("RAW conversion to components", "src/logic/network/parsers/raw/parser.py"), ("component equations", "src/models/components/{bus,load,generator,slack,line,shunt,transformer}.py")],
 ["PowerFlow.execute().bus_results", "generator_results"])

prop("C03", "RAW import keeps every in-service record, and only those, with correct values",
 "Importing a PSS/E RAW file yields, for each in-service bus, load, generator, shunt, branch and two-winding transformer, exactly one electrical contribution with the value the format defines (status flags, 100 MVA per-unit base, ratio and impedance unit codes, degrees versus radians), and nothing for out-of-service records. The result is the same whatever the record order within a section, extra blanks, quoted names, trailing end-of-section comments, or the supported file version used to express the same grid.",
 ["inputs", "configurations"], "all well-formed RAW files of versions 30, 32, 33 and 34 on a 100 MVA base within the supported record kinds (magnetizing admittances and three-winding transformers excluded), with any statuses, unit codes and record order",
 "Tests import a few fixed RAW files whose records are mostly in service and all in the same units.",
 ["src/logic/network/parsers/raw"],
 [("record readers per version", "src/logic/network/parsers/raw/data_classes.py, Data.py"), ("unit conversion", "src/logic/network/parsers/raw/parser.py, parse_transformers.py")],
 ["NetworkLoader.from_file"])

prop("C04", "Line series impedances equal Carson's equations with Kron reduction",
 "For every overhead, underground concentric-neutral or triplex line the reader produces the phase impedance matrix given by the modified Carson equations for the file's conductor data and spacings, with neutral conductors eliminated by Kron reduction, scaled to the line's length and attached to the right phases. The matrix is symmetric and does not depend on other lines in the file, on the order of the objects, or on whether spacing is shared.",
 ["inputs"], "all line configurations with 1-3 phases, with or without neutral, any conductor resistance, radius, diameter, stranding and pairwise spacing, any number of lines sharing or not sharing configurations",
 "Tests check a couple of textbook matrices; phase subsets, shared configurations and asymmetric spacings are only seen through feeder solutions at 0.1 %.",
 ["src/ditto/readers/gridlabd/line_impedance.py", "src/ditto/readers/gridlabd/read.py", "src/models/components/unbalanced_line.py"],
 [("Carson and Kron computation", "src/ditto/readers/gridlabd/line_impedance.py"), ("length and phase mapping", "src/models/components/unbalanced_line.py")],
 ["ditto Line.impedance_matrix", "UnbalancedLine.admittances"])

prop("C05", "Overhead line shunt capacitance equals the method-of-images value",
 "For every overhead line whose conductor heights are given, the shunt admittance used in the power flow is the one obtained from the potential-coefficient (image) method with the neutral eliminated, in consistent length units, applied half at each end and proportional to length; lines without height data, or runs with line capacitance disabled, get no shunt admittance.",
 ["inputs", "configurations"], "all overhead configurations with 1-3 phases with or without neutral, equal or unequal conductor heights, any diameters and lengths",
 "Only feeders solved with short lines touch the capacitance, where an error of orders of magnitude stays inside the 0.1 % tolerance.",
 ["src/ditto/readers/gridlabd/line_impedance.py", "src/models/components/unbalanced_line.py"],
 [("potential coefficients", "compute_overhead_capacitance in src/ditto/readers/gridlabd/line_impedance.py"), ("half at each end", "src/models/components/unbalanced_line.py")])

prop("C06", "Meaning of a GLM file does not depend on its layout",
 "Rewriting a GLM file without changing what it says - comments, blank lines, indentation, quoted values, reordering of properties or of independent objects, numbered versus named objects, units attached to a number where the reader supports them - gives the same network model and the same power-flow solution.",
 ["inputs"], "all supported GLM files with one property per line and all combinations of meaning-preserving rewrites (initial voltages of non-source nodes are not part of the meaning)",
 "Each test file has one fixed layout; no test compares two renderings of one feeder.",
 ["src/ditto/readers/gridlabd/read.py", "src/ditto/formats/gridlabd"],
 [("tokenizer and unit conversion", "src/ditto/readers/gridlabd/read.py")])

prop("C07", "Assembled equations are the exact Newton linearization of the model equations",
 "For every component model (any equations and objective), values and operating point, the stamped matrix and right-hand side define the same hyperplane as the exact first-order expansion of the model's equations at that point: the matrix is the Jacobian and the matrix times the point minus the right-hand side is the residual. This holds with and without optimization, for any grouping of instances, repeated iterations and changes of the relaxation parameter, and the reported residual equals the sum of the element contributions at the point it was asked for.",
 ["inputs", "histories"], "all model definitions built from constants, primal and dual variables, all constant values, operating points, index assignments (including grounded terminals) and sequences of evaluation points",
 "The tests stamp a few concrete components at a few points; nothing checks the general differentiation, splitting into constant/linear/nonlinear parts, batching and refresh logic.",
 ["src/logic/stamping", "src/logic/residualdetails.py"],
 [("symbolic split into Y and J parts", "src/logic/stamping/lagrangesegment.py"), ("batched evaluation and refresh", "src/logic/stamping/matrixstamper.py"), ("row/column mapping", "src/logic/stamping/lagrangestampdetails.py")])

prop("C08", "The on-disk derivative cache never changes results",
 "Whatever is in the derivative cache directory - nothing, valid entries from earlier runs, entries written by other processes at the same time, or empty, truncated or overwritten files - building and solving a network gives the same result as with no cache. Two models that differ in equations, constants or variables never share an entry.",
 ["crash_points", "fault_sequences", "histories"], "all interleavings of earlier runs and crashes that leave cache files missing, partial or damaged, and all pairs of model definitions",
 "Tests run with whatever cache is present; none damages an entry or compares a warm with a cold run.",
 ["src/logic/stamping/lagrangepickler.py", "src/logic/stamping/lagrangesegment.py"],
 [("fallback to recomputation", "LagrangeSegment.get_derivatives"), ("cache key", "LagrangeSegment.lagrange_key")])

prop("C09", "Sparse matrix assembly accumulates exactly what was stamped",
 "After any sequence of stamps, partial clears that keep a prefix, and conversions, the assembled matrix equals the sum of the retained and subsequently stamped entries: duplicates add, zeros add nothing, nothing stale survives a clear, and row and column queries agree with the matrix. In debug mode invalid indices or values, stale data or empty rows and columns are rejected.",
 ["histories"], "all sequences of stamp, clear and convert operations of any length, index range and value",
 "No test drives the assembler directly; it is only exercised through solves, where leftover entries can cancel out or hide in converged iterations.",
 ["src/logic/stamping/matrixbuilder.py"], [("slot reuse", "src/logic/stamping/matrixbuilder.py")])

prop("C10", "Unknowns are numbered consistently and results do not depend on object order",
 "For every network, the numbering gives each voltage, current and multiplier its own index, uses every index exactly once, sizes the system accordingly and is reproduced identically when repeated. Solving the same network again, from the same or a freshly loaded model, or with its element lists reordered, gives the same solution.",
 ["inputs", "histories", "configurations"], "all networks, with or without optimization, any element order and any number of repeated solves",
 "Tests solve each file once in one order; gaps, overlaps and leftovers between runs are not observed.",
 ["src/logic/network/networkmodel.py", "src/models/components"],
 [("index assignment", "NetworkModel.assign_matrix and assign_nodes of every component")])

prop("C11", "Disconnected or voltage-inconsistent networks are rejected, and only those",
 "A power flow is refused exactly when the graph of in-service conducting elements has more than one connected component, or when two nodes joined without an intervening transformer or regulator have nominal voltages that differ by more than the allowed margin. Open switches and blown fuses do not connect; each island and voltage region is counted once, whatever the order of elements.",
 ["inputs", "configurations"], "all networks and all open/closed patterns of switches and fuses, all nominal voltage assignments",
 "One or two tests check a fixed disconnected file; the exactness of the rule over topologies and device states is not covered.",
 ["src/logic/graphanalyzer.py", "src/logic/powerflow.py"], [("connectivity graph", "src/logic/graphanalyzer.py"), ("element connections", "get_connections of the components")])

prop("C12", "Protective and switched devices end in a state consistent with the solution",
 "When device control is on and a three-phase power flow succeeds, every intact fuse carries at most its current limit in the returned solution, every voltage-controlled capacitor is in the state its control rule demands (switched one way when its voltage is above its band, the other way when below, unchanged inside), and the voltages are the solution for those final states. With device control off, or for manually controlled devices, states are left as specified in the file.",
 ["inputs", "histories"], "all feeders with fuses, voltage-controlled and manual capacitors and manually set regulators, all initial states, limits and bands",
 "Tests cover a single capacitor or fuse file; sequences of several interacting devices are not tried.",
 ["src/logic/devicecontroller.py", "src/models/components/capacitor.py", "src/models/components/fuse.py", "src/models/components/regulator.py"],
 [("solve-adjust loop", "DeviceController.run_powerflow"), ("device rules", "try_adjust_device of Capacitor and Fuse")])

prop("C13", "Infeasibility analysis finds stationary currents that restore solvability",
 "With infeasibility analysis enabled, a successful run returns voltages and compensating currents that satisfy the network equations with those currents added, and that are a stationary point of the sum of squared compensating currents. On a network that is solvable without compensation the currents vanish and the voltages equal the ordinary solution.",
 ["inputs", "configurations"], "all feeders and transmission cases, feasible or overloaded, to which the quadratic infeasibility formulation is attached",
 "Tests check success and approximate totals on a few cases; optimality and the exact balance are not checked.",
 ["src/models/optimization/L2infeasibility.py", "src/logic/stamping", "src/logic/powerflowresults.py"],
 [("slack currents and multipliers", "src/models/optimization/L2infeasibility.py"), ("stationarity equations of every component", "src/logic/stamping/lagrangesegment.py")])

prop("C14", "Voltage limiting bounds steps without changing solutions",
 "When voltage limiting is enabled for a transmission case, no bus voltage component changes by more than 1 per unit or leaves the range of -2 to 2 per unit between successive iterates, and no other unknown is altered. When a run with limiting succeeds its voltages satisfy the same equations as without, and components that need no limiting are untouched.",
 ["inputs", "histories"], "all networks, index layouts and pairs of successive iterates, including huge, negative and exactly-at-bound values",
 "Tests enable limiting on a few cases that converge anyway; the clipping rule itself is never observed.",
 ["src/logic/v_limiting.py", "src/logic/nrsolver.py"], [("clipping", "PositiveSeqVoltageLimiting.apply_limiting")])

prop("C15", "Homotopy only relaxes intermediate problems, never the reported answer",
 "A run that reports success after relaxation stepping has solved the original, unrelaxed network to tolerance, with the relaxation fraction reported as fully removed; at zero relaxation every element's equations are exactly the physical ones. A run whose relaxation could not be removed is reported as unsuccessful with the fraction at which it stopped.",
 ["inputs", "configurations"], "all networks, starting points and failure points along the relaxation path",
 "Tests use stepping on cases that converge; no test inspects what was solved at the end or at a failing step.",
 ["src/logic/homotopycontroller.py", "src/logic/nrsolver.py", "src/models/components/line.py", "src/models/components/transformer.py"],
 [("stepping loop", "HomotopyController.run_powerflow"), ("relaxed element equations", "models/components")])

prop("C16", "Reported results and CSV files state exactly the solution found",
 "For every solved network each non-virtual node and phase appears exactly once with the magnitude and angle of its solved voltage, and generators, swing buses and loads appear once each with the active and reactive power the solution implies. The voltage and power CSV files contain exactly these rows, rounded to the printed digits, and contain a failure mark and no numbers when the run failed.",
 ["inputs"], "all networks, solved or failed, including zero voltages, negative angles and non-zero swing angles",
 "Tests look at bus voltages of fixed cases; the power report and the CSV content are unchecked.",
 ["src/logic/powerflowresults.py"], [("result construction and output", "src/logic/powerflowresults.py")])

prop("C17", "Time-series runs equal independent runs with each hour's loads",
 "For any load profile and hour range, the result for an hour equals a single power flow of the network whose named loads have that hour's apparent power at their own power factor, independently of which hours were run before; unnamed loads keep their values. One result and one pair of output files exist for each hour in the range and for no other.",
 ["histories", "inputs"], "all feeders without automatically switched devices, load tables (including zero hours and columns that name no load) in which each column names at most one constant-power load, and hour ranges inside the table",
 "The tests run one fixed profile and check success; carry-over between hours is not compared with fresh runs.",
 ["src/logic/network/timeseriesprocessor.py"], [("hourly load assignment", "TimeSeriesProcessor.set_load_values"), ("load naming", "TimeSeriesProcessor.get_load_name")])

prop("C18", "Load scaling multiplies every load's power and nothing else",
 "Applying load factors multiplies the constant active power of every load by the first factor and the constant reactive power by the second, changing no other quantity; factor one is the identity and successive factors multiply. Running the solver from the command line without a load factor solves the file's own loads.",
 ["inputs", "histories"], "all networks and all finite factors, including zero, negative and repeated application",
 "Only a few fixed factors are used, on one case.",
 ["src/logic/network/loadfactor.py", "src/run_solver.py"], [("scaling", "modify_load_factor")])

prop("C19", "Each element's terminal currents obey its physical law",
 "For any parameter values and any terminal voltages, the equations an element contributes are those of the physical device: impedance elements obey Ohm's law, transformers with any ratio and phase shift conserve power in the ideal part with series loss on the secondary, centre-tap and delta windings balance currents across terminals, regulators follow their tap law within tap limits, constant-power, -current and -impedance loads draw exactly their specified values, generators hold power and voltage, and sources hold voltage. What flows into one terminal of a two-terminal element leaves by the other.",
 ["inputs"], "all parameter values, terminal voltages, grounded or ungrounded terminals, for every element type",
 "Tests see elements only inside solved feeders close to nominal voltage.",
 ["src/models/components"], [("element equations", "src/models/components/*.py")])

prop("C20", "Selecting an island keeps exactly that island, intact",
 "Selecting the island of a given bus removes every bus and conducting element outside that island and keeps every bus and element inside it unchanged, so that the solution equals that of a file containing only that island.",
 ["inputs", "configurations"], "all feeders split by open switches into any number of islands, and all choices of the island",
 "One test selects one island of one file.",
 ["src/logic/network/timeseriesprocessor.py", "src/logic/graphanalyzer.py"], [("element removal", "TimeSeriesProcessor.select_island")])

prop("C21", "Success is reported only for solutions whose mismatch is within tolerance",
 "Every run ends with a result or an exception; a result marked successful has finite voltages and a maximum equation mismatch below the requested tolerance when re-evaluated at the returned solution, and the reported maximum residual is that mismatch. A network with no solution (for example loads beyond the transfer limit) is never reported as solved, and no Newton solve uses more iterations than allowed.",
 ["inputs", "configurations"], "all networks and loadings from no load to beyond collapse, any tolerance and iteration limit, stepping on or off",
 "Tests use solvable cases and assert success; the honesty of the flag near and beyond the solvability limit is untested.",
 ["src/logic/nrsolver.py", "src/logic/homotopycontroller.py", "src/logic/residualdetails.py", "src/logic/powerflowresults.py"],
 [("convergence test", "NRSolver.run_powerflow"), ("residual evaluation", "MatrixStamper.calc_residuals")])

prop("C22", "Solutions respect the symmetries of the physical problem",
 "Renaming objects, permuting the phases of the whole feeder consistently, rotating all source angles by a common angle, splitting a line into two consecutive pieces, splitting a load into parts, or scaling all voltages and powers consistently changes the solution exactly as physics prescribes.",
 ["inputs"], "all supported networks and all such transformations",
 "Tests never compare two related networks.",
 ["src/logic", "src/models/components", "src/ditto/readers/gridlabd"], [("whole solve path", "src/logic/powerflow.py")])

prop("C23", "The command-line solver reports what the library computes",
 "For any supported case file and option combination the command-line program solves the same network with the requested settings, writes the requested output files with the same contents as the library call would, and reports an unsuccessful solve or an unreadable case as such.",
 ["configurations", "inputs"], "all combinations of case type (local file or URL), infeasibility, stepping, load factor, verbosity, output, time-series and microgrid options that the library accepts",
 "No test runs the program's entry point.",
 ["src/run_solver.py"], [("argument handling", "src/run_solver.py")])

prop("C24", "Loads, transformers and devices are read with the values the GLM file states",
 "Every load, node, transformer, regulator, capacitor, switch and fuse in a supported GLM file yields model objects with the phases, connection, nominal voltage, complex powers, impedances, ratings, taps and states the file specifies, converted to base units, one per phase connection, and with nothing invented or dropped.",
 ["inputs"], "all supported object kinds, phase strings, property combinations, complex-number notations and attached units",
 "Fixed test files use a small part of the property combinations and are compared only through solved voltages.",
 ["src/ditto/readers/gridlabd/read.py", "src/ditto/readers/gridlabd/load_parser.py", "src/logic/network/parsers/threephase"],
 [("object readers", "src/ditto/readers/gridlabd/read.py, load_parser.py"), ("model construction", "src/logic/network/parsers/threephase/*.py")])

prop("C25", "Microgrid runs flag exceeded ratings exactly and balance the swing bus",
 "A successful time-series or microgrid snapshot is marked as violating equipment ratings exactly when some line phase's series current exceeds its conductor's emergency rating, some transformer winding carries more than its share of the transformer's power rating, or some node's voltage is 5 % or more off nominal. With negative loads named for an artificial swing bus, a run that ends leaves that bus supplying and absorbing essentially nothing, by changing only the named loads' power, and its voltages are the solution with the changed loads.",
 ["inputs", "configurations"], "all feeders, ratings on any subset of conductors and transformers, loadings, and placements and initial outputs of the three-phase negative load",
 "One fixed time-series run is tested for success; the flag and the balance are never compared with computed currents.",
 ["src/logic/network/timeseriesprocessor.py", "src/logic/powerflowresults.py", "src/models/components/unbalanced_line.py"],
 [("rating checks", "TimeSeriesProcessor.violates_equipment_ratings"), ("balancing", "TimeSeriesProcessor.adjust_generator_output")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
