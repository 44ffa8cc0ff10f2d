#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below, for the properties configured in config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from config import PROPS
S = "src/DRAMPower/DRAMPower/"
CORES = [S + f"standards/{d}/{n}Core.cpp" for d, n in (("ddr4", "DDR4"), ("ddr5", "DDR5"), ("lpddr4", "LPDDR4"), ("lpddr5", "LPDDR5"), ("lpddr6", "LPDDR6"))]
CCALC = [S + f"standards/{d}/core_calculation_{n}.cpp" for d, n in (("ddr4", "DDR4"), ("ddr5", "DDR5"), ("lpddr4", "LPDDR4"), ("lpddr5", "LPDDR5"), ("lpddr6", "LPDDR6"))]
ICALC = [p.replace("core_calculation", "interface_calculation") for p in CCALC]
IFACE = [p.replace("Core.cpp", "Interface.cpp") for p in CORES]
MEM = [S + f"memspec/MemSpec{n}.cpp" for n in ("DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6")]
TESTS = "The 22 reliable tests exercise only the bit container and the interval counter; the other unit tests replay a handful of fixed traces with hand-computed numbers."
P = {}
def d(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state or [])

d("P01", "Every bank-cycle and rank-cycle is attributed to exactly one power state",
  "For every legal command history and every query time, the cycles a bank is reported as active, precharged, in active or precharged power-down, in self-refresh and in deep sleep add up to exactly the elapsed cycles, and no share ever exceeds the elapsed time. The same holds per rank, a rank is never active without an active bank, every command is counted in exactly the banks it addresses, and no counter decreases when time advances.",
  ["histories", "configurations", "inputs"], "All five standards; random organisations, timings, rank and bank counts; random legal command histories with power-down, refresh, self-refresh and auto-precharge; query times at, between and after commands.",
  "Conservation must hold for every interleaving of state changes with query times. " + TESTS, CORES + [S + "dram/Rank.cpp", S + "util/cycle_stats.h"],
  [("interval counters per bank and rank", S + "util/cycle_stats.h"), ("window statistics", CORES[0] + " getWindowStats")],
  "runtime monitoring: conservation monitor over simulated histories", "Holds on the histories explored; evaluates the reported numbers only, no reference model needed.")
d("P02", "Core activity statistics equal a command-by-command timeline model",
  "For every legal command history, the reported command counts and the cycles each bank and rank spent in every power state equal those of an independent timeline built from the same commands: delayed power-down entry, refresh followed by an implicit precharge, auto-precharge, per-bank, same-bank, dual-bank and all-bank refresh, self-refresh and deep sleep all take effect at the times the memory specification implies. This holds at every query time and for any number of ranks.",
  ["histories", "configurations", "inputs"], "All five standards, random memory specifications (timings, organisation, refresh modes), 1-4 ranks, random legal histories with hostile spacing (back-to-back, exactly at, one before and one after every internal deadline).",
  "Order and spacing relative to the internal deadlines decide the result. " + TESTS, CORES + [S + "dram/Rank.cpp", S + "dram/Bank.h", S + "util/ImplicitCommandHandler.h"],
  [("command handlers", CORES[0]), ("delayed implicit commands", S + "util/ImplicitCommandHandler.h")],
  "runtime monitoring: executable reference timeline compared online", "Holds on the histories explored; trusts the independent timeline model in /verif/harness/sim.")
d("P03", "Core energy follows the documented current model for every bank and rank",
  "For every activity record and memory specification, each reported energy component of each bank, device and rank equals the published current-times-voltage-times-duration model evaluated with that bank's and rank's own activity, summed over all voltage domains. The reported total is exactly the sum of the reported components, and the aggregated bank energy is the sum over all banks plus the shared background.",
  ["inputs", "configurations", "histories"], "All five standards, random currents, voltages, timings, bank-wise parameters, ranks and devices; activity from simulated histories and random activity records.",
  "A formula must hold for every combination of parameters. " + TESTS, CCALC + [S + "data/energy.cpp"],
  [("energy formulas", CCALC[0]), ("totals", S + "data/energy.cpp")],
  "runtime monitoring: independent re-evaluation of the energy model per observed result", "Holds on the configurations explored up to floating-point rounding (relative 1e-9).")
d("P04", "Interface energy follows the documented termination and switching model",
  "For every interface activity record and memory specification, the reported static and dynamic interface energy of the controller and of the device equals the documented sum of termination and switching terms, each attributed to the side that drives the signal. Termination flags, dynamic energy parameters, clock, strobe, command and data contributions each enter exactly once.",
  ["inputs", "configurations", "histories"], "All five standards; random impedances, termination flags, dynamic energies and rates; activity from simulated histories and random activity records, with and without toggling rates.",
  "A formula must hold for every combination of parameters. " + TESTS, ICALC, [("interface formulas", ICALC[0])],
  "runtime monitoring: independent re-evaluation of the interface model per observed result", "Holds on the configurations explored up to floating-point rounding (relative 1e-9).")
d("P05", "Command-bus activity equals the bit patterns the standard's commands drive",
  "For every command history, the ones, zeroes and transitions reported for the command bus equal those of the documented command truth table with the command's bank, row and column bits, driven at the command's time and followed by the idle level. Don't-care bits repeat or hold the documented level and never disturb address bits.",
  ["histories", "inputs"], "All five standards, random coordinates and command spacings (down to back-to-back), all supported commands.",
  "Each pattern bit depends on coordinates and on the preceding command. " + TESTS, IFACE + [S + "dram/Interface.cpp", S + "command/Pattern.cpp", S + "util/bus.h"],
  [("pattern tables", IFACE[0] + " registerPatterns"), ("pattern encoder", S + "command/Pattern.cpp"), ("bus accounting", S + "util/bus.h")],
  "runtime monitoring: beat-level reference bus compared at query times", "Holds on the histories explored; the truth tables are transcribed independently in /verif/harness/sim.")
d("P06", "Data-bus, strobe and clock activity equals the transferred data, beat by beat",
  "For every history of reads and writes with payloads, the reported ones, zeroes and transitions on the read and write data buses equal those of the transferred bits in transmission order with idle levels in between, and strobe activity covers exactly the transferred bursts (a burst that has started counts in full) and clock activity the cycles in which the clock runs. Reads never appear on the write bus and vice versa.",
  ["histories", "inputs", "configurations"], "All five standards, all supported data widths and burst lengths, random payloads and spacings including seamless bursts.",
  "Transitions depend on neighbouring beats and idle gaps. " + TESTS, IFACE + [S + "util/databus.h", S + "util/bus.h", S + "util/clock.h", S + "util/burst_storage.h"],
  [("data bus", S + "util/databus.h"), ("clock", S + "util/clock.h")],
  "runtime monitoring: beat-level reference bus compared at query times", "Holds on the histories explored.")
d("P07", "Toggling-rate mode reports activity proportional to rate, duty cycle and data",
  "When data content is replaced by a toggling rate, the reported data-bus activity equals the number of transferred beats scaled by the configured toggling rate and duty cycle (rounded per bus), plus the configured idle level for the remaining time, separately for reads and writes. No payload influences the result and no per-bit data activity is reported in that mode.",
  ["histories", "configurations"], "All rates and duty cycles in [0,1], all idle levels, all five standards, random read/write histories, arbitrary query times.",
  "Must hold for all rates and histories. " + TESTS, [S + "util/databus.h", S + "util/databus_types.h"] + IFACE, [("toggling handle", S + "dram/Interface.cpp")],
  "runtime monitoring: reference toggling accounting compared at query times", "Holds on the histories explored; rounding is allowed one unit only where the product is integral within 1e-6.")
d("P08", "Data bus inversion drives the cheaper form and reports it on the DBI signal",
  "With data bus inversion enabled, every group of data bits is driven in the form with the fewer costly levels, the inversion signal reports exactly the inverted groups for as long as they are driven, and data-bus activity is that of the driven form. With inversion disabled, data is driven unchanged and the inversion signal stays idle; switching it takes effect from the given time on.",
  ["histories", "inputs", "configurations"], "DDR4, LPDDR4, LPDDR5, LPDDR6; random payloads including ties and extreme patterns; enable/disable at arbitrary times; seamless and gapped bursts.",
  "The decision depends on every bit of each group and on the neighbouring groups. " + TESTS, [S + "util/dbi.h", S + "util/dbialgos.h", S + "util/dbihelpers.h", S + "util/pin.h", IFACE[0], IFACE[2], IFACE[3], IFACE[4]],
  [("inversion decision", S + "util/dbialgos.h"), ("inversion signal", S + "util/pin.h")],
  "runtime monitoring: per-group reference decision plus reference line, under ASan/UBSan", "Holds on the histories explored.")
d("P09", "Reading statistics never changes the simulation and is repeatable",
  "As long as commands and queries follow in time order, querying statistics or energy any number of times, at any time at or after the last command, never changes any later result: a simulation with interspersed queries reports the same as one without. Repeating a query gives the same answer, counters never decrease with the query time, and with no activity in between they grow linearly.",
  ["histories", "schedules"], "All five standards, random legal histories with random interleavings of queries.",
  "Quantifies over all placements of queries. " + TESTS, CORES + IFACE + [S + "dram/dram_base.h"], [("window statistics", CORES[0]), ("dispatch", S + "dram/dram_base.h")],
  "runtime monitoring: twin executions with and without observers", "Differential: needs no reference model.")
d("P10", "A restored snapshot continues exactly like the original",
  "A snapshot taken whenever the simulator reports it can be taken, restored into a freshly built simulator of the same configuration, reports the same statistics and energies as the original, and both stay identical for every continuation. Snapshotting does not change the original, taking it twice gives the same bytes, and a snapshot of the restored simulator is as good as the first.",
  ["histories", "crash_points", "configurations"], "All five standards, with data, toggling rates and inversion; snapshot at random points of random histories, random continuations.",
  "Any forgotten or mis-typed field shows only for particular state at the snapshot and a particular continuation. " + TESTS, [S + "dram/dram_base.h", S + "util/Serialize.h", S + "util/Deserialize.h"] + CORES + IFACE,
  [("serialization", S + "dram/dram_base.h"), ("serialization of state holders", S + "util/bus.h")],
  "runtime monitoring: twin executions, original versus restored", "Differential: needs no reference model.")
d("P11", "Ranks and banks are isolated and interchangeable",
  "Commands to one rank never change another rank's reported activity or background energy, and per-bank commands never change another bank's counters. Renaming ranks or banks consistently in a history renames the results and nothing else.",
  ["histories", "configurations"], "Multi-rank configurations of all five standards; random histories; random permutations.",
  "Quantifies over all interleavings of ranks. " + TESTS, CORES + CCALC, [("per-rank state", S + "dram/Rank.h"), ("attribution", CCALC[0])],
  "runtime monitoring: metamorphic twin executions (projection, permutation)", "Differential: needs no reference model.")
d("P12", "Copied and moved simulators are independent and equivalent",
  "A copy of a simulator reports the same as its source and continues identically; commands, switches and destruction of either never influence the other. A moved simulator continues as if it had not been moved.",
  ["histories", "programs"], "All five standards, copy construction, copy assignment, move construction and move assignment at random points of random histories, with extensions in use.",
  "Quantifies over all points at which a copy can be taken and all continuations. " + TESTS, [S + f"standards/{a}/{b}.h" for a, b in (("ddr4", "DDR4"), ("ddr5", "DDR5"), ("lpddr4", "LPDDR4"), ("lpddr5", "LPDDR5"), ("lpddr6", "LPDDR6"))] + IFACE,
  [("copy and move operations", S + "standards/ddr4/DDR4.h")], "runtime monitoring: twin executions under ASan/UBSan", "Differential: needs no reference model.")
d("P13", "Delayed effects happen exactly once, in time order, never early",
  "Every delayed effect that was scheduled takes place exactly once, when time reaches its due time and not before, ordered by due time and by scheduling order among equal times. The reported time of the last effect is the due time of the last one that took place.",
  ["histories", "schedules"], "Random scheduling and time-advance histories with ties, past and far-future due times, copies and moves of the queue.",
  "Ordering must hold for every interleaving. The existing tests schedule a few fixed entries.", [S + "util/ImplicitCommandHandler.h"], [("sorted queue", S + "util/ImplicitCommandHandler.h")],
  "runtime monitoring: history checker against a model queue, under ASan/UBSan", "Holds on the histories explored.")
d("P14", "Memory specifications are taken over completely and faithfully",
  "Every timing, current, voltage, impedance, organisation and mode value of a memory specification document reaches the simulator's parameter of the same meaning for the selected standard and refresh or bank mode, in the documented unit, with documented defaults where it is optional. Derived parameters equal their documented formula.",
  ["inputs", "configurations"], "All five standards, random documents with all values distinct, every mode, with and without each optional entry.",
  "Swapped or dropped fields show only when values differ; tests load a few fixed documents.", MEM + [S + "memspec/MemSpec.h"], [("conversion", MEM[0])],
  "runtime monitoring: field-by-field comparison against the generated document", "Trusts the stand-in for the JSON dependency.")
d("P15", "Command-line trace and configuration handling is faithful and rejects bad input",
  "Every row of a well-formed trace becomes exactly one command with the row's time, type, coordinates and payload, in order; missing columns, malformed numbers and malformed payloads, configurations and specifications are reported as failure instead of being misread or aborting. Result files and printed results contain exactly the energies the library computes, entry by entry, and a result that cannot be written is a failure. Output-path validation accepts, resolves, creates or rejects a path as the file system defines it, without touching anything else.",
  ["inputs", "fault_sequences"], "Random well-formed and corrupted traces, configurations and memory specifications; random file-system layouts with files, directories, links, link chains and cycles.",
  "Quantifies over all inputs; the official tests do not run the command line at all.", ["src/cli/lib/DRAMPower/cli/run.cpp", "src/cli/lib/DRAMPower/cli/util.cpp", "src/cli/main/validators.cpp"],
  [("trace parser", "src/cli/lib/DRAMPower/cli/run.cpp"), ("output path validation", "src/cli/main/validators.cpp")],
  "runtime monitoring: round-trip and end-to-end oracle over generated inputs, under ASan/UBSan", "Holds on the inputs explored.")
d("P16", "Statistics and energy records add up and are written faithfully",
  "Adding statistics or energy records adds every component and nothing else, independent of order and grouping; zero is neutral. Totals are the sum of the components they name, and the structured output shows each component's own value under its own name.",
  ["inputs"], "Random records with all components distinct, including extreme values.",
  "Dropped or swapped components show only when values differ. " + TESTS, [S + "data/energy.h", S + "data/energy.cpp", S + "data/stats.h", S + "util/bus_types.h"], [("operators", S + "data/energy.cpp")],
  "runtime monitoring: algebraic and round-trip oracle on random records", "Holds on the records explored.")
d("P17", "Bit containers behave like an ideal sequence of bits",
  "Every operation on the bit containers and their views gives the result of the same operation on an ideal bit sequence of that length: indexing, growth, shifts, logic, counting, comparison, conversion and bursts. Equality depends only on the stored bits, and insertion, inversion and bursts never disturb other bits.",
  ["histories", "inputs"], "Random operation histories on all containers; lengths around block boundaries.",
  "Must hold for every length and history. The tests use a few fixed patterns.", [S + "util/dynamic_bitset.h", S + "util/sub_bitset.h", S + "util/burst_storage.h", S + "util/binary_ops.h"], [("blocks", S + "util/dynamic_bitset.h")],
  "runtime monitoring: model-based operation histories under ASan/UBSan", "Holds on the histories explored.")
d("P18", "Commands are encoded bit-exactly from pattern and coordinate",
  "Encoding a command places every selected bank, bank-group, row and column bit at its position, fixes constant bits, applies configured overrides, and fills remaining positions as documented, including repetition of the previously driven bit. LPDDR6 commands additionally carry correct parity and extended addressing in every 16-bit half.",
  ["inputs", "histories"], "Random patterns, coordinates, overrides and encoder histories, with snapshots in between.",
  "Quantifies over all coordinates and patterns. " + TESTS, [S + "command/Pattern.cpp", S + "command/Pattern.h", S + "util/PatternHandler.h", S + "standards/lpddr6/LPDDR6Pattern.cpp", S + "standards/lpddr6/LPDDR6Command.cpp"], [("encoder", S + "command/Pattern.cpp"), ("pattern handler", S + "util/PatternHandler.h")],
  "runtime monitoring: independent encoder compared per command under ASan/UBSan", "Holds on the inputs explored.")
d("P19", "Signal and time primitives account every driven beat and idle cycle once",
  "Buses, single lines, clocks and interval counters report for every instant exactly the level driven at that time: driven beats once, idle level in gaps, nothing while switched off. Transitions are counted between consecutive levels, observation never disturbs, and a restored primitive continues identically.",
  ["histories", "inputs", "configurations"], "Random load, edge, switch, snapshot and observation histories, all widths and rates, gaps from 0 to 2^40 cycles.",
  "Must hold for every history. " + TESTS, [S + "util/bus.h", S + "util/databus.h", S + "util/pin.h", S + "util/clock.h", S + "util/cycle_stats.h", S + "util/pending_stats.h"], [("bus", S + "util/bus.h"), ("line", S + "util/pin.h"), ("intervals", S + "util/cycle_stats.h")],
  "runtime monitoring: beat-level reference timelines under ASan/UBSan", "Holds on the histories explored.")
d("P20", "No legal use causes undefined behaviour, memory errors or aborts",
  "No legal configuration and command history, with any mix of queries, snapshots, copies, switches and output, makes the simulator access memory out of bounds or after its lifetime, read uninitialised state, overflow signed arithmetic, shift out of range or abort.",
  ["histories", "configurations", "inputs"], "All five standards; random memory specifications, organisations, histories and API mixes under address, undefined-behaviour and uninitialised-memory instrumentation.",
  "Memory errors need particular sizes and histories; the build's tests run without sanitizers.", ["src/DRAMPower/DRAMPower"], [("whole library", "src/DRAMPower/DRAMPower")],
  "sanitizers: ASan+UBSan, valgrind memcheck and uninitialised-memory poisoning twins over random API mixes", "A clean sanitizer run covers the executions produced only.")
d("P21", "Simulators used from different threads do not interfere",
  "Independent simulators driven concurrently from different threads behave exactly as if each ran alone, with no data race between them.",
  ["schedules", "histories"], "Up to 8 threads building, driving, copying and querying their own simulators of all standards concurrently.",
  "Hidden shared state shows only under concurrency; no test uses threads.", ["src/DRAMPower/DRAMPower"], [("no shared mutable state", "src/DRAMPower/DRAMPower")],
  "ThreadSanitizer plus result comparison with single-threaded runs", "Covers the interleavings produced.")
d("P22", "Invalid configurations, coordinates and data are rejected without a trace",
  "Also in release builds, inputs outside the documented domain - out-of-range ranks or banks, specifications of another standard, data buses wider than supported, undefined toggling idle patterns, bit indices beyond a container, lookups of unregistered patterns - are rejected with an error, commands a standard does not have are rejected or have no effect, and no rejected input changes any later result. Every input up to the last valid value is accepted.",
  ["inputs", "fault_sequences"], "Random valid inputs mutated to the first invalid value on each documented check.",
  "Boundaries of every check must be exact. " + TESTS, CORES + MEM, [("range checks", S + "util/RegisterHelper.h")],
  "runtime monitoring: boundary fault injection with twin comparison on an NDEBUG build under ASan/UBSan", "Holds on the faults injected.")
d("P23", "Extensions are found and called exactly as registered",
  "Every registered extension that supports a notification is called exactly once per notification, in registration order, and no other is called. Lookups find exactly the registered extensions, snapshots visit every extension in registration order, and the inversion and metadata switches report exactly what the device accepted.",
  ["histories", "configurations"], "Random sets of extensions, notification masks over all bit positions of 8 to 64-bit masks, registration orders and calls.",
  "Quantifies over masks and orders; the tests use three fixed extensions.", [S + "util/extension_manager.h", S + "util/extension_manager_static.h", S + "util/extensions.cpp", S + "util/extensions.h"], [("hook cache", S + "util/extension_manager.h")],
  "runtime monitoring: call-log checker over random registrations under ASan/UBSan", "Holds on the registrations explored.")
d("P24", "Commands reach exactly their handler and names identify command types",
  "Every command is handled exactly once by the handler last registered for its type, or by the default handler if there is none, with all its fields intact. Command names and types correspond one-to-one, and exactly the data-transferring types demand data.",
  ["inputs", "histories"], "All command types, random registration and dispatch histories, random strings.",
  "Quantifies over all types and strings; tests route a few fixed commands.", [S + "util/Router.h", S + "command/CmdType.h", S + "command/Command.cpp"], [("routing table", S + "util/Router.h"), ("names", S + "command/CmdType.h")],
  "runtime monitoring: dispatch log checker under ASan/UBSan", "Holds on the histories explored.")

EXTRA = os.path.join(HERE, "tools", "extra_props.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())

with open(HERE + "/properties.jsonl", "w") as f:
    for pid in sorted(P):
        if pid not in PROPS: continue
        p = P[pid]
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
        assert len(p["title"]) <= 80, pid
man = dict(version=1, setup_cmd="python3 run.py build", checks=[dict(property=pid, quick_cmd=f"python3 run.py {pid} quick", thorough_cmd=f"python3 run.py {pid} thorough",
           evidence_file=f"evidence/{pid}.json", technique=P[pid]["technique"], level="exploration", level_note=P[pid]["note"]) for pid in sorted(PROPS)],
           not_applicable=[], notes="No hooks in /repo: all monitors observe public interfaces. See DESIGN.md.")
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
missing = [p for p in PROPS if p not in P]
print("properties:", len([p for p in P if p in PROPS]), "not configured yet:", [p for p in P if p not in PROPS], "without text:", missing)
