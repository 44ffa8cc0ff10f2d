# Which harness binary decides which property, in which build flavour, and how much work each tier does.
# lib: none | cmd (command/pattern sources) | full (whole DRAMPower library) | cli (full + CLI library + validators)
PROPS = {}

def prop(pid, *jobs, rule, assumptions=()):
    PROPS[pid] = dict(jobs=list(jobs), rule=rule, assumptions=list(assumptions))

def job(src, flavor="plain", lib="full", quick=2000, thorough=None, cpu=60, wrap=None, name=None, only=None, parts=None, threads=0):
    name = name or src.split("/")[-1].rsplit(".", 1)[0]
    return dict(wrap=wrap, name=name, only=only, parts=parts, threads=threads, src=src, flavor=flavor, lib=lib, quick=quick,
                thorough=thorough if thorough is not None else quick * 15, cpu=cpu)

STUB = ["The DRAMUtils dependency (memory-specification JSON parsing) is not available offline; /verif/stub supplies a "
        "structural replacement generated from the repository's own resource files, validated by the repository's full gtest suite."]

prop("P17", job("props/p17_bitset.cpp", flavor="san", lib="none", quick=60000),
     rule="A case is a random operation history on a bit container; distinct = hash of (container, length, operation sequence, resulting bits).")
prop("P18", job("props/p18_pattern.cpp", flavor="san", lib="cmd", quick=60000), job("props/p05_command_bus.cpp", quick=15000, name="p18_interfaces"),
     rule="A case is a history of pattern registrations, override changes, snapshots and encodings; distinct = hash of the produced bit patterns.",
     assumptions=STUB)
prop("P19", job("props/p19_primitives.cpp", flavor="san", lib="iface", quick=40000), job("props/p07_toggling.cpp", quick=12000, parts="handle,databus", name="p19_modes"),
     rule="A case is a history of loads/edges/switches/snapshots on one primitive with observations in between; distinct = hash of configuration and observed totals.",
     assumptions=STUB)
prop("P13", job("props/p13_implicit.cpp", flavor="san", lib="none", quick=60000), job("props/p13_effects.cpp", quick=8000),
     rule="A case is a random history of queueing delayed effects and advancing time; distinct = hash of delays and executed counts.")
prop("P23", job("props/p23_extensions.cpp", flavor="san", lib="ext", quick=12000), job("props/p23_switches.cpp", quick=12000),
     rule="A case is a set of extensions with random hook masks, registration order and hook calls; distinct = hash of masks/order/calls.", assumptions=STUB)
prop("P24", job("props/p24_dispatch.cpp", flavor="san", lib="cmd", quick=40000), job("props/p24_simulators.cpp", quick=16000),
     rule="A case is a router with random (re-)registrations and dispatched commands, a random command object, or a name table pass; distinct = hash of dispatches or strings.", assumptions=STUB)
prop("P02", job("props/p02_timeline.cpp", quick=20000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="core", name="endurance_core"),
     rule="A case is one generated legal command history on one random memory specification; distinct = hash of organisation, command types, targets and times.", assumptions=STUB)
prop("P01", job("props/p01_conservation.cpp", quick=16000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="both", name="endurance_both"),
     rule="A case is one generated legal command history on one random memory specification; distinct = hash of organisation, command types, targets and times.", assumptions=STUB)
TWIN = "A case is a generated history of commands and switches applied to twins; distinct = hash of organisation, command types, targets and times."
prop("P09", job("props/p09_observers.cpp", quick=9000), job("props/endurance.cpp", quick=16, thorough=64, cpu=400, parts="observed", name="endurance_observed"), rule=TWIN, assumptions=STUB)
prop("P10", job("props/p10_snapshot.cpp", quick=10000), rule=TWIN, assumptions=STUB)
prop("P11", job("props/p11_isolation.cpp", quick=8000), rule=TWIN, assumptions=STUB)
prop("P12", job("props/p12_copies.cpp", flavor="san", quick=3200), rule=TWIN, assumptions=STUB)
REC = "A case is a random activity record or a simulated history on one random memory specification; distinct = hash of the record or history."
prop("P03", job("props/p03_core_energy.cpp", quick=20000), rule=REC, assumptions=STUB)
prop("P04", job("props/p04_interface_energy.cpp", quick=40000), rule=REC, assumptions=STUB)
prop("P16", job("props/p16_records.cpp", flavor="san", quick=12000), rule=REC, assumptions=STUB)
prop("P14", job("props/p14_memspec.cpp", flavor="san", quick=6000), rule="A case is one random memory specification document (or one shipped document), converted five ways; distinct = hash of the document.", assumptions=STUB)
prop("P05", job("props/p05_command_bus.cpp", quick=50000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="command", name="endurance_command"), rule=TWIN, assumptions=STUB)
prop("P06", job("props/p06_data_bus.cpp", quick=50000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="data", name="endurance_data"), rule=TWIN, assumptions=STUB)
prop("P07", job("props/p07_toggling.cpp", quick=50000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="toggling", name="endurance_toggling"), rule=TWIN, assumptions=STUB)
prop("P08", job("props/p08_inversion.cpp", flavor="san", quick=24000), job("props/endurance.cpp", quick=48, thorough=64, cpu=400, parts="inversion", name="endurance_inversion"), rule=TWIN, assumptions=STUB)

MIX = "A case is one generated history with a random mix of all public operations (queries, switches, copies, moves, assignments, snapshots, restores); distinct = hash of every observation made."
prop("P20", job("props/p20_memory.cpp", flavor="san", quick=4000), job("props/p20_uninit.cpp", quick=2400),
     job("props/p20_uninit.cpp", quick=80, thorough=2400, wrap="memcheck", name="p20_memcheck", cpu=400),
     # the building blocks and the tool on their own: only crashes, sanitizer and memcheck reports decide here, functional differences belong to the other properties
     job("props/p17_bitset.cpp", flavor="san", lib="none", quick=8000, only="crash", name="p20_bitset"),
     job("props/p18_pattern.cpp", flavor="san", lib="cmd", quick=16000, only="crash", name="p20_pattern"),
     job("props/p19_primitives.cpp", flavor="san", lib="iface", quick=16000, only="crash", name="p20_primitives"),
     job("props/p13_implicit.cpp", flavor="san", lib="none", quick=16000, only="crash", name="p20_queue"),
     job("props/p23_extensions.cpp", flavor="san", lib="ext", quick=6000, only="crash", name="p20_extensions"),
     job("props/p24_dispatch.cpp", flavor="san", lib="cmd", quick=8000, only="crash", name="p20_dispatch"),
     job("props/p14_memspec.cpp", flavor="san", quick=1600, only="crash", name="p20_memspec"),
     job("props/p16_records.cpp", flavor="san", quick=3000, only="crash", name="p20_records"),
     job("props/p15_cli.cpp", flavor="rel", lib="cli", quick=6000, only="crash", name="p20_tool"),
     job("props/p17_bitset.cpp", lib="none", quick=240, thorough=4000, only="crash", wrap="memcheck", name="p20_bitset_memcheck", cpu=400),
     job("props/p18_pattern.cpp", lib="cmd", quick=400, thorough=6000, only="crash", wrap="memcheck", name="p20_pattern_memcheck", cpu=400),
     job("props/p19_primitives.cpp", lib="iface", quick=240, thorough=4000, only="crash", wrap="memcheck", name="p20_primitives_memcheck", cpu=400),
     job("props/p23_extensions.cpp", lib="ext", quick=160, thorough=2000, only="crash", wrap="memcheck", name="p20_extensions_memcheck", cpu=400),
     rule=MIX, assumptions=STUB)
prop("P21", job("props/p21_threads.cpp", flavor="tsan", quick=240),
     # the building blocks from several threads at once
     job("props/p13_implicit.cpp", flavor="tsan", lib="none", quick=800, threads=6, name="p21_queue"),
     job("props/p14_memspec.cpp", flavor="tsan", quick=160, threads=6, name="p21_memspec"),
     job("props/p16_records.cpp", flavor="tsan", quick=400, threads=6, name="p21_records"),
     job("props/p17_bitset.cpp", flavor="tsan", lib="none", quick=400, threads=6, name="p21_bitset"),
     job("props/p18_pattern.cpp", flavor="tsan", lib="cmd", quick=800, threads=6, name="p21_pattern"),
     job("props/p19_primitives.cpp", flavor="tsan", lib="iface", quick=400, threads=6, name="p21_primitives"),
     job("props/p08_inversion.cpp", flavor="tsan", quick=400, threads=6, name="p21_inversion"),
     job("props/p07_toggling.cpp", flavor="tsan", quick=400, threads=6, name="p21_toggling"),
     job("props/p23_extensions.cpp", flavor="tsan", lib="ext", quick=400, threads=6, name="p21_extensions"),
     job("props/p24_dispatch.cpp", flavor="tsan", lib="cmd", quick=400, threads=6, name="p21_dispatch"), rule=MIX, assumptions=STUB)

prop("P22", job("props/p22_rejection.cpp", flavor="rel", quick=8000),
     rule="A case is a legal history interleaved with invalid commands, or a set of invalid configurations; distinct = hash of organisation, history and number of rejections.", assumptions=STUB)

prop("P15", job("props/p15_cli.cpp", flavor="rel", lib="cli", quick=30000),
     rule="A case is a generated trace, corrupted trace, configuration, complete tool run with generated files, or file-system layout with queried paths; distinct = hash of the text, history or layout.", assumptions=STUB)
