#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection"
CLAIMED = {
 "C01": ("seeded search over interrupted transmissions, judged against closed-form waveforms", "Every transmitter is real code; sources, readers and interruptions are simulated. Assumes parameters inside each function's own assertions."),
 "C02": ("seeded search over stall positions with counted pulls and counted heap bytes", "Look-ahead is measured at the simulated source, memory by a counting allocator on the simulated thread."),
 "C03": ("seeded search over channel fault sequences with a per-symbol reference decision", "Decisions too close to zero for floating point (below 1e-9 of the symbol's energy) are not judged."),
 "C04": ("seeded schedules of many users on one simulated medium", "Users are threads under the seeded scheduler; the medium is a simulated sum. Carriers span whole half-cycles per chip, as the property says."),
 "C05": ("seeded byte-corruption sequences against a reference frame layout", "Corruption beyond two bytes is judged for containment only."),
 "C06": ("seeded long hop runs with symbol faults and interleaved streams", "Hops are inferred from the transmitted samples; cycles in which two hops fit a symbol equally well are judged only as far as the samples tell."),
 "C07": ("seeded channel fault sequences with a per-subcarrier reference", "Echoes and timing offsets stay within the cyclic prefix, as the property says."),
 "C08": ("seeded gain and fault sequences against the chaos recurrences", "Stream values are compared with a tolerance of 1e-9 per step of the recurrence, not along the whole chaotic orbit."),
 "C09": ("seeded channel fault sequences with a tone-energy reference", "Symbols whose two tone energies differ by less than 1e-9 are not judged."),
 "C10": ("seeded channel fault sequences over a simulated medium", "The block scrambling is the code's own; transmitter and receiver are judged together and per block."),
 "C11": ("seeded thread and stream schedules with crashes, compared with solo runs", "All interleavings happen at item boundaries of the streams, which are the only points where library code of two streams can alternate on one thread; across threads the code has no finer seam."),
 "C12": ("statistical judgement of noise drawn from simulator-owned entropy", "Statistical tests at about six sigma with seeds fixed by VERIF_SEED: deviations smaller than the sample resolves are not seen."),
 "C13": ("seeded thread and fork schedules with entropy faults, window matching over all streams", "Entropy, forks and clock are simulator-owned; real fork() is used for processes."),
 "C14": ("seeded Monte-Carlo links with simulator-owned entropy against the Q function", "Statistical tests at about six sigma."),
 "C15": ("seeded sources that end, stall or fail, against list definitions", "Sums are compared with a relative tolerance of 1e-9."),
 "C16": ("seeded jammer sequences against a direct DFT definition", "Streams hold whole blocks: the filter's own assertion excludes others."),
 "C17": ("seeded Python call sequences across threads with injected failures, in an embedded interpreter", "CPython and numpy are real; the module is linked into the simulator."),
 "C18": ("seeded mixed Python/Rust links over a faulty simulated channel", "CPython, numpy and kom_py are real."),
}
import re
src = open(os.path.join(HERE, "sim/src/props/mod.rs")).read()
built = {m.upper() for m in re.findall(r"Box::new\((c\d\d)::P\)", src)}
PURE = "pure numeric function of its arguments: no concurrency, time, I/O, faults or history for a simulation to vary; "
NA = {
 "C30": PURE + "a unit test or an interval proof decides it",
 "C31": PURE + "one call maps an array to an array (its use through Python call sequences is covered by C17)",
 "C32": PURE + "filter design is a closed formula",
 "C33": PURE + "a map's step is a formula (streams built on the maps are covered by C08, C10 and C11)",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMED and p in built:
        t, n = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
                           technique=f"{SIM}: {t}", level="exploration",
                           level_note="Seeded search, not exhaustive: no violation in the runs the evidence file counts. " + n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash sim/build.sh", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
