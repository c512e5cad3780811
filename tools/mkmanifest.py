#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per harness that exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("property-based testing: differential, mps executable against a brute-force reference model, step by step", "end to end: generated settings and particle files, binary VTU of every step compared with an independent long-double evaluation; small systems (up to about 80 particles), a few steps per run"),
 "C02": ("stateful property-based testing against brute-force neighbour lists, ASan/UBSan", "every list of every search compared with all pairs; distances within 1e-12 of the radius may go either way"),
 "C03": ("property-based testing with hostile positions (NaN, infinities, huge, boundary) and twin runs, ASan/UBSan", "in-process steps; influence judged by comparison with a run without the ghost"),
 "C04": ("stateful property-based testing of run invariants, bit-exact", "bitwise comparison over generated histories"),
 "C05": ("property-based testing against an independent lattice sum", "brute-force long-double sums"),
 "C06": ("property-based testing against brute-force sums observed at the pressure calculator", "whole steps, all-pairs sums, rounding-scaled tolerance"),
 "C07": ("property-based testing against closed-form trajectories", "in-process steps of isolated particles"),
 "C08": ("property-based testing: differential and metamorphic (momentum, spread, uniform velocity)", "prediction phase observed with a zero-pressure stub"),
 "C09": ("property-based testing: collision invariants and a differential pair model", "conservation for every system, exact outcome for systems without multiple collisions"),
 "C10": ("property-based testing against an independent classifier", "states within 1e-9 of a threshold are not judged"),
 "C11": ("property-based testing against a dense long-double solve of the documented system", "small systems, tolerance scaled with the inverse norm; nearly singular systems are only checked for sign, zeros and finiteness"),
 "C12": ("property-based testing against the equation of state", "in-process calculator and whole steps"),
 "C13": ("property-based testing with generated pressure fields through a stub calculator", "differential against the formula, metamorphic for equal pressures and pairs"),
 "C14": ("stateful property-based testing of the Courant number and its message", "in-process steps, standard error captured per step"),
 "C15": ("property-based testing of the time loop through the mps executable against a schedule model", "one free particle whose position tells the step; ties within accumulated rounding may go either way"),
 "C16": ("property-based round-trip and generated-notation testing", "independent parser and printer"),
 "C17": ("property-based round-trip and column-permutation testing", "independent parser and printer"),
 "C18": ("property-based round-trip testing with an independent XML/VTK reader", "independent parser and printer"),
 "C19": ("property-based testing with an independent appended-raw reader, bit-exact", "independent reader written from the VTK file format rules"),
 "C20": ("property-based testing with YAML printed in generated notations, and omission/mistype faults", "in-process loads and mps runs"),
 "C21": ("property-based testing of mps over generated directory layouts, byte comparison before and after", "every file of the scratch tree is compared"),
 "C22": ("property-based testing with broken and mutated files and coverage-guided fuzzing (libFuzzer) against a three-valued oracle, ASan/UBSan", "only files the documentation makes clearly broken must be refused; every accepted value is compared with the file"),
 "C23": ("property-based fault injection: full device, file size limits, uncreatable files", "mps and in-process exporters"),
 "C24": ("stateful property-based testing of the generator dialogue against a model, and a geometry oracle", "generators run in scratch directories"),
 "C25": ("property-based differential testing: script plus CSV loader against profile loader", "in-process loaders on both files"),
 "C26": ("property-based schedule testing: controlled OpenMP runtime with generated schedules, and ThreadSanitizer runs", "bitwise comparison with the serial build"),
 "C27": ("property-based testing: repeated and restarted runs, bitwise", "mps twice on the same input; fresh simulation from every intermediate state"),
 "C28": ("metamorphic property-based testing under frame changes and renumbering", "rounding-scaled tolerance, threshold cases not judged"),
 "C29": ("property-based testing of an equilibrium invariant", "generated blocks, radii and densities over several steps"),
 "C30": ("property-based testing of the scripts with a stand-in for mps over generated directory trees, names and call sequences", "runs as an unprivileged user with recording stand-ins for rm and date; runner.ps1 cannot be run here"),
 "C31": ("property-based testing of the console log against closed-form trajectories and a schedule model", "particles in free flight; elapsed times are only bounded, the estimates remain/ave/last are not judged"),
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/harness/prop_{i}.cpp"):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i][0], "level": "exploration",
                       "level_note": TECH[i][1] + ". Random search: no failure found is evidence, not proof."})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks build the harness from /repo's working tree without hooks; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
