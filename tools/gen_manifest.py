#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection (seeded search)"
NOTE = ("Seeded search, not exhaustive: holds on every simulated run explored. Trusted: the simulator's from-scratch reference and its bookkeeping "
        "(shared interpreter for program bodies), rustc, and the naming discipline stated in DESIGN.md. ")
claims = {
 "C01": "Oracle: from-scratch evaluator; every demanded value and every observation of every executed body compared.",
 "C02": "Oracle: as C01 with projected observations, plus argument/result check of each mapping call and a re-execution oracle on projected values.",
 "C03": "Oracle: each body execution must be justified by a changed recorded observation; at most one run per demand.",
 "C04": "Oracle: bodies run only within a demand and only if the from-scratch evaluation of that demand runs them.",
 "C05": "Oracle: structural invariants of the reflected graph plus content, edges and cached values recorded from the last completed runs.",
 "C06": "Oracle: identity registry keyed by name syntax and namespace path, plus values as C01.",
 "C07": "Panics injected at seeded steps of bodies, blocks and element functions; oracle as C01/C05/C12 afterwards.",
 "C08": "Interleavings of several engines, and of several real threads stepped one at a time, compared with each engine or thread run alone.",
 "C09": "Conflicting uses injected at editor and inside bodies; must panic, leave the reflected graph unchanged, and later behave as if not attempted.",
 "C10": "Cyclic graphs; oracle: depth-first evaluation with a visited stack and memo table.",
 "C11": "Every scenario under naive, structural, no-purity, wf-checked and dumping configurations against one reference.",
 "C12": "Recorded traces parsed and reconciled with what the simulator itself saw happen; on/off runs compared.",
 "C13": "Oracle: the same list operation on a plain vector.",
 "C14": "Oracle: the same operation on a plain vector; tree shapes compared with a fresh engine's.",
}
NA = {
 "C15": "Bit strings are a pure, sequential function library: no state, scheduling, time, I/O, failure or history for a simulation to control; input testing alone would decide it, which is another technique.",
 "C16": "parse_val is a pure function from a string to a value: nothing for a scheduler or fault injector to control.",
 "C17": "Not decidable at this commit: Trie's extend is `panic!(\"todo\")` (all trie tests fail on the base tree), so no non-trivial trie can be built.",
}
import sys
done = os.environ.get("ONLY", " ".join(claims)).split()
m = dict(version=1, setup_cmd="cd sim && cargo build --release --offline --quiet",
  checks=[dict(property=k, quick_cmd=f"./run.sh {k} quick", thorough_cmd=f"./run.sh {k} thorough", technique=T, level="exploration", level_note=NOTE + v) for k, v in claims.items() if k in done],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=k, reason="check not built yet") for k in claims if k not in done],
  notes="No hooks in /repo: the library's public API (engine swap, thunk bodies, reflection) is seam enough. See DESIGN.md.")
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
