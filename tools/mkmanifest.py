#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist under sim/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "deterministic simulation: seeded histories of edits, traces, plots, resets and traces aborted at a chosen bytecode; oracle: a replica built and traced in a pristine process",
 "C02": "deterministic simulation: traces, plots and renders run to completion or aborted at seeded bytecodes; oracle: observable state before = after",
 "C03": "deterministic simulation with adversarial seeded materials; oracle: ledger of material events plus an independent ray-solid reference, row by row",
 "C04": "deterministic simulation with exceptions injected at seeded bytecodes and callbacks of a trace; oracle: whole-generation prefix of the uninterrupted trace, or the old results",
 "C05": "deterministic simulation with adversarial materials and limit changes mid-trace; oracle: counted propagation rounds and a logical step budget",
 "C06": "deterministic simulation: seeded histories of accepted and rejected transforms; oracle: independent matrix model and unchanged observable state after a rejection",
 "C07": "deterministic simulation: seeded histories of moves at every level; oracle: independent boolean-solid reference and a freshly assembled replica",
 "C08": "deterministic simulation: seeded pin scopes (nested, re-entered, closed generators) left by seeded faults; oracle: poses recorded at entry",
 "C09": "deterministic simulation: seeded thread scheduler switching at any bytecode, faults killing one thread, re-entrant callbacks; oracle: each operation's solo result",
 "C10": "deterministic simulation: seeded thread scheduler over constructors with injected failures; oracle: uniqueness of ids over the process history and hit attribution",
 "C11": "deterministic simulation: seeded request histories and scheduler-interleaved first requests; oracle: reference lamp model (one fixed set per count, carried by the pose)",
 "C12": "deterministic simulation with the random generator under the simulator's control (crafted extreme streams); oracle: bounds, reproducibility, distribution over fixed seeds",
 "C13": "deterministic simulation: seeded histories of traces, count changes, aborts and resets; oracle: each source marked by its own wavelength",
 "C14": "deterministic simulation: seeded histories of moves and renders, aborted at seeded bytecodes; oracle: reference visibility and a replica rendered in a fresh state",
 "C15": "deterministic simulation: seeded histories and scheduler-interleaved queries of glasses; oracle: index and Abbe number recomputed from the current coefficients",
 "C16": "deterministic simulation: seeded request histories, interrupted requests; oracle: independent source patterns carried by the modelled pose",
 "C17": "deterministic simulation: seeded interleavings of list edits, group transforms and rejections; oracle: independent rigid-body model of the membership",
 "C18": "deterministic simulation: seeded histories of traces, aborts, resets and plots; oracle: the artists really drawn against the latest completed results",
}
NOTE = {}
NOTE_DEFAULT = ("Seeded search, not enumeration: the property held on every run explored. Trusts numpy, "
                "pandas, matplotlib and the reference model in /verif/sim; single-process CPython 3.12.")
NA = {
 "N01": "A pure function of one ray, one normal and two indices: no schedule, fault or history for it to depend on, so nothing for a simulator to decide. (That each event uses current indices and directions is decided under C03 and C15.)",
 "N02": "A pure function of one ray and one fixed shape; no nondeterminism or history. (Hits of moved shapes are compared with an independent reference under C06, C07 and C03.)",
 "N03": "A pure function of two hit lists; no schedule, fault or history. (Composites under histories of moves are decided under C07.)",
 "N04": "Construction from parameters: a pure function of its input, with no schedule, fault or history.",
 "N05": "A formula evaluated on its input. (That it uses the glass's current coefficients under any history is decided under C15.)",
 "N06": "A pure function of the wavelength. (That plots use it for the right rows is decided under C18.)",
 "N07": "A formula compared with a fixed lens: pure functions of their parameters, no history or fault.",
 "N08": "A pure function of normal, light and colours. (That renders use current materials and poses is decided under C14.)",
 "N09": "A pure function of the camera's resolution and span. (Camera moves under histories are decided under C06 and C14.)",
 "N10": "Numeric root helpers: pure functions of their coefficients.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "sim/props")) if f.startswith("c") and f.endswith(".py"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                       "level_note": NOTE.get(i, NOTE_DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not claimed yet: its check is still being built.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator's seams are numpy's global generator, user-supplied materials and sources, threading locks and CPython's bytecode-level monitoring (sys.monitoring), none of which needs a change to the code."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
