#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]

# id: (technique, note)
TECH = {
 "C01": ("model-based property testing: random trees and histories, forward kinematics against own matrix products",
         "transforms agree with an independent f64 computation up to rounding on all generated trees"),
 "C02": ("model-based property testing: checked settings at, next to and beyond limits, exact acceptance oracle and snapshots", "bit exact"),
 "C03": ("model-based property testing: clamped settings against the exact nearest value, snapshots", "bit exact"),
 "C04": ("model-based property testing: vector assignments over random chains against an index model", "bit exact"),
 "C05": ("stateful property testing: mimic forests and histories of settings and re-targeting against a relational model",
         "mimic relations are acyclic and leaders alive"),
 "C06": ("stateful property testing: histories over overlapping chains against a model of positions, origins and cached transforms",
         "positions and origins bit exact, cached transforms up to rounding"),
 "C07": ("property testing: chains over random trees against a parent model", "exact sets, order up to the documented freedom"),
 "C08": ("property testing: paths with and without branches against a child count", "exact"),
 "C09": ("stateful property testing: histories of tree edits against a forest model", "edits that make cycles are excluded"),
 "C11": ("property testing: serial chains in moved trees against the derivative of an independent matrix product", "up to rounding"),
 "C12": ("property testing: arms, masks, targets; pose error after success recomputed by independent kinematics", "up to rounding of the pose error"),
 "C13": ("property testing with injected failures (unreachable, not finite, singular, no iterations, out of limits): snapshots and error oracle", "bit exact restoration"),
 "C14": ("property testing: snapshots, recording secondary objective, differential against an equal robot", "bit exact"),
 "C15": ("differential property testing: an own damped Newton iteration with half the iterations decides what has to converge", "only targets which the reference reaches with a wide margin"),
 "C16": ("differential property testing: one step against an own pseudo inverse and null space projection", "least singular value above 0.01, up to rounding"),
 "C17": ("property testing: velocities against the derivative of an independent matrix product", "up to rounding"),
 "C18": ("property testing: link elements against independent kinematics over histories of updates", "up to rounding"),
 "C19": ("property testing: centre of mass against independent kinematics over histories of updates", "up to rounding"),
 "C20": ("structure-aware generation of URDF documents in many notations, by-name model of the robot; mutated documents for errors", "well-formed URDF as in the statement"),
 "C21": ("structure-aware generation of URDF documents, by-name model of all link data", "well-formed URDF"),
 "C22": ("metamorphic property testing: permuted URDF documents", "well-formed URDF"),
 "C23": ("property testing: generated URDF robots, both maps against the model and the converted chain", "well-formed URDF"),
 "C24": ("property testing: serialisation round trip and documents with absent fields in any order", "JSON documents"),
 "C25": ("property testing: printed text against a preorder model", "names without line breaks"),
 "C26": ("property testing of concurrent programs: generated threads and schedules (controlled preemption at every lock of a node, via a guarded hook), register and final-state oracles; deadlocks detected",
         "schedules with up to 14 generated preemptions of 2-4 threads with up to 4 calls each"),
 "C27": ("metamorphic property testing: one solve against single iterations, other iteration limits and wider tolerances", "positions bit exact, poses within rounding of the tolerances count as either"),
 "C28": ("property testing: random sequences of builder calls against a model of the last values", "exact"),
 "C29": ("property testing of concurrent programs: generated schedules (controlled preemption at every lock of a node, via a guarded hook), differential against solving one after another; deadlocks detected",
         "2-3 arms, up to 24 generated preemptions"),
 "C30": ("stateful property testing: histories of building, editing, using and dropping against an ownership model; counting allocator", "exact; only safe chains are updated after edits"),
 "C31": ("stateful property testing: histories of settings, updates, copies and clones against a model of when each velocity was computed; values against the derivative of an independent matrix product", "velocities up to rounding, absence exact"),
 "C32": ("property testing of concurrent programs: generated schedules (controlled preemption at every lock of a node, via a guarded hook), differential against sequential runs and an independent model; deadlocks detected",
         "2-4 threads with up to 4 calls each, up to 14 generated preemptions"),
 "C33": ("property testing of concurrent programs: generated edits by several threads under generated schedules (controlled preemption at every lock of a node, via a guarded hook), model of each node's last edit; deadlocks detected",
         "2-4 threads, each editing nodes of its own"),
 "C10": ("stateful and differential property testing: clone against original, independence snapshots", "chains that start at a root"),
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in TECH:
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": "exploration",
                       "level_note": "Held on all generated cases (counts in the evidence file); " + n + ". Trusts the oracle in harness/src, rustc, and that a case in a few thousand or million shows a defect."})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "cfg k_verif", "enable": "RUSTFLAGS='--cfg k_verif' (run.sh, only for C26, C29, C32 and C33)",
               "source_commits": ["6dc893de53edb68a6c6a7768bdfbe195f1eaad80"]}, "checks": checks, "not_applicable": na}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
