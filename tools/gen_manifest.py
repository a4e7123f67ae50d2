#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = "abstract interpretation of the source: value numbers in normal form (global value numbering), obligations discharged by rewriting"
TECH = {
 "C01": V + "; S-matrix step relation on arbitrary modes",
 "C02": V + "; histories of range requests against the range computed from scratch",
 "C03": V + "; interface matrices and field operators from one mode expansion",
 "C04": V + "; curl equations on arbitrary modes and amplitudes",
 "C05": V + "; Poynting flux identities and provenance of amplitudes",
 "C06": V + "; plane wave identities for all angles, incident vector entry by entry",
 "C07": V + "; eigenproblem matrix against the product of the curl operators",
 "C08": V + "; transforms against the DFT kernel, synthesis and material matrices by index",
 "C09": V + "; lookup, wavevectors and dictionaries over enumerated order sets",
 "C10": V + "; effect analysis of every query: what it writes of the objects that existed before, and the answers of later queries",
 "C11": V + "; histories of requests, parameter changes and resets against a simulation built anew (hash-consed value numbers)",
 "C12": V + "; stacks with copies against stacks whose copies are built anew (hash-consed value numbers)",
 "C13": V + "; switching functions, reloads and module bodies evaluated over sequences of selections, every module level name compared with a process that made the last selection first",
 "C14": V + "; every public result on each library against the others; names used of the selected library against the tables of what each defines",
 "C15": "dependence analysis through every operation that ends a derivative, on value numbers from abstract interpretation; the differentiation rules of the registered operators read from their source",
 "C16": "dimensional analysis (degree in lengths, graded by block) of every value number of an abstract interpretation",
 "C17": V + "; degree of every result in the incident amplitudes",
 "C18": V + "; exponentials of every product decomposed into propagation constant times length, signs decided on both sides of every gate",
 "C19": V + "; shapes as affine images of a disc or a polygon, and the raster for every answer a shape can give",
 "C21": V + "; every way a search can end, with the promises of the search libraries as the environment",
 "C22": V + "; every public entry point with valid and invalid arguments: which paths end in an exception",
 "C23": V + "; the decorated function applied to an unknown function",
 "C24": V + "; the set of orders as a permutation of a centered box, the search for its end, and its extents in closed form",
 "C25": V + "; closed forms of the maps at the end points, sign of the slope",
 "C26": "type inference (lattice of array types) on every value of an abstract interpretation of the source",
 "C27": V + "; every selection of fields, components, depths and shapes against the entries of the full answer",
 "C28": V + "; two simulations in every order of creation, solution and request against each on its own (hash-consed value numbers)",
 "C29": V + "; factorization operators against projector form",
 "C30": V + "; stress integrals against the reconstructed fields",
 "C31": V + "; tensor operators entry by entry",
}
NOTE = {
 "default": "Static: /repo's source is read on every run, evaluated on symbols standing for every value of every input (no execution of nannos, no solver); library calls are modelled by transfer functions; see DESIGN.md for the contexts enumerated and what is trusted.",
}
NA = {}
exec(open(os.path.join(os.path.dirname(__file__), "claims.py")).read())
checks = []
for pid in sorted(TECH):
    checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid], "level": "other",
                   "level_note": NOTE.get(pid, NOTE["default"])})
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": NA.get(p, "no check built yet for this property")} for p in ids if p not in TECH]
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
