#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
TECH = {
    "C01": "bounded exhaustive exploration of all source texts over character and token alphabets on the real parser, under a crash/hang/allocation supervisor",
    "C08": "exhaustive enumeration of gap fillings, compared with a reference model and metamorphically",
    "C19": "lock-step product exploration of reference model and implementation, first dead token compared",
    "C20": "exhaustive enumeration of call histories and preemption-bounded exploration of thread schedules with a controlled scheduler at allocation points",
    "C21": "exhaustive enumeration of accepted texts, every node checked against an ESTree schema table and the reference model",
    "C22": "bounded exhaustive exploration of the real bindings against the real library, and of all short call histories",
    "C24": "exhaustive enumeration of construct pairs and nestings against the reference model, with compositional equality",
}
DEF = "lock-step explicit-state product exploration of an executable ECMAScript 2019 reference model and the real parser over bounded alphabets"
NOTE = {
    "C01": "Every text inside the stated bounds returned a tree or an error within the limits of time, stack and memory. Nesting deeper than the bounds (stack exhaustion) is outside the statement. Trusts the supervisor.",
    "C20": "All histories and all schedules inside the bounds gave the answer of a fresh process. Preemption points are allocator calls and call boundaries of the real code; giron has no other synchronisation points. Trusts the scheduler.",
    "C22": "The real giron-wasm source is compiled natively against a stand-in for wasm-bindgen in which values pass through JSON text; the JavaScript side of wasm-bindgen is assumed to do what it documents.",
}
DEFNOTE = "Every text inside the bounds listed in the evidence was run on the real parser and agreed with the reference model. Nothing is sampled. Trusts the model (compared with acorn at development time) and, outside the bounds, nothing is claimed."
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH.get(p["id"], DEF),
            "level": "model_checking",
            "level_note": NOTE.get(p["id"], DEFNOTE),
        }
        for p in P
    ],
    "not_applicable": [],
    "notes": "No hooks: the checks use the public API of giron only, with the allocator of the checker process as scheduler and fault monitor. replay.sh FILE runs a recorded violation again.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
