"""Writes MANIFEST.json.  Run from /verif: python3 tools/gen_manifest.py"""
import json
NOTE_COMMON = ("TLA+ specification checked by TLC within the stated constants; conformance by replaying the behaviours TLC "
               "enumerates and seeded random histories on the real library, each event judged by TLC against the specification. ")
GRAPH = "spec/Graph.tla, all module heaps of 2 (thorough: 3) modules and up to 4 attributes, plus random histories over up to 14 modules. Trusts the projection of modules to specification values in harness/graph.py; values are integers, attribute names contain no '/'."
LEVELS = "spec/Levels.tla: all histories of 3-5 operations over the listed transforms, random ones of 40-90; threads are interleaved by seeded turn taking between operations and, in short histories, at every line inside nnx. Histories using values whose trace has ended are left out (undefined)."
TRANS = "spec/Transforms.tla: every graph of 2 (thorough: 3) modules with up to 3-4 attributes and every 1-2 instruction program; random programs of up to 4 instructions. Numbers are small integers in float32 (exact); structure changes inside a transformed call other than new variables are left out."
SCAN = "spec/Scan.tla: every body of 1-2 instructions over modules of 1-2 variables for every axis assignment, metadata, length and direction within the MC bounds; random bodies of up to 4 instructions, matrices and lengths up to 4. Integer values in float32 (exact)."
SPMD = ("spec/Spmd.tla: every rule list and name list within the bounds, every sharded variable and layer axis in trees of every kind, every nesting of "
        "scopes and exits. Constraints are observed as layouts on a mesh of eight (simulated) CPU devices; rules are random in longer histories and threads.")
PYT = ("spec/Pytree.tla: every class, start object and sequence of 2 (thorough: 3) operations; every pair of objects of up to two fields differing in at most one; every "
       "edit of every dictionary; every field declaration, override, default and argument within the MC bounds; random histories over up to 10 classes. Static fields hold plain values.")
COLL = "spec/Collections.tla: every pipeline of up to 3 callables from a pool of 9 (thorough: 12) signatures under every form of call, every history of 2 (thorough: 4) mapping operations with every lookup; random histories of 45 operations over random signatures. Arguments are integers."
NOTES = {
    "C32": "spec/Train.tla: every history of 2 (thorough: 3) operations over 2 models and 4 (8) optimisers with exact integer arithmetic; random histories of 30 operations over random optimiser chains. Byte serialisation (flax to_bytes) does not support nnx.State and is left out; state dictionaries are covered.",
    "C33": "spec/Norm.tla: exact dyadic running statistics over every history of 1 (thorough: 3) calls for every layer setting, every pair of reduction and feature axes; random histories of 28 operations, named axes under vmap. Outputs are compared to within 1.6% of the normalised value (fixed point), statistics exactly; axis_index_groups is left out.",
    "C34": "spec/Dropout.tla: every history of 2 calls over every rate, mode and context; random histories of 40 operations. The mask is nondeterministic in the specification; its kept fraction and freshness are judged on masks of 128 and 64 elements or more.",
    "C35": "spec/Layers.tla: every one-dimensional convolution with 4 (thorough: 6) positions, windows up to 3 (4), strides up to 2 (3), all paddings and dilations, a set of two-dimensional ones, every linear layer and embedding up to 4 features; random ones up to rank 3 with masks, groups, number types and own products. Integer values; named padding with input dilation is an error in jax.lax and expected as such.",
}
CLAIMED = {
    **NOTES,
    **{"C%02d" % i: GRAPH for i in range(1, 13)},
    "C36": GRAPH + " spec/Printing.tla: every heap of two modules with values of every kind printed whole, as definitions and as copies; every schedule of 4 (thorough: 5) steps of prints pausing and failing in "
           "two threads; every operation paused at each line and opcode inside nnx while another takes place (every k up to 24 and every fifth up to 120 in the quick tier). spec/MC_Printer.tla shows the per-thread "
           "bookkeeping refines it. Modules are not changed while a print of them is paused.",
    "C31": COLL,
    "C13": "spec/Containers.tla: every pair of containers over all kinds, types and metadata. Values are integers.",
    **{p: LEVELS for p in ("C14", "C15", "C16", "C17", "C18")},
    **{p: SCAN for p in ("C22", "C23")},
    **{p: SPMD for p in ("C25", "C26", "C27")},
    **{p: PYT for p in ("C28", "C29", "C30", "C37")},
    **{p: TRANS for p in ("C19", "C20", "C21", "C24")},
}
ALL = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": p, "quick_cmd": "VERIF_TIER=quick bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+ specification model-checked with TLC; conformance by replaying specification behaviours on nnx and validating recorded traces with TLC",
        "level": "model_checking", "level_note": NOTE_COMMON + CLAIMED[p],
    } for p in ALL if p in CLAIMED],
    "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in ALL if p not in CLAIMED],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
