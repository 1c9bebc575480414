#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
built = sys.argv[1:] or None
tech = {
 "C01": "generated and exhaustively enumerated texts against an independent RFC 8259 recogniser",
 "C02": "generated texts under generated settings against a reference acceptor and construction; exhaustive small words",
 "C03": "fuzzing of every entry point and observer with structured and raw byte inputs; crash and validity oracle",
 "C04": "model trees spelled as text, compared with what parsing yields",
 "C05": "model strings in generated spellings plus exhaustive escapes against an independent decoder",
 "C06": "generated and exhaustive Rust strings, literal decoded by an independent reference",
 "C07": "pairs of strings in all representations against decoded-text comparison and a recording hasher",
 "C08": "generated values against an independent printer and re-parsing round trip",
 "C09": "round trip of generated texts against an independent minifier",
 "C10": "model-based histories of iterator operations against the preorder listing",
 "C11": "generated texts against capacities around the node count and fault-injecting collections",
 "C12": "differential comparison of all entry points on generated inputs",
 "C13": "recording delegate against a reference event list; a callback failure injected at every position",
 "C14": "generated lexeme sequences and histories against an independent lexer",
 "C15": "generated numbers around type bounds and float midpoints against exact decimal arithmetic",
 "C16": "stateful model-based histories of operations against an ordered-list model",
 "C17": "single-fault injection, truncation and trailing data against the constructed fault",
 "C18": "output faults injected at every write",
 "C19": "generated texts with a counting allocator and pointer-range oracle; metamorphic scalar replacement",
 "C20": "differential comparison of feature configurations and build profiles on generated inputs",
 "C21": "generated strings with clones and displays at every iteration point against the remaining text",
 "C22": "pairs of equal and minimally different models against structural model equality",
 "C24": "generated sequences, nestings, interleavings and placements of operations; each result compared with the same call alone",
 "C25": "generated operations with errors and panics injected at every callback; allocations balanced by a counting allocator",
 "C23": "generated families of pumped texts; CPU time and allocated bytes per byte compared across sizes",
}
checks = []
na = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if built is not None and i not in built:
        na.append({"property": i, "reason": "check still being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: " + tech[i],
        "level": "exploration",
        "level_note": "Searches generated cases (and, where stated in the evidence, complete finite spaces) for a violation; it does not prove absence beyond them. Trusts the oracle in harness/src, rustc and std.",
    })
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API. Replays: ./check.sh <id> --replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
