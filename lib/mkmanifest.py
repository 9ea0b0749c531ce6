#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "The TLA+ specification of the wire format (Wire) is explored by TLC (WireSender, WireRaw, WireHistory); every state is replayed on the real serializer built with AddressSanitizer, and TLC judges what it returned (WireTrace). "
C = {
 "P01": ("TLA+/TLC: values enumerated from WireSender, real round trips judged by WireTrace", W + "Exhaustive per field and value catalogue and for pairs on one field, sampled for longer messages."),
 "P02": ("TLA+/TLC: emitted bytes judged by the specification's decoder (WireTrace)", W + "The bytes are decoded by the specification, not by the implementation."),
 "P03": ("TLA+/TLC: nondeterministic conforming writer (WireSender) replayed on the real decoder", W + "The writer uses every freedom of the encoding rules."),
 "P04": ("TLA+/TLC: writer with undeclared fields replayed on the real decoder", W + "Unknown fields of all wire types at all positions and nesting levels of the test schema."),
 "P05": ("TLA+/TLC: exhaustive short inputs and damaged encodings replayed on the real decoder under ASan", W + "All byte strings up to the bound over an alphabet, plus damage (truncation, replacement, huge lengths) of valid messages."),
 "P06": ("TLA+/TLC: histories of one object (WireHistory) replayed and judged step by step", W + "Histories are sampled."),
}
NA = {}
try:
    exec(open(os.path.join(V, "lib", "manifest_more.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": C[i][0], "level": "model_checking", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
