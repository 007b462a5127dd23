#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present in props/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiled IR over a value-graph (global value numbering) domain with trace partitioning"
TECH = {
 "C01": AI + "; exact loop acceleration for long messages; oracle FIPS 180-4 / RIPEMD-160 value graphs",
 "C02": AI + "; exact loop acceleration; oracle RFC 2104 value graphs",
 "C03": AI + "; exact loop acceleration; oracle compositions of the standards' value graphs",
 "C04": AI + "; structure offsets from the compiler, record offsets from BIP32",
 "C05": AI + "; oracle RFC 4648 bit regrouping",
 "C06": AI + "; partition by position and class of the first illegal character",
 "C07": "bounds, liveness and initialisation obligations on every load and store, by abstract interpretation of the IR with exact-size objects",
 "C19": "information-flow (taint) analysis over the compiled IR: secret labels through every load, store and copy, residue obligations wherever a stack or heap object dies, wipe/barrier typestate per byte",
 "C20": "overwrite analysis of the wipe (per byte, with the keep-alive typestate of asm barriers and volatile accesses) plus residue analysis of the optimised, link-time-inlined IR of callers at four optimisation levels",
 "C16": "bounds, liveness and initialisation obligations on every access of the parsers, by abstract interpretation of the IR with exact-size objects and the Base58Check step abstracted to its buffer contract",
 "C27": "ownership typestate of heap blocks and file descriptors over every path of the interpreted IR",
 "C33": "information-flow (constant-time) analysis of branch conditions, addresses, bounds, division operands and early-exit comparisons over the interpreted IR",
 "C34": "fault-outcome analysis: every allocation forks to NULL in the abstract interpreter; typestate and bounds obligations on those paths",
 "C22": "interprocedural effect analysis on the IR: inclusion-based points-to, transitive write and call effects per public function",
 "C37": AI + "; every stdio call free to change errno, outcomes of the reporting path",
 "C38": AI + "; oracle the formats' length arithmetic",
 "C08": AI + "; partition by length class of the encoding",
}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        na.append(dict(property=i, reason="no check has been built for it yet")); continue
    checks.append(dict(property=i, quick_cmd="python3-vt run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt run.py %s" % i,
                       technique=TECH.get(i, AI), level=re.search(r"(?m)^LEVEL = .(\w+).", open(os.path.join(V, "props", i.lower() + ".py")).read()).group(1), level_note=NOTE.get(i, DEFNOTE)))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
