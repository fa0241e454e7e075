#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties (edit here, then run this)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
M = "stateful property-based testing with coverage-guided mutation"
for i in ("C01", "C02", "C03", "C04", "C05"):
    T[i] = (M + ", reference-model oracle (BTreeMap)",
            "Generated operation histories on maps and sets of tracked, borrowed and string-keyed elements are compared step by step with a BTreeMap, under AddressSanitizer. Bugs needing histories outside the generated shapes can be missed.")
T["C06"] = T["C07"] = (M + ", set-law oracle (BTreeMap)",
            "Three registers of maps or sets are combined in generated histories and every result and later operation is compared with the set laws on BTreeMaps, under AddressSanitizer. Search, not proof.")
T["C08"] = (M + ", comparison-count bound, score-guided adversarial search",
            "Every operation's key comparisons are counted and held against the bound for the number of keys; a greedy adversary searches update sequences for the longest search paths. Comparisons per tree level are calibrated on one-key maps.")
T["C09"] = (M + " at scale, comparison and executed-edge bounds, default thread stack",
            "Histories up to 400,000 elements in adversarial orders; total comparisons or executed edges are held against a generous n log n bound that linear behaviour exceeds many times over; stack overflow is a failure on a 2 MiB stack.")
T["C10"] = T["C11"] = (M + ", reference-model oracle (Vec)",
            "Generated histories on two registers of lists are compared step by step with vectors, with tracked and over-aligned elements, under AddressSanitizer.")
T["C12"] = (M + ", ownership registry, exact allocation balance, AddressSanitizer",
            "Histories of all in-memory collections with elements that register construction, move-out and drop; every byte allocated must be returned. Elements whose drop panics are outside the property.")
T["C13"] = (M + ", reference-model oracle (BTreeMap over byte strings)",
            "Generated histories over small alphabets with nested, forked, empty and long keys are compared step by step with a BTreeMap.")
T["C14"] = (M + ", direct-definition oracle and metamorphic relation between histories of one key set",
            "The answer is compared with the definition evaluated over all stored keys, and between maps holding the same keys built by different histories.")
T["C15"] = (M + ", reference-model oracle",
            "Generated allocate/free/misuse histories over many chunk sizes are compared with a model of live entries and the free list.")
exec(open(os.path.join(HERE, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "manifest_more.py")) else None

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hooks = {"guard": "cfg(vp_hooks)", "enable": "RUSTFLAGS contains --cfg vp_hooks (env.sh)",
         "source_commits": os.popen("git -C /repo log --format=%h --grep='^Verification hook'").read().split()}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": hooks,
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": T[i][0], "level": T[i][2] if len(T[i]) > 2 else "exploration", "level_note": T[i][1],
    } for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": "no check yet: under construction"} for i in ids if i not in T],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
