#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NOT_YET = {}
LEVEL = ("Generated-input search against an oracle that does not use the library: the property held on every case "
         "generated (counts, distribution and samples in the evidence file), nothing more. Trusts the Go toolchain, the "
         "harness's models and, where stated, the assumptions in the evidence file.")
NOTE = {
    "C22": " Races are those the Go race detector observes in the schedules that ran.",
    "C23": " Schedules are those the Go scheduler produced under several process configurations, partly with the race detector.",
    "C18": " Concurrent use is judged on the schedules that ran, with the race detector.",
    "C27": " Cost is counted in hash and equality calls, and bytes allocated, against generous bounds.",
}
TECH = {
    "C01": "property-based testing: model-based histories with re-observation of every value",
    "C02": "property-based testing: model-based histories against a bit-set model",
    "C22": "property-based testing: generated concurrent programs under the race detector, against their sequential results",
    "C23": "property-based testing: differential runs of the same cases across parallelism settings",
    "C27": "property-based testing: generated collections with counted Hash and Equal calls, against cost bounds",
    "C28": "property-based testing: metamorphic runs of the same history under different hash functions",
    "C33": "property-based testing: generated lazy expressions with recorded callback calls, against what the observation needs",
    "C31": "property-based testing: generated histories, live heap measured after garbage collection against what the remaining contents need",
    "C32": "property-based testing: generated operations with others nested in their callbacks, against the same operations alone",
    "C30": "property-based testing: generated families of nested values, hashes compared against canonical texts",
    "C29": "property-based testing: injected panics in callbacks at drawn points, and drawn misuse, against documented behaviour",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its own binary from /verif/harness against /repo's working tree (tag = property id) and runs generated cases; see DESIGN.md. `bash run.sh replay FILE` runs a replay file again.",
}
for p in props:
    i = p["id"]
    if i in NOT_YET:
        m["not_applicable"].append({"property": i, "reason": NOT_YET[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash run.sh {i} quick",
        "thorough_cmd": f"bash run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "property-based testing: generated inputs and histories against a reference model"),
        "level": "exploration",
        "level_note": LEVEL + NOTE.get(i, ""),
    })
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
