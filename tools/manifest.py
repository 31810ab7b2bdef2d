#!/usr/bin/env python3
"""Writes MANIFEST.json (run by the author; not part of any check)."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
"C01":"property-based testing of random scenes against an exact f64 overlap oracle",
"C02":"property-based testing: metamorphic (surrogate implies full shape) plus geometric oracle",
"C03":"property-based testing of collected sets against an exact overlap oracle",
"C04":"property-based testing of three-valued answers against a geometric oracle",
"C05":"stateful property-based testing, differential against a freshly built engine",
"C06":"stateful property-based testing against a brute-force distance oracle",
"C07":"property-based testing against a reference filter and overlap oracle",
"C08":"stateful model-based property testing of layout histories",
"C09":"stateful model-based property testing of bin packing histories",
"C10":"stateful model-based property testing of strip packing histories",
"C11":"grammar-based generation of instances against a reference reader; mutation of valid input for rejection",
"C12":"round-trip and reference-transform property testing",
"C13":"property-based testing against containment/area/simplicity oracles",
"C14":"property-based testing against f64 recomputation and metamorphic transforms",
"C15":"stateful property-based testing against an f64 matrix model",
"C16":"property-based testing against an f64 geometry oracle, ties forced",
"C17":"property-based testing of whole runs against an independent feasibility checker",
"C18":"metamorphic property testing: repeated runs of generated instances",
"C19":"property-based testing of samplers and search against brute-force feasibility",
"C20":"property-based testing of drawings and of the program end to end against the library's solution",
"C21":"stateful property-based testing against recomputed statistics",
"C22":"stateful model-based property testing of the library's own validators, valid and corrupted states",
}
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,
        quick_cmd=f"bash check.sh {i}",
        thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
        evidence_file=f"evidence/{i}.json",
        technique=tech[i], level="exploration",
        level_note="Random search with a fixed amount of work: evidence that no generated case breaks the property, not absence. Trusts the harness's own f64 geometry and models and the stated numerical tolerance (see the assumptions in the evidence file and DESIGN.md). The thorough tier repeats it with many more cases and also in the double-precision configuration."))
json.dump(dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=[],
  notes="One Rust harness (harness/) linked against /repo's crates by path; no hooks in /repo. Every commit in /repo is a fix: commit, listed in known-findings.json."),
  open('/verif/MANIFEST.json','w'), indent=1)
