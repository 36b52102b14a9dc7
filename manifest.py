"""Writes MANIFEST.json from instances.py and properties.jsonl."""
import json
from instances import INSTANCES
NA = {
    "C26": "the static_lookup feature's table is downloaded at build time by build.rs (reqwest); with no network the code cannot be built, so there is nothing to execute symbolically",
    "C28": "uniformity is a statement about a probability distribution over the random numbers, not an assertion over every value of an input",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in INSTANCES:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                           technique="symbolic execution of the crate's LLVM IR, every check decided by a SAT solver", level="model_checking",
                           level_note="; ".join(sorted({x.get("bounds", "") for x in INSTANCES[i] if x.get("bounds") and "quick" in x.get("tiers", ["quick"])})) or "see DESIGN.md"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
