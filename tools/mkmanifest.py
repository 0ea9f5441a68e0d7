#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property that has a harness.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = json.load(open(root + "/tools/not_applicable.json")) if os.path.exists(root + "/tools/not_applicable.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    cfgf = f"{root}/harness/{i.lower()}/config.json"
    if not os.path.exists(cfgf):
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
        continue
    cfg = json.load(open(cfgf))
    note = ("Every path of the real functions within the bounds is executed symbolically and every assertion is decided by an SMT solver "
            "over all remaining values; counterexamples are replayed natively before they are reported. Bounds: " + cfg.get("bounds", "") +
            ". Outside: " + cfg.get("outside", "") + ".")
    if cfg.get("stubs"): note += " Modelled: " + "; ".join(cfg["stubs"]) + "."
    if cfg.get("assumptions"): note += " Assumed: " + "; ".join(cfg["assumptions"]) + "."
    note += " Trusted: the SSA-to-SMT semantics of /verif/engine (cross-checked by native replay of sampled paths), go/ssa, Z3/cvc5."
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "bounded symbolic execution of the repository's Go SSA with SMT solving (Z3, cvc5)",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: instrumentation is put in by an overlay when the SSA is built."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
