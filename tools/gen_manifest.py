"""Writes MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS --cfg verif, given by vlib/build.py", "source_commits": ["cf43b5a"]},
    "checks": [],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE[p]} for p in props if p not in CHECKS],
    "notes": "Every check rebuilds /repo's working tree to LLVM IR, executes the harnesses of the property symbolically (sx) with z3 deciding branches and assertions, and replays what it finds in a native build. See DESIGN.md.",
}
for p in props:
    if p not in CHECKS:
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": CHECKS[p].get("technique", "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), within bounds"),
        "level": "model_checking",
        "level_note": "Within the bounds: " + CHECKS[p]["bounds"] + ". Outside them nothing is claimed. Trusts the executor's IR semantics and models of libc, files and locks (sampled paths are replayed natively on each run), and z3.",
    })
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
