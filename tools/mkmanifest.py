#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, subprocess
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds written in the evidence file (coverage.bounds; lengths, "
        "capacities, element widths), nothing is claimed outside. Trusted: rustc's IR generation, the engine's memory model and its own SAT/bit-vector "
        "procedure (a share of the queries - every 200th, up to a fifth of the time - is also put to Z3 and must agree), and sampled engine paths are executed natively and must give the same outputs. "
        "Every counterexample is replayed against the real build (or Miri for memory errors) before it is reported.")
out = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(
        guard="cfg(vec_collections_verif)",
        enable='harness/.cargo/config.toml sets rustflags = ["--cfg", "vec_collections_verif"] for every harness build',
        source_commits=[],
    ),
    checks=[],
    not_applicable=[],
    notes="python3 check.py <ID> [--tier quick|thorough] [-v]; see DESIGN.md",
)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out["hooks"]["source_commits"] = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
for p in props:
    i = p["id"]
    if i in PLAN:
        out["checks"].append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the compiled code's LLVM IR; SAT/SMT (own bit-blasting CDCL, cross-checked with Z3) decides every branch and assertion",
            level="model_checking",
            level_note=(PLAN[i].get("note", "") + " " + NOTE).strip(),
        ))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not claimed")
