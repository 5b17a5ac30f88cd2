#!/usr/bin/env python3
import json,os,sys
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from manifest_data import CHECKS, NA
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
checks=[]
for i in props:
    if i in CHECKS:
        tech,note=CHECKS[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json",technique=tech,level="model_checking",level_note=note))
na=[dict(property=i,reason=NA.get(i,"not built yet")) for i in props if i not in CHECKS]
hooks=dict(guard="cargo feature verif-hooks (re-exports of private items in bls-gadgets and epoch-snark, nothing else)",
  enable="mc/ark/repo/{bls-gadgets,epoch-snark}/Cargo.toml declare the feature and mc/ark/Cargo.toml turns it on; both compile /repo/crates/*/src unchanged",
  source_commits=["4faa841b5b856eba676fc01a73d59b8e1ba4c9c5"])
m=dict(version=1,setup_cmd="./setup.sh",hooks=hooks,checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
