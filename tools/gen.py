import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
HOOKS = ["3454254101f972b4adc10776cced63cf62ff6b25", "0de45a1f0f8ade649f7ee7f887a7eabd446aca4e"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("claim", "na")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard='cfg(feature = "verif")', enable="the manifests check.py generates in build/ declare the feature; /repo's own Cargo.toml does not, so the guarded code is never part of a normal build", source_commits=HOOKS),
         checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                      technique=p["claim"]["technique"], level=p["claim"]["level"], level_note=p["claim"]["note"]) for p in sorted(P, key=lambda p: p["id"]) if p["claim"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claim"]],
         notes="See DESIGN.md. The commits in /repo are repairs of genuine defects (fix:), listed in known_findings.txt.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
