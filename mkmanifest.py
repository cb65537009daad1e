import json, sys
NA = {}
LEVEL = json.load(open("/verif/levels.json"))
hook = [l.split()[0] for l in open("/dev/stdin")]
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA: continue
    lv = LEVEL[p]
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
      "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
  "hooks": {"guard": "cfg(hastur_verif)", "enable": "RUSTFLAGS='--cfg hastur_verif' when building harness/ (check.py does this)", "source_commits": hook},
  "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
  "notes": "Each check extracts the functions under contract from /repo's working tree, discharges them with Verus, and runs the bounded contract harness built from the same tree."},
  open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
