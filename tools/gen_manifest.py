import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import table
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for p, d in sorted(table.PROPS.items()):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                   "technique": d.get("technique", "abstract interpretation of MIR with polynomial value numbering"), "level": d["level"], "level_note": d["explanation"][:1500]})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "no check has been built for it yet")} for i in ids if i not in table.PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
