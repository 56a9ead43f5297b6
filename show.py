import json,sys
d=json.load(open(sys.argv[1]))
for o in d["obligations"]:
    bad=[r for r in o["results"] if not r["ok"]]
    print(("OK  " if not bad else "FAIL"), o["name"], "checks=%d steps=%d joins=%d ms=%d fns=%d eq=%d pit=%d"%(len(o["results"]),o["steps"],o["joins"],o["ms"],len(o["functions"]),o["equalities"],o["by_pit"]))
    for n in o["notes"][:20]: print("     note", n[:400])
    for r in bad[:int(sys.argv[2]) if len(sys.argv)>2 else 4]: print("    ", r["label"], "|", r["detail"][:900], "|", r["loc"])
print({k:v for k,v in d.items() if k!="obligations"})
