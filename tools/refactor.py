"""refactor.py FILE [CHECKS...]: apply a behaviour-preserving edit list to /repo, run the checks, undo. Every check has to stay quiet."""
import subprocess, sys, runpy, os, time, json
f = sys.argv[1]
d = runpy.run_path(f)
ids = sys.argv[2:] or [c["property"] if "property" in c else c["property_id"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
R = "/repo/"
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
only = os.environ.get("EDITS")
try:
    for i, (p, a, b) in enumerate(d["EDITS"]):
        if only and str(i) not in only.split(","): continue
        t = open(R + p).read()
        if t.count(a) != d.get("COUNT", {}).get(i, 1):
            sys.exit(f"edit {i}: {t.count(a)} matches in {p}")
        open(R + p, "w").write(t.replace(a, b))
    if "--apply" in ids: sys.exit("applied (undo with git -C /repo checkout -- .)")
    for i in ids:
        t0 = time.time()
        r = subprocess.run(["python3", "/verif/check.py", i, os.environ.get("TIER", "quick")], capture_output=True, text=True)
        print(os.path.basename(f), i, "rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), flush=True)
        if r.returncode: print(r.stdout[-1500:], r.stderr[-500:], flush=True)
finally:
    if "--apply" not in ids:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
