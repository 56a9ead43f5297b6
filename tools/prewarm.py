"""compile the dependencies of every configuration once (no obligation is analysed here)"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import check, table
exe = check.build_analyser()
seen = set()
for p in table.PROPS.values():
    for run in p.get("runs", []):
        k = (run["crate"], run["config"])
        if k in seen:
            continue
        seen.add(k)
        crate = os.path.join(V, run["crate"])
        if run.get("prepare"):
            subprocess.check_call([sys.executable, os.path.join(V, "tools", run["prepare"]), crate])
        e = check.toolchain_env()
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        # a failure here is not reported: the check itself reports it
        subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", os.path.join(V, "target-obl", run["config"])] + run.get("args", []), cwd=crate, env=e)
import witness
for feats in ([], ["--no-default-features", "--features", "long"]):
    try:
        witness.one(V, feats, "short" if not feats else "long")
    except Exception as ex:
        print("witness:", ex)
