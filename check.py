#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo by static analysis.

Every run rebuilds the analysed crates from /repo's working tree, analyses each obligation of the property under each of
its build configurations, compares what was analysed with the committed floors, and rewrites evidence/PROPERTY.json.
"""
import json, os, re, shutil, subprocess, sys, time, glob, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import table

def toolchain_env():
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    e = dict(os.environ)
    e.update(LD_LIBRARY_PATH=sysroot + "/lib", RUST_MIN_STACK="4000000000", CARGO_NET_OFFLINE="true",
             RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=1 -Awarnings")
    for k in list(e):
        if k.startswith("POLYMIR_") or k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
            del e[k]
    return e

def build_analyser():
    exe = os.path.join(V, "polymir/target/release/polymir")
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "polymir"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        print(r.stdout[-4000:])
        raise RuntimeError("the analyser does not build")
    return exe

def forget(target, crates):
    """remove cargo's memory of the crates that come from /repo or depend on it: they are analysed afresh"""
    names = set(crates) | {c.replace("-", "_") for c in crates}
    pat = re.compile(r"^(lib-?)?(%s)(-.*|\..*)?$" % "|".join(sorted(names)))
    for d, dirs, files in os.walk(target, topdown=True):
        for x in list(dirs):
            if pat.match(x) or x == "incremental":
                shutil.rmtree(os.path.join(d, x))
                dirs.remove(x)
        for x in files:
            if pat.match(x):
                os.unlink(os.path.join(d, x))

def analyse(exe, run, prop, tier, i, budget):
    """one build configuration -> (result dict or None, compiler output)"""
    crate = os.path.join(V, run["crate"])
    if run.get("prepare"):
        subprocess.check_call([sys.executable, os.path.join(V, "tools", run["prepare"]), crate])
    target = os.path.join(V, "target-obl", run["config"])
    out = os.path.join(V, "evidence", f".{prop}-{i}.json")
    if os.path.exists(out):
        os.unlink(out)
    forget(target, table.REPO_CRATES + ["obligations"])
    e = toolchain_env()
    e.update(POLYMIR_MODULES=run["module"], POLYMIR_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
             POLYMIR_CONFIG=",".join(run.get("env", []) + ([] if tier == "thorough" else ["quick=1"])),
             POLYMIR_BUDGET=str(budget))
    if run.get("only"):
        e["POLYMIR_ONLY"] = run["only"]
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", target] + run.get("args", []),
                       cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return None, r.stdout
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d, r.stdout

def key(cfg, ob, res):
    """identity of a failure: no line numbers, no variable names"""
    loc = re.sub(r":\d+", "", res["loc"])
    return f"{cfg}|{ob}|{res['label']}|{loc}"

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    write_floors = "--write-floors" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    for p in glob.glob(os.path.join(V, "evidence", "replay", prop + "-*")):
        os.unlink(p)
    P = table.PROPS[prop]
    floors_file = os.path.join(V, "floors.json")
    floors = json.load(open(floors_file)) if os.path.exists(floors_file) else {}
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"] if os.path.exists(os.path.join(V, "known_findings.json")) else []
    known = [k for k in known if k["property"] == prop]
    problems = []       # (key, text)
    found = {}
    nob = ndis = nchk = 0
    fns, statics, per_cfg = set(), set(), {}
    steps = eqs = pit = joins = 0
    extra = {}
    if P.get("script"):
        # a check that is not a set of obligations: returns the same kind of result
        import importlib
        m = importlib.import_module(P["script"])
        res = m.run(V, tier, seed)
        extra = res.get("coverage", {})
        nob, ndis = res["obligations"], res["discharged"]
        for k, text in res["problems"]:
            problems.append((k, text))
    runs = [r for r in P.get("runs", []) if tier == "thorough" or not r.get("thorough_only")]
    if runs:
        exe = build_analyser()
    for i, run in enumerate(runs):
        # the check has to answer within 900 s (quick), whatever the code does to the analysis
        budget = 3000 if tier == "thorough" else max(30, int(740 - (time.time() - t0)))
        d, txt = analyse(exe, run, prop, tier, i, budget)
        cfg = run["config"]
        cname = cfg + ":" + run["module"]
        if d is None:
            err = "\n".join([l for l in txt.splitlines() if l.startswith("error") or l.lstrip().startswith("-->") or "panicked" in l][:12])
            problems.append((f"{cname}|build", f"the {cfg} configuration of /repo cannot be analysed with this property's obligations:\n{err or txt[-1500:]}"))
            continue
        fl = floors.get(f"{prop}:{tier}:{cname}", {})
        got = {}
        for o in d["obligations"]:
            nob += 1
            bad = [r for r in o["results"] if not r["ok"]]
            got[o["name"]] = [sum(1 for r in o["results"] if r["ok"]), int(bool(o["functions"]))]
            if "mined" in o.get("notes", []):
                # how many lengths there are depends on the integer constants of the code
                alone = "mined" in o["name"] or "derived" in o["name"]
                got[o["name"]] = [min(got[o["name"]][0], 0 if alone else 1), 0 if alone else got[o["name"]][1]]
            nchk += len(o["results"])
            steps += o["steps"]; joins += o["joins"]; eqs += o["equalities"]; pit += o["by_pit"]
            fns.update(o["functions"]); statics.update(o["statics"])
            if not bad:
                ndis += 1
            seen = set()
            for r in bad:
                k = key(cfg, o["name"], r)
                if k in seen:
                    continue
                seen.add(k)
                problems.append((k, f"[{cfg}] obligation {o['name']}: {r['label']}: {r['detail']}  (at {r['loc']})"))
            if not o["functions"] and fl.get(o["name"], [0, 0])[1]:
                problems.append((f"{cname}|{o['name']}|anchor", f"[{cfg}] obligation {o['name']} reached no function of /repo"))
        per_cfg[cname] = {"obligations": len(d["obligations"]), "checks": sum(1 for o in d["obligations"] for r in o["results"] if r["ok"]), "integer constants of the code used as lengths": d.get("mined", [])[:80]}
        if write_floors:
            floors[f"{prop}:{tier}:{cname}"] = got
        else:
            for n, c in fl.items():
                if n not in got:
                    problems.append((f"{cname}|{n}|missing", f"[{cfg}] obligation {n} was not analysed"))
                elif got[n][0] < c[0] and not any(k.startswith(f"{cfg}|{n}|") for k, _ in problems):
                    problems.append((f"{cname}|{n}|floor", f"[{cfg}] obligation {n}: {got[n][0]} checks decided, {c[0]} expected"))
            if not fl:
                problems.append((f"{cname}|floor", f"no floor recorded for {prop}:{tier}:{cname}"))
            if tier == "quick" and any(not any(re.fullmatch(kf["match"], k) for kf in known) for k, _ in problems):
                break       # the remaining configurations can only add to the alarm
    if write_floors:
        json.dump(floors, open(floors_file, "w"), indent=1, sort_keys=True)
    kn, new = [], []
    for k, text in problems:
        m = [x for x in known if re.fullmatch(x["match"], k)]
        (kn.append((m[0], k)) if m else new.append((k, text)))
    for x in {x["id"]: x for x, _ in kn}.values():
        print(f"KNOWN-FINDING: property={prop} {x['what']}")
    cov = {
        "obligations": nob, "discharged": ndis, "checks_decided": nchk,
        "configurations": per_cfg, "functions_of_repo_analysed": sorted(fns), "statics_read": sorted(x for x in statics if "poseidon" in x or "halo2" in x),
        "abstract_steps": steps, "joins_at_post_dominators": joins, "equalities": eqs, "equalities_by_random_interpretation": pit,
        "checker_cmd": f"python3 /verif/check.py {prop} {tier}",
        "rule": P["rule"], "explanation": P["explanation"],
        "trusted_base": table.TRUSTED + P.get("trusted", []),
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {nob} obligations, {ndis} discharged, {nchk} checks, {len(fns)} functions of /repo, {ev['wall_s']} s")
    if new:
        rp = os.path.join(V, "evidence", "replay", f"{prop}-{hashlib.sha1(new[0][0].encode()).hexdigest()[:10]}.json")
        json.dump({"property": prop, "tier": tier, "how": f"python3 /verif/check.py {prop} {tier}", "problems": [{"key": k, "text": t} for k, t in new]}, open(rp, "w"), indent=1)
        for k, t in new[:8]:
            print("  " + t[:1200])
        if len(new) > 8:
            print(f"  ... and {len(new) - 8} more in the replay file")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as ex:      # fail closed, with an answer
        import traceback
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        rp = os.path.join(V, "evidence", "replay", f"{prop}-internal.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": prop, "problems": [{"key": "internal", "text": str(ex)}]}, open(rp, "w"))
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
