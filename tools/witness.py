"""Compile-time rules: every claim file of /verif/witness/claims is expanded into a program that has to compile and, for each
//@bad line, the same program with that one line in place of the //@ok line before it, which has to be rejected at that line.
Nothing is run: the compiler's type, privacy, trait and borrow analysis of the current /repo decides."""
import glob, json, os, re, shutil, subprocess, sys
import check, table

def expand(text):
    """[(None, program)] + [(bad line text, program, line number)]"""
    lines = text.splitlines()
    marks = [(i, *re.match(r"\s*//@(ok|bad)\s?(.*)$", l).groups()) for i, l in enumerate(lines) if re.match(r"\s*//@(ok|bad)\b", l)]
    def make(bad):
        out = list(lines)
        drop = None
        if bad is not None:
            drop = max(i for i, k, _ in marks if k == "ok" and i < bad)
        for i, k, t in marks:
            out[i] = t if (k == "ok" and i != drop) or i == bad else ""
        return "\n".join(out) + "\n"
    yield None, make(None), 0
    for i, k, t in marks:
        if k == "bad":
            yield t, make(i), i + 1

def one(V, feats, label):
    src = os.path.join(V, "target-obl", "witness-src-" + label)
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src + "/examples")
    open(src + "/lib.rs", "w").write("")
    open(src + "/Cargo.toml", "w").write(open(V + "/witness/Cargo.toml.in").read().replace("@V@", V))
    shutil.copy(V + "/obligations-circuit/Cargo.lock", src + "/Cargo.lock")
    progs = {}
    for f in sorted(glob.glob(V + "/witness/claims/*.rs")):
        text = open(f).read()
        stem = os.path.basename(f)[:-3]
        claim = text.splitlines()[0].lstrip("/! ")
        for n, (bad, prog, line) in enumerate(expand(text)):
            name = f"{stem}__{n}"
            open(f"{src}/examples/{name}.rs", "w").write(prog)
            progs[name] = (stem, claim, bad, line, text)
    subprocess.check_call([sys.executable, V + "/tools/shadow.py"])
    target = os.path.join(V, "target-obl", "witness")
    check.forget(target, table.REPO_CRATES + ["obligations"])
    for d, _, fs in os.walk(target):
        for x in fs:
            if "__" in x and any(x.startswith((n + "-", "lib" + n + "-")) for n in progs):
                os.unlink(os.path.join(d, x))
    e = check.toolchain_env()
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--examples", "--keep-going", "--message-format=json", "--target-dir", target] + feats,
                       cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errors = {n: [] for n in progs}
    done = set()
    other = []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m["reason"] == "compiler-artifact" and m["target"]["name"] in progs:
            done.add(m["target"]["name"])
        if m["reason"] == "compiler-message" and m["message"]["level"] == "error":
            n = m["target"]["name"]
            if n in progs:
                errors[n].append(m["message"])
            else:
                other.append(m["message"]["message"])
    return progs, errors, done, other, r.stderr

def run(V, tier, seed):
    problems, nob, good, per = [], 0, 0, {}
    confs = [("short", [])] + ([("long", ["--no-default-features", "--features", "long"])] if tier == "thorough" else [])
    for label, feats in confs:
        progs, errors, done, other, err = one(V, feats, label)
        if other or not any(done):
            problems.append((f"{label}|build", f"the {label} configuration does not build: " + "; ".join(other[:5] or [err[-800:]])))
            continue
        for n, (stem, claim, bad, line, text) in progs.items():
            nob += 1
            es = [x for x in errors[n] if x["spans"] or x["code"]]
            if bad is None:
                if n in done and not es:
                    good += 1
                else:
                    at = [f"{s['text'][0]['text'].strip() if s['text'] else ''}" for x in es for s in x["spans"] if s["is_primary"]]
                    problems.append((f"{label}|{stem}|ok", f"[{label}] {claim}: a program that keeps the rule is rejected: "
                                     + "; ".join(f"{x['code']['code'] if x['code'] else ''} {x['message']}" for x in es[:3]) + f" at `{'; '.join(at[:3])}`"))
                continue
            here = [x for x in es if any(s["is_primary"] and s["line_start"] <= line <= s["line_end"] for s in x["spans"])
                    or any(s["line_start"] <= line <= s["line_end"] for s in x["spans"])]
            if here:
                good += 1
                per.setdefault(stem, []).append((here[0]["code"] or {}).get("code", "") if here[0]["code"] else "error")
            elif n in done:
                problems.append((f"{label}|{stem}|{bad.strip()}", f"[{label}] {claim}: this program has to be rejected and compiles: `{bad.strip()}` (witness/claims/{stem}.rs:{line})"))
            else:
                problems.append((f"{label}|{stem}|{bad.strip()}|elsewhere", f"[{label}] {claim}: `{bad.strip()}` is not what is rejected: " + "; ".join(x["message"] for x in es[:3])))
    if nob < 80:
        problems.append(("floor", f"only {nob} programs were analysed"))
    return {"obligations": nob, "discharged": good, "problems": problems,
            "coverage": {"rejected_with": per, "claims": sorted({os.path.basename(f)[:-3] for f in glob.glob(V + "/witness/claims/*.rs")})}}
