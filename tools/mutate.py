"""mutate.py SHARD/N OUT FILE...: first-order mutants of the given files of /repo (run it in a lab, it edits /repo). Each mutant that
compiles and passes the stable tests is given to the checks of that file until one reports it."""
import json, os, re, zlib, subprocess, sys, tempfile
R = "/repo/"
B, C = "poseidon-base/src/", "poseidon-circuit/src/"
ORDER = [(B + "hash.rs", "P12 P02 P04 P03 P06 P07 P05 P01 C09"), (B + "params.rs", "P12 P08 P01 P09 P06 P02"), (B + "primitives/mds.rs", "P12 P10 P11 P08 P07"),
         (B + "primitives/grain.rs", "P12 P11 P10 P08"), (B + "primitives/p128", "P12 P01 P08 P09 P06 P07 P11"), (B + "primitives/b", "P12 P08 P01 P09 P02"),
         (B + "primitives/f", "P12 P08 P01"), (B + "primitives.rs", "P12 P02 P05 P03 P01 P04 P07 P06 P11 P10"), (B, "P12 P01 P08 P07"),
         (C + "hash.rs", "P12 C08 C04 C09 C05 C07 C06 C03"), (C + "poseidon/septidon", "P12 C01 C05 C07 C06 C09"), (C + "poseidon/pow5", "P12 C02 C10 C05 C07 C09"),
         (C + "poseidon.rs", "P12 C10 C05 C02 C01"), (C, "P12 C05")]
SUBST = [(r"(?<=[\w\)\]] )\+(?= [\w\(\&])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w\(\&])", ["+"]), (r"(?<=[\w\)\]] )\*(?= [\w\(\&])", ["+"]), (r"(?<= )/(?= \w)", ["*"]), (r"(?<= )%(?= )", ["/"]),
         (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>=(?= )", [">"]), (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]),
         (r"&&", ["||"]), (r"\|\|(?= \w)(?<=[\w\)] \|\|)", ["&&"]), (r"(?<=\w)\.\.=", [".."]), (r"(?<=[\w\)])\.\.(?=[\w])", ["..="]),
         (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", ["+1", "-1"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"::ZERO\b", ["::ONE"]), (r"::ONE\b", ["::ZERO"]), (r"Rotation::cur\(\)", ["Rotation::next()"]), (r"Rotation::next\(\)", ["Rotation::cur()"]), (r"Rotation::prev\(\)", ["Rotation::cur()"]),
         (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\.rev\(\)", [""]), (r"\.square\(\)", [".double()"]), (r"\.double\(\)", [""]), (r"\.skip\(", [".take("]), (r"\.take\(", [".skip("]), (r"(?<=[=\(] )!(?=\w)|(?<=if )!(?=\w)|(?<=\()!(?=\w)", [""]),
         (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.chain\([^()]*(\([^()]*\)[^()]*)*\)", [""]), (r"<<", [">>"]), (r">>(?= \d)", ["<<"]), (r"\.saturating_sub\(", [".wrapping_sub("]),
         (r"\.enable\(", [".clone().annotate("]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"\.unwrap_or\(", [".map_or(Default::default(), |_| "]), (r"(?<= )\?(?=;)", [""])]
def body(t):
    ends = [m.start() for m in re.finditer(r'#\[cfg\((test|any\(test[^\n]*)\)\]\n(pub(\(crate\))? )?mod ', t)]
    return t[:min(ends)] if ends else t
def mutants(path):
    t = open(R + path).read()
    lim = len(body(t))
    pos = 0
    for ln, line in enumerate(t[:lim].splitlines(True), 1):
        s = line.split("//")[0]
        if s.strip() and not s.lstrip().startswith(("use ", "#[", "pub use", "mod ", "pub mod", "\"")):
            for pat, reps in SUBST:
                for m in re.finditer(pat, s):
                    for r in reps:
                        if r in ("+1", "-1"):
                            r = str(int(m.group()) + int(r))
                        yield path, ln, t[:pos + m.start()] + r + t[pos + m.end():], f"{line.strip()}  =>  {(s[:m.start()] + r + s[m.end():]).strip()}"
            if re.match(r"\s+[\w\.:]+.*\)\??;\s*$", s) and not re.match(r"\s+(let|return|assert)", s) and s.count("(") == s.count(")"):
                yield path, ln, t[:pos] + re.match(r"\s*", s).group() + "// \n" + t[pos + len(line):], f"{line.strip()}  =>  (deleted)"
        pos += len(line)
def tests():
    return subprocess.run(["bash", "-c", 'T=$1; sed "s#\\"/opt/vp/ws\\"#\\"$T/ws\\"#" /opt/vp/workspace.py > $T.py; . /opt/vp/env.sh; export CARGO_TARGET_DIR=$T/target; mkdir -p $T; python3 $T.py && cd $T/ws && timeout 200 cargo test --workspace --offline --no-fail-fast 2>&1', "x", os.environ["MUTTMP"]],
                          capture_output=True, text=True)
def main():
    k, n = map(int, sys.argv[1].split("/"))
    out = sys.argv[2]
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    i = -1
    for f in sys.argv[3:]:
        orig = open(R + f).read()
        checks = next(c for p, c in ORDER if f.startswith(p)).split()
        for path, ln, new, desc in list(mutants(f)):
            i += 1
            mid = f"{path}:{ln}:{desc}"
            if i % n != k or mid in done or zlib.crc32(mid.encode()) % 100 >= int(os.environ.get('PERCENT', '100')):
                continue
            open(R + path, "w").write(new)
            res = "SURVIVED"
            try:
                if path.startswith(B):
                    r = tests()
                    if "could not compile" in r.stdout or r.returncode and "test result" not in r.stdout:
                        res = "nocompile"
                    elif r.returncode:
                        res = "tests"
                if res == "SURVIVED":
                    for c in checks:
                        r = subprocess.run(["timeout", "900", "python3", "/verif/check.py", c, "quick"], capture_output=True, text=True)
                        if r.returncode == 1:
                            res = "killed " + c
                            if "does not build" in r.stdout or "cannot be analysed" in r.stdout:
                                res = "nocompile"
                            break
                        if r.returncode != 0:
                            res = f"NOANSWER {c} {r.returncode}"
                            break
            finally:
                open(R + path, "w").write(orig)
            with open(out, "a") as o:
                o.write(json.dumps({"id": mid, "result": res}) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "--list":
        for f in sys.argv[2:]:
            m = list(mutants(f))
            print(f, len(m))
    else:
        main()
