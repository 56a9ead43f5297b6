"""mkseed.py FILE...: FILE is a python file defining ID, PROPERTY, EDITS [(path, old, new)], MAIN (rust main body file text),
NEEDS, BREAKS, optional FEATURES. Validates in a scratch copy and writes /verif/seeded/ID."""
import os, shutil, subprocess, sys, json, runpy
sys.path.insert(0, "/verif/tools/seeds")
S = "/tmp/seedws"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def scratch():
    if not os.path.exists(S + "/repo"):
        os.makedirs(S)
        sh(f"git clone -q /repo {S}/repo")
        w = open("/opt/vp/workspace.py").read().replace('REPO, WS = "/repo", "/opt/vp/ws"', f'REPO, WS = "{S}/repo", "{S}/ws"')
        open(S + "/workspace.py", "w").write(w)
    sh(f"git -C {S}/repo fetch -q; git -C {S}/repo reset -q --hard origin/HEAD; git -C {S}/repo clean -fdq -e target")
def tests():
    c = f". /opt/vp/env.sh; export CARGO_TARGET_DIR={S}/target; python3 {S}/workspace.py && cd {S}/ws && cargo build --workspace --offline && cargo test --workspace --no-fail-fast --offline -- --test-threads 8"
    r = sh(c)
    ok = r.stdout.count(" ... ok")
    return ok >= 14 and "FAILED" not in r.stdout and r.returncode == 0, r.stdout
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the working tree's poseidon-base, nonzero when the demonstration fails
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=${REPO_ROOT:-$(pwd)}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-07 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTC_WRAPPER=
mkdir -p "$T/d/src"
cp "$HERE/main.rs" "$T/d/src/main.rs"
cp "$HERE/Cargo.lock" "$T/d/Cargo.lock"
sed "s#@ROOT@#$ROOT#" "$HERE/Cargo.toml.in" > "$T/d/Cargo.toml"
cd "$T/d" || exit 2
timeout 250 cargo run -q --offline
'''
REJECT = DEMO.replace('cp "$HERE/main.rs" "$T/d/src/main.rs"\n', 'cp "$HERE/good.rs" "$T/d/src/main.rs"\n').replace("timeout 250 cargo run -q --offline\n", """timeout 250 cargo check -q --offline || exit 2     # a program that keeps the rules compiles
cp "$HERE/bad.rs" src/main.rs
if timeout 100 cargo check -q --offline 2> err; then
    echo "DEMONSTRATED: a program that breaks the rules compiles"
    exit 1
fi
grep -q '^error' err || { cat err; exit 2; }
exit 0
""").replace("when the demonstration fails", "when a forbidden program compiles (or an allowed one does not)")
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
poseidon-base = { path = "@ROOT@/poseidon-base"%s }
halo2curves = "0.1.0"
subtle = "2"
rand_core = "0.6"
[profile.dev]
opt-level = 1
'''
def main(f):
    d = runpy.run_path(f)
    out = "/verif/seeded/" + d["ID"]
    scratch()
    os.makedirs(out, exist_ok=True)
    if d.get("BAD"):
        open(out + "/good.rs", "w").write(d["GOOD"])
        open(out + "/bad.rs", "w").write(d["BAD"])
        open(out + "/Cargo.toml.in", "w").write(TOML % d.get("FEATURES", ""))
        open(out + "/demo.sh", "w").write(REJECT)
        shutil.copy("/verif/tools/demo.lock", out + "/Cargo.lock")
    elif d.get("SCRIPT"):
        for n, t in d["SCRIPT"].items():
            open(f"{out}/{n}", "w").write(t)
    elif d.get("CIRCUIT"):
        K = "/verif/tools/circuit_demo/"
        for n in ("demo.sh", "circuit.toml.in", "mock.rs", "Cargo.lock"):
            shutil.copy(K + n, out + "/" + n)
        open(out + "/main.rs", "w").write(d["MAIN"])
        open(out + "/Cargo.toml.in", "w").write(open(K + "Cargo.toml.in").read() % d.get("FEATURES", ""))
        sh(f"tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C /verif -cf {out}/standins.tar halo2-stub")
    else:
        open(out + "/main.rs", "w").write(d["MAIN"])
        open(out + "/Cargo.toml.in", "w").write(TOML % d.get("FEATURES", ""))
        open(out + "/demo.sh", "w").write(DEMO)
        lock = "/verif/tools/demo.lock"
        shutil.copy(lock, out + "/Cargo.lock")
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    clean = sh(f"bash {out}/demo.sh", cwd=S + "/repo")
    for p, a, b in d["EDITS"]:
        p = S + "/repo/" + p
        s = open(p).read()
        if s.count(a) < 1:
            print(d["ID"], "EDIT DOES NOT MATCH", a); return False
        open(p, "w").write(s.replace(a, b, 1))
    diff = sh(f"git -C {S}/repo diff").stdout
    open(out + "/patch.diff", "w").write(diff)
    ok, log = tests()
    bad = sh(f"bash {out}/demo.sh", cwd=S + "/repo")
    good = clean.returncode == 0 and ok and bad.returncode != 0 and ("DEMONSTRATED" in bad.stdout or "panicked" in bad.stdout or not d.get("CIRCUIT"))
    print(d["ID"], "OK" if good else "REJECTED", "clean:", clean.returncode, "tests:", ok, "patched:", bad.returncode)
    if not good:
        print(clean.stdout[-1500:]); print(log[-1500:] if not ok else ""); print(bad.stdout[-500:])
        shutil.rmtree(out)
    sh(f"git -C {S}/repo checkout -q -- .")
    return good
if __name__ == "__main__":
    r = [main(f) for f in sys.argv[1:]]
    sys.exit(0 if all(r) else 1)
