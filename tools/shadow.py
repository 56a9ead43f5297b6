"""writes /verif/shadow/poseidon-circuit/Cargo.toml: the manifest of /repo/poseidon-circuit with halo2_proofs replaced by the
recorder of /verif/halo2-stub and the dependencies that only its tests use removed; sources, features and edges are /repo's"""
import os, re, sys, tomllib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SHADOW_REPO", "/repo")
C = REPO + "/poseidon-circuit"

def val(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(x, list):
        return "[" + ", ".join(val(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{ " + ", ".join(f"{k} = {val(y)}" for k, y in x.items()) + " }"
    return str(x)

def main():
    m = tomllib.load(open(C + "/Cargo.toml", "rb"))
    w = tomllib.load(open(REPO + "/Cargo.toml", "rb"))["workspace"].get("dependencies", {})
    out = os.path.join(V, "shadow", "poseidon-circuit")
    os.makedirs(out, exist_ok=True)
    p = m["package"]
    src = ""
    for dd, _, ff in os.walk(C + "/src"):
        for f in ff:
            if f.endswith(".rs"):
                src += re.sub(r"//[^\n]*", "", open(os.path.join(dd, f), errors="replace").read())
    lib = os.path.normpath(os.path.join(C, m.get("lib", {}).get("path", "src/lib.rs")))
    t = f'# generated by tools/shadow.py from {C}/Cargo.toml\n[package]\nname = {val(p["name"])}\nversion = {val(p["version"])}\nedition = {val(p.get("edition", "2021"))}\npublish = false\n\n'
    t += f'[workspace]\n\n[lib]\npath = {val(lib)}\ndoctest = false\n\n[dependencies]\n'
    for n, d in m["dependencies"].items():
        if isinstance(d, str):
            d = {"version": d}
        d = dict(d)
        if d.pop("workspace", False):
            b = w[n]
            b = {"version": b} if isinstance(b, str) else dict(b)
            b["features"] = b.get("features", []) + d.get("features", [])
            d = {**b, **{k: v for k, v in d.items() if k != "features"}}
            if not d["features"]:
                del d["features"]
        if n == "halo2_proofs":
            d = {k: v for k, v in d.items() if k in ("features", "default-features", "optional")}
            d["path"] = V + "/halo2-stub"
        elif n == "log":
            d = {"path": V + "/halo2-stub/log"}
        elif n in ("rand_xorshift", "rand_chacha", "bencher", "plotters") or not re.search(r"\b%s\b" % n.replace("-", "_"), src):
            continue
        elif "path" in d:
            d["path"] = os.path.normpath(os.path.join(C, d["path"]))
        t += f"{n} = {val(d)}\n"
    t += "\n[features]\n"
    for n, f in m.get("features", {}).items():
        t += f"{n} = {val(f)}\n"
    f = os.path.join(out, "Cargo.toml")
    if not os.path.exists(f) or open(f).read() != t:
        open(f, "w").write(t)
if __name__ == "__main__":
    main()
