#!/usr/bin/env python3
"""Reference Poseidon parameters (Grain LFSR, Cauchy MDS) from the published description, independent of /repo.
Writes obligations/src/bn_ref.rs.  Usage: tools/gen_ref.py"""
import os
BN = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
FP = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001

def grain(p, n, t, rf, rp):
    bits = [int(c) for c in f"{1:02b}{0:04b}{n:012b}{t:012b}{rf:010b}{rp:010b}" + "1" * 30]
    assert len(bits) == 80
    def step():
        b = bits[62] ^ bits[51] ^ bits[38] ^ bits[23] ^ bits[13] ^ bits[0]
        bits.pop(0)
        bits.append(b)
        return b
    for _ in range(160):
        step()
    while True:
        b = step()
        while b == 0:
            step()
            b = step()
        yield step()

def params(p, t, rf, rp, select=0):
    n = p.bit_length()
    g = grain(p, n, t, rf, rp)
    def num():
        return int("".join(str(next(g)) for _ in range(n)), 2)
    rc = []
    for _ in range((rf + rp) * t):
        x = num()
        while x >= p:
            x = num()
        rc.append(x)
    while True:
        v = [num() % p for _ in range(2 * t)]
        while len(set(v)) != 2 * t:
            v = [num() % p for _ in range(2 * t)]
        if select == 0:
            break
        select -= 1
    xs, ys = v[:t], v[t:]
    mds = [[pow(x + y, p - 2, p) for y in ys] for x in xs]
    return [rc[i:i + t] for i in range(0, len(rc), t)], mds

def inv(m, p):
    t = len(m)
    a = [r[:] + [int(i == j) for j in range(t)] for i, r in enumerate(m)]
    for c in range(t):
        k = next(r for r in range(c, t) if a[r][c])
        a[c], a[k] = a[k], a[c]
        s = pow(a[c][c], p - 2, p)
        a[c] = [x * s % p for x in a[c]]
        for r in range(t):
            if r != c:
                f = a[r][c]
                a[r] = [(x - f * y) % p for x, y in zip(a[r], a[c])]
    return [r[t:] for r in a]

def limbs(x):
    return "[" + ", ".join(f"0x{(x >> (64 * i)) & (2**64 - 1):016x}" for i in range(4)) + "]"

def emit(name, p, rf, rp):
    rc, mds = params(p, 3, rf, rp)
    out = [f"pub static {name}_RC: [[[u64; 4]; 3]; {len(rc)}] = ["]
    out += ["    [" + ", ".join(limbs(x) for x in r) + "]," for r in rc]
    out.append("];")
    for n, m in (("MDS", mds), ("MDS_INV", inv(mds, p))):
        out.append(f"pub static {name}_{n}: [[[u64; 4]; 3]; 3] = [")
        out += ["    [" + ", ".join(limbs(x) for x in r) + "]," for r in m]
        out.append("];")
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    s = "//! Generated by tools/gen_ref.py: reference parameters, canonical little-endian limbs.\n"
    s += emit("BN", BN, 8, 57) + emit("PASTA", FP, 8, 56)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    open(os.path.join(here, "obligations/src/bn_ref.rs"), "w").write(s)
