#!/usr/bin/env python3
"""One-off generator of harness/src/bin/p13_table.in (committed): the static
index lists explored by p13, grouped per (source type, result type, form)."""
import itertools, os
here = os.path.dirname(os.path.abspath(__file__))
types = []
for bits in (16, 32, 64, 128, 256, 512):
    for w in (8, 16, 32, 64, 128):
        n = bits // w
        if n < 1 or (n == 1 and w != 128) or (w == 128 and bits < 128) or (bits == 64 and w == 64):
            continue
        for c in "iufm":
            if c == "f" and w not in (32, 64):
                continue
            types.append((c, str(w), w, n))
for n in (2, 4, 8):
    for c in "ium":
        types.append((c, "size", 64, n))
def maxout(c, name, w):
    if name == "size": return 8
    if c == "m" and w == 16: return 16
    return {8: 64, 16: 32, 32: 16, 64: 8, 128: 4}[w]
def pats(n, m, two):
    N = 2 * n if two else n
    P = [[i % N for i in range(m)], [(N - 1 - i) % N for i in range(m)],
         [(i + N // 2 + 1) % N for i in range(m)], [(5 * i + 3 + i // 7) % N for i in range(m)]]
    if two:
        P.append([(i // 2 + (i % 2) * n) % N for i in range(m)])
        P.append([(i + n) % N for i in range(m)])
    P.append([(N - 1 if i % 3 == 0 else 0) for i in range(m)])
    if m > 2:
        P.append([(2 * i + (i * 2) // N) % N for i in range(m)])
    seen, R = set(), []
    for p in P:
        if tuple(p) not in seen:
            seen.add(tuple(p)); R.append(p)
    return R
out = []
tot = 0
def group(src, dst, w, c, n, m, two, ps):
    global tot
    tot += len(ps)
    out.append("grp!{%s, %s, %s, %d, %d, %d, %s, [%s]}" % (src, dst, c, w, n, m, "two" if two else "one", " ".join("[%s]" % ", ".join(map(str, p)) for p in ps)))
for c, name, w, n in types:
    mo = maxout(c, name, w)
    for m in (2, 4, 8, 16, 32, 64):
        if m > mo: continue
        for two in (False, True):
            group(f"{c}{name}x{n}", f"{c}{name}x{m}", w, c.upper(), n, m, two, pats(n, m, two))
for pk, T in (("cptr", "u8"), ("mptr", "u32")):
    for n in (2, 4, 8):
        for m in (2, 4, 8):
            for two in (False, True):
                group(f"{pk}x{n}<{T}>", f"{pk}x{m}<{T}>", 64, "U", n, m, two, pats(n, m, two))
# complete index spaces
def full(src, dst, w, c, n, m, two):
    N = 2 * n if two else n
    group(src, dst, w, c, n, m, two, [list(p) for p in itertools.product(range(N), repeat=m)])
full("u8x2", "u8x2", 8, "U", 2, 2, True)
full("u8x2", "u8x4", 8, "U", 2, 4, True)
full("i64x2", "i64x2", 64, "I", 2, 2, True)
full("f64x2", "f64x2", 64, "F", 2, 2, True)
full("m64x2", "m64x2", 64, "M", 2, 2, True)
full("f32x4", "f32x2", 32, "F", 4, 2, True)
full("f32x4", "f32x4", 32, "F", 4, 4, False)
full("i16x4", "i16x4", 16, "I", 4, 4, False)
full("i128x1", "i128x2", 128, "I", 1, 2, True)
full("i128x1", "i128x4", 128, "I", 1, 4, True)
full("usizex2", "usizex4", 64, "U", 2, 4, False)
print(len(out), "groups", tot, "index lists")
open(os.path.join(here, "harness/src/p13_table.in"), "w").write("{\n" + "\n".join(out) + "\n}\n")
