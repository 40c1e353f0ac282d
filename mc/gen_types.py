#!/usr/bin/env python3
"""Writes harness/src/types.rs (committed): the public vector types the library
documents, as callback macros.  Static data: it is NOT derived from /repo, so a
change there cannot silently shrink the explored space (a removed type becomes a
build error of the harness)."""
import os
rows = {"ints": [], "floats": [], "masks": []}
def bm(n):
    return "u8" if n <= 8 else "u%d" % n
for bits in (16, 32, 64, 128, 256, 512):
    for w in (8, 16, 32, 64, 128):
        n = bits // w
        if n < 1 or (n == 1 and w != 128):
            continue
        if w == 128 and bits < 128:
            continue
        if bits == 64 and w == 64:
            continue
        m = f"m{w}x{n}"
        u = f"u{w}x{n}"
        for c in "iu":
            rows["ints"].append(f"{c}{w}x{n} {c}{w} u{w} {c.upper()} {w} {n} {m} {bm(n)} {u}")
        rows["masks"].append(f"{m} m{w} u{w} M {w} {n} {m} {bm(n)} {u}")
        if w in (32, 64):
            rows["floats"].append(f"f{w}x{n} f{w} u{w} F {w} {n} {m} {bm(n)} {u}")
for n in (2, 4, 8):
    for c in ("i", "u"):
        rows["ints"].append(f"{c}sizex{n} {c}size u64 {c.upper()} 64 {n} msizex{n} u8 usizex{n}")
    rows["masks"].append(f"msizex{n} msize u64 M 64 {n} msizex{n} u8 usizex{n}")
out = ["// Generated by gen_types.py.",
       "// Columns: vector, element, same-width unsigned int, class, lane bits, lanes, mask vector, bitmask type, index vector", ""]
for name, rs in rows.items():
    out.append("#[macro_export]\nmacro_rules! %s {\n    ($cb:ident) => {" % name)
    for r in rs:
        out.append("        $cb!{%s}" % r)
    out.append("    };\n}\n")
    if name == "ints":
        out.append("#[macro_export]\nmacro_rules! sints {\n    ($cb:ident) => {")
        for r in rs:
            if " I " in r:
                out.append("        $cb!{%s}" % r)
        out.append("    };\n}\n")
# select: every mask type with every vector type of the same lane count
out.append("#[macro_export]\nmacro_rules! select_pairs {\n    ($cb:ident) => {")
allv = [r.split() for r in rows["ints"] + rows["floats"] + rows["masks"]]
npairs = 0
for m in [r.split() for r in rows["masks"]]:
    for v in allv:
        if v[5] == m[5]:
            out.append("        $cb!{%s %s %s %s %s %s}" % (m[0], m[4], v[0], v[3], v[4], v[5]))
            npairs += 1
out.append("    };\n}\n")
print("select pairs", npairs)
# $v::new with the lanes of array $a
out.append("#[macro_export]\nmacro_rules! new_call {")
for n in (1, 2, 4, 8, 16, 32, 64):
    out.append("    (%d $v:ident, $a:expr) => { $v::new(%s) };" % (n, ", ".join("$a[%d]" % i for i in range(n))))
out.append("}\n")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "harness/src/types.rs"), "w").write("\n".join(out))
print({k: len(v) for k, v in rows.items()})
