#!/usr/bin/env python3
"""One-off generator of harness/src/pairs.rs (committed): the conversions the
library documented at the pinned commit.  It is NOT run by the checks, so a
change in /repo cannot silently shrink the explored space."""
import re, os, sys
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
here = os.path.dirname(os.path.abspath(__file__))
def info(t):
    m = re.fullmatch(r"([iufm])(size|\d+)x(\d+)", t)
    c, w, n = m.groups()
    return c.upper(), (64 if w == "size" else int(w)), int(n)
def strip(s):
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)
out = ["// Generated by gen_pairs.py from the pinned commit.", ""]
def emit(name, rows):
    out.append("#[macro_export]\nmacro_rules! %s {\n    ($cb:ident) => {" % name)
    for r in rows:
        out.append("        $cb!{%s}" % r)
    out.append("    };\n}\n")
    print(name, len(rows))
def row(to, fr):
    a, b = info(to), info(fr)
    assert a[2] == b[2], (to, fr)
    return "%s %s %d %s %s %d %d" % (to, a[0], a[1], fr, b[0], b[1], a[2])
cast = []
for f in ("v16", "v32", "v64", "v128", "v256", "v512"):
    s = strip(open(f"{repo}/src/api/cast/{f}.rs").read())
    for m in re.finditer(r"impl_from_cast(?:_mask)?!\s*\(\s*(\w+)\[\w+\]\s*:(.*?)\);", s, re.S):
        for fr in re.findall(r"\w+", m.group(2)):
            cast.append((m.group(1), fr))
assert len(set(cast)) == len(cast)
emit("cast_pairs", [row(*p) for p in cast])
frm = []
for f in ("v16", "v32", "v64", "v128", "v256", "v512"):
    s = strip(open(f"{repo}/src/{f}.rs").read())
    for m in re.finditer(r"impl_[iufm]!\(\[[^\]]*\]\s*:\s*(\w+).*?From:(.*?)\|", s, re.S):
        for fr in re.findall(r"\w+", m.group(2)):
            if m.group(1) != "m64x1":  # inside a block comment in v64.rs
                frm.append((m.group(1), fr))
emit("from_pairs", [row(*p) for p in frm])
bits = []
for f in ("v16", "v32", "v64", "v128", "v256", "v512"):
    s = strip(open(f"{repo}/src/api/into_bits/{f}.rs").read())
    for m in re.finditer(r"impl_from_bits!\s*\(\s*(\w+)\[\w+\]\s*:(.*?)\);", s, re.S):
        for fr in re.findall(r"\w+", m.group(2)):
            bits.append((m.group(1), fr))
emit("bits_pairs", ["%s %s %s %d %d" % (t, f, *info(f)) for t, f in bits])
arch = []
V = {128: [], 256: []}
for bitsn in V:
    for w in (8, 16, 32, 64, 128):
        for c in "iufm":
            if c == "f" and w not in (32, 64): continue
            V[bitsn].append(f"{c}{w}x{bitsn//w}")
for bitsn, names in ((128, ("__m128", "__m128i", "__m128d")), (256, ("__m256", "__m256i", "__m256d"))):
    for a in names:
        for v in V[bitsn]:
            arch.append("%s %s %s %d %d" % (a, v, *info(v)))
emit("arch_pairs", arch)
# Reinterpretations that must not exist: into a mask from anything that can hold other
# patterns than all-ones and all-zeros per destination lane.
forbid = []
for bitsn in (16, 32, 64, 128, 256, 512):
    t = []
    for w in (8, 16, 32, 64, 128):
        if bitsn // w < (1 if w == 128 else 2):
            continue
        for c in "iufm":
            if c == "f" and w not in (32, 64):
                continue
            t.append((c, w, f"{c}{w}x{bitsn//w}"))
    for _, w, m in [x for x in t if x[0] == "m"]:
        for c, fw, f in t:
            if c != "m" or fw < w:
                forbid.append(f"{m} {f}")
        for a in {128: ("__m128", "__m128i", "__m128d"), 256: ("__m256", "__m256i", "__m256d")}.get(bitsn, ()):
            forbid.append(f"{m} {a}")
emit("mask_from_bits", forbid)
open(os.path.join(here, "harness/src/pairs.rs"), "w").write("\n".join(out))
