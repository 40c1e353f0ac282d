#!/usr/bin/env python3
"""Writes harness/src/p19_grid.in: the complete grid of format specifications
(alignment x sign x # x 0 x width x precision x trait)."""
import os
out = ["// generated by mc/gen_fmt.py"]
def grid(name, dynt, traits):
    out.append(f"fn {name}(run: &Run, name: &str, v: &dyn {dynt}, a: &[&dyn {dynt}], w: usize, p: usize) -> bool {{")
    for al in ("", "<", "*^"):
        out.append("    let ok = grid!(run name, v, a, w, p;")
        for sign in ("", "+"):
            for alt in ("", "#"):
                for z in ("", "0"):
                    for wd in ("", "w$"):
                        for pr in ("", ".p$"):
                            out.append("        " + " ".join(f'"{al}{sign}{alt}{z}{wd}{pr}{t}" "{{:{al}{sign}{alt}{z}{wd}{pr}{t}}}"' for t in traits))
        out.append("    );\n    if !ok { return false; }")
    out.append("    true\n}")
grid("grid_int", "IntFmt", ("?", "x?", "X?", "x", "X", "o", "b"))
grid("grid_debug", "Debug", ("?", "x?", "X?"))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src/p19_grid.in"), "w").write("\n".join(out) + "\n")
