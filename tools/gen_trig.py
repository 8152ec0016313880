#!/usr/bin/env python3
"""Generates spec/TrigTab.tla: round(100000 * cos(2 pi a / L)) for the denominators L the FFT specification uses."""
import math, os
LS = sorted(set(range(1, 49)) | {50, 52, 54, 55, 56, 60, 63, 64, 65, 66, 70, 72, 75, 77, 80, 84, 90, 96, 99, 100, 105, 110, 112, 120, 126, 128, 140, 168, 210})
o = ["------------------------------- MODULE TrigTab -------------------------------",
     "(* Generated by tools/gen_trig.py: CosTab[L][a+1] = 100000 * cos(2 pi a / L), rounded; 0 <= a < L; SinTab likewise. *)",
     "EXTENDS Integers, Sequences", "Denominators == {%s}" % ", ".join(map(str, LS)), "CosTab == <<"]
def rows_(f):
    return ",\n".join(" <<" + ", ".join(str(int(round(1e5 * getattr(math, f)(2 * math.pi * a / L)))) for a in range(L)) + ">>" if L in LS else " <<>>"
                      for L in range(1, max(LS) + 1))


o.append(rows_("cos"))
o += [">>", "SinTab == <<"]
o.append(rows_("sin"))
o += [">>", "============================================================================="]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "TrigTab.tla"), "w").write("\n".join(o) + "\n")
