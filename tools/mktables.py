#!/usr/bin/env python3-vt
"""Writes spec/Tables.tla: tabulated functions which TLA+'s integers lack,
computed here independently of the code under test (series and scipy)."""
import math
from scipy.special import j1
def seq(v):
    out, line = [], ""
    for x in v:
        t = "%d, " % x
        if len(line) + len(t) > 150:
            out.append(line); line = ""
        line += t
    out.append(line.rstrip(", "))
    return "<<" + "\n".join(out) + ">>"
ex = [round(1e6 * math.exp(-i / 32)) for i in range(0, 32 * 16 + 1)]
ai = [1000000] + [round(1e6 * (2 * j1(i / 64) / (i / 64)) ** 2) for i in range(1, 64 * 24 + 1)]
sr = [round(1e4 * (x / 12.92 if x <= 0.04045 else ((x + 0.055) / 1.055) ** 2.4)) for x in (i / 255 for i in range(256))]
en = [round(65535 * (12.92 * x if x <= 0.0031308 else 1.055 * x ** (1 / 2.4) - 0.055)) for x in (i / 1000 for i in range(1001))]
si = [round(3e4 * math.sin(0.005 * i)) for i in range(2001)]
co = [round(3e4 * math.cos(0.005 * i)) for i in range(2001)]
open("/verif/spec/Tables.tla", "w").write("""------------------------------- MODULE Tables -------------------------------
(* written by tools/mktables.py *)
EXTENDS Integers, Sequences
(* 10^6 exp(-i/32) *)
ExpTab == %s
(* 10^6 (2 J1(i/64)/(i/64))^2 *)
AiryTab == %s
(* 10^4 times the linear value of the sRGB byte i *)
SrgbTab == %s
(* 65535 times the sRGB value of i/1000 *)
EncTab == %s
(* 3 * 10^4 times the sine and cosine of i/200 *)
SinTab == %s
CosTab == %s
=============================================================================
""" % (seq(ex), seq(ai), seq(sr), seq(en), seq(si), seq(co)))
