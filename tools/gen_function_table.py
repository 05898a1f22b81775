#!/usr/bin/env python3
"""Writes spec/FunctionTable.tla: values of the scalar functions on a grid, in units of 1e-5, computed with mpmath.

Run with python3-vt; the output is committed.  FunctionsMC.tla checks it against functional equations.
"""
import os
from mpmath import mp, mpf, mpc
import mpmath as m

mp.dps = 80
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "FunctionTable.tla")
S = 100000
LIM = 20000


def q(x):
    x = mpc(x)
    if abs(x.real) > LIM or abs(x.imag) > LIM:
        return None
    return [int(m.nint(x.real * S)), int(m.nint(x.imag * S))]


GRID = range(-40, 41)
real = {
    "abs": (abs, None),
    "arg": (lambda x: m.pi if x < 0 else mpf(0), None),
    "real": (lambda x: x, None),
    "imag": (lambda x: mpf(0), None),
    "conj": (lambda x: x, None),
    "log": (m.log, lambda k: k > 0),
    "log2": (lambda x: m.log(x) / m.log(2), lambda k: k > 0),
    "log10": (m.log10, lambda k: k > 0),
    "exp": (m.exp, None),
    "sqrt": (m.sqrt, lambda k: k >= 0),
    "cbrt": (lambda x: m.sign(x) * m.cbrt(abs(x)), None),
    "sin": (m.sin, None), "cos": (m.cos, None), "tan": (m.tan, None),
    "asin": (m.asin, lambda k: abs(k) <= 8), "acos": (m.acos, lambda k: abs(k) <= 8), "atan": (m.atan, None),
    "sinh": (m.sinh, None), "cosh": (m.cosh, None), "tanh": (m.tanh, None),
    "asinh": (m.asinh, None), "acosh": (m.acosh, lambda k: k >= 8), "atanh": (m.atanh, lambda k: abs(k) < 8),
    "erf": (m.erf, None), "erfc": (m.erfc, None),
    "tgamma": (m.gamma, lambda k: k > 0 or k % 8 != 0), "lgamma": (lambda x: m.log(abs(m.gamma(x))), lambda k: k > 0 or k % 8 != 0),
}
for p in (-2, -1, 0, 1, 2, 3, 4, 5):
    real["pow%d" % p] = (lambda x, p=p: x ** p, (lambda k: k != 0) if p < 0 else None)
for p2 in (-3, -1, 1, 3, 5):
    real["powh%d" % p2] = (lambda x, p=p2: x ** (mpf(p) / 2), (lambda k: k > 0) if p2 < 0 else (lambda k: k >= 0))

def pole(*points):
    return lambda x, y: (x, y) not in points


def arg(z):
    return mpf(0) if abs(z) < 1e-20 else m.arg(z)


# On branch cuts, values for parts of +0 as in C++: limits from above or from the right.
origin = (0, 0)
cpx = {
    "abs": (abs, None), "arg": (arg, None), "real": (m.re, None), "imag": (m.im, None), "conj": (m.conj, None),
    "log": (m.log, pole(origin)), "log10": (m.log10, pole(origin)), "exp": (m.exp, None), "sqrt": (m.sqrt, None),
    "sin": (m.sin, None), "cos": (m.cos, None), "tan": (m.tan, None),
    "asin": (m.asin, None), "acos": (m.acos, None), "atan": (m.atan, pole((0, 2), (0, -2))),
    "sinh": (m.sinh, None), "cosh": (m.cosh, None), "tanh": (m.tanh, None),
    "asinh": (m.asinh, None), "acosh": (m.acosh, None), "atanh": (m.atanh, pole((2, 0), (-2, 0))),
    "pow2": (lambda x: x * x, pole(origin)), "powh1": (m.sqrt, pole(origin)),
}
EPS = mpf(10) ** -35


def row(v):
    return "<<>>" if v is None else "<<%d, %d>>" % tuple(v)


lines = ["--------------------------- MODULE FunctionTable ---------------------------",
         "(* Generated by tools/gen_function_table.py: function values in units of 1e-5; <<>>: not used.                      *)",
         "EXTENDS Integers", "(* Real functions at k/8 for k = -40..40 *)", "RealTable == ["]
rows = []
for name, (f, dom) in real.items():
    vals = [q(f(mpf(k) / 8)) if dom is None or dom(k) else None for k in GRID]
    rows.append("  %s |-> <<%s>>" % (name.replace("-", "m"), ", ".join(row(v) for v in vals)))
lines.append(",\n".join(rows) + "]")
lines += ["(* Complex functions at (x + iy)/2, x = -4..4 the slower, y = -4..4 the faster *)", "ComplexTable == ["]
rows = []
for name, (f, dom) in cpx.items():
    vals = [q(f(mpc(mpf(x) / 2 + EPS, mpf(y) / 2 + EPS))) if dom is None or dom(x, y) else None for x in range(-4, 5) for y in range(-4, 5)]
    rows.append("  %s |-> <<%s>>" % (name, ", ".join(row(v) for v in vals)))
lines.append(",\n".join(rows) + "]")
lines.append("=============================================================================")
open(OUT, "w").write("\n".join(lines) + "\n")
