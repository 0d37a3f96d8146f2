#!/usr/bin/env python3
"""Writes spec/potential_table.json: the screened Coulomb potential V(d) = e/(4 pi eps0 eps_r d) exp(-d/lambda) on
decimal grids, in units of 100 nV (rounded), computed with 50 decimal digits from the CODATA constants, independently
of the code under test.  Used by spec/Potential.tla as the interpretation of V."""
import json, os
from decimal import Decimal, getcontext
getcontext().prec = 50
E = Decimal("1.602176634e-19")
EPS0 = Decimal("8.8541878128e-12")
PI = Decimal("3.14159265358979323846264338327950288419716939937510")
SETS = [("5.6", "5.0"), ("4.1", "1.8"), ("6.2", "8.0")]
GRID = {0: 25, 1: 160, 2: 1200, 3: 2500}

def v(er, la, d):
    return E / (4 * PI * EPS0 * Decimal(er)) / (d * Decimal("1e-9")) * (-(d / Decimal(la))).exp()

out = []
for er, la in SETS:
    t = []
    for p, n in sorted(GRID.items()):
        col = []
        for i in range(1, n + 1):
            x = v(er, la, Decimal(i).scaleb(-p)) * Decimal("1e7")
            col.append(min(2000000000, int(x.to_integral_value())))
        t.append(col)
    out.append({"eps": er, "lambda": la, "grid": t})
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "potential_table.json")
json.dump(out, open(p, "w"), separators=(",", ":"))
