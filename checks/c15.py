"""C15: the two-asset lattice prices every payoff type on every node and path."""
import itertools
import math

import numpy as np

from mc import ref
from mc.engines import so

PROP = "C15"
TECHNIQUE = "exhaustive enumeration of every lattice path and node as the model; implementation replayed on each lattice, full value matrix compared"

NS = {"quick": [1, 2, 3, 4, 5, 6, 7, 9], "thorough": list(range(1, 15)) + [17, 20]}
PATHS = {"quick": 4, "thorough": 6}
OPTS = list(range(1, 10))
# (S1, S2, K, K2) relative levels: exercise in, at and out of the money for every payoff
LEVELS = {
    1: [(122.0, 120.0, 3.0), (100.0, 120.0, 3.0), (122, 120, -5), (90.0, 60.0, 0)],
    2: [(100.0, 90.0, 98.0), (80.0, 110.0, 100), (70.0, 60.0, 90.0)],
    3: [(100.0, 90.0, 92.0), (80.0, 110.0, 85), (120.0, 130.0, 90.0)],
    4: [(100.0, 90.0, 95.0, 105.0), (80.0, 110.0, 100.0, 100.0), (70, 60, 80, 50)],
    5: [(100.0, 90.0, 95.0, 105.0), (80.0, 110.0, 100.0, 100.0), (70, 60, 80, 50)],
    6: [(100.0, 90.0, 190.0), (60.0, 40.0, 120.0), (60, 80, 100)],
    7: [(100.0, 90.0, 1.0), (80.0, 110.0, 1.0), (100, 100, 5)],
    8: [(100.0, 90.0, 1.1), (80.0, 110.0, 0.9), (100, 100, 1)],
    9: [(10.0, 9.0, 95.0), (8.0, 11.0, 80.0), (12, 11, 100)],
}
MKT = {
    "quick": [(0.4, 0.1, 0.02, 0.05, 0.2, 0.3), (1, 0.05, 0.05, 0.05, 0.35, 0.15), (2.0, 0.08, -0.06, 0.0, 0.1, 0.5), (0.5, 0, 0.1, -0.1, 0.25, 0.25), (3.0, -0.06, 0.02, -0.04, 0.15, 0.6), (0.01, 0.3, 0.3, 0.2, 0.8, 0.05)],
    "thorough": [(t, r, b1, b2, a, c) for t in (0.05, 0.4, 1, 3) for r in (-0.02, 0.0, 0.08) for b1, b2 in ((0.02, 0.05), (-0.06, 0.0), (0.1, -0.1)) for a, c in ((0.2, 0.3), (0.6, 0.1))],
}
UNITS = [1.0, 1e-3, 40.0]  # currency units, taken in turn
RHO = {"quick": [-1, -0.95, -0.5, 0, 0.3, 0.9, 1], "thorough": [-1, -0.95, -0.5, -0.1, 0, 0.3, 0.7, 0.9, 1]}
QS = {"quick": [(1, 1), (1.1, 0.9), (2, 0.5)], "thorough": [(1, 1), (1.1, 0.9), (2, 0.5), (0.25, 3.0)]}


def cases(tier):
    out = []
    for n in NS[tier]:
        for opt in OPTS:
            for otype in ("european", "american"):
                for rho in RHO[tier]:
                    out.append(dict(tier=tier, part="all", n=n, option=opt, otype=otype, rho=rho))
        for w in WRAP:
            out.append(dict(tier=tier, part="wrap", n=n, wrap=w))
    return out


WRAP = {"BionomialMaxOption": 2, "BionomialMinOption": 3, "BionomialSpreadOption": 1}


def model(opt, n, otype, z, lv, mk, rho, Q):
    S1, S2, K = lv[:3]
    K2 = lv[3] if len(lv) > 3 else None
    t, r, b1, b2, g1, g2 = mk
    return ref.spread_values(S1, S2, t, r, b1, b2, g1, g2, rho, K, K2, Q[0], Q[1], opt, n, z, otype == "american")


def matrix(vals, n):
    """entry (j, i) of the returned tree: value after max(j, i) steps with j and i ups."""
    return np.array([[vals[max(j, i)][j][i] for i in range(n + 1)] for j in range(n + 1)])


def run(case, R):
    tier, n = case["tier"], case["n"]
    if case["part"] == "wrap":
        return wrappers(case, R)
    opt, otype, rho = case["option"], case["otype"], case["rho"]
    mks = MKT[tier]
    rho_i = RHO[tier].index(rho)
    if n > 7:
        mks = mks[:2] if tier == "quick" else mks[::5]
    for (li, lv), (mi, mk), (qi, Q) in itertools.product(enumerate(LEVELS[opt]), enumerate(mks), enumerate(QS[tier])):
        if n > 3 and (li + mi + qi) % 3:  # every level/market/quantity pair is met, not every triple
            continue
        t, r, b1, b2, g1, g2 = mk
        u = UNITS[(li + mi + qi + rho_i) % 3] if n <= 3 else UNITS[(mi + rho_i) % 3]
        lv = (lv[0] * u, lv[1] * u) + tuple(k * {8: 1, 9: u * u}.get(opt, u) for k in lv[2:])
        K2 = lv[3] if len(lv) > 3 else None
        if opt == 9:
            Q = (1 / Q[0], Q[0] * Q[1])
        o = so.BionomialSpreadAllTypes(lv[0], lv[1], t, r, b1, b2, g1, g2, rho, K=lv[2], K2=K2, Q1=Q[0], Q2=Q[1], option=opt, otype=otype, n=n)
        for side, z in (("call", 1), ("put", -1)):
            vals = model(opt, n, otype, z, lv, mk, rho, Q)
            size = max(max(abs(x) for row in m for x in row) for m in vals) + abs(lv[2])
            R.state(sum((m + 1) ** 2 for m in range(n + 1)))
            d = dict(S1=lv[0], S2=lv[1], K=lv[2], K2=K2, market=mk, Q=Q, rho=rho)
            if otype == "european" and n <= PATHS[tier] and abs(rho) <= 1:
                pv, cnt = ref.spread_paths(lv[0], lv[1], t, r, b1, b2, g1, g2, rho, lv[2], K2, Q[0], Q[1], opt, n, z)
                R.count("paths", cnt)
                if abs(pv - vals[0][0][0]) > 1e-9 * size:
                    raise AssertionError(f"reference models disagree {pv} {vals[0][0][0]}")
            R.trace()
            got = float(getattr(o, side)())
            if not R.close(got, vals[0][0][0], 1e-10 * size, f"option{opt}.{otype}.{side}", f"option {opt} {otype} {side} n={n}", **d):
                return
            m = np.asarray(getattr(o, side)(tree=True), dtype=float)
            if m.ndim != 2 or min(m.shape) < n + 1:
                R.fail(f"option{opt}.tree", f"tree has shape {m.shape} for n={n}", **d)
                return
            if not R.close(m[: n + 1, : n + 1], matrix(vals, n), 1e-10 * size, f"option{opt}.{otype}.{side}.tree", f"option {opt} {otype} {side} tree n={n}", **d):
                return
            R.outcome((opt, otype, side, round(vals[0][0][0], 6)))
    R.sample(dict(case, price=got, model=vals[0][0][0], **d))


def wrappers(case, R):
    tier, n, w = case["tier"], case["n"], case["wrap"]
    opt = WRAP[w]
    cls = getattr(so, w)
    for lv, mk, Q, otype, rho in itertools.product(LEVELS[opt], MKT[tier][:4], QS[tier], ("european", "american"), (-0.5, 0.9)):
        t, r, b1, b2, g1, g2 = mk
        o = cls(lv[0], lv[1], lv[2], t, r, b1, b2, g1, g2, rho, Q[0], Q[1], otype, n)
        kw = cls(S1=lv[0], S2=lv[1], K=lv[2], t=t, r=r, b1=b1, b2=b2, sigma1=g1, sigma2=g2, rho=rho, Q1=Q[0], Q2=Q[1], otype=otype, n=n)
        for side, z in (("call", 1), ("put", -1)):
            vals = model(opt, n, otype, z, lv, mk, rho, Q)
            size = max(max(abs(x) for row in m for x in row) for m in vals) + abs(lv[2])
            R.state()
            R.trace()
            d = dict(S1=lv[0], S2=lv[1], K=lv[2], market=mk, Q=Q, rho=rho)
            for x in (o, kw):
                if not R.close(float(getattr(x, side)()), vals[0][0][0], 1e-10 * size, f"{w}.{side}", f"{w} {otype} {side} n={n}", **d):
                    return
            R.outcome((w, otype, side, round(vals[0][0][0], 6)))
    # defaults: European, five steps, unit quantities
    if n == 5:
        lv, mk = LEVELS[opt][0], MKT[tier][0]
        t, r, b1, b2, g1, g2 = mk
        for o in (cls(lv[0], lv[1], lv[2], t, r, b1, b2, g1, g2, 0.3),
                  so.BionomialSpreadAllTypes(lv[0], lv[1], t, r, b1, b2, g1, g2, 0.3, lv[2], option=opt)):
            for side, z in (("call", 1), ("put", -1)):
                R.state()
                R.trace()
                R.close(float(getattr(o, side)()), model(opt, 5, "european", z, lv, mk, 0.3, (1, 1))[0][0][0], 1e-9 * (lv[0] + lv[1]), f"{w}.defaults", f"{w} with default quantities, style and depth")


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="payoff 1..9 x call/put x European/American x depth x rho x levels x market x quantities; the three wrapper classes with positional, keyword and default arguments",
            bounds=dict(depths=NS[tier], path_enumeration_depth=PATHS[tier], rho=RHO[tier], units=UNITS, quantities=QS[tier]),
            oracle="payoff table written from the documentation, all 4^n paths enumerated on small lattices (counter paths) and node recursion beyond; every entry of the returned matrix compared",
        ),
        assumptions=["beyond depth 3 one of three (level, market, quantities) combinations is run"],
    )
