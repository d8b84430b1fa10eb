"""C04: no-arbitrage shape (bounds, monotonicity, convexity, homogeneity) on every edge of the lattice."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref
from mc.engines import TREES, MS_BASE, am, so

PROP = "C04"
TECHNIQUE = "explicit-state enumeration: transition invariants between neighbouring parameter valuations"

G = {"quick": [1.0, 50.0, 80.0, 90.0, 97.5, 100.0, 105.0, 120.0, 150.0, 300.0],
     "thorough": [1.0, 20.0, 50.0, 70.0, 80.0, 85.0, 90.0, 95.0, 97.5, 99.0, 100.0, 101.0, 105.0, 110.0, 120.0, 150.0, 200.0, 300.0, 1000.0]}
SG = {"quick": [0.05, 0.1, 0.2, 0.4, 0.8, 1.6], "thorough": [0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.3, 0.4, 0.6, 0.8, 1.2, 1.6, 2.4]}
T = {"quick": [0.01, 0.5, 1.5, 5], "thorough": [0.001, 0.01, 0.1, 0.5, 1, 1.5, 3, 5, 15]}
RB = {"quick": [(0.0, 0.0), (0.05, 0.05), (0.1, 0.04), (0.08, 0.0), (0.05, -0.06), (0.03, 0.1)],
      "thorough": [(r, b) for r in (0.0, 0.03, 0.05, 0.1, 0.2) for b in (-0.1, -0.06, 0.0, 0.03, 0.05, 0.1, 0.2)]}
NEG = [(-0.03, 0.02), (0.0, -0.1), (-0.06, -0.06)]
LAM = [1e-6, 0.01, 3.0, 1e4]


def cases(tier):
    out = []
    for t in T[tier]:
        for rb in RB[tier] + NEG:
            for fam in ("gbs", "tree-e", "tree-a", "baw", "bs93"):
                if rb in NEG and fam in ("baw", "bs93"):
                    continue
                for n in ([1, 2, 5] if tier == "quick" else [1, 2, 3, 4, 5, 8, 12, 25]) if fam.startswith("tree") else [0]:
                    out.append(dict(tier=tier, fam=fam, t=t, r=rb[0], b=rb[1], n=n))
    for t in T[tier][:-1]:
        for rho in (-0.8, 0.0, 0.6):
            for fam in ("spread", "approx"):
                out.append(dict(tier=tier, fam=fam, t=t, rho=rho))
    for t in T[tier]:
        out.append(dict(tier=tier, fam="ms", t=t))
        out.append(dict(tier=tier, fam="rgw", t=t))
    return out


def run(case, R):
    fam = case["fam"]
    g = G[case["tier"]]
    if fam == "gbs":
        t, r, b = case["t"], case["r"], case["b"]
        tab = {}
        for sg in SG[case["tier"]]:
            mk = lambda S, K, sg=sg: fo.GBSOption(S, K, t, r, b, sg)
            surface(R, "GBSOption", mk, g, t, r, b, tol=6e-7, tab=tab.setdefault(sg, {}))
            mk = lambda S, K, sg=sg: fo.Black76Option(S, K, t, r, sg)
            surface(R, "Black76Option", mk, g, t, r, 0.0, tol=6e-7)
        sgs = SG[case["tier"]]
        for a, c in zip(sgs, sgs[1:]):
            for key in tab[a]:
                R.trans()
                if tab[a][key] > tab[c][key] + 6e-7 * (key[1] + key[2]) * 3:
                    R.fail("sigma-monotone", f"GBSOption {key} falls from sigma {a} to {c}: {tab[a][key]} -> {tab[c][key]}")
                    return
    elif fam.startswith("tree"):
        t, r, b, n = case["t"], case["r"], case["b"], case["n"]
        for kind, cls in TREES.items():
            for sg in SG[case["tier"]]:
                st = ref.lattice(kind, t, b, sg, n)
                if min(p for _, p in st) < 0:
                    R.count("skipped_negative_probability")
                    continue
                typ = "american" if fam == "tree-a" else "european"
                mean = sum(p * f for f, p in st) ** n
                be = math.log(mean) / t  # the lattice's own drift
                mk = lambda S, K: cls(S, K, t, r, b, sg, typ, n)
                if not surface(R, f"{cls.__name__} {typ}", mk, g, t, r, be, tol=1e-10, american=typ == "american", step=n):
                    return
    elif fam in ("baw", "bs93"):
        t, r, b = case["t"], case["r"], case["b"]
        cls = am.BAWAmericanApproxOption if fam == "baw" else am.BSAmericanApproxOption
        for sg in SG[case["tier"]]:
            if abs(b) / sg ** 2 > 30:
                R.count("skipped_stiff")
                continue
            mk = lambda S, K: cls(S, K, t, r, b, sg)
            gg = g[::3] + [100.0, 105.0] if case["tier"] == "quick" and fam == "baw" else g
            if not surface(R, cls.__name__, mk, sorted(set(gg) | {80.0, 90.0, 97.5, 100.0, 105.0, 300.0}), t, r, b, tol=2e-5 if fam == "baw" else 3e-6, american=True, approx=True):
                return
    elif fam in ("spread", "approx"):
        two_asset(R, case, g)
    elif fam == "ms":
        for sig in ((0.266, 0.249, 0.0096), (0.5, 0.1, 0.05)):
            for extra in (0.0, 0.5, 3.0):
                base = dict(MS_BASE, t=case["t"], T=case["t"] + extra, sigmaS=sig[0], sigmaE=sig[1], sigmaF=sig[2])
                vz2, vxz = ref.ms_moments(base["t"], base["T"], *sig, base["rhoSE"], base["rhoSF"], base["rhoEF"], base["KappaE"], base["KappaF"])
                Pt = base["Pt"]
                mk = lambda S, K: fo.MiltersenSchwartzOption(**dict(base, FT=S, K=K))
                rr = -math.log(Pt) / base["t"]
                if not surface(R, "MiltersenSchwartzOption", mk, g, base["t"], rr, -vxz / base["t"], tol=2e-6):
                    return
    elif fam == "rgw":
        rgw(R, case, g)
    R.sample(case)


def pr(o, side):
    v = getattr(o, side)()
    return float(v["OptionPrice"] if isinstance(v, dict) else v)


def surface(R, name, mk, g, t, r, b, tol, american=False, approx=False, tab=None, step=None):
    """All prices on the S x K grid, then every neighbour relation."""
    D, E = math.exp(-r * t), math.exp((b - r) * t)
    for side, z in (("call", 1), ("put", -1)):
        P = {}
        for S in g:
            for K in g:
                P[S, K] = pr(mk(S, K), side)
                R.state()
                R.trace()
                if tab is not None:
                    tab[side, S, K] = P[S, K]
        for (S, K), v in P.items():
            sc = tol * (S * max(E, 1) + K * max(D, 1))
            R.outcome((side, round(v / K, 5)))
            lo = max(0.0, z * (S * E - K * D))
            hi = S * E if z > 0 else K * D
            if american:
                # early exercise: between intrinsic/European bounds and the most one can ever receive
                lo = 0.0 if approx else max(lo, z * (S - K), 0.0)
                hi = S * max(1.0, E) if z > 0 else K * max(1.0, D)
            if not (lo - sc <= v <= hi + sc):
                R.fail(f"{name}.bounds", f"{name} {side} S={S} K={K}: {v} outside [{lo}, {hi}]", t=t, r=r, b=b)
                return False
        smax = max(1.0, E) if american else E
        dmax = max(1.0, D) if american else D
        for i in range(len(g) - 1):
            for x in g:
                a, c = g[i], g[i + 1]
                R.trans(2)
                # along S
                d = z * (P[c, x] - P[a, x])
                sc = tol * (c * max(E, 1) + x * max(D, 1)) * 2
                if not (-sc <= d <= (9 if approx else smax) * (c - a) + sc):
                    R.fail(f"{name}.monotone-S", f"{name} {side} K={x} S {a}->{c}: {P[a, x]} -> {P[c, x]}", t=t, r=r, b=b)
                    return False
                d = -z * (P[x, c] - P[x, a])
                sc = tol * (x * max(E, 1) + c * max(D, 1)) * 2
                if not (-sc <= d <= (9 if approx else dmax) * (c - a) + sc):
                    R.fail(f"{name}.monotone-K", f"{name} {side} S={x} K {a}->{c}: {P[x, a]} -> {P[x, c]}", t=t, r=r, b=b)
                    return False
        if not approx:
            for i in range(1, len(g) - 1):
                a, m, c = g[i - 1: i + 2]
                w = (c - m) / (c - a)
                for x in g:
                    R.trans(2)
                    for key, v0, v1, v2 in (("convex-K", P[x, a], P[x, m], P[x, c]), ("convex-S", P[a, x], P[m, x], P[c, x])):
                        sc = tol * (x + c) * max(E, D, 1) * 3
                        if v1 > w * v0 + (1 - w) * v2 + sc:
                            R.fail(f"{name}.{key}", f"{name} {side} {a},{m},{c} x={x}: {v0} {v1} {v2}", t=t, r=r, b=b)
                            return False
        for lam in LAM:
            for S, K in ((80.0, 100.0), (100.0, 100.0), (105.0, 90.0), (300.0, 97.5)):
                R.trans()
                v = pr(mk(lam * S, lam * K), side) / lam
                if not abs(v - P[S, K]) <= (tol if approx else 1e-9) * (S + K) * max(E, D, 1):
                    R.fail(f"{name}.homogeneous", f"{name} {side} scaled by {lam}: {v} vs {P[S, K]} at S={S} K={K}", t=t, r=r, b=b)
                    return False
    return True


def two_asset(R, case, g):
    t, rho = case["t"], case["rho"]
    r = 0.07
    for (b1, b2), (s1, s2), (Q1, Q2) in itertools.product(((0.0, 0.0), (0.07, 0.02)), ((0.2, 0.3), (0.5, 0.1)), ((1, 1), (0.8, 1.5))):
        if case["fam"] == "approx":
            mk = lambda S1, S2, K: so.SpreadApproxOption(S1, S2, K, t, r, b1, b2, s1, s2, rho, Q1, Q2)
            variants = [("SpreadApproxOption", mk, (1, -1, -1), 6e-7, None)]
        else:
            variants = []
            for otype in ("european", "american"):
                for opt, sg in ((1, (1, -1, -1)), (2, (1, 1, -1)), (3, (1, 1, -1)), (6, (1, 1, -1)), (7, (-1, 1, 0)), (8, (1, -1, -1)), (9, (1, 1, -1))):
                    mk = lambda S1, S2, K, opt=opt, otype=otype: so.BionomialSpreadAllTypes(
                        S1, S2, t, r, b1, b2, s1, s2, rho, K=K if opt != 8 else K / 100, Q1=Q1, Q2=Q2, option=opt, otype=otype, n=3)
                    variants.append((f"spread lattice {opt} {otype}", mk, sg, 1e-10, opt))
        for name, mk, sg, tol, opt in variants:
            for side, z in (("call", 1), ("put", -1)):
                gg = [60.0, 95.0, 100.0, 130.0]
                kk = [0.0, 4.0, 30.0, 90.0]
                P = {}
                for x in itertools.product(gg, gg, kk):
                    P[x] = pr(mk(*x), side)
                    R.state()
                    R.trace()
                    R.outcome((name, side, round(P[x], 4)))
                    if not P[x] >= -tol * 300:
                        R.fail("spread.bounds", f"{name} {side} {x}: {P[x]} negative", **case)
                        return
                for x in P:
                    for ax, axis in enumerate((gg, gg, kk)):
                        i = axis.index(x[ax])
                        if i + 1 == len(axis):
                            continue
                        y = x[:ax] + (axis[i + 1],) + x[ax + 1:]
                        R.trans()
                        d = sg[ax] * z * (P[y] - P[x])
                        sc = tol * (abs(P[x]) + abs(P[y]) + 600)
                        if case["fam"] == "approx" and ax == 1:
                            continue  # Kirk's effective volatility moves with the second asset
                        if d < -sc or (sg[ax] == 0 and abs(d) > sc):
                            R.fail("spread.monotone", f"{name} {side} {x}->{y}: {P[x]} -> {P[y]}", **case)
                            return
                if opt in (None, 1, 2, 3, 6, 7):
                    for lam in LAM:
                        for x in ((60.0, 95.0, 4.0), (100.0, 95.0, 4.0), (130.0, 60.0, 90.0)):
                            R.trans()
                            v = pr(mk(*(lam * q for q in x)), side) / lam
                            if not abs(v - P[x]) <= 1e-9 * 300:
                                R.fail("spread.homogeneous", f"{name} {side} {x} scaled by {lam}: {v} vs {P[x]}", **case)
                                return


def rgw(R, case, g):
    t = case["t"]
    g = [x for x in g if 50 <= x <= 300]
    for r, sg, D, f in itertools.product((0.02, 0.08), (0.1, 0.3, 0.8), (0.5, 3.0, 10.0), (0.3, 0.9)):
        td = f * t
        P = {}
        tol = 3e-6
        for S in g:
            for K in g:
                P[S, K] = v = float(am.RollGeskeWhaleyOption(S, K, t, td, r, D, sg).call())
                R.state()
                R.trace()
                R.outcome(round(v, 4))
                eu = ref.gbs(S - D * math.exp(-r * td), K, t, r, r, sg, 1)
                if not (eu - tol * (S + K) - 1e-4 <= v <= S + tol * (S + K)):
                    R.fail("rgw.bounds", f"RGW S={S} K={K}: {v} below European {eu} or above S", t=t, td=td, r=r, D=D, sigma=sg)
                    return
        for i in range(len(g) - 1):
            for x in g:
                a, c = g[i], g[i + 1]
                R.trans(2)
                if not (-tol * 600 <= P[c, x] - P[a, x] <= c - a + tol * 600) or not (-tol * 600 <= P[x, a] - P[x, c] <= c - a + tol * 600):
                    R.fail("rgw.monotone", f"RGW {a}->{c} x={x}: S {P[a, x]} {P[c, x]}  K {P[x, a]} {P[x, c]}", t=t, td=td, r=r, D=D, sigma=sg)
                    return
        for lam in (1e-6, 0.5, 3.0, 100.0, 1e6, 1e9):
            for S, K in ((80.0, 100.0), (105.0, 90.0)):
                R.trans()
                v = float(am.RollGeskeWhaleyOption(lam * S, lam * K, t, td, r, lam * D, sg).call()) / lam
                if not abs(v - P[S, K]) <= 2e-5:
                    R.fail("rgw.homogeneous", f"RGW scaled by {lam}: {v} vs {P[S, K]} S={S} K={K}", t=t, td=td, r=r, D=D, sigma=sg)
                    return


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="engines GBS, Black76, 4 trees (european, american), BAW, BS93, 2-asset lattice payoffs 1,2,3,6,7,8,9, Kirk, "
            "Miltersen-Schwartz, Roll-Geske-Whaley; every S x K grid point is a state, every neighbour pair a transition",
            bounds=dict(grid=G[tier], sigma=SG[tier], t=T[tier], r_b=RB[tier] + NEG, scalings=LAM),
            oracle="bounds, monotone in S, K and sigma, slope bounds, convex in S and K, homogeneous of degree one",
        ),
        assumptions=["tree states with a negative one-step probability are skipped (no no-arbitrage claim there)",
                     "BAW/BS93 are checked without convexity, slope bounds and the intrinsic-value bound (approximations)"],
    )
