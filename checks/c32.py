"""C32: put-call symmetry, equivalence of spot and forward, and the interest rate as a discount only."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref
from mc.engines import MS_BASE, TREES, am, so

mc = fo.monte_carlo_options
PROP = "C32"
TECHNIQUE = "explicit-state enumeration of parameter lattices; exact symmetries between two calls of the real code checked in every state"

M = {"quick": [0.3, 0.8, 0.97, 1.0, 1.0004, 1.1, 2.5], "thorough": [0.1, 0.3, 0.6, 0.8, 0.9, 0.97, 1.0, 1.0004, 1.03, 1.1, 1.4, 2.5, 8]}
UNITS = [100.0, 1e-3, 7, 40000.0]
T = {"quick": [0.0005, 0.02, 0.5, 2, 11], "thorough": [0.0001, 0.0005, 0.004, 0.02, 0.1, 0.5, 1, 2, 5, 11, 30]}
RB = {"quick": [(0.0, 0.0), (0.06, 0.06), (0.1, 0.02), (0.05, -0.08), (0.03, 0.12), (0.0, -0.05), (-0.04, 0.03), (0.05, 0.0496), (0.25, 0.0), (4e-4, 0.0)],
      "thorough": [(r, b) for r in (-0.1, -0.02, 0.0, 4e-4, 0.03, 0.1, 0.3) for b in (-0.2, -0.05, 0.0, 4e-4, 0.0296, 0.06, 0.12, 0.3)]}
SG = {"quick": [0.02, 0.1, 0.3, 0.9], "thorough": [0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.9, 1.6]}
NS = {"quick": [1, 2, 3, 4, 5, 6, 7, 10, 17, 24, 33], "thorough": list(range(1, 41)) + [50, 64, 100]}
RHO = [-1, -0.5, 0, 0.6, 1]


def cases(tier):
    out = []
    for t in T[tier]:
        out.append(dict(tier=tier, part="gbs", t=t))
        out.append(dict(tier=tier, part="american", t=t))
        for n in NS[tier]:
            out.append(dict(tier=tier, part="lattice", t=t, n=n))
        for rho in RHO:
            out.append(dict(tier=tier, part="spread", t=t, rho=rho))
        out.append(dict(tier=tier, part="ms", t=t))
        out.append(dict(tier=tier, part="mc", t=t))
    out.sort(key=lambda c: c.get("n", 0))
    return out


def run(case, R):
    globals()["part_" + case["part"]](case, R)


def same(R, key, got, want, tol, what, **d):
    R.trace(2)
    R.trans()
    R.outcome((key, round(float(want) / (d.get("K") or 1), 8)))
    return R.close(float(got), float(want), tol, key, what, **d)


def part_gbs(case, R):
    tier, t = case["tier"], case["t"]
    for i, ((r, b), sg, m) in enumerate(itertools.product(RB[tier], SG[tier], M[tier])):
        K = UNITS[i % 4]
        S = K * m
        R.state()
        d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg)
        sc = (S * math.exp((b - r) * t) + K * math.exp(-r * t))
        o = fo.GBSOption(S, K, t, r, b, sg)
        mir = fo.GBSOption(K, S, t, r - b, -b, sg)
        F = S * math.exp(b * t)
        f76 = fo.Black76Option(F, K, t, r, sg)
        f0 = fo.GBSOption(F, K, t, 0, 0, sg)
        e = fo.GBSOption(S * math.exp((b + 0.07) * t), K, t, r, -0.07, sg)
        for side, oth in (("call", "put"), ("put", "call")):
            v = float(getattr(o, side)())
            if not (
                same(R, f"gbs.mirror.{side}", getattr(mir, oth)(), v, 1e-9 * sc, "GBSOption: exchanging S and K, r and r - b, b and -b, call and put", **d)
                and same(R, f"gbs.black76.{side}", getattr(f76, side)(), v, 1e-9 * sc, "GBSOption vs Black76Option on its forward", **d)
                and same(R, f"gbs.discount.{side}", getattr(f0, side)() * math.exp(-r * t), v, 1e-9 * sc, "GBSOption vs the discounted price at r = 0 on the forward", **d)
                and same(R, f"gbs.carry.{side}", getattr(e, side)(), v, 1e-9 * sc, "GBSOption vs the same forward under another cost of carry", **d)
            ):
                return
            call = side == "call"
            # one option in terms of the other: homogeneity gives the strike delta of the mirror
            dm = float(mir.delta(call=not call))
            dk = (v - S * float(o.delta(call=call))) / K
            if not same(R, f"gbs.mirror-delta.{side}", dm, dk, 1e-8 * sc / K, "delta of the mirrored option is the strike derivative", **d):
                return
            # the derivatives in the parameters the two share
            if not same(R, f"gbs.vega.{side}", mir.vega(), o.vega(), 1e-9 * sc * (1 + math.sqrt(t)), "vega of the mirrored option", **d):
                return
            if not same(R, f"gbs.theta.{side}", mir.theta(call=not call), o.theta(call=call), 1e-7 * sc + 1e-9 * abs(float(o.theta(call=call))), "theta of the mirrored option", **d):
                return
            if not same(R, f"gbs.gamma.{side}", float(mir.gamma()) * K * K, float(o.gamma()) * S * S, 1e-8 * sc + 1e-9 * abs(float(o.gamma()) * S * S), "dollar gamma of the mirrored option", **d):
                return
    R.sample(dict(case, last=d, price=v))


def part_american(case, R):
    tier, t = case["tier"], case["t"]
    for i, ((r, b), sg, m) in enumerate(itertools.product(RB[tier], SG[tier], M[tier])):
        if r < 0 or r - b < 0 or abs(b) / sg ** 2 > 30:
            R.count("skipped_outside_the_approximation")
            continue
        K = UNITS[i % 4]
        S = K * m
        R.state()
        d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg)
        o, mir = am.BSAmericanApproxOption(S, K, t, r, b, sg), am.BSAmericanApproxOption(K, S, t, r - b, -b, sg)
        for side, oth in (("call", "put"), ("put", "call")):
            a, c = getattr(o, side)(), getattr(mir, oth)()
            if not math.isfinite(a["OptionPrice"]):
                R.count("skipped_not_finite")
                continue
            if not same(R, f"bs93.mirror.{side}", c["OptionPrice"], a["OptionPrice"], 1e-9 * (S + K), "BSAmericanApproxOption: exchanging S and K, r and r - b, b and -b, call and put", **d):
                return
            if math.isnan(a["TriggerPrice"]) != math.isnan(c["TriggerPrice"]):
                R.fail(f"bs93.trigger.{side}", f"trigger {a['TriggerPrice']} of the option, {c['TriggerPrice']} of its mirror image", **d)
                return
    R.sample(case)


def part_lattice(case, R):
    tier, t, n = case["tier"], case["t"], case["n"]
    ms = M[tier] if n <= 7 else M[tier][1:4]
    rbs = RB[tier] if n <= 17 else RB[tier][1:5]
    for i, ((r, b), sg, m) in enumerate(itertools.product(rbs, SG[tier], ms)):
        K = UNITS[i % 4]
        S = K * m
        for kind, cls in TREES.items():
            if kind == "TRI" and n > 24:
                continue
            st = ref.lattice(kind, t, b, sg, n)
            size = sum(abs(p) * f for f, p in st) ** n
            mass = sum(abs(p) for _, p in st) ** n
            if max(mass, size / math.exp(b * t)) > 1e3:
                R.count("skipped_probabilities_blow_up")
                continue
            R.state()
            tol = 1e-9 * (S * size + K * mass) * math.exp(max(-r, 0) * t)
            d = dict(kind=kind, n=n, S=S, K=K, t=t, r=r, b=b, sigma=sg)
            for typ in ("european", "american"):
                o = cls(S, K, t, r, b, sg, typ, n)
                for side, oth in (("call", "put"), ("put", "call")):
                    v = float(getattr(o, side)())
                    if kind in ("CRR", "TRI"):  # the moves of these two are symmetric
                        mir = cls(K, S, t, r - b, -b, sg, typ, n)
                        if not same(R, f"{kind}.mirror.{typ}.{side}", getattr(mir, oth)(), v, tol, f"{cls.__name__} {typ}: exchanging S and K, r and r - b, b and -b, call and put", **d):
                            return
                    if typ == "european":
                        z = cls(S, K, t, 0, b, sg, typ, n)
                        if not same(R, f"{kind}.discount.{side}", float(getattr(z, side)()) * math.exp(-r * t), v, tol, f"{cls.__name__}: the rate only discounts", **d):
                            return
    R.sample(dict(case, last=d, price=v))


def part_spread(case, R):
    t, rho = case["t"], case["rho"]
    for (b1, b2), (g1, g2), (S1, S2), r in itertools.product(((0.0, 0.0), (0.1, -0.04), (-0.08, 0.05)), ((0.2, 0.3), (0.5, 0.15)), ((122.0, 120.0), (0.028, 0.02), (60.0, 100.0)), (0.09, -0.03)):
        D = math.exp(-r * t)
        R.state()
        d = dict(S1=S1, S2=S2, t=t, r=r, b=(b1, b2), sigma=(g1, g2), rho=rho)
        for k in (0.0, 0.03, 0.4):
            K = k * S2
            o = so.SpreadApproxOption(S1, S2, K, t, r, b1, b2, g1, g2, rho, 1.2, 0.7)
            z = so.SpreadApproxOption(S1 * math.exp(b1 * t), S2 * math.exp(b2 * t), K, t, 0, 0, 0, g1, g2, rho, 1.2, 0.7)
            for side in ("call", "put"):
                v = float(getattr(o, side)())
                if not math.isfinite(v):
                    R.count("skipped_zero_volatility")
                    continue
                if not same(R, f"kirk.forward.{side}", float(getattr(z, side)()) * D, v, 1e-9 * (S1 + S2) * max(D, 1) * 2, "SpreadApproxOption vs the discounted price on the forwards", K=K, **d):
                    return
        for opt, n in itertools.product(range(1, 10), (1, 3, 6)):
            K = {1: 0.03 * S1, 2: S1, 3: 0.9 * S2, 4: S1, 5: S1, 6: S1 + S2, 7: 1.0, 8: S1 / S2, 9: S1 * S2}[opt]
            kw = dict(sigma1=g1, sigma2=g2, rho=rho, K=K, K2=S2, Q1=1.1, Q2=0.9, option=opt, n=n)
            o = so.BionomialSpreadAllTypes(S1, S2, t, r, b1, b2, **kw)
            z = so.BionomialSpreadAllTypes(S1, S2, t, 0, b1, b2, **kw)
            f = so.BionomialSpreadAllTypes(S1 * math.exp(b1 * t), S2 * math.exp(b2 * t), t, r, 0, 0, **kw)
            size = {8: 10 * K, 9: 10 * K}.get(opt, S1 + S2) * math.exp(3 * (g1 + g2) * math.sqrt(t) + 0.2 * t) * max(D, 1)
            for side in ("call", "put"):
                v = float(getattr(o, side)())
                if not same(R, f"option{opt}.discount.{side}", float(getattr(z, side)()) * D, v, 1e-10 * size, "two-asset lattice: the rate only discounts", K=K, **d):
                    return
                if not same(R, f"option{opt}.forward.{side}", getattr(f, side)(), v, 1e-10 * size, "two-asset lattice vs the forwards without cost of carry", K=K, **d):
                    return
    R.sample(case)


def part_ms(case, R):
    t = case["t"]
    for FT, K, extra, Pt in itertools.product((60.0, 95.0, 1.2), (50.0, 94.0, 1.3), (0.0, 0.5, 4.0), (0.6, 0.98, 1.1)):
        R.state()
        base = dict(MS_BASE, FT=FT, K=K, t=t, T=t + extra)
        o, z = fo.MiltersenSchwartzOption(**dict(base, Pt=Pt)), fo.MiltersenSchwartzOption(**dict(base, Pt=1.0))
        for side in ("call", "put"):
            if not same(R, f"ms.bond.{side}", Pt * float(getattr(z, side)()), getattr(o, side)(), 1e-9 * Pt * (FT + K), "MiltersenSchwartzOption is proportional to the bond price", FT=FT, K=K, t=t, extra=extra, Pt=Pt):
                return
    R.sample(case)


def part_mc(case, R):
    t = case["t"]
    eps = np.array(list(itertools.product((-1.3, 0.2, 0.9), repeat=3)))
    for pay, (r, b), sg, m, anti in itertools.product((mc.PlainVanillaPayoff, mc.ArithmeticAsianPayoff), RB["quick"], (0.1, 0.6), (0.7, 1.0, 1.3), (False, True)):
        S, K = 100.0 * m, 100.0
        R.state()

        def mk(S_, r_, b_):
            return mc.MonteCarloOption(2, 3, len(eps), S_, K, t, r_, b_, sg, mc.NormalSobolInnovations, mc.WienerPath, pay, antithetic=anti, eps=eps.copy())

        o, z, f = mk(S, r, b), mk(S, 0, b), mk(S * math.exp(b * t), r, 0)
        for side in ("call", "put"):
            v = np.mean(getattr(o, side)())
            size = (S * math.exp(max(b, 0) * t + 3 * sg * math.sqrt(t)) + K) * math.exp(max(-r, 0) * t)
            if not same(R, f"mc.discount.{side}", np.mean(getattr(z, side)()) * math.exp(-r * t), v, 1e-10 * size, f"Monte Carlo {pay.__name__}: the rate only discounts", S=S, K=K, r=r, b=b, sigma=sg):
                return
            if pay is mc.PlainVanillaPayoff and not same(R, f"mc.forward.{side}", np.mean(getattr(f, side)()), v, 1e-10 * size, "Monte Carlo vs the forward without cost of carry", S=S, K=K, r=r, b=b, sigma=sg):
                return
    R.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="GBS/Black76 prices and greeks, Bjerksund-Stensland, 4 lattices (european, american) x depth, Kirk, nine two-asset payoffs x depth, Miltersen-Schwartz, Monte Carlo with fixed innovations",
            bounds=dict(S_over_K=M[tier], K=UNITS, t=T[tier], r_b=RB[tier], sigma=SG[tier], depths=NS[tier], rho=RHO),
            oracle="exact symmetries: (S, K, r, b, call) <-> (K, S, r - b, -b, put) for GBS, Bjerksund-Stensland, CRR and trinomial lattices; same forward = same price; European prices carry r only in exp(-r t); Miltersen-Schwartz proportional to the bond",
        ),
        assumptions=["JR and Tian lattices are not symmetric, they are held to the discounting relation only", "lattice states whose probabilities blow up are skipped and counted"],
    )
