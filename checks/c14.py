"""C14: independent engines of the package converge to, or equal, each other.

Both sides of every comparison are public classes of finoptions; the reference models only supply the
bounds and skip states whose lattice probabilities are not probabilities."""
import itertools
import math
import warnings

import numpy as np

import finoptions as fo
from mc import ref
from mc.engines import MS_BASE, TREES

am, mc, so, hn = fo.basic_american_options, fo.monte_carlo_options, fo.spread_options, fo.heston_nandi_options
PROP = "C14"
TECHNIQUE = "explicit-state enumeration of parameter lattice x depth x engine pair; agreement invariant in every state"
CHUNKS = 120

M = {"quick": [0.6, 0.9, 1.0, 1.04, 1.6], "thorough": [0.6, 0.8, 0.9, 0.97, 1.0, 1.04, 1.2, 1.6]}
T = {"quick": [0.05, 1, 3.0], "thorough": [0.05, 0.3, 1, 3.0]}
SG = {"quick": [0.1, 0.3, 0.8], "thorough": [0.1, 0.2, 0.4, 0.8]}
RB = [(0.0, 0.0), (0.06, 0.06), (0.1, 0.02), (0.08, 0.0), (0.05, -0.08), (0.03, 0.12), (0.0, -0.05)]
DEPTH = {"quick": [8, 17, 32, 63, 127, 256], "thorough": [8, 9, 16, 17, 24, 31, 32, 48, 63, 64, 96, 150, 256, 400]}
DEEP = [127, 256, 400]  # a few states each
# error * n / ((S e^{(b-r)t} + K e^{-rt})/2 * sigma sqrt t); about twice the largest value met on the lattice
C_EURO = {"CRR": 1.7, "JR": 0.75, "TIAN": 0.7, "TRI": 0.85}
C_DEEP = 0.22  # deep lattices, sigma = 0.3, near the money (largest met 0.12)
C_AMER = 2.0

SP = [(t, r, b1, b2, s1, s2, rho, Q1, Q2, S1, S2)
      for t in (0.1, 1) for r, b1, b2 in ((0.05, 0.0, 0.0), (0.1, 0.06, -0.03)) for s1, s2 in ((0.2, 0.3), (0.5, 0.15))
      for rho in (-0.7, 0.0, 0.4, 0.9) for Q1, Q2 in ((1, 1), (1.1, 0.9)) for S1, S2 in ((100.0, 100.0), (120.0, 95.0))]


class AllPaths(mc.Innovations):
    """Every +-1 path once."""

    def sample_innovation(self):
        return np.array(list(itertools.product([-1.0, 1.0], repeat=self.path_length)))


class Unscrambled(mc.NormalSobolInnovations):
    def sample_innovation(self):
        return super().sample_innovation(scramble=False)


def cases(tier):
    out = []
    for n in DEPTH[tier]:
        for t in T[tier][1:] if n in DEEP else T[tier]:
            for m in [0.9, 1.0, 1.04] if n in DEEP else M[tier]:
                out.append(dict(part="lattice", tier=tier, n=n, t=t, m=m))
    for n in (5, 10, 20) if tier == "quick" else (5, 8, 10, 16, 20, 30, 40):
        for k in range(8):
            out.append(dict(part="twoasset", n=n, k=k))
    for part in ("family", "mcjr", "degenerate", "ms", "american", "rgw"):
        out.append(dict(part=part, tier=tier))
    for S in (90.0, 100.0, 108.0):
        for t in (5, 30) if tier == "quick" else (1, 2, 5, 30, 90, 180):
            out.append(dict(part="hn", tier=tier, S=S, t=t))
    for L in (1, 2, 4):
        for m in (256, 1024, 4096):
            out.append(dict(part="sobol", L=L, m=m))
    return out


def run(case, R):
    globals()["part_" + case["part"]](case, R)


def part_lattice(case, R):
    tier, n, t, m = case["tier"], case["n"], case["t"], case["m"]
    S, K = 100.0 * m, 100.0
    rbs, sgs = RB, SG[tier]
    if n > 40 and tier == "quick":
        rbs, sgs = RB[1:6:2], sgs[1:]
    if n in DEEP:
        rbs, sgs = RB[1:3], [0.3]
    for sg, (r, b) in itertools.product(sgs, rbs):
        bs = fo.GBSOption(S, K, t, r, b, sg)
        scale = (S * math.exp((b - r) * t) + K * math.exp(-r * t)) / 2 * sg * math.sqrt(t)
        for side in ("call", "put"):
            exact = float(getattr(bs, side)())
            am_vals = {}
            for kind, cls in TREES.items():
                st = ref.lattice(kind, t, b, sg, n)
                if min(p for _, p in st) < 0.02:
                    R.count("skipped_no_probability")
                    continue
                d = dict(kind=kind, n=n, S=S, K=K, t=t, r=r, b=b, sigma=sg, side=side)
                R.state()
                R.trace()
                v = float(getattr(cls(S, K, t, r, b, sg, "european", n), side)())
                if not R.close(v, exact, (C_DEEP if n in DEEP else C_EURO[kind]) * scale / n + 1e-6 * (S + K), f"euro.{kind}.{side}", "european lattice vs closed form", **d):
                    return
                R.maximum("euro_error_times_n", abs(v - exact) * n / scale)
                if n <= 64:
                    am_vals[kind] = float(getattr(cls(S, K, t, r, b, sg, "american", n), side)())
            for x, y in itertools.combinations(am_vals, 2):
                R.trans()
                if abs(am_vals[x] - am_vals[y]) > C_AMER * (S + K) / 2 * sg * math.sqrt(t) / n + 1e-6 * (S + K):
                    R.fail(f"amer.{x}.{y}.{side}", f"american lattices disagree: {am_vals}", n=n, S=S, K=K, t=t, r=r, b=b, sigma=sg)
                    return
            R.outcome((side, round(exact, 6), n))
    R.sample(dict(case, sigma=sg, r=r, b=b, exact=exact, american=am_vals))


def exchange(t, r, b1, b2, s1, s2, rho, Q1, Q2, S1, S2):
    v = math.sqrt(max(0.0, s1 * s1 + s2 * s2 - 2 * rho * s1 * s2) * t)
    return ref.lognormal_value(Q2 * S2 * math.exp(b2 * t), Q1 * S1 * math.exp(b1 * t), v, math.exp(-r * t), 1)


def part_twoasset(case, R):
    n = case["n"]
    for p in SP[case["k"] :: 8]:
        t, r, b1, b2, s1, s2, rho, Q1, Q2, S1, S2 = p
        kw = dict(S1=S1, S2=S2, t=t, r=r, b1=b1, b2=b2, sigma1=s1, sigma2=s2, rho=rho, Q1=Q1, Q2=Q2)
        sc = (S1 + S2) / 2 * (s1 + s2) * math.sqrt(t)
        R.state()
        ex = exchange(*p)
        lat = so.BionomialSpreadAllTypes(option=7, K=0, K2=0, n=n, **kw).call()
        R.trace()
        if not R.close(float(lat), ex, 0.15 * sc / n + 1e-5, "exchange", "exchange lattice vs Margrabe", params=p, n=n):
            return
        # K = 0: Kirk is the exchange option the other way round
        spr = so.SpreadApproxOption(K=0.0, **kw)
        R.close(float(spr.put()), ex, 1e-5 + 1e-6 * S2, "kirk0", "Kirk put with K = 0 vs Margrabe", params=p)
        for K in (-10.0, 5.0, 20.0):
            for side in ("call", "put"):
                a = float(getattr(so.BionomialSpreadOption(K=K, n=n, **kw), side)())
                k = float(getattr(so.SpreadApproxOption(K=K, **kw), side)())
                R.trace()
                if not R.close(a, k, (0.12 / n + 0.004) * sc, f"kirk.{side}", "spread lattice vs Kirk", params=p, K=K, n=n):
                    return
        # product and relative performance are lognormal: closed form through GBSOption
        f = Q1 * S1 * Q2 * S2
        cross = s1 * s1 + s2 * s2 + 2 * rho * s1 * s2
        q = Q1 * S1 / (Q2 * S2)
        rel = s1 * s1 + s2 * s2 - 2 * rho * s1 * s2
        for o, spot, b, var, K in ((9, f, b1 + b2 + rho * s1 * s2, cross, f * 1.05), (8, q, b1 - b2 + s2 * s2 - rho * s1 * s2, rel, 1.1)):
            for side in ("call", "put"):
                w = float(getattr(fo.GBSOption(spot, K, t, r, b, math.sqrt(var)), side)())
                g = float(getattr(so.BionomialSpreadAllTypes(option=o, K=K, K2=0, n=n, **kw), side)())
                R.trace()
                if not R.close(g, w, (0.16 / n) * max(spot, K) * (s1 + s2) * math.sqrt(t) + 1e-6 * max(spot, K), f"lognormal{o}.{side}", "two-asset lattice vs closed form", params=p, n=n):
                    return
        R.outcome((n, round(ex, 6)))
    R.sample(dict(case, params=p, exchange=ex, lattice=float(lat)))


def part_family(case, R):
    """GBS with b = 0 is Black-76, GBS is Black-Scholes: prices, greeks, implied volatility."""
    for m, t, sg, r in itertools.product([0.5, 0.9, 1.0, 1.1, 2.0], [0.02, 0.5, 3], [0.1, 0.4, 1.2], [-0.02, 0.0, 0.07]):
        S, K = 100 * m, 100.0
        g, f = fo.GBSOption(S, K, t, r, 0, sg), fo.Black76Option(S, K, t, r, sg)
        h, k = fo.GBSOption(S, K, t, r, 0.04, sg), fo.BlackScholesOption(S, K, t, r, 0.04, sg)
        for a, b, lab in ((g, f, "black76"), (h, k, "blackscholes")):
            d = dict(S=S, K=K, t=t, r=r, sigma=sg, pair=lab)
            R.state()
            for side in (True, False):
                ga, gb = a.greeks(side), b.greeks(side)
                R.trace()
                for name in ga:
                    if math.isnan(ga[name]) and math.isnan(gb[name]):
                        continue  # lambda of a worthless option
                    if not abs(float(ga[name]) - float(gb[name])) <= 1e-12 * (1 + abs(float(ga[name]))):
                        R.fail(f"{lab}.{name}", f"{name}: {ga[name]} vs {gb[name]}", **d)
                        return
                pa, pb = (a.call(), b.call()) if side else (a.put(), b.put())
                R.close(pa, pb, 1e-12 * (S + K), f"{lab}.price", "price", **d)
                R.outcome((lab, side, round(float(pa), 6)))
    R.sample(dict(case, price=float(pa)))


def part_mcjr(case, R):
    """Monte Carlo over the complete +-1 innovation set is the Jarrow-Rudd lattice."""
    for L in range(1, 11 if case["tier"] == "quick" else 15):
        for S, K, t, r, b, sg in [(100.0, 95.0, 0.75, 0.06, 0.03, 0.3), (50, 60, 2, 0.02, -0.05, 0.6), (100.0, 100.0, 0.1, 0.0, 0.1, 0.1), (80.0, 120.0, 5, 0.1, 0.1, 0.9)]:
            o = mc.MonteCarloOption(1, L, 2**L, S, K, t, r, b, sg, AllPaths, mc.WienerPath, mc.PlainVanillaPayoff)
            j = TREES["JR"](S, K, t, r, b, sg, "european", L)
            for side in ("call", "put"):
                R.state(2**L)
                R.trace()
                if not R.close(float(getattr(o, side)()[0]), float(getattr(j, side)()), 1e-10 * (S + K) * math.exp(3 * sg * math.sqrt(t)), f"mcjr.{side}", "Monte Carlo on all paths vs JR lattice", L=L, S=S, K=K, t=t, r=r, b=b, sigma=sg):
                    return
                R.outcome((L, side, round(float(getattr(j, side)()), 6)))
    R.sample(dict(case, L=L))


def part_degenerate(case, R):
    """One riskless asset: the two-asset lattice and Kirk reduce to the one-asset engines."""
    for S1, S2, K, t, r, b1, b2, s1, Q1, Q2 in itertools.product([90.0, 120.0], [40.0], [30.0, 60.0], [0.5, 2], [0.05], [0.0, 0.05, -0.04], [0.02, -0.1], [0.2, 0.6], [1, 1.3], [1, 0.5]):
        kw = dict(S1=S1, S2=S2, K=K, t=t, r=r, b1=b1, b2=b2, sigma1=s1, sigma2=0.0, rho=0.3, Q1=Q1, Q2=Q2)
        fwd2 = Q2 * S2 * math.exp(b2 * t)
        d = dict(kw)
        R.state()
        for n in (1, 3, 7):
            lat = so.BionomialSpreadOption(otype="european", n=n, **kw)
            mx = so.BionomialMaxOption(otype="european", n=n, **kw)
            jr = TREES["JR"](Q1 * S1, K + fwd2, t, r, b1, s1, "european", n)
            top = TREES["JR"](Q1 * S1, max(K, fwd2), t, r, b1, s1, "european", n)
            for side in ("call", "put"):
                R.trace()
                if not R.close(float(getattr(lat, side)()), float(getattr(jr, side)()), 1e-9 * (S1 + S2), f"riskless.{side}", "spread lattice with a riskless second asset vs JR lattice", n=n, **d):
                    return
            # max(a, f) - K with f = fwd2 fixed: JR call struck at max(K, f) plus the sure part
            want = float(top.call()) + math.exp(-r * t) * max(fwd2 - K, 0)
            if not R.close(float(mx.call()), want, 1e-9 * (S1 + S2), "riskless.max", "max lattice with a riskless second asset", n=n, **d):
                return
        # Kirk with sigma2 = 0: volatility of asset 1 only, equal to GBS on Q1*S1 with the shifted strike when b2 = r
        k = so.SpreadApproxOption(**kw)
        F = (Q1 * S1 * math.exp(b1 * t), fwd2 + K)
        g = fo.Black76Option(F[0], F[1], t, r, s1)
        for side in ("call", "put"):
            R.trace()
            if not R.close(float(getattr(k, side)()), float(getattr(g, side)()), 1e-9 * (S1 + S2), f"kirk.riskless.{side}", "Kirk with a riskless second asset vs Black-76", **d):
                return
        R.outcome((S1, K, t, round(float(g.call()), 6)))
    R.sample(dict(case, last=d))


def part_hn(case, R):
    """alpha = beta = 0: constant daily variance omega, i.e. Black-Scholes with b = r per day."""
    S, t = case["S"], case["t"]
    grid = itertools.product([0.01, 0.03], [0.0, 0.0002, 0.002], [-0.5, 1.0], [0.0, 60.0])
    for sd, r, lamb, gamma in grid if case["tier"] != "quick" else [(0.01, 0.0002, -0.5, 0.0), (0.03, 0.002, 1.0, 60.0), (0.02, 0.0, -0.5, 60.0)]:
        om, K = sd * sd, 100.0
        if abs(math.log(S / K)) > 5 * sd * math.sqrt(t):
            continue
        o = hn.HestonNandiOption(S, K, t, r, lamb, om, 0.0, 0.0, gamma)
        g = fo.GBSOption(S, K, t, r, r, sd)
        d = dict(S=S, K=K, t=t, r=r, sd=sd, lamb=lamb, gamma=gamma)
        R.state()
        for side in ("call", "put"):
            R.trace()
            if not R.close(float(np.real(getattr(o, side)())), float(getattr(g, side)()), 1e-4, f"hn.{side}", "Heston-Nandi without GARCH effects vs Black-Scholes", **d):
                return
        R.close(float(np.real(o.delta())), float(g.delta()), 1e-4, "hn.delta", "delta", **d)
        R.close(float(np.real(o.gamma())), float(g.gamma()), 1e-4, "hn.gamma", "gamma", **d)
        R.outcome(tuple(d.values()))
    R.sample(dict(case))


def part_ms(case, R):
    """Without interest-rate and convenience-yield risk Miltersen-Schwartz is Black-76."""
    for FT, K, t, T, s, r in itertools.product([80.0, 95.0], [70.0, 95.0, 120.0], [0.1, 0.5, 2], [0.0, 0.5], [0.1, 0.4], [0.0, 0.06]):
        kw = dict(MS_BASE, Pt=math.exp(-r * t), FT=FT, K=K, t=t, T=t + T, sigmaS=s, sigmaE=0.0, sigmaF=0.0)
        o, g = fo.MiltersenSchwartzOption(**kw), fo.Black76Option(FT, K, t, r, s)
        R.state()
        for side in ("call", "put"):
            R.trace()
            if not R.close(float(getattr(o, side)()), float(getattr(g, side)()), 1e-9 * (FT + K), f"ms.{side}", "Miltersen-Schwartz with sigmaE = sigmaF = 0 vs Black-76", **kw):
                return
        R.outcome((FT, K, t, s, r))
    R.sample(dict(case, FT=FT))


def part_american(case, R):
    """BAW and Bjerksund-Stensland against the American lattices (the paper's accuracy), both sides of b = r."""
    for m, t, sg, (r, b) in itertools.product([0.8, 0.95, 1.0, 1.05, 1.25], [0.1, 0.5, 1.0], [0.15, 0.35], [(0.06, 0.06), (0.08, 0.0), (0.1, 0.04), (0.08, -0.04)]):
        S, K = 100 * m, 100.0
        tree = TREES["JR"](S, K, t, r, b, sg, "american", 100)
        for side in ("call", "put"):
            lat = float(getattr(tree, side)())
            baw = float(getattr(am.BAWAmericanApproxOption(S, K, t, r, b, sg), side)())
            bs = float(getattr(am.BSAmericanApproxOption(S, K, t, r, b, sg), side)()["OptionPrice"])
            R.state()
            R.trace(2)
            d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg, side=side)
            R.maximum("baw_error", abs(baw - lat))
            R.maximum("bs93_error", abs(bs - lat))
            if not R.close(baw, lat, 0.25, f"baw.{side}", "BAW vs lattice", **d):
                return
            if not R.close(bs, lat, 0.45, f"bs93.{side}", "Bjerksund-Stensland vs lattice", **d):
                return
            R.outcome((side, round(lat, 5)))
    R.sample(dict(case, lattice=lat))


def part_rgw(case, R):
    """No dividend: the Roll-Geske-Whaley call is the European call; a dividend at once: the call on S - D."""
    for S, t, r, sg in itertools.product([70.0, 95.0, 110.0, 150.0], [0.25, 1.0, 3], [0.01, 0.06], [0.1, 0.3, 0.6]):
        for frac in (0.2, 0.7):
            for D in (0.0, 0.05, 4.0):
                td = frac * t
                o = am.RollGeskeWhaleyOption(S, 100.0, t, td, r, D, sg)
                R.state()
                R.trace()
                eu = float(fo.GBSOption(S - D * math.exp(-r * td), 100.0, t, r, r, sg).call())
                d = dict(S=S, t=t, td=td, r=r, D=D, sigma=sg)
                if not o.is_call_optimal():
                    if not R.close(float(o.call()), eu, 1e-9 * (S + 100), "rgw.euro", "never exercised: European call on the escrowed price", **d):
                        return
                elif float(o.call()) < eu - 1e-4:
                    R.fail("rgw.below", f"{o.call()} below the European value {eu}", **d)
                    return
                R.outcome((S, t, r, sg, frac, D))
    R.sample(dict(case, eu=eu))


def part_sobol(case, R):
    """Unscrambled Sobol points are deterministic: the engine's error must fall like the sequence's."""
    L, m = case["L"], case["m"]
    bound = {1: 8.0, 2: 13.0, 4: 18.0}[L] / m
    for S, t, (r, b), sg in itertools.product([80.0, 100.0, 125.0], [0.25, 1], [(0.05, 0.05), (0.1, 0.0), (0.02, -0.05)], [0.2, 0.5]):
        o = mc.MonteCarloOption(1, L, m, S, 100.0, t, r, b, sg, Unscrambled, mc.WienerPath, mc.PlainVanillaPayoff)
        g = fo.GBSOption(S, 100.0, t, r, b, sg)
        for side in ("call", "put"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = float(getattr(o, side)()[0])
            R.state(m)
            R.trace()
            if not R.close(v, float(getattr(g, side)()), bound * S * sg * math.sqrt(t), f"sobol.{side}", "Monte Carlo on unscrambled Sobol points vs closed form", S=S, t=t, r=r, b=b, sigma=sg, L=L, m=m):
                return
            R.outcome((L, m, round(v, 6)))
    R.sample(dict(case, value=v))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="engine pairs: 4 lattices / closed form, lattice / lattice (American), two-asset lattice / Margrabe, Kirk, GBS; Monte Carlo on all +-1 paths / JR; riskless second asset / JR, Black-76; Heston-Nandi / GBS; Miltersen-Schwartz / Black-76; BAW and BS93 / lattice; RGW / GBS; Monte Carlo on unscrambled Sobol points / GBS",
            bounds=dict(depths=DEPTH[tier], moneyness=M[tier], t=T[tier], sigma=SG[tier], rb=RB, constants=dict(european=C_EURO, deep=C_DEEP, american=C_AMER)),
            oracle="the other engine of the package; error bounds of order 1/n with constants about twice the largest value on the lattice",
        ),
        assumptions=["states where a lattice probability falls below 2% are skipped and counted"],
    )
