"""C31: prices and greeks do not depend on the unit in which time is measured."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc.engines import CLASSES, price, sides

PROP = "C31"
TECHNIQUE = "explicit-state enumeration of option states x unit changes on the real code; invariance checked in every state"
CPU_LIMIT = 60.0

mc = fo.monte_carlo_options
LAM = {"quick": [1 / 365, 0.3, 12.0, 1000.0], "thorough": [1e-5, 1 / 365, 1 / 52, 0.3, 3.0, 12.0, 252.0, 1000.0, 1e6]}
DEV = {
    "S": [60.0, 99.0, 150.0], "FT": [60.0, 120.0], "K": [50.0, 130.0], "t": [0.004, 0.1, 2.0, 8.0], "r": [0.0, 0.01, 0.25],
    "b": [0.0, -0.08, 0.06, 0.2], "sigma": [0.05, 0.12, 0.6, 1.4], "type": ["european"], "otype": ["european"], "n": [1, 2, 9],
    "T": [1.0, 3.0], "sigmaS": [0.02, 0.6], "sigmaE": [0.01, 0.5], "sigmaF": [0.001, 0.1], "rhoSE": [-0.3], "KappaE": [0.01, 4], "KappaF": [0.01, 2.0], "Pt": [0.6],
    "S1": [90.0, 140.0], "S2": [90.0], "b1": [-0.05, 0.2], "b2": [0.1], "sigma1": [0.02, 0.9], "sigma2": [0.1], "rho": [0.4, 1], "Q1": [0.7], "Q2": [1.6],
    "td": [0.01, 0.3], "D": [0.3, 9.0], "option": [2, 3, 4, 5, 6, 7, 8, 9],
}
TIMES, RATES, VOLS = ("t", "td", "T"), ("r", "b", "b1", "b2", "KappaE", "KappaF"), ("sigma", "sigma1", "sigma2", "sigmaS")
EPS = np.array([[0.3, -1.2, 0.8], [1.0, 0.5, -0.1], [-0.4, 0.1, -2.0]])
# how a greek changes when time is measured in units 1/lam as long
POWER = {"delta": 0, "gamma": 0, "lambda": 0, "theta": -1, "vega": 0.5, "rho": 1, "CofC": 1}
# relative to the money involved: rounding, and the stopping rules of the American approximations
TOL = {"BAWAmericanApproxOption": 5e-6, "RollGeskeWhaleyOption": 2e-6}


def rescaled(par, lam):
    out = {}
    for p, v in par.items():
        if p in TIMES:
            v = v * lam
        elif p in RATES:
            v = v / lam
        elif p in VOLS:
            v = v / math.sqrt(lam)
        elif p in ("sigmaE", "sigmaF"):  # volatilities of rates
            v = v / lam ** 1.5
        out[p] = v
    return out


def states(name, base, tier):
    ds = [(p, v) for p in base for v in DEV.get(p, []) if v != base[p]]
    yield dict(base)
    for p, v in ds:
        yield dict(base, **{p: v})
    for (p, v), (q, w) in itertools.combinations(ds, 2):
        if p != q and (tier == "thorough" or len({p, q} & {"t", "r", "b", "sigma", "n", "td", "sigma1", "KappaE", "rho", "option", "S", "FT"}) == 2):
            yield dict(base, **{p: v, q: w})


def ok(par):
    return par.get("td", -1) < par["t"] and par["t"] <= par.get("T", par["t"])


def cases(tier):
    out = []
    for name, (cls, base) in CLASSES.items():
        n = sum(1 for p in states(name, base, tier))
        size = 60 if tier == "quick" else 30
        out += [dict(tier=tier, cls=name, part=k, of=(n - 1) // size + 1) for k in range((n - 1) // size + 1)]
    out += [dict(tier=tier, cls="MonteCarloOption", payoff=p) for p in ("PlainVanillaPayoff", "ArithmeticAsianPayoff")]
    return out


def run(case, R):
    if case["cls"] == "MonteCarloOption":
        return monte_carlo(case, R)
    name = case["cls"]
    cls, base = CLASSES[name]
    gbs = name in ("GBSOption", "BlackScholesOption", "Black76Option")
    for k, par in enumerate(states(name, base, case["tier"])):
        if k % case["of"] != case["part"] or not ok(par):
            continue
        R.state()
        o = cls(**par)
        money = sum(abs(par[p]) * par.get(q, 1) for p, q in (("S", ""), ("FT", ""), ("S1", "Q1"), ("S2", "Q2"), ("K", "")) if par.get(p) is not None)
        money *= math.exp(max(par.get("b", 0) - par.get("r", 0), par.get("b1", 0), par.get("b2", 0), 0) * par["t"])
        if par.get("option") == 9:
            money *= par["S1"] * par["Q1"]
        tol = TOL.get(name, 1e-9) * money
        if name == "BSAmericanApproxOption":
            tol *= 1e3
        want = {s: float(price(o, s)) for s in sides(name)}
        if not all(map(math.isfinite, want.values())):
            R.count("skipped_not_finite")
            continue
        greeks = {s: o.greeks(s == "call") for s in want} if gbs else {}
        for lam in LAM[case["tier"]]:
            x = cls(**rescaled(par, lam))
            R.trans()
            for s, w in want.items():
                R.trace()
                R.outcome((name, s, round(w / money, 9)))
                if not R.close(float(price(x, s)), w, tol, f"{name}.{s}", f"{name}.{s} with time in units of 1/{lam:g}", **par):
                    return
                for g, v in greeks.get(s, {}).items():
                    if g == "lambda" and w < 1e-6 * money:
                        continue
                    f = lam ** POWER[g]
                    got = float(x.greeks(s == "call")[g])
                    R.trace()
                    if not R.close(got / f, float(v), 1e-8 * (abs(float(v)) + money * {"theta": 1, "vega": 1, "rho": 1, "CofC": 1, "lambda": 1e-3}.get(g, 1e-3)) + (0 if g != "lambda" else 1e-6 * abs(float(v))), f"{name}.{g}", f"{name} {g} ({s}) with time in units of 1/{lam:g}", **par):
                        return
            if gbs and 0.02 * money < want["call"] and par["sigma"] * math.sqrt(par["t"]) > 0.05:
                own = float(np.ravel(o.volatility(want["call"]))[0])
                if abs(own - par["sigma"]) < 1e-6 and 0.02 < par["sigma"] / math.sqrt(lam) < 8:
                    iv = float(np.ravel(x.volatility(want["call"]))[0])
                    R.trace()
                    if not R.close(iv * math.sqrt(lam), own, 1e-5, f"{name}.volatility", f"{name}.volatility with time in units of 1/{lam:g}", **par):
                        return
    R.sample(dict(case, last={k: repr(v) for k, v in par.items()}))


def monte_carlo(case, R):
    pay = getattr(mc, case["payoff"])
    for anti, std, (S, K), t, (r, b), sg in itertools.product((False, True), (False, True), ((100.0, 98.0), (1.1, 1.3)), (0.02, 0.5, 6.0), ((0.05, 0.02), (0.0, -0.1), (-0.02, 0.03)), (0.1, 0.4, 1.5)):
        def mk(lam):
            return mc.MonteCarloOption(2, 3, 3, S, K, t * lam, r / lam, b / lam, sg / math.sqrt(lam), mc.NormalSobolInnovations, mc.WienerPath, pay, antithetic=anti, standardization=std, eps=EPS.copy())

        o = mk(1)
        R.state()
        for lam in LAM[case["tier"]]:
            x = mk(lam)
            R.trans()
            for s in ("call", "put"):
                R.trace()
                w = float(np.mean(getattr(o, s)()))
                R.outcome((case["payoff"], s, round(w / K, 9)))
                if not R.close(float(np.mean(getattr(x, s)())), w, 1e-9 * (S + K + w), f"MonteCarloOption.{s}", f"MonteCarloOption {case['payoff']} {s} with time in units of 1/{lam:g}", S=S, K=K, t=t, r=r, b=b, sigma=sg):
                    return
    R.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="every option class: base parameters, all single deviations, pairs of deviations (quick: of the time, rate, volatility, depth and payoff parameters); Monte Carlo with fixed innovations; call, put, analytic greeks, implied volatility",
            bounds=dict(deviations=DEV, units=LAM[tier]),
            oracle="times multiplied, rates and mean reversions divided, volatilities divided by the square root (volatilities of rates by the power 3/2): prices unchanged, greeks scaled by their power of the unit",
        ),
        assumptions=["BAW and Roll-Geske-Whaley within their stopping tolerances"],
    )
