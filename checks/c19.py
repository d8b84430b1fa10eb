"""C19: Heston-Nandi values are the risk-neutral GARCH expectation; greeks are its derivatives."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

HN = fo.heston_nandi_options.HestonNandiOption
PROP = "C19"
TECHNIQUE = "model built by exhaustive enumeration of a Gauss-Hermite innovation grid for every day of short maturities (all nodes^(t-1) paths), extended to longer ones by an independent one-integral transform that must agree with it; implementation compared in every parameter state"
CPU_LIMIT = 90.0

PARS = {
    "quick": [(-0.5, 2.3e-6, 2.9e-6, 0.85, 184.25), (-0.5, 2.3e-6, 2.9e-6, 0.85, 0.0), (0.2, 5e-6, 1e-6, 0.6, 400.0), (2.0, 1e-5, 5e-6, 0.5, -50.0), (0, 1e-3, 1e-4, 0.3, 10), (0.7, 1e-5, 0.0, 0.4, 3)],
    "thorough": [(-0.5, 2.3e-6, 2.9e-6, 0.85, 184.25), (-0.5, 2.3e-6, 2.9e-6, 0.85, 0.0), (0.2, 5e-6, 1e-6, 0.6, 400.0), (2.0, 1e-5, 5e-6, 0.5, -50.0), (-0.5, 1e-4, 1e-5, 0.0, 100.0), (0, 1e-3, 1e-4, 0.3, 10), (1.0, 2e-6, 1e-6, 0.9, 200.0), (0, 1e-5, 0.0, 0.0, 0),
                 (0.7, 1e-5, 0.0, 0.4, 3), (-3, 5e-5, 2e-5, 0.2, 60.0), (0.0, 1e-9, 5e-6, 0.7, 200.0), (5.0, 4e-4, 3e-5, 0.1, -80)],
}
LONG = [60, 130, 260, 400]  # quick tier: fewer parameter sets and strikes
T = {"quick": [1, 2, 3, 4, 5, 7, 13, 30] + LONG, "thorough": [1, 2, 3, 4, 5, 6, 7, 10, 13, 20, 30, 45, 63, 126, 252, 253, 300, 400, 600]}
SD = {"quick": [-6, -1.6, 0, 0.9, 3.5], "thorough": [-9, -6, -3, -1.6, -0.7, -0.2, 0, 0.1, 0.9, 2, 3.5, 8]}
R_ = {"quick": [0, 0.05 / 252], "thorough": [0, 0.05 / 252, 0.001, -0.0001]}
GH = {"quick": 3, "thorough": 4}  # days for which the whole innovation grid is enumerated


def cases(tier):
    out = [dict(tier=tier, t=t, p=p, r=r) for t in T[tier] for p in range(len(PARS[tier])) for r in R_[tier]]
    if tier == "quick":
        out = [c for c in out if c["t"] not in LONG or c["p"] in (0, 2, 4) and (c["r"] != 0) == (c["p"] == 0)]
    out += [dict(tier=tier, t=t, p=p, r=r, memory=True) for t in ((3, 30) if tier == "quick" else (2, 3, 7, 30, 90)) for p in (0, 2, 3) for r in R_[tier]]
    return out


def memory(case, R):
    """Options differing in one parameter are priced one after the other."""
    par = dict(zip(("lamb", "omega", "alpha", "beta", "gamma"), PARS[case["tier"]][case["p"]]))
    base = dict(S=80.0, K=81.0, t=case["t"], r=case["r"], **par)
    near = {"S": 83.0, "K": 77.0, "t": base["t"] + 2, "r": base["r"] + 2e-4, "lamb": base["lamb"] - 3, "omega": base["omega"] * 4, "alpha": base["alpha"] * 0.5, "beta": base["beta"] * 0.4, "gamma": base["gamma"] * 0.5}
    for p, v in near.items():
        for q in (base, dict(base, **{p: v}), base):
            want, wd, _ = ref.hn_fourier(*q.values(), 1, n=640 if q["t"] > 4 else 1280)
            o = HN(**q)
            R.state()
            R.trace(2)
            if not R.close(float(o.call()), want, 2e-6 * q["S"], "memory.call", f"HestonNandi call after changing {p}", **q):
                return
            if not R.close(float(o.delta()), wd, 5e-6, "memory.delta", f"HestonNandi delta after changing {p}", **q):
                return
            R.outcome(("memory", p, round(want, 6)))
    R.sample(dict(case, price=want))


def run(case, R):
    if case.get("memory"):
        return memory(case, R)
    tier, t, r = case["tier"], case["t"], case["r"]
    lamb, omega, alpha, beta, gamma = par = PARS[tier][case["p"]]
    g = gamma + lamb + 0.5
    pers = beta + alpha * g * g
    assert pers < 1
    h0 = (omega + alpha) / (1 - pers)
    # the expected variance over the life of the option
    sd = math.sqrt(sum(h0 * pers ** i + (omega + alpha) * (1 - pers ** i) / (1 - pers) for i in range(t)))
    K = 80.0
    for k in SD[tier] if tier == "thorough" or t not in LONG else [0.4]:
        S = K * math.exp(k * sd - r * t)
        d = dict(S=S, K=K, t=t, r=r, par=par)
        R.state()
        wc, wd, wg = ref.hn_fourier(S, K, t, r, *par, 1, n=640 if t > 4 else 1280)
        if t <= GH[tier]:
            nodes = {1: 1, 2: 60, 3: 60, 4: 24}[t]
            w2 = ref.hn_value(S, K, t, r, *par, 1, nodes=nodes)
            R.count("innovation_paths", nodes ** (t - 1))
            if abs(w2 - wc) > 1e-7 * S:
                raise AssertionError(f"reference models disagree: {w2} {wc} {d}")
        o = HN(S, K, t, r, *par)
        c, p = float(o.call()), float(o.put())
        R.trace(2)
        pw = wc - S + K * math.exp(-r * t)
        if not R.close(c, wc, 2e-6 * S, "call", "HestonNandi call", **d):
            return
        if not R.close(p, pw, 2e-6 * S, "put", "HestonNandi put", **d):
            return
        if abs(k) <= 3.5 and (tier == "thorough" or t <= 130):
            dl, dp, gm = float(o.delta()), float(o.delta(call=False)), float(o.gamma())
            R.trace(3)
            if not R.close(dl, wd, 5e-6, "delta.call", "HestonNandi delta of the call", **d):
                return
            if not R.close(dp, wd - 1, 5e-6, "delta.put", "HestonNandi delta of the put", **d):
                return
            if not R.close(gm, wg, 2e-5 / (S * sd), "gamma", "HestonNandi gamma", **d):
                return
            # the value depends on the risk premium only through gamma + lambda
            if k in (0, 0.9) and (tier == "thorough" or t not in LONG):
                x = HN(S, K, t, r, lamb + 1.75, omega, alpha, beta, gamma - 1.75)
                R.trace()
                R.close(float(x.call()), c, 1e-7 * S, "premium", "value after moving 1.75 from gamma to lambda", **d)
                # homogeneous of degree one in S and K
                x = HN(S * 2.5, K * 2.5, t, r, *par)
                R.trace()
                R.close(float(x.call()), 2.5 * c, 5e-6 * S, "scale", "value with S and K scaled by 2.5", **d)
        R.outcome((round(c, 7), round(p, 7)))
    R.sample(dict(case, last=d, call=c, put=p, model=wc))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="GARCH parameter set x days x daily rate x moneyness in standard deviations; call, put, both deltas, gamma; histories of options that differ in one parameter",
            bounds=dict(parameters=PARS[tier], days=T[tier], rates=R_[tier], moneyness_sd=SD[tier], grid_days=GH[tier]),
            oracle="discounted expectation over the enumerated innovation grid (innovation_paths), last day in closed form; for longer maturities an independent one-integral transform validated against it",
        ),
        assumptions=["covariance stationary risk-neutral parameters", "strike within 6 (thorough: 9) standard deviations of the forward; greeks within 3.5: beyond that the package's quadrature resolves noise only"],
    )
