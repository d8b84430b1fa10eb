"""C05: analytic greeks of the GBS family are the derivatives of the price, in every cost-of-carry regime."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

PROP = "C05"
TECHNIQUE = "explicit-state enumeration of a parameter lattice on the real greeks vs differentiated model"

M = [0.4, 0.8, 0.95, 1.0, 1.0004, 1.05, 1.25, 3.0]
KS = [0.5, 1.2345, 100, 3000]
T = {"quick": [1e-4, 1 / 365, 1 / 252, 0.1, 0.5, 1, 1.5, 5, 30], "thorough": [1e-5, 1e-4, 1 / 2520, 1 / 365, 1 / 252, 0.02, 0.1, 0.25, 0.5, 1, 1.5, 2, 5, 10, 30]}
RR = {"quick": [-0.1, -0.02, 0, 0.03, 0.1, 0.3], "thorough": [-0.1, -0.02, 0, 0.01, 0.03, 0.1, 0.3, 1]}
B = {"quick": [-0.2, -0.03, 0, 1e-3, "r", "r-", 0.1, 0.25], "thorough": [-0.5, -0.2, -0.03, 0, 1e-6, 1e-3, 0.02, "r", "-r", "r-", 0.1, 0.25, 0.6]}
SG = {"quick": [0.02, 0.05, 0.2, 0.5, 1, 1.5, 2.5, 5], "thorough": [0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1, 1.5, 2.5, 5]}


def cases(tier):
    return [dict(tier=tier, K=K, t=t, sigma=s) for K in KS for t in T[tier] for s in SG[tier]]


def run(case, R_):
    tier = case["tier"]
    K, t, sg = case["K"], case["t"], case["sigma"]
    for r, b, m in itertools.product(RR[tier], B[tier], M):
        b = {"r": r, "-r": -r, "r-": r - 7e-4}.get(b, b)
        S = K * m
        R_.state()
        objs = [("GBSOption", fo.GBSOption(S, K, t, r, b, sg))]
        if b == 0:
            objs.append(("Black76Option", fo.Black76Option(S, K, t, r, sg)))
        if b == r:
            objs.append(("BlackScholesOption", fo.BlackScholesOption(S, K, t, r, b, sg)))
        sc = ref.gbs_scale(S, K, t, r, b)
        # error of the documented normal-distribution polynomial (7.5e-8) in each quantity
        tol = dict(delta=sc / S, gamma=0, vega=0, theta=(abs(b) + 2 * abs(r)) * sc, rho=t * sc, CofC=t * sc)
        tol = {k: 3e-7 * v for k, v in tol.items()}
        for call, z in ((True, 1), (False, -1)):
            g = ref.gbs_greeks(S, K, t, r, b, sg, z)
            price = ref.gbs(S, K, t, r, b, sg, z)
            for name, o in objs:
                got = dict(
                    delta=o.delta(call), theta=o.theta(call=call), vega=o.vega(), rho=o.rho(call),
                    gamma=o.gamma(), CofC=o.c_of_c(call=call),
                )
                lam = o.lamb(call)
                bundle = o.greeks(call)
                if set(bundle) != set(got) | {"lambda"}:
                    R_.fail("keys", f"greeks() names {sorted(bundle)}")
                    return
                for k in got:
                    R_.trace()
                    tl = tol[k] + 1e-9 * abs(g[k]) + 1e-14 * sc
                    if not (R_.close(got[k], g[k], tl, f"{name}.{k}", f"{name} {k} call={call}", S=S, K=K, t=t, r=r, b=b, sigma=sg)
                            and R_.close(bundle[k], g[k], tl, f"{name}.greeks.{k}", f"{name} greeks()[{k}] call={call}", S=S, K=K, t=t, r=r, b=b, sigma=sg)):
                        return
                if price > 1e-3 * sc:
                    tl = 1e-3 * abs(g["lambda"]) + 1e-6 * S / price * sc / S
                    if not (R_.close(lam, g["lambda"], tl, f"{name}.lambda", f"{name} lambda call={call}", S=S, K=K, t=t, r=r, b=b, sigma=sg)
                            and R_.close(bundle["lambda"], g["lambda"], tl, f"{name}.greeks.lambda", f"{name} greeks()[lambda] call={call}", S=S, r=r, b=b)):
                        return
            R_.outcome((call, round(g["delta"], 5)))
            # the oracle itself is replayed against differences of the price model
            if m in (0.95, 1.25) and K == 100 and t >= 0.1 and t * max(abs(r), abs(b)) <= 3:
                selftest(S, K, t, r, b, sg, z, g, R_)
    R_.sample(dict(case, S=S, r=r, b=b, greeks={k: float(v) for k, v in bundle.items()}))


def selftest(S, K, t, r, b, sg, z, g, R_):
    def d(f, x, h):
        return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h)

    num = dict(
        delta=d(lambda x: ref.gbs(x, K, t, r, b, sg, z), S, S * 1e-3 * min(1, sg * math.sqrt(t))),
        vega=d(lambda x: ref.gbs(S, K, t, r, b, x, z), sg, sg * 1e-3),
        theta=-d(lambda x: ref.gbs(S, K, x, r, b, sg, z), t, t * 1e-3),
        CofC=d(lambda x: ref.gbs(S, K, t, r, x, sg, z), b, 1e-4),
        rho=d(lambda x: ref.gbs(S, K, t, x, (b + x - r) if b != 0 else 0.0, sg, z), r, 1e-4),
    )
    h = S * 1e-2 * min(1, sg * math.sqrt(t))
    num["gamma"] = d(lambda x: ref.gbs_greeks(x, K, t, r, b, sg, z)["delta"], S, h)
    for k, v in num.items():
        R_.count("model_self_checks")
        if abs(v - g[k]) > 1e-5 * abs(g[k]) + 1e-7 * (S + K):
            raise AssertionError(f"reference model inconsistent: {k} {v} {g[k]}")


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="K x S/K x t x r x b (0, r, tiny, negative, above r) x sigma; delta, theta, vega, rho, gamma, lambda, CofC, "
            "each directly and through greeks(), call and put, GBSOption / BlackScholesOption (b = r) / Black76Option (b = 0)",
            bounds=dict(K=KS, S_over_K=M, t=T[tier], r=RR[tier], b=B[tier], sigma=SG[tier]),
            oracle="closed derivatives of the lognormal expectation (rho moves b with r unless b = 0); the oracle is itself "
            "checked against five-point differences of the price model (model_self_checks)",
        ),
        assumptions=["values between the listed points are not covered"],
    )
