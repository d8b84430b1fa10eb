"""C01: European prices of the GBS family are the discounted lognormal expectation, everywhere."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

PROP = "C01"
TECHNIQUE = "explicit-state enumeration of a parameter lattice on the real pricers vs reference model"

M = [0.05, 0.5, 0.8, 0.95, 1.0, 1.0004, 1.05, 1.25, 2.0, 20.0]  # S/K
KS = {"quick": [0.5, 1.2345, 100, 3000], "thorough": [1e-3, 0.5, 1.2345, 7, 100, 3000, 1e6]}
T = {"quick": [1e-4, 1 / 365, 1 / 252, 0.02, 0.25, 1, 1.5, 2, 10, 30], "thorough": [1e-5, 1e-4, 1 / 2520, 1 / 365, 1 / 252, 0.02, 0.1, 0.25, 0.5, 1, 1.5, 2, 5, 10, 30]}
R = {"quick": [-0.1, -0.02, 0, 0.01, 0.05, 0.1, 0.3], "thorough": [-0.1, -0.02, 0, 0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 1]}
B = {"quick": [-0.2, -0.05, 0, 4e-4, 0.03, "r", "-r", "r-", 0.1, 0.25], "thorough": [-0.5, -0.2, -0.05, -0.01, 0, 0.01, 0.03, "r", "-r", "r-", 4e-4, -2e-5, 0.1, 0.25, 0.6]}
SG = {"quick": [0.002, 0.01, 0.05, 0.2, 0.5, 1, 1.5, 3, 5], "thorough": [0.002, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1, 1.5, 2, 3, 5]}
KINDS = ["float", "int", "np"]


def cases(tier):
    out = []
    for kind in KINDS:
        for K in KS[tier]:
            for t in T[tier]:
                for sg in SG[tier]:
                    if kind != "float" and (K != 100 or sg not in (0.2, 1, 1.5)):
                        continue
                    out.append(dict(tier=tier, kind=kind, K=K, t=t, sigma=sg))
    return out


def cast(kind, x):
    if kind == "int" and float(x) == int(x):
        return int(x)
    return np.float64(x) if kind == "np" else float(x)


def run(case, R_):
    tier, kind = case["tier"], case["kind"]
    K, t, sg = (cast(kind, case[k]) for k in ("K", "t", "sigma"))
    walkers = {}
    for r0, b0, m in itertools.product(R[tier], B[tier], M):
        b0 = {"r": r0, "-r": -r0, "r-": r0 - 7e-4}.get(b0, b0)
        S, r, b = cast(kind, K * m), cast(kind, r0), cast(kind, b0)
        objs = [("GBSOption", fo.GBSOption(S, K, t, r, b, sg), b)]
        objs.append(("BlackScholesOption", fo.BlackScholesOption(S=S, K=K, t=t, r=r, b=b, sigma=sg), b))
        if b0 == 0:
            objs.append(("Black76Option", fo.Black76Option(S, K, t, r, sg), 0.0))
        # a long-lived option driven through the whole space with set_param
        key = "GBSOption walked"
        w = walkers.get(key)
        if w is None:
            w = walkers[key] = (fo.GBSOption(S, K, t, r, b, sg), dict(S=S, r=r, b=b))
        else:
            for name, val in (("S", S), ("r", r), ("b", b)):
                if w[1][name] != val:
                    w[0].set_param(name, val)
                    w[1][name] = val
                    R_.trans()
        objs.append((key, w[0], b))
        scale = ref.gbs_scale(float(S), float(K), float(t), float(r), float(b))
        R_.state()
        for name, o, bb in objs:
            for side, z in (("call", 1), ("put", -1)):
                want = ref.gbs(float(S), float(K), float(t), float(r), float(bb), float(sg), z)
                got = getattr(o, side)()
                R_.trace()
                if not R_.close(got, want, 3e-7 * scale, f"{name}.{side}", f"{name}.{side} price",
                                S=S, K=K, t=t, r=r, b=b, sigma=sg):
                    return
                R_.outcome((side, round(want / scale, 6)))
    R_.sample(dict(case, example=dict(S=S, r=r, b=b, price=got, model=want)))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="(kind of number) x K x S/K x t x r x b x sigma, b including 0, r and -r; classes GBSOption, "
            "BlackScholesOption, Black76Option and one GBSOption walked through all valuations by set_param; call, put",
            bounds=dict(K=KS[tier], S_over_K=M, t=T[tier], r=R[tier], b=B[tier], sigma=SG[tier], kinds=KINDS),
            oracle="discounted expectation of the lognormal payoff, exact normal distribution (scipy ndtr)",
            tolerance="3e-7 * (S e^((b-r)t) + K e^(-rt)): the documented Haug polynomial is accurate to 7.5e-8",
        ),
        assumptions=["values between the listed points are not covered", "scipy.special.ndtr is correct"],
    )
