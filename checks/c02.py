"""C02: Miltersen-Schwartz prices follow from the model's volatility structure (quadrature)."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

PROP = "C02"
TECHNIQUE = "explicit-state enumeration of a parameter lattice on the real pricer vs quadrature model"

TT = {
    "quick": [(1e-4, 1e-4), (1 / 365, 0.1), (0.25, 0.25), (0.25, 0.5), (0.01, 1.0), (1, 1), (1, 3), (2.5, 3), (10, 12)],
    "thorough": [(1e-4, 1e-4), (1 / 365, 0.1), (10, 12), (1 / 252, 1 / 252), (1 / 252, 0.5), (0.25, 0.25), (0.25, 0.5), (0.01, 1.0), (0.5, 5), (1, 1), (1, 1.5), (1, 3), (2.5, 3), (5, 5), (5, 10)],
}
SIG = {
    "quick": [(0.2660, 0.2490, 0.0096), (0.2, 0.0, 0.01), (0.4, 0.3, 0.0), (0.05, 0.6, 0.1), (0.8, 0.1, 0.05), (0.3, 0.0, 0.0)],
    "thorough": [(a, b, c) for a in (0.05, 0.266, 0.8) for b in (0.0, 0.1, 0.249, 0.6) for c in (0.0, 0.0096, 0.05, 0.15)],
}
RH = {"quick": [-0.6, 0.0, 0.45, 0.8], "thorough": [-0.9, -0.6, -0.2, 0.0, 0.1, 0.45, 0.8]}
KAP = {"quick": [0.2, 1.045, 3.0], "thorough": [0.1, 0.2, 0.7, 1.045, 3.0, 8.0]}
K = {"quick": [0.5, 80, 95, 95.0001, 140], "thorough": [0.5, 40, 80, 94, 95, 95.0001, 100, 140, 500]}
PT = [1.0, 0.9876, 0.7]


def psd(a, b, c):  # rhoSE, rhoSF, rhoEF form a correlation matrix
    return 1 + 2 * a * b * c - a * a - b * b - c * c >= 1e-9


def cases(tier):
    return [
        dict(tier=tier, tT=tT, sig=s, kE=ke, kF=kf)
        for tT in TT[tier] for s in SIG[tier] for ke in KAP[tier] for kf in KAP[tier]
    ]


def run(case, R):
    tier = case["tier"]
    last = None
    t, T = case["tT"]
    sS, sE, sF = case["sig"]
    kE, kF = case["kE"], case["kF"]
    for rSE, rSF, rEF in itertools.product(RH[tier], repeat=3):
        if not psd(rSE, rSF, rEF):
            continue
        vz2, vxz = ref.ms_moments(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF)
        if vz2 < 1e-8:  # the closed form has lost its digits
            continue
        v = math.sqrt(vz2)
        F = 95 * math.exp(-vxz)
        for i, k in enumerate(K[tier]):
            Pt = PT[i % len(PT)]
            R.state()
            o = fo.MiltersenSchwartzOption(Pt, 95, k, t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF)
            # closed form cancels terms of size sigma^2/kappa^3; quadrature does not
            tol = 5e-7 * Pt * (F + k)
            for side, z in (("call", 1), ("put", -1)):
                want = ref.lognormal_value(F, k, v, Pt, z)
                got = getattr(o, side)()
                R.trace()
                R.outcome((side, round(want, 4)))
                if not R.close(got, want, tol, f"MS.{side}", f"Miltersen-Schwartz {side}",
                               K=k, Pt=Pt, rho=[rSE, rSF, rEF]):
                    return
                last = (k, got, want)
    if last:
        R.sample(dict(case, K=last[0], price=last[1], model=last[2]))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="(t,T) x (sigmaS,sigmaE,sigmaF) x kappaE x kappaF x all positive definite correlation triples x K (with Pt)",
            bounds=dict(tT=TT[tier], sigmas=SIG[tier], kappas=KAP[tier], rhos=RH[tier], K=K[tier], Pt=PT, FT=95),
            oracle="48-point Gauss-Legendre quadrature of the instantaneous covariances of log futures and bond, then lognormal expectation",
            tolerance="5e-7 * Pt (F + K)",
        ),
        assumptions=["values between the listed points are not covered"],
    )
