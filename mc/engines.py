"""The public option classes and small argument domains for them (the alphabet of several checks)."""
import math

import numpy as np

import finoptions as fo

from mc.core import canon

am = fo.basic_american_options
bt = fo.binomial_tree_options
so = fo.spread_options

TREES = {
    "CRR": bt.CRRBinomialTreeOption,
    "JR": bt.JRBinomialTreeOption,
    "TIAN": bt.TIANBinomialTreeOption,
    "TRI": bt.TrinomialTreeOption,
}

MS_BASE = dict(Pt=0.9876, FT=95.0, K=80.0, t=0.25, T=0.5, sigmaS=0.2660, sigmaE=0.2490, sigmaF=0.0096,
               rhoSE=0.805, rhoSF=0.0805, rhoEF=0.1243, KappaE=1.045, KappaF=0.200)
SPREAD_BASE = dict(S1=122.0, S2=120.0, K=3.0, t=0.4, r=0.1, b1=0.02, b2=0.05, sigma1=0.2, sigma2=0.3,
                   rho=-0.5, Q1=1.1, Q2=0.9)
GBS_BASE = dict(S=100.0, K=95.0, t=0.75, r=0.06, b=0.03, sigma=0.3)

# name -> (class, base parameters)
CLASSES = {
    "GBSOption": (fo.GBSOption, GBS_BASE),
    "BlackScholesOption": (fo.BlackScholesOption, GBS_BASE),
    "Black76Option": (fo.Black76Option, dict(FT=100.0, K=95.0, t=0.75, r=0.06, sigma=0.3)),
    "MiltersenSchwartzOption": (fo.MiltersenSchwartzOption, MS_BASE),
    "RollGeskeWhaleyOption": (am.RollGeskeWhaleyOption, dict(S=80.0, K=82.0, t=1 / 3, td=0.25, r=0.06, D=4.0, sigma=0.30)),
    "BAWAmericanApproxOption": (am.BAWAmericanApproxOption, GBS_BASE),
    "BSAmericanApproxOption": (am.BSAmericanApproxOption, GBS_BASE),
    "CRRBinomialTreeOption": (bt.CRRBinomialTreeOption, dict(GBS_BASE, type="american", n=4)),
    "JRBinomialTreeOption": (bt.JRBinomialTreeOption, dict(GBS_BASE, type="american", n=4)),
    "TIANBinomialTreeOption": (bt.TIANBinomialTreeOption, dict(GBS_BASE, type="american", n=4)),
    "TrinomialTreeOption": (bt.TrinomialTreeOption, dict(GBS_BASE, type="american", n=3)),
    "BionomialSpreadAllTypes": (so.BionomialSpreadAllTypes, dict(SPREAD_BASE, K2=110.0, option=1, otype="american", n=3)),
    "BionomialMaxOption": (so.BionomialMaxOption, dict(SPREAD_BASE, otype="american", n=3)),
    "BionomialMinOption": (so.BionomialMinOption, dict(SPREAD_BASE, otype="american", n=3)),
    "BionomialSpreadOption": (so.BionomialSpreadOption, dict(SPREAD_BASE, otype="american", n=3)),
    "SpreadApproxOption": (so.SpreadApproxOption, SPREAD_BASE),
}
HN_BASE = dict(S=80.0, K=80.0, t=3, r=0.05 / 252, lamb=-0.5, omega=2.3e-6, alpha=2.9e-6, beta=0.85, gamma=184.25)


def price(o, side):
    v = getattr(o, side)()
    return v["OptionPrice"] if isinstance(v, dict) else v


def sides(name):
    return ["call"] if name == "RollGeskeWhaleyOption" else ["call", "put"]


def visible(o):
    """Everything a user can see of an option: parameters (with their types), name, prices of both sides (with trigger price) and exercise flag."""
    out = [canon(o.get_params())]
    for m in ("__repr__", "call", "put", "is_call_optimal"):
        f = getattr(o, m, None)
        if f is None:
            continue
        try:
            out.append((m, canon(f())))
        except Exception as e:
            out.append((m, type(e).__name__))
    return tuple(out)
