"""C17: Barone-Adesi/Whaley and Bjerksund/Stensland behave as published."""
import itertools
import math

import numpy as np

from mc import ref
from mc.engines import am

PROP = "C17"
TECHNIQUE = "explicit-state enumeration of a parameter lattice with a termination monitor; published formulas and the American lattice as models"
CPU_LIMIT = 40.0

M = {"quick": [0.5, 0.8, 0.9, 0.97, 1.0, 1.0004, 1.05, 1.3, 2, 5], "thorough": [0.2, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.02, 1.05, 1.1, 1.3, 1.6, 2, 5]}
T = {"quick": [1 / 252, 0.1, 0.5, 1, 3, 10, 30], "thorough": [1 / 252, 0.02, 0.1, 0.25, 0.5, 1, 2, 3, 5, 10, 30]}
R_ = {"quick": [0, 0.005, 0.02, 0.06, 0.12, 0.25], "thorough": [0, 0.0001, 0.005, 0.02, 0.04, 0.06, 0.08, 0.12, 0.25, 0.5]}
B = {"quick": [-0.3, -0.12, -0.04, 0, 0.005, 0.02, 0.059, 0.1, 0.2], "thorough": [-0.3, -0.2, -0.12, -0.04, -0.01, 0, 0.005, 0.02, 0.04, 0.059, 0.07, 0.1, 0.119, 0.2, 0.249]}
SG = {"quick": [0.05, 0.1, 0.2, 0.35, 0.7, 1.5], "thorough": [0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.28, 0.35, 0.5, 0.7, 1.0, 1.5, 2.5]}
UNITS = [7, 1e-3, 7, 30000.0]  # strike of the second option of each state, in turn
BAND = 0.05  # of K: distance from the American lattice, t <= 1, sigma <= 0.7


def cases(tier):
    out = [dict(tier=tier, model=m, t=t, r=r, b=b) for t in T[tier] for r in R_[tier] for b in B[tier] + ([r - 4e-4, r + 4e-4] if r > 1e-3 else [4e-4]) for m in ("BAW", "BS")]
    out.append(dict(tier=tier, model="overflow"))
    return out


def run(case, R):
    if case["model"] == "overflow":
        return overflow(case, R)
    tier, t, r, b = case["tier"], case["t"], case["r"], case["b"]
    {"BAW": baw, "BS": bs}[case["model"]](case, R, tier, t, r, b)


def number(x):
    """a plain finite real number"""
    return np.ndim(x) == 0 and not isinstance(x, complex) and math.isfinite(float(x))


def baw(case, R, tier, t, r, b):
    for i, (sg, m, first) in enumerate(itertools.product(SG[tier], M[tier], (True, False))):
        K = 100.0 if first else UNITS[i // 2 % 4]
        S = K * m
        if S == int(S) and K == 7:
            S = int(S)
        o = am.BAWAmericanApproxOption(S, K, t, r, b, sg)
        d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg)
        R.state()
        for side, z in (("call", 1), ("put", -1)):
            got = getattr(o, side)()
            R.trace()
            key = f"baw.{side}"
            if not number(got):
                R.fail(key + ".finite", f"BAW {side} = {got!r}", **d)
                return
            eu = ref.gbs(S, K, t, r, b, sg, z)
            sc = ref.gbs_scale(S, K, t, r, b) + S + K
            try:
                want, crit = ref.baw(S, K, t, r, b, sg, z)
            except ArithmeticError:  # volatile for decades: the published equation has no solution
                R.count("no_critical_price")
                if got < eu - 4e-6 * K - 2e-7 * sc:
                    R.fail(key + ".european", f"BAW {side} {got} below the European price {eu}", **d)
                    return
                continue
            # the implementation stops its search for the critical price within 1e-6 of K
            if not R.close(got, want, 4e-6 * K + 2e-7 * sc, key, f"BAW {side} vs the published formula with the exact critical price", crit=crit, **d):
                return
            if got < eu - 4e-6 * K - 2e-7 * sc:
                R.fail(key + ".european", f"BAW {side} {got} below the European price {eu}", **d)
                return
            if got < z * (S - K) - 4e-6 * K - 2e-7 * sc:
                R.fail(key + ".intrinsic", f"BAW {side} {got} below exercise value {z * (S - K)}", **d)
                return
            if crit is None:
                R.close(got, eu, 2e-7 * sc, key + ".noexercise", f"BAW {side} where early exercise is never worthwhile", **d)
            lattice(R, key, side, z, got, d, tier)
            R.outcome((key, round(want / K, 6), crit is None))
    R.sample(dict(case, last=dict(d, put=float(got), model=want, critical=crit)))


def bs(case, R, tier, t, r, b):
    for i, (sg, m, first) in enumerate(itertools.product(SG[tier], M[tier], (True, False))):
        K = 100.0 if first else UNITS[i // 2 % 4]
        S = K * m
        if S == int(S) and K == 7:
            S = int(S)
        o = am.BSAmericanApproxOption(S, K, t, r, b, sg)
        d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg)
        R.state()
        for side, z in (("call", 1), ("put", -1)):
            key = f"bs93.{side}"
            arg = (S, K, t, r, b, sg) if z == 1 else (K, S, t, r - b, -b, sg)
            sc = S + K
            try:
                want, trig, size, big = ref.bs93(*arg)
            except OverflowError:
                R.count("skipped_terms_beyond_double_range")
                continue
            if big > 650:  # e^650: the code forms S**Beta and I**-Beta separately
                R.count("skipped_terms_beyond_double_range")
                continue
            if not size < 2000 * sc:
                R.count("skipped_ill_conditioned")
                continue
            got = getattr(o, side)()
            R.trace()
            if not (isinstance(got, dict) and set(got) == {"OptionPrice", "TriggerPrice"}):
                R.fail(key + ".keys", f"BS93 {side} returned {got!r}", **d)
                return
            price, trigger = got["OptionPrice"], got["TriggerPrice"]
            if not number(price):
                R.fail(key + ".finite", f"BS93 {side} = {price!r}", **d)
                return
            if not R.close(price, want, 2e-7 * (size + sc), key, f"BS93 {side} vs the published formula", trigger=trig, **d):
                return
            if trig is None:
                if not math.isnan(float(trigger)):
                    R.fail(key + ".trigger", f"BS93 {side}: trigger {trigger} where exercise is never optimal", **d)
                    return
                eu = ref.gbs(S, K, t, r, b, sg, z)
                R.close(price, eu, 2e-7 * sc * math.exp(max(b - r, 0, -r) * t), key + ".noexercise", f"BS93 {side} where exercise is never optimal", **d)
            else:
                # the put's trigger is that of the transformed call, an asset-for-strike level of its own
                if not R.close(trigger, trig, 1e-9 * trig, key + ".trigger", f"BS93 {side} trigger price", **d):
                    return
                at = (S >= trig) if z == 1 else (K >= trig)
                if at and abs(float(price) - z * (S - K)) > 1e-12 * sc:
                    R.fail(key + ".intrinsic", f"BS93 {side}: past the trigger {trig} but worth {price}", **d)
                    return
            if z == -1:
                c = am.BSAmericanApproxOption(K, S, t, r - b, -b, sg).call()
                R.trace()
                if not R.close(price, c["OptionPrice"], 1e-9 * (size + sc), key + ".transform", "BS93 put vs call of the transformed option", **d):
                    return
            # the formula itself: with r = 0 < b its published exercise test b >= r fires on the transformed put
            if z == -1 and r == 0 and b > 0:
                if float(price) < K - S - 1e-6 * K:
                    R.fail(key + ".r0", f"BS93 put {price} below exercise value {K - S} for r = 0 < b", **d)
                continue
            lattice(R, key, side, z, float(price), d, tier, size)
            R.outcome((key, round(want / K, 6), trig is None))
    R.sample(dict(case, last=d))


def lattice(R, key, side, z, got, d, tier, size=0.0):
    """The approximation lies in a band around the price on a lattice of the true problem."""
    n = 60 if tier == "quick" else 150
    S, K, t, r, b, sg = (d[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    if K != 100.0 or t > 1 or sg > 0.7 or abs(b) * math.sqrt(t / n) > 0.8 * sg:
        return
    R.trans()
    w = ref.lattice_np("CRR", S, K, t, r, b, sg, n, z, True)
    R.maximum("distance_from_lattice_in_K_" + key, abs(got - w) / K)
    if not abs(got - w) <= BAND * K + 2e-7 * size:
        R.fail(key + ".lattice", f"{key} {got} more than {BAND} K from the American lattice {w}", **d)


def overflow(case, R):
    """Pinned inputs whose intermediate powers leave the double range (recorded findings)."""
    for i, (side, arg) in enumerate([("put", (120.0, 100.0, 0.5, 0.01, 0.2, 0.05)), ("call", (50.0, 100.0, 0.02, 0.0, -0.3, 0.05))]):
        R.state()
        R.trace()
        try:
            got = getattr(am.BSAmericanApproxOption(*arg), side)()["OptionPrice"]
        except ArithmeticError as e:
            got = complex("nan")
        if not number(got):
            R.fail(f"bs93.overflow.{side}", f"BS93 {side}{arg} = {got!r}", args=arg)
        R.outcome((side, repr(got)))
    R.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="model x t x r x b x sigma x S/K x K (float and int), call and put",
            bounds=dict(t=T[tier], r=R_[tier], b=B[tier] + ["r - 4e-4", "r + 4e-4"], units=UNITS, sigma=SG[tier], S_over_K=M[tier], lattice_band_of_K=BAND),
            oracle="published formulas with exact normal distribution; BAW critical price by bracketing root search; American CRR lattice; European price; CPU watchdog for termination",
        ),
        assumptions=["interest rates r >= 0 (the quadratic approximation has no solution for negative ones)",
                     "BS93 points whose own terms exceed 2000 (S+K) or the double range are skipped and counted"],
    )
