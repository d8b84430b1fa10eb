"""C16: spread identities: Kirk's formula, exchange options, max + min, quantities."""
import itertools
import math

import finoptions as fo
from mc import ref
from mc.engines import TREES, so

PROP = "C16"
TECHNIQUE = "explicit-state enumeration of a two-asset parameter lattice; closed-form model and algebraic identities checked in every state"

RHO = {"quick": [-1, -0.9, -0.5, 0, 0.3, 0.8, 0.99, 1], "thorough": [-1, -0.99, -0.9, -0.7, -0.5, -0.2, 0, 0.1, 0.3, 0.5, 0.8, 0.9, 0.99, 1]}
T = {"quick": [0.0008, 0.01, 0.4, 1, 4, 12], "thorough": [1 / 252, 0.01, 0.1, 0.4, 1, 2, 4, 10]}
R_ = {"quick": [-0.08, -0.02, 0, 0.1], "thorough": [-0.05, -0.02, 0, 0.03, 0.1, 0.3]}
B12 = {"quick": [(0, 0), (0.02, 0.05), (0.1, -0.1), (-0.08, 0.0), (0.1, 0.1)], "thorough": [(a, c) for a in (-0.2, -0.08, 0, 0.02, 0.1) for c in (-0.1, 0, 0.05, 0.1, 0.3)]}
SG = {"quick": [(0.2, 0.2), (0.2, 0.3), (0.6, 0.1), (0.05, 0.9), (0.4, 0.15)], "thorough": [(a, c) for a in (0.05, 0.2, 0.4, 0.6, 1.2) for c in (0.02, 0.1, 0.2, 0.3, 0.9)]}
LV = {"quick": [(122.0, 120.0), (28, 20), (60.0, 100.0), (100.0, 100.0), (3e-3, 2.8e-3), (3.2e4, 3e4)], "thorough": [(122.0, 120.0), (28, 20), (60.0, 100.0), (100.0, 100.0), (1, 1.1), (5000.0, 4000.0), (3e-3, 2.8e-3), (3.2e4, 3e4)]}
K_ = {"quick": [0, 3, 7.0, 40, -4], "thorough": [0, 0.01, 1, 3, 7.0, 15, 40, 100, -1, -4, -10.0]}
Q_ = {"quick": [(1, 1), (1.1, 0.9), (0.5, 2)], "thorough": [(1, 1), (1.1, 0.9), (0.5, 2), (3, 2.5), (0.01, 0.02)]}
NS = {"quick": [1, 2, 3, 5, 8], "thorough": [1, 2, 3, 4, 5, 6, 8, 11, 16]}


def cases(tier):
    out = []
    for rho in RHO[tier]:
        for t in T[tier]:
            out.append(dict(tier=tier, part="kirk", rho=rho, t=t))
        for n in NS[tier]:
            out.append(dict(tier=tier, part="lattice", rho=rho, n=n))
    return out


def run(case, R):
    {"kirk": kirk, "lattice": lattice}[case["part"]](case, R)


def kirk(case, R):
    tier, rho, t = case["tier"], case["rho"], case["t"]
    for (S1, S2), r, (b1, b2), (g1, g2), K, (Q1, Q2) in itertools.product(LV[tier], R_[tier], B12[tier], SG[tier], K_[tier], Q_[tier]):
        if not 1 < S2 < 1000:
            K *= S2 / 100
        F2 = Q2 * S2 * math.exp(b2 * t)
        if F2 + K <= 0.05 * F2:
            R.count("skipped_strike_beyond_asset2")
            continue
        w = F2 / (F2 + K)
        v2 = (g1 ** 2 + (g2 * w) ** 2 - 2 * rho * g1 * g2 * w) * t
        if v2 < 1e-8:  # perfectly hedged: Kirk's volatility is zero and the formula is 0/0
            R.count("skipped_zero_volatility")
            continue
        o = so.SpreadApproxOption(S1, S2, K, t, r, b1, b2, g1, g2, rho, Q1, Q2)
        k = so.SpreadApproxOption(S1=S1 * Q1, S2=S2 * Q2, K=K, t=t, r=r, b1=b1, b2=b2, sigma1=g1, sigma2=g2, rho=rho)
        size = math.exp(-r * t) * (Q1 * S1 * math.exp(b1 * t) + abs(F2) + abs(K))
        R.state()
        d = dict(S1=S1, S2=S2, K=K, r=r, b=(b1, b2), sigma=(g1, g2), Q=(Q1, Q2))
        for side, z in (("call", 1), ("put", -1)):
            R.trace()
            want = ref.kirk(S1, S2, K, t, r, b1, b2, g1, g2, rho, Q1, Q2, z)
            got = float(getattr(o, side)())
            if not R.close(got, want, 2e-7 * size, f"kirk.{side}", f"SpreadApproxOption {side}", **d):
                return
            if not R.close(float(getattr(k, side)()), got, 1e-11 * size, f"kirk.Q.{side}", f"SpreadApproxOption {side}: quantities in S instead of Q", **d):
                return
            R.outcome((side, round(got / size, 6)))
        if K == 0:  # Margrabe: the same whatever the interest rate, given the discounted forwards
            A, Bv = Q1 * S1 * math.exp((b1 - r) * t), Q2 * S2 * math.exp((b2 - r) * t)
            for side, z in (("call", 1), ("put", -1)):
                R.trace()
                want = ref.lognormal_value(A, Bv, math.sqrt(v2), 1.0, z)
                if not R.close(float(getattr(o, side)()), want, 2e-7 * size, f"margrabe.{side}", f"K=0 {side} vs exchange option", **d):
                    return
            if rho != 0 and S1 > S2:
                x = so.SpreadApproxOption(S2, S1, 0, t, r, b2, b1, g2, g1, rho, Q2, Q1)
                R.close(float(x.put()), float(o.call()), 4e-7 * size, "exchange.swap", "exchanging 1 for 2 is the put on 2 for 1", **d)
    R.sample(dict(case, call=float(o.call()), put=float(o.put())))


def lattice(case, R):
    tier, rho, n = case["tier"], case["rho"], case["n"]
    mk = [(0.4, 0.1, 0.02, 0.05, 0.2, 0.3), (1, 0.05, -0.05, 0.05, 0.35, 0.15), (3, 0.0, 0.0, 0.1, 0.5, 0.4)]
    mk = mk if tier == "thorough" or n <= 5 else mk[:2]

    def p(opt, S1, S2, K, K2, Q1, Q2, otype, side, m, rh=rho):
        t, r, b1, b2, g1, g2 = m
        o = so.BionomialSpreadAllTypes(S1, S2, t, r, b1, b2, g1, g2, rh, K=K, K2=K2, Q1=Q1, Q2=Q2, option=opt, otype=otype, n=n)
        R.trace()
        return float(getattr(o, side)())

    def same(key, a, c, size, tol=1e-10, **d):
        R.outcome((key, round(a / size, 8)))
        return R.close(a, c, tol * size, key, key.replace("_", " "), **d)

    for m, (S1, S2), (Q1, Q2) in itertools.product(mk, LV[tier][:3], Q_[tier]):
        t, r, b1, b2, g1, g2 = m
        size = (Q1 * S1 + Q2 * S2) * math.exp(max(b1, b2, 0) * t) * 3 + 50
        K = (Q1 * S1 + Q2 * S2) / 2
        d = dict(market=m, S=(S1, S2), Q=(Q1, Q2))
        R.state()
        for side in ("call", "put"):
            # one-asset claims inside the two-asset lattice
            one = p(6, S1, S2, K, None, Q1, 0, "european", side, m)
            two = p(6, S1, S2, K, None, 0, Q2, "european", side, m)
            mx = p(2, S1, S2, K, None, Q1, Q2, "european", side, m)
            mn = p(3, S1, S2, K, None, Q1, Q2, "european", side, m)
            if not same(f"max_plus_min.{side}", mx + mn, one + two, size, **d):
                return
            for otype in ("european", "american"):
                jr = TREES["JR"](Q1 * S1, K, t, r, b1, g1, otype, n)
                R.trace()
                if not same(f"asset1_is_JR.{otype}.{side}", p(6, S1, S2, K, None, Q1, 0, otype, side, m), float(getattr(jr, side)()), size, **d):
                    return
                if rho == 0:
                    jr2 = TREES["JR"](Q2 * S2, K, t, r, b2, g2, otype, n)
                    if not same(f"asset2_is_JR.{otype}.{side}", p(6, S1, S2, K, None, 0, Q2, otype, side, m), float(getattr(jr2, side)()), size, **d):
                        return
                    # with independent innovations the lattice is symmetric in the assets
                    sw = (t, r, b2, b1, g2, g1)
                    for opt in (2, 3, 6):
                        if not same(f"swap.option{opt}.{otype}.{side}", p(opt, S1, S2, K, None, Q1, Q2, otype, side, m), p(opt, S2, S1, K, None, Q2, Q1, otype, side, sw), size, **d):
                            return
                    oth = "put" if side == "call" else "call"
                    if not same(f"swap.spread.{otype}.{side}", p(1, S1, S2, 3.0, None, Q1, Q2, otype, side, m), p(1, S2, S1, -3.0, None, Q2, Q1, otype, oth, sw), size, **d):
                        return
                    if not same(f"swap.dual.{otype}.{side}", p(4, S1, S2, K, K * 0.8, Q1, Q2, otype, side, m), p(4, S2, S1, K * 0.8, K, Q2, Q1, otype, side, sw), size, **d):
                        return
                # exchange: call is the put on the spread with strike 0 and conversely
                oth = "put" if side == "call" else "call"
                if not same(f"exchange.{otype}.{side}", p(7, S1, S2, K, None, Q1, Q2, otype, side, m), p(1, S1, S2, 0, None, Q1, Q2, otype, oth, m), size, **d):
                    return
                # quantities act only through Q*S
                for opt in (1, 2, 3, 4, 5, 6, 7, 8, 9):
                    kk = {8: Q1 * S1 / (Q2 * S2), 9: Q1 * S1 * Q2 * S2, 1: 3.0}.get(opt, K)
                    sz = {8: 10 * kk + 10, 9: 10 * kk + 10}.get(opt, size)
                    if not same(f"quantity.option{opt}.{otype}.{side}", p(opt, S1, S2, kk, K * 0.9, Q1, Q2, otype, side, m), p(opt, Q1 * S1, Q2 * S2, kk, K * 0.9, 1, 1, otype, side, m), sz, **d):
                        return
                # a second strike out of reach leaves the first option
                k2 = {(4, "call"): 1e9, (4, "put"): 0.0, (5, "call"): 0.0, (5, "put"): 1e9}
                for opt in (4, 5):
                    if not same(f"dual_to_single.option{opt}.{otype}.{side}", p(opt, S1, S2, K, k2[opt, side], Q1, Q2, otype, side, m), p(6, S1, S2, K, None, Q1, 0, otype, side, m), size, **d):
                        return
            # dual strike + the smaller of the two payoffs = both options (calls on a common strike)
            du = p(4, S1, S2, K, K, Q1, Q2, "european", side, m)
            ext = mx if side == "call" else mn
            if not same(f"dual_common_strike.{side}", du, ext, size, **d):
                return
        # max(a, b) = b + (a - b)+ : a max call with strike 0 is asset 2 plus the exchange option
        mx0 = p(2, S1, S2, 0, None, Q1, Q2, "european", "call", m)
        x0 = p(1, S1, S2, 0, None, Q1, Q2, "european", "call", m)
        a2 = p(6, S1, S2, 0, None, 0, Q2, "european", "call", m)
        if not same("max_is_asset_plus_exchange", mx0, a2 + x0, size, **d):
            return
    R.sample(dict(case, max=mx, min=mn, one=one, two=two))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="Kirk: S x r x (b1,b2) x (sigma1,sigma2) x K x Q x rho x t; lattice identities: payoff type x style x call/put x depth x market x quantities x rho",
            bounds=dict(rho=RHO[tier], t=T[tier], r=R_[tier], b=B12[tier], sigma=SG[tier], K=K_[tier], Q=Q_[tier], depths=NS[tier]),
            oracle="Kirk's published formula, Margrabe's exchange formula, and exact identities between payoffs of the same lattice (the first asset alone is the JR lattice)",
        ),
        assumptions=["Kirk's volatility bounded away from zero; strike above -95% of the second forward"],
    )
