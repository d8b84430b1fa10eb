"""C03: put-call parity holds exactly in every European engine."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref
from mc.engines import TREES, so

PROP = "C03"
TECHNIQUE = "explicit-state enumeration of parameter lattices and lattice depths; parity invariant checked in every state"

S_ = {"quick": [1e-3, 1, 60.0, 95.0, 100.0, 137.5, 1000.0, 1e5], "thorough": [1e-3, 0.01, 1, 60.0, 95.0, 99.9, 100.0, 137.5, 1000.0, 1e5]}
T = {"quick": [1e-4, 0.004, 0.5, 1, 3, 12], "thorough": [0.0004, 0.004, 0.1, 0.5, 1, 3, 20]}
R = {"quick": [-0.02, 0, 0.07, 0.2, -0.12], "thorough": [-0.1, -0.02, 0, 0.01, 0.07, 0.2, 0.5]}
B = {"quick": [-0.1, 0, 0.07, 0.15], "thorough": [-0.4, -0.1, 0, 0.02, 0.07, 0.15, 0.4]}
SG = {"quick": [0.05, 0.3, 1.2, 0.008, 3], "thorough": [0.008, 0.02, 0.05, 0.15, 0.3, 0.6, 1.2, 3]}
NS = {"quick": [1, 2, 3, 4, 5, 6, 7, 8, 13, 30], "thorough": list(range(1, 21)) + [30, 51, 64, 100, 127]}


def cases(tier):
    out = []
    for t in T[tier]:
        for sg in SG[tier]:
            out.append(dict(tier=tier, eng="GBS", t=t, sigma=sg))
            for n in NS[tier]:
                out.append(dict(tier=tier, eng="tree", t=t, sigma=sg, n=n))
    for t in T[tier][1:]:
        for rho in (-0.9, -0.3, 0, 0.5, 0.95):
            out.append(dict(tier=tier, eng="spread", t=t, rho=rho))
            out.append(dict(tier=tier, eng="approx", t=t, rho=rho))
    for k in (0.2, 1.045, 3):
        out.append(dict(tier=tier, eng="MS", kappa=k))
    out.append(dict(tier=tier, eng="HN"))
    for L in (1, 2, 3):
        out.append(dict(tier=tier, eng="MC", L=L))
    return out


UNITS = [1.0, 1e-4, 300.0]  # currency units, taken in turn


def parity(R_, name, call, put, want, scale, **d):
    R_.state()
    R_.trace()
    R_.outcome(round(want / scale, 6))
    return R_.close(float(call) - float(put), want, 2e-10 * scale, name, f"{name}: call - put", **d)


def run(case, R_):
    tier, eng = case["tier"], case["eng"]
    K = 100.0
    if eng == "GBS":
        t, sg = case["t"], case["sigma"]
        for i, (S, r, b) in enumerate(itertools.product(S_[tier], R[tier], B[tier])):
            K = 100.0 * UNITS[i % 3]
            S *= UNITS[i % 3]
            sc = ref.gbs_scale(S, K, t, r, b)
            want = S * math.exp((b - r) * t) - K * math.exp(-r * t)
            for cls in (fo.GBSOption, fo.BlackScholesOption):
                o = cls(S, K, t, r, b, sg)
                if not parity(R_, cls.__name__, o.call(), o.put(), want, sc, S=S, r=r, b=b):
                    return
            o = fo.Black76Option(S, K, t, r, sg)
            want = (S - K) * math.exp(-r * t)
            if not parity(R_, "Black76Option", o.call(), o.put(), want, (S + K) * math.exp(-r * t), FT=S, r=r):
                return
    elif eng == "tree":
        t, sg, n = case["t"], case["sigma"], case["n"]
        for kind, cls in TREES.items():
            for i, (S, r, b) in enumerate(itertools.product(S_[tier][2:6] if n > 6 else S_[tier], R[tier], B[tier])):
                if n > 8 and (r, b) not in ((R[tier][2], B[tier][1]), (R[tier][2], B[tier][2]), (0, B[tier][3]), (R[tier][3], B[tier][0])):
                    continue
                K = 100.0 * UNITS[i % 3]
                S *= UNITS[i % 3]
                st = ref.lattice(kind, t, b, sg, n)
                mean = sum(p * f for f, p in st)
                size = sum(abs(p) * f for f, p in st)  # > mean when a probability is negative
                mass = sum(abs(p) for _, p in st)
                D = math.exp(-r * t)
                if max(size, mass) ** n > 1e5 * max(1.0, mean ** n):
                    continue
                want = D * (S * mean ** n - K)
                o = cls(S, K, t, r, b, sg, "european", n)
                if not parity(R_, cls.__name__, o.call(), o.put(), want, D * (S * size ** n + K * mass ** n), S=S, r=r, b=b):
                    return
    elif eng == "spread":
        t, rho = case["t"], case["rho"]
        for n, (S1, S2), (b1, b2), (Q1, Q2), (s1, s2), opt in itertools.product(
            (1, 2, 3, 5), ((122.0, 120.0), (40.0, 75.0)), ((0.0, 0.0), (0.1, -0.03)), ((1, 1), (0.7, 2.5)),
            ((0.2, 0.25), (0.5, 0.1)), (1, 2, 3, 6, 8, 9),
        ):
            r = (0.08, -0.05)[opt % 2 == (n > 1)]
            Kk = {1: 3.0, 2: 110.0, 3: 90.0, 6: 200.0, 8: 0.9, 9: 12000.0}[opt]
            o = so.BionomialSpreadAllTypes(S1, S2, t, r, b1, b2, s1, s2, rho, K=Kk, Q1=Q1, Q2=Q2, option=opt, n=n)
            ev = 0.0
            for j in range(n + 1):
                for i in range(n + 1):
                    x1, x2 = ref.spread_node(S1, S2, t, b1, b2, s1, s2, rho, n, n, j, i)
                    x1, x2 = Q1 * x1, Q2 * x2
                    u = {1: x1 - x2, 2: max(x1, x2), 3: min(x1, x2), 6: x1 + x2, 8: x1 / x2, 9: x1 * x2}[opt]
                    ev += math.comb(n, j) * math.comb(n, i) / 4.0 ** n * u
            want = math.exp(-r * t) * (ev - Kk)
            if not parity(R_, f"spread lattice option {opt}", o.call(), o.put(), want, abs(ev) + Kk + S1 + S2, n=n, S=(S1, S2), Q=(Q1, Q2)):
                return
            sub = {1: so.BionomialSpreadOption, 2: so.BionomialMaxOption, 3: so.BionomialMinOption}.get(opt)
            if sub:
                o = sub(S1, S2, Kk, t, r, b1, b2, s1, s2, rho, Q1=Q1, Q2=Q2, n=n)
                if not parity(R_, sub.__name__, o.call(), o.put(), want, abs(ev) + Kk + S1 + S2, n=n):
                    return
    elif eng == "approx":
        t, rho = case["t"], case["rho"]
        for (S1, S2), (b1, b2), (Q1, Q2), (s1, s2), Kk, r in itertools.product(
            ((122.0, 120.0), (40.0, 75.0), (28.0, 20.0)), ((0.0, 0.0), (0.1, -0.03)), ((1, 1), (0.7, 2.5)),
            ((0.2, 0.25), (0.5, 0.1)), (0, 3.0, 25.0), (0.0, 0.08, -0.06),
        ):
            o = so.SpreadApproxOption(S1, S2, Kk, t, r, b1, b2, s1, s2, rho, Q1, Q2)
            D = math.exp(-r * t)
            f1, f2 = Q1 * S1 * math.exp(b1 * t), Q2 * S2 * math.exp(b2 * t)
            if not parity(R_, "SpreadApproxOption", o.call(), o.put(), D * (f1 - f2 - Kk), D * (f1 + f2 + Kk), S=(S1, S2), K=Kk):
                return
    elif eng == "MS":
        for kF, (t, TT), k, Pt, sig in itertools.product(
            (0.2, 1.5), ((0.25, 0.5), (1, 1), (2, 4)), (60, 95, 130.0), (0.95, 1.0), ((0.266, 0.249, 0.0096), (0.4, 0.1, 0.08))
        ):
            _, vxz = ref.ms_moments(t, TT, *sig, 0.805, 0.0805, 0.1243, case["kappa"], kF)
            o = fo.MiltersenSchwartzOption(Pt, 95, k, t, TT, *sig, 0.805, 0.0805, 0.1243, case["kappa"], kF)
            F = 95 * math.exp(-vxz)
            if not parity(R_, "MiltersenSchwartzOption", o.call(), o.put(), Pt * (F - k), 10 * Pt * (95 + k), K=k, t=t):
                return
    elif eng == "HN":
        for t, k, r, alpha in itertools.product((1, 2, 5), (60.0, 80.0, 100.0), (0.0, 0.05 / 252, 0.002, -0.0015), (0.0, 2.9e-6)):
            o = fo.heston_nandi_options.HestonNandiOption(80.0, k, t, r, -0.5, 2.3e-4, alpha, 0.6, 100.0)
            if not parity(R_, "HestonNandiOption", o.call(), o.put(), 80.0 - k * math.exp(-r * t), 80.0 + k, t=t, K=k):
                return
    elif eng == "MC":
        mc = fo.monte_carlo_options
        L = case["L"]
        paths = np.array(list(itertools.product((-1.0, 0.0, 1.5), repeat=L)))

        class Inno(mc.Innovations):
            def sample_innovation(self, init=False):
                return paths

        for payoff, S, k, r, b in itertools.product((mc.PlainVanillaPayoff, mc.ArithmeticAsianPayoff), (80.0, 100.0), (90.0, 100.0, 130.0), (0.0, 0.1, -0.2), (-0.05, 0.1)):
            o = mc.MonteCarloOption(2, L, len(paths), S, k, 0.5, r, b, 0.4, Inno, mc.WienerPath, payoff)
            x = S * np.exp(np.cumsum((b - 0.08) * 0.5 / L + 0.4 * math.sqrt(0.5 / L) * paths, axis=1))
            x = x[:, -1] if payoff is mc.PlainVanillaPayoff else x.mean(axis=1)
            want = math.exp(-r * 0.5) * (x.mean() - k)
            for c, p in zip(o.call(), o.put()):
                if not parity(R_, f"MonteCarlo {payoff.__name__}", c, p, want, S + k, S=S, K=k):
                    return
    R_.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="engines GBS/BlackScholes/Black76, 4 European trees, 2-asset lattice payoffs 1,2,3,6,8,9 and its 3 wrappers, "
            "Kirk approximation, Miltersen-Schwartz, Heston-Nandi, Monte Carlo (fixed innovations)",
            bounds=dict(S=S_[tier], K=100, t=T[tier], r=R[tier], b=B[tier], sigma=SG[tier], n=NS[tier]),
            oracle="call - put = discounted (mean of the payoff variable - strike), the mean taken from the model of the engine",
            tolerance="2e-10 relative to the sum of both legs",
        ),
        assumptions=["tree states in which negative probabilities amplify rounding by more than 1e5 are skipped"],
    )
