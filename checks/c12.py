"""C12: American lattice prices are the optimal-stopping value on the lattice."""
import itertools
import math

from mc import ref
from mc.engines import TREES

PROP = "C12"
TECHNIQUE = "exhaustive enumeration of every exercise policy / every node as the model; implementation replayed on each lattice"

M = [0.2, 0.5, 0.85, 0.95, 1.0, 1.0004, 1.05, 1.2, 1.8, 4.0]
UNITS = [1.0, 1e-4, 300.0]  # currency units, taken in turn
T = {"quick": [0.0005, 0.02, 0.5, 1, 3, 9], "thorough": [1 / 252, 0.02, 0.1, 0.5, 1, 3, 10]}
SG = {"quick": [0.1, 0.3, 0.9, 0.03], "thorough": [0.05, 0.1, 0.2, 0.3, 0.5, 0.9, 1.8]}
RB = {"quick": [(0.0, 0.0), (0.06, 0.06), (0.1, 0.02), (0.08, 0.0), (0.05, -0.08), (0.03, 0.12), (0.0, -0.05), (0.25, 0.25), (-0.02, 0.01), (-0.05, -0.05), (-0.04, 0.0), (-0.03, -0.08), (-0.01, 0.05), (0.02, 0.0), (-0.1, 0.1), (0.05, 0.0496), (4e-4, 0.0), (0.0, 4e-4)],
      "thorough": [(r, b) for r in (-0.06, -0.02, 0.0, 0.03, 0.1, 0.25) for b in (-0.2, -0.05, 0.0, 0.02, 0.06, 0.12, 0.25)]}
POL = {"quick": {"CRR": 4, "JR": 4, "TIAN": 4, "TRI": 2}, "thorough": {"CRR": 4, "JR": 4, "TIAN": 4, "TRI": 3}}
DEPTHS = {"quick": [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 20, 25, 33, 50, 64, 100], "thorough": list(range(1, 80)) + [100, 101, 128, 150, 200]}


def cases(tier):
    out = []
    for kind in TREES:
        for n in DEPTHS[tier]:
            for t in T[tier] if n <= 16 or (tier == "thorough" and n <= 50) else [0.5, 3] if n <= 33 else [1]:
                out.append(dict(tier=tier, kind=kind, n=n, t=t))
    out.sort(key=lambda c: c["n"])
    return out


def run(case, R):
    tier, kind, n, t = case["tier"], case["kind"], case["n"], case["t"]
    cls = TREES[kind]
    sgs, rbs, ms = SG[tier], RB[tier], M
    if n > 12:
        ms = [0.9, 1.0, 1.15]
    if n > 20:
        rbs, ms = rbs[1:6], [0.9, 1.1]
    if n > 40:
        sgs, rbs, ms = sgs[:2], rbs[:3], [0.95, 1.08]
    for i, (sg, (r, b), m) in enumerate(itertools.product(sgs, rbs, ms)):
        K = 100.0 * UNITS[i % 3]
        st = ref.lattice(kind, t, b, sg, n)
        mass = sum(abs(p) for _, p in st)
        if mass ** n > 1e3:
            R.count("skipped_probabilities_blow_up")
            continue
        S = K * m
        good = min(p for _, p in st) >= 0
        R.state(sum(range(1, n + 2)) if kind != "TRI" else (n + 1) ** 2)
        size = mass ** n * max(1, math.exp(-r * t)) * (S * math.exp(max(b, 0) * t) + K)
        o = cls(S, K, t, r, b, sg, "american", n)
        e = cls(S, K, t, r, b, sg, "european", n)
        for side, z in (("call", 1), ("put", -1)):
            want = ref.lattice_np(kind, S, K, t, r, b, sg, n, z, True)
            if n <= POL[tier][kind] and good and (m in (0.95, 1.2, 1.0) or n < 4):
                best, cnt = ref.lattice_policies(kind, S, K, t, r, b, sg, n, z)
                R.count("exercise_policies", cnt)
                if abs(best - want) > 1e-9 * size:
                    raise AssertionError(f"reference models disagree: {best} {want}")
            got = float(getattr(o, side)())
            R.trace()
            d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg)
            if not R.close(got, want, 1e-10 * size, f"{kind}.{side}", f"{cls.__name__} american {side} n={n}", **d):
                return
            eu = float(getattr(e, side)())
            if got < z * (S - K) - 1e-12 * size:
                R.fail(f"{kind}.intrinsic", f"{cls.__name__} american {side} {got} below exercise value {z * (S - K)}", **d)
                return
            if good and got < eu - 1e-11 * size:
                R.fail(f"{kind}.european", f"{cls.__name__} american {side} {got} below european {eu}", **d)
                return
            R.outcome((kind, side, round(want, 5), got > eu + 1e-9 * size))
    R.sample(dict(case, last=dict(S=S, r=r, b=b, sigma=sg, price=got, european=eu, model=want)))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="model x depth x t x sigma x (r, b) x S/K, call and put",
            bounds=dict(policy_enumeration_depth=POL[tier], depths=DEPTHS[tier], t=T[tier], sigma=SG[tier], rb=RB[tier], S_over_K=M, K=[100 * u for u in UNITS]),
            oracle="optimal stopping by node recursion, itself checked against the maximum over every exercise policy on small lattices "
            "(exercise_policies counts them); never below exercise value or the European lattice price",
        ),
        assumptions=["policy enumeration and European comparison only where all branch probabilities are non-negative"],
    )
