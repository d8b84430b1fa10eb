"""C11: European lattice prices are the discounted expectation over every path of the published lattice."""
import itertools
import math

import numpy as np

from mc import ref
from mc.engines import TREES

PROP = "C11"
TECHNIQUE = "exhaustive enumeration of all lattice paths (and nodes, for deep lattices) as the model; implementation replayed on each lattice"

M = [0.2, 0.6, 0.9, 1.0, 1.0004, 1.1, 1.7, 4.0]
UNITS = [1.0, 1e-4, 300.0]  # currency units, taken in turn
T = {"quick": [1 / 2520, 1 / 252, 0.25, 1, 2.5, 8], "thorough": [1 / 2520, 1 / 252, 0.05, 0.25, 0.5, 1, 2.5, 10]}
SG = {"quick": [0.1, 0.3, 0.9, 0.02], "thorough": [0.03, 0.1, 0.2, 0.3, 0.5, 0.9, 2.0]}
RB = {"quick": [(0.0, 0.0), (0.06, 0.06), (0.08, 0.02), (0.05, -0.05), (0.03, 0.12), (-0.02, 0.01), (-0.12, 0.03), (0.4, 0.4), (0.05, 0.0496)],
      "thorough": [(r, b) for r in (-0.12, -0.02, 0.0, 0.03, 0.08, 0.3) for b in (-0.2, -0.05, 0.0, 0.02, 0.08, 0.12, 0.3)]}
PATHS = {"quick": {"CRR": 8, "JR": 8, "TIAN": 8, "TRI": 5}, "thorough": {"CRR": 14, "JR": 14, "TIAN": 14, "TRI": 9}}
# drifts so strong that the lattice runs to one of its edges
STEEP = [(0.05, -0.8), (0.1, 0.9), (0.0, -2.0), (0.3, 2.5)]
DEEP = {"quick": [9, 10, 12, 15, 16, 20, 25, 31, 32, 33, 50, 64, 100, 101, 128], "thorough": list(range(9, 131)) + [150, 200, 255, 256, 257, 300]}


def cases(tier):
    out = []
    for kind in TREES:
        for n in list(range(1, PATHS[tier][kind] + 1)) + DEEP[tier]:
            for t in T[tier] if n <= 16 or tier == "thorough" and n <= 64 else [1] if kind == "TRI" and n > 32 else [0.25, 2.5]:
                if n > 128 and t != 1 and t != 0.25:
                    continue
                out.append(dict(tier=tier, kind=kind, n=n, t=t))
    out.sort(key=lambda c: c["n"])
    return out


def run(case, R):
    tier, kind, n, t = case["tier"], case["kind"], case["n"], case["t"]
    cls = TREES[kind]
    deep = n > PATHS[tier][kind]
    sgs = SG[tier] if n <= 32 else SG[tier][:2]
    flat = itertools.product(sgs, RB[tier] if n <= 32 else RB[tier][:3], M if not deep else [0.9, 1.0, 1.1] if n <= 32 else [0.95])
    steep = itertools.product([0.2, 0.9] if n <= 32 else [0.2], STEEP, [1.0] if n <= 32 else [1.7 if t == 1 else 0.8])
    for i, (sg, (r, b), m) in enumerate(itertools.chain(flat, steep)):
        st = ref.lattice(kind, t, b, sg, n)
        mass = sum(abs(p) for _, p in st)
        if mass ** n > 1e3:
            R.count("skipped_probabilities_blow_up")
            continue
        K = 100.0 * UNITS[i % 3]
        S = K * m
        R.state(sum(range(1, n + 2)) if kind != "TRI" else (n + 1) ** 2)
        size = mass ** n * math.exp(-r * t) * (S * math.exp(max(b, 0) * t) + K)
        if (r, b) in STEEP:
            R.count("steep_lattices")
            K = S * math.exp(b * t)  # at the money forward, where the payoff of every branch matters
        objs = [cls(S, K, t, r, b, sg, "european", n), cls(S=S, K=K, t=t, r=r, b=b, sigma=sg, n=n)]
        if S == K == 100 and not deep:
            objs.append(cls(100, 100, t, r, b, sg, "european", np.int64(n)))
        for side, z in (("call", 1), ("put", -1)):
            if deep:
                want = ref.lattice_np(kind, S, K, t, r, b, sg, n, z, False)
            else:
                want, cnt = ref.lattice_paths(kind, S, K, t, r, b, sg, n, z)
                R.count("lattice_paths", cnt)
                dp = ref.lattice_values(kind, S, K, t, r, b, sg, n, z, False)[0][0]
                if abs(dp - want) > 1e-9 * size:
                    raise AssertionError(f"reference models disagree: {dp} {want}")
            for o in objs:
                got = getattr(o, side)()
                R.trace()
                if not R.close(got, want, 1e-10 * size, f"{kind}.{side}", f"{cls.__name__} european {side} n={n}", S=S, K=K, t=t, r=r, b=b, sigma=sg):
                    return
            R.outcome((kind, side, round(want, 6)))
    R.sample(dict(case, last=dict(S=S, r=r, b=b, sigma=sg, price=float(got), model=want)))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="model x depth x t x sigma x (r, b) x S/K (plus steep drifts struck at the forward), call and put, explicit and default style, integer inputs",
            bounds=dict(path_enumeration_depth=PATHS[tier], node_recursion_depth=DEEP[tier], t=T[tier], sigma=SG[tier], rb=RB[tier], S_over_K=M, K=[100 * u for u in UNITS]),
            oracle="every path's probability times payoff, no recombination (checked against node recursion); deep lattices: node recursion",
            tolerance="1e-10 of discounted S + K, times the total absolute path probability",
        ),
        assumptions=["lattices whose branch probabilities are so negative that absolute path probabilities exceed 1000 are skipped and counted"],
    )
