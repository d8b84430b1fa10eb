"""C30: lattice prices are time consistent: every node of a tree is an option of its own, and longer life is worth more."""
import itertools

import numpy as np

from mc import ref
from mc.engines import TREES, so

PROP = "C30"
TECHNIQUE = "explicit-state enumeration: every node of every lattice up to a depth is replayed as a fresh option on the real code; relational invariant on every (n, n+1) pair"

NMAX = {"quick": {"CRR": 9, "JR": 9, "TIAN": 9, "TRI": 6}, "thorough": {"CRR": 24, "JR": 24, "TIAN": 24, "TRI": 14}}
LONG = {"quick": 40, "thorough": 120}
# S/K, t, r, b, sigma, K
PAR = [(1.0, 5 / 12, 0.1, 0.1, 0.4, 50.0), (0.95, 1.0, 0.08, 0.0, 0.25, 100.0), (1.1, 2.0, 0.05, -0.06, 0.6, 1.3), (0.8, 0.5, 0.0, 0.04, 0.3, 40000.0),
       (1.3, 0.02, 0.03, 0.12, 0.15, 100.0), (1.05, 4.0, -0.02, -0.02, 0.2, 100), (0.7, 9.0, 0.25, 0.1, 1.2, 0.01)]
# S1, S2, K, K2 per payoff; t, r, b1, b2, sigma1, sigma2, rho, Q1, Q2
LEVEL = {1: (122.0, 120.0, 3.0, None), 2: (100.0, 90.0, 98.0, None), 3: (100.0, 90.0, 92.0, None), 4: (100.0, 90.0, 95.0, 105.0), 5: (80.0, 110.0, 100.0, 90.0),
         6: (100.0, 90.0, 190.0, None), 7: (100.0, 90.0, 1.0, None), 8: (100.0, 90.0, 1.1, None), 9: (10.0, 9.0, 95.0, None)}
MKT = [(0.4, 0.1, 0.02, 0.05, 0.2, 0.3, -0.5, 1, 1), (2.0, 0.08, -0.06, 0.0, 0.1, 0.5, 0.3, 1.1, 0.9), (1.0, -0.03, 0.05, 0.05, 0.35, 0.15, 0.9, 0.5, 2), (0.05, 0.0, 0.1, -0.1, 0.25, 0.25, -1, 1, 1)]


def cases(tier):
    out = []
    for kind in TREES:
        for typ in ("european", "american"):
            for p in range(len(PAR)):
                for n in range(2, NMAX[tier][kind] + 1):
                    out.append(dict(tier=tier, part="nodes", kind=kind, type=typ, p=p, n=n))
        for p in range(len(PAR)):
            out.append(dict(tier=tier, part="longer", kind=kind, p=p))
    for opt in LEVEL:
        for typ in ("european", "american"):
            for p in range(len(MKT)):
                for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6, 8):
                    out.append(dict(tier=tier, part="spread", option=opt, type=typ, p=p, n=n))
        for p in range(len(MKT)):
            out.append(dict(tier=tier, part="spread-longer", option=opt, p=p))
    return out


def run(case, R):
    {"nodes": nodes, "longer": longer, "spread": spread, "spread-longer": spread_longer}[case["part"]](case, R)


def nodes(case, R):
    kind, typ, n = case["kind"], case["type"], case["n"]
    cls = TREES[kind]
    m, t, r, b, sg, K = PAR[case["p"]]
    S = m * K
    st, at = ref.lattice_nodes(kind, S, t, b, sg, n)
    if min(p for _, p in st) < -0.5:
        R.count("skipped_no_probability")
        return
    for side in ("call", "put"):
        tree = np.asarray(getattr(cls(S, K, t, r, b, sg, typ, n), side)(tree=True), dtype=float)
        for j in range(n):
            for i, x in enumerate(at[j]):
                R.state()
                R.trace()
                rest = n - j
                got = float(tree[n - j + i, j] if kind == "TRI" else tree[i, j])
                own = float(getattr(cls(x, K, t * rest / n, r, b, sg, typ, rest), side)())
                R.outcome((kind, typ, side, round(own / K, 8)))
                if not R.close(got, own, 1e-9 * (x + K), f"{kind}.{typ}.{side}", f"{cls.__name__} {typ} {side} n={n}: node {i} of step {j} vs the option starting there", node=(j, i), S=x, K=K, t=t, r=r, b=b, sigma=sg):
                    return
    R.sample(dict(case, node=(j, i), value=got, option=own))


def longer(case, R):
    kind = case["kind"]
    cls = TREES[kind]
    m, t, r, b, sg, K = PAR[case["p"]]
    N = LONG[case["tier"]]
    for steps in (3, 12, N):
        dt = t / steps
        st = ref.lattice(kind, dt, b, sg, 1)
        if min(p for _, p in st) < 0:
            R.count("skipped_no_probability")
            continue
        for side, z in (("call", 1), ("put", -1)):
            last = max(z * (m * K - K), 0.0)
            for n in [k for k in range(1, N + 1) if k <= 12 or k % 9 == 0 or k == N]:
                v = float(getattr(cls(m * K, K, dt * n, r, b, sg, "american", n), side)())
                R.state()
                R.trans()
                R.trace()
                R.outcome((kind, side, n, round(v / K, 8)))
                if v < last - 1e-10 * (m + 1) * K:
                    R.fail(f"{kind}.longer.{side}", f"{cls.__name__} american {side} of {n} steps of {dt} is worth {v}, a shorter one {last}", S=m * K, K=K, r=r, b=b, sigma=sg)
                    return
                last = v
    R.sample(dict(case, value=last))


def two(opt, S1, S2, mk, n, steps, typ):
    K, K2 = LEVEL[opt][2:]
    t, r, b1, b2, g1, g2, rho, Q1, Q2 = mk
    return so.BionomialSpreadAllTypes(S1, S2, t * steps / n, r, b1, b2, g1, g2, rho, K=K, K2=K2, Q1=Q1, Q2=Q2, option=opt, otype=typ, n=steps)


def spread(case, R):
    opt, typ, n, mk = case["option"], case["type"], case["n"], MKT[case["p"]]
    S1, S2 = LEVEL[opt][:2]
    t, r, b1, b2, g1, g2, rho, Q1, Q2 = mk
    for side in ("call", "put"):
        tree = np.asarray(getattr(two(opt, S1, S2, mk, n, n, typ), side)(tree=True), dtype=float)
        size = float(np.max(np.abs(tree))) + abs(LEVEL[opt][2])
        for j, i in itertools.product(range(n), repeat=2):
            m = max(j, i)  # the matrix shows this node as it stands after max(j, i) steps
            x1, x2 = ref.spread_node(S1, S2, t, b1, b2, g1, g2, rho, n, m, j, i)
            own = float(getattr(two(opt, x1, x2, mk, n, n - m, typ), side)())
            R.state()
            R.trace()
            R.outcome((opt, typ, side, round(own, 8)))
            if not R.close(tree[j, i], own, 1e-9 * (size + own), f"option{opt}.{typ}.{side}", f"option {opt} {typ} {side} n={n}: node ({j}, {i}) vs the option starting there", S=(x1, x2), market=mk):
                return
    R.sample(dict(case, node=(j, i), value=float(tree[j, i]), option=own))


def spread_longer(case, R):
    opt, mk = case["option"], MKT[case["p"]]
    S1, S2 = LEVEL[opt][:2]
    for side in ("call", "put"):
        last = 0.0
        for n in range(1, 9 if case["tier"] == "quick" else 15):
            v = float(getattr(two(opt, S1, S2, mk, 6, n, "american"), side)())
            R.state()
            R.trans()
            R.trace()
            R.outcome((opt, side, n, round(v, 8)))
            if v < last - 1e-10 * (S1 + S2 + last):
                R.fail(f"option{opt}.longer.{side}", f"american two-asset {side} of {n} steps is worth {v}, of {n - 1} steps {last}", market=mk)
                return
            last = v
    R.sample(dict(case, value=last))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="4 lattices x style x call/put x depth x parameter set, every node before expiry; nine two-asset payoffs x style x side x depth x market, every node shown; American value against number of steps at a fixed step length",
            bounds=dict(depths=NMAX[tier], longest=LONG[tier], parameters=PAR, markets=MKT, two_asset_levels=LEVEL),
            oracle="the value at a node = call()/put() of a fresh option with the node's prices and the remaining steps; American values never fall with the number of steps",
        ),
        assumptions=["node prices come from the published moves", "states with strongly negative branch probabilities are skipped"],
    )
