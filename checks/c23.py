"""C23: Wiener paths and payoffs price every innovation path exactly."""
import itertools
import math

import numpy as np

import finoptions as fo

mc = fo.monte_carlo_options
PROP = "C23"
TECHNIQUE = "exhaustive enumeration of all innovation paths over an alphabet and of all batch shapes; implementation vs reference walk"

ALPH3 = [-1.5, 0.0, 1.0]
ALPH2 = [-1.0, 2.0]
# S, K, t, r, b, sigma
MKT = [
    (100.0, 95.0, 0.75, 0.06, 0.03, 0.3),
    (100, 100, 2, 0, -0.05, 0.6),
    (50.0, 80.0, 0.1, 0.1, 0.0, 1.5),
    (3.0, 2.5, 5.0, -0.02, 0.1, 0.05),
    (1000.0, 1300.0, 1.0, 0.2, 0.2, 0.9),
]
LEN3 = {"quick": 6, "thorough": 9}
LEN2 = {"quick": 9, "thorough": 15}
# long paths: constant but for one block of shocks, every block of BLOCKS equal blocks (and none, and all)
LONG = {"quick": [16, 31, 64, 100, 252, 253, 400, 1024], "thorough": [16, 31, 33, 50, 64, 100, 127, 128, 252, 253, 256, 257, 400, 512, 1000, 1024, 2048]}
BLOCKS = 12
SHAPES = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (1, 2), (3, 2), (2, 3), (1, 5), (5, 1)]
SUB = [-0.7, 0.4, 1.9]


def cases(tier):
    out = []
    for m in range(len(MKT)):
        for L in range(1, LEN3[tier] + 1):
            out.append(dict(part="tree", m=m, alph=3, L=L))
        for L in range(1, LEN2[tier] + 1):
            out.append(dict(part="tree", m=m, alph=2, L=L))
        for shape in SHAPES:
            out.append(dict(part="shapes", m=m, shape=shape))
    for m in range(len(MKT)):
        for L in LONG[tier]:
            out.append(dict(part="long", m=m, L=L))
    out.append(dict(part="lattice"))
    return out


def walk(mk, L, row):
    """Prices after each step."""
    S, K, t, r, b, sg = mk
    dt = t / L
    x, out = math.log(S), []
    for e in row:
        x = x + (b - 0.5 * sg * sg) * dt + sg * math.sqrt(dt) * e
        out.append(math.exp(x))
    return out


def pay(mk, prices, kind, z):
    S, K, t, r, b, sg = mk
    v = prices[-1] if kind == "vanilla" else math.fsum(prices) / len(prices)
    return math.exp(-r * t) * max(z * (v - K), 0.0)


KIND = {"vanilla": mc.PlainVanillaPayoff, "asian": mc.ArithmeticAsianPayoff}


def check_batch(rows, mk, R, d):
    """Increments, payoffs and their shapes for one batch of innovations."""
    S, K, t, r, b, sg = mk
    n, L = rows.shape
    keep = rows.copy()
    path = mc.WienerPath(rows, sg, t / L, b)
    inc = path.generate_path()
    dt = t / L
    R.trace()
    if not R.close(inc, [[(b - sg * sg / 2) * dt + sg * math.sqrt(dt) * e for e in row] for row in keep], 1e-13 * (1 + abs(sg) * 5 + abs(b)), "increments", "log increments", **d):
        return False
    pr = [walk(mk, L, row) for row in keep]
    for kind, cls in KIND.items():
        for z, side in ((1, "call"), (-1, "put")):
            want = [pay(mk, p, kind, z) for p in pr]
            tol = 1e-11 * (max(max(p) for p in pr) + K) * math.exp(-r * t)
            got = getattr(cls(path, S, K, t, r, b, sg), side)()
            R.trace()
            if not R.close(got, want, tol, f"payoff.{kind}.{side}", "discounted payoff of each path", **d):
                return False
            R.outcome((kind, side, tuple(round(w, 6) for w in want[:4])))
    if not np.array_equal(rows, keep):
        R.fail("mutates", "innovations changed", **d)
        return False
    # asking again gives the same
    if not np.array_equal(path.generate_path(), inc):
        R.fail("repeat", "second generate_path differs", **d)
        return False
    return True


def run(case, R):
    {"tree": tree, "shapes": shapes, "lattice": lattice, "long": long}[case["part"]](case, R)


def tree(case, R):
    mk, L = MKT[case["m"]], case["L"]
    al = ALPH3 if case["alph"] == 3 else ALPH2
    rows = np.array(list(itertools.product(al, repeat=L)))
    R.state(len(rows))
    R.maximum("path_length", L)
    if not check_batch(rows, mk, R, dict(market=mk, alphabet=al, L=L)):
        return
    # every path alone gives its value in the batch (rows do not interact)
    S, K, t, r, b, sg = mk
    full = mc.ArithmeticAsianPayoff(mc.WienerPath(rows, sg, t / L, b), *mk).call()
    for i in range(0, len(rows), max(1, len(rows) // 200)):
        one = mc.ArithmeticAsianPayoff(mc.WienerPath(rows[i : i + 1], sg, t / L, b), *mk).call()
        R.trans()
        if one.shape != (1,) or abs(one[0] - full[i]) > 1e-10 * (1 + abs(full[i])):
            R.fail("rows", f"path {rows[i].tolist()} alone {one} in the batch {full[i]}", market=mk)
            return
    R.sample(dict(case, first=rows[0].tolist(), value=float(full[0])))


def long(case, R):
    """Every pattern of at most two shocked blocks, as one batch and with more paths than steps and fewer."""
    mk, L = MKT[case["m"]], case["L"]
    edges = [L * i // BLOCKS for i in range(BLOCKS + 1)]
    rows = []
    for i, j in itertools.combinations_with_replacement(range(BLOCKS + 1), 2):
        row = np.full(L, 0.05)
        for k, v in ((i, -2.0), (j, 1.5)):
            if k < BLOCKS:
                row[edges[k] : edges[k + 1]] = v * 3 / math.sqrt(L)
        rows.append(row)
    rows = np.array(rows)
    R.state(len(rows))
    R.maximum("path_length", L)
    for batch in (rows, rows[:5], rows[::-1][:1]):
        if not check_batch(batch.copy(), mk, R, dict(market=mk, L=L, paths=len(batch))):
            return
    R.sample(dict(case, paths=len(rows)))


def shapes(case, R):
    mk, shape = MKT[case["m"]], tuple(case["shape"])
    n = shape[0] * shape[1]
    for v in itertools.product(SUB, repeat=n):
        R.state()
        if not check_batch(np.array(v).reshape(shape), mk, R, dict(market=mk, batch=list(v), shape=shape)):
            return
    R.sample(dict(case, last=list(v)))


def lattice(case, R):
    """The complete +-1 innovation set is the Jarrow-Rudd style lattice: mean of all 2^L paths."""
    for mk in MKT:
        S, K, t, r, b, sg = mk
        for L in range(1, 11):
            rows = np.array(list(itertools.product([-1.0, 1.0], repeat=L)))
            R.state(len(rows))
            dt = t / L
            mu, sd = (b - sg * sg / 2) * dt, sg * math.sqrt(dt)
            for z, side in ((1, "call"), (-1, "put")):
                want = math.exp(-r * t) * math.fsum(
                    math.comb(L, j) / 2**L * max(z * (S * math.exp(L * mu + (2 * j - L) * sd) - K), 0.0) for j in range(L + 1))
                got = getattr(mc.PlainVanillaPayoff(mc.WienerPath(rows, sg, dt, b), *mk), side)().mean()
                R.trace()
                if not R.close(got, want, 1e-9 * (S + K) * math.exp(3 * sg * math.sqrt(t)), f"lattice.{side}", "mean over all +-1 paths", market=mk, L=L):
                    return
                R.outcome((side, L, round(want, 8)))
    R.sample(dict(case, want=want))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet=dict(tree3=ALPH3, tree2=ALPH2, batches=SUB),
            bounds=dict(length3=LEN3[tier], length2=LEN2[tier], long_lengths=LONG[tier], blocks=BLOCKS, batch_shapes=SHAPES, markets=MKT),
            oracle="step-by-step walk in plain Python arithmetic; binomial sum for the complete +-1 set",
        ),
        assumptions=["tolerance 1e-11 of the largest price of the batch"],
    )
