"""C24: Sobol innovations are finite and well-shaped whatever the sampler returns."""
import itertools
import warnings
from statistics import NormalDist

import numpy as np

import finoptions as fo
from mc import sobol_env
from mc.sobol_env import Env

mc = fo.monte_carlo_options
PROP = "C24"
TECHNIQUE = "exhaustive enumeration of environment answers: every script of faulty sampler draws up to the bound is played to the real code"
CPU_LIMIT = 20.0

inv = NormalDist().inv_cdf
FAULT_SHAPES = {"quick": [(1, 1), (2, 1), (1, 2), (2, 2), (4, 3)], "thorough": [(1, 1), (2, 1), (1, 2), (2, 2), (4, 3), (8, 2), (3, 5), (16, 4)]}
DEPTH = {"quick": {1: 9, 2: 3, 4: 2, 12: 2}, "thorough": {1: 13, 2: 6, 4: 4, 12: 2, 16: 2, 15: 2, 64: 2}}
GRID = {"quick": (17, 5), "thorough": (40, 12)}


def faults(n):
    """Every single faulty cell with 0 or 1, every pair of faulty cells for small samples, all cells."""
    out = [[(i, v)] for i in range(n) for v in (0.0, 1.0)]
    if n <= 4:
        out += [[(i, u), (j, v)] for i, j in itertools.combinations(range(n), 2) for u in (0.0, 1.0) for v in (0.0, 1.0)]
    if n > 1:
        out += [[(i, 0.0) for i in range(n)], [(i, 1.0) for i in range(n)], [(i, float(i % 2)) for i in range(n)]]
    return out


def cases(tier):
    out = []
    for sh in FAULT_SHAPES[tier]:
        n = sh[0] * sh[1]
        for depth in range(DEPTH[tier][n] + 1):
            F = len(faults(n))
            first = range(F) if depth and F**depth > 500 else [None]
            for f in first:
                out.append(dict(part="faults", shape=sh, depth=depth, first=f))
    N, L = GRID[tier]
    for l in range(1, L + 1):
        out.append(dict(part="shapes", L=l, N=N))
    for sh in [(2, 30), (4, 365), (1024, 2), (256, 7)]:
        out.append(dict(part="big", shape=sh))
    out.append(dict(part="eps"))
    out.append(dict(part="engine"))
    return out


def run(case, R):
    Env.script, Env.pos, Env.log, Env.overrun = None, 0, [], False
    {"faults": faulty, "shapes": shapes, "big": big, "eps": eps_, "engine": engine}[case["part"]](case, R)


def sample(obj, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return obj.sample_innovation(*a, **kw)


def ppf(x):
    return np.array([[inv(v) for v in row] for row in x])


def draws():
    return [e for e in Env.log if e[0]]


def faulty(case, R):
    n, L = case["shape"]
    fs = faults(n * L)
    heads = [()] if not case["depth"] else ([(case["first"],)] if case["first"] is not None else [(i,) for i in range(len(fs))])
    for head in heads:
        for rest in itertools.product(range(len(fs)), repeat=max(0, case["depth"] - 1)):
            script = [fs[i] for i in head + rest]
            for how in ("default", "keyword"):
                Env.script, Env.pos, Env.log, Env.overrun = script + [[]], 0, [], False
                o = mc.NormalSobolInnovations(n, L)
                got = sample(o) if how == "default" else sample(o, scramble=True)
                R.state()
                R.trans(len(script) + 1)
                R.trace()
                d = dict(shape=(n, L), script=script, how=how)
                if np.shape(got) != (n, L):
                    R.fail("shape", f"sample has shape {np.shape(got)}", **d)
                    return
                if not np.all(np.isfinite(got)):
                    R.fail("infinite", f"sample {np.asarray(got).tolist()} after faulty draws", **d)
                    return
                ds = draws()
                if len(ds) != len(script) + 1 or Env.overrun:
                    R.fail("draws", f"{len(ds)} scrambled draws for {len(script)} faulty samples", **d)
                    return
                if not R.close(got, ppf(ds[-1][3]), 1e-9, "quantile", "normal quantile of the accepted sample", **d):
                    return
            R.outcome((n, L, tuple(np.round(got, 9).ravel()[:4]), len(script)))
        R.maximum("faulty_draws", len(script))
    R.sample(dict(case, script=script))


def stratified(x, n):
    """Every column of n = 2^m scrambled Sobol points has one point in each of n equal bins."""
    from scipy.special import ndtr

    b = np.floor(ndtr(x) * n + 1e-12).astype(int)
    return all(sorted(b[:, j]) == list(range(n)) for j in range(x.shape[1]))


def shapes(case, R):
    L = case["L"]
    for n in range(1, case["N"] + 1):
        R.state()
        d = dict(shape=(n, L))
        got = sample(mc.NormalSobolInnovations(n, L), scramble=False)
        want = ppf(sobol_env.REAL(L, scramble=False).random(n + 1)[1:])
        R.trace()
        if not R.close(got, want, 1e-9, "unscrambled", "unscrambled sample is points 2..n+1 of the sequence", **d):
            return
        R.outcome((n, L, round(float(np.sum(got)), 9)))
        o = mc.NormalSobolInnovations(n, L)
        a, b = sample(o), sample(o)
        c = sample(mc.NormalSobolInnovations(n, L))
        again = sample(o, scramble=False)
        R.trace()
        for x in (a, b, c):
            if x.shape != (n, L) or not np.all(np.isfinite(x)):
                R.fail("shape", f"scrambled sample has shape {x.shape}", **d)
                return
            if n & (n - 1) == 0 and n <= 64 and not stratified(x, n):
                R.fail("sobol", f"{x.tolist()} are not the quantiles of scrambled Sobol points", **d)
                return
        if np.array_equal(a, b) or np.array_equal(a, c) or np.array_equal(b, c):
            R.fail("fresh", "two scrambled samples are the same", **d)
            return
        if not np.array_equal(again, got):
            R.fail("unscrambled.repeat", "the unscrambled sample depends on earlier calls", **d)
            return
    R.sample(dict(case, first=got[0].tolist()))


def big(case, R):
    n, L = case["shape"]
    R.state()
    got = sample(mc.NormalSobolInnovations(n, L), scramble=False)
    want = ppf(sobol_env.REAL(L, scramble=False).random(n + 1)[1:])
    R.trace()
    R.close(got, want, 1e-9, "unscrambled", "unscrambled sample", shape=(n, L))
    Env.script, Env.pos, Env.log = [[(n * L - 1, 0.0)], [(0, 1.0)], []], 0, []
    got = sample(mc.NormalSobolInnovations(n, L))
    R.trace()
    if len(draws()) != 3:
        R.fail("draws", f"{len(draws())} draws for two faulty samples", shape=(n, L))
        return
    R.close(got, ppf(draws()[-1][3]), 1e-9, "quantile", "accepted sample", shape=(n, L))
    R.outcome((n, L))
    R.sample(dict(case, first=got[0][:3].tolist()))


def eps_(case, R):
    """Supplied innovations replace the sample, with good or faulty sampler answers, scrambled or not."""
    for n, L in [(1, 1), (2, 3), (4, 2)]:
        for vals in itertools.product((-2.0, 0.0, 3.5), repeat=2):
            eps = np.resize(np.array(vals), (n, L))
            for scramble in (True, False):
                for script in ([[]], [[(0, 0.0)], []], None):
                    Env.script, Env.pos, Env.log = script, 0, []
                    o = mc.NormalSobolInnovations(n, L, eps)
                    for rep in range(2):
                        Env.pos = 0
                        got = sample(o, scramble=scramble)
                        R.state()
                        R.trace()
                        if not np.array_equal(got, eps):
                            R.fail("eps", f"sample {np.asarray(got).tolist()} with eps given", eps=eps.tolist(), scramble=scramble)
                            return
                    R.outcome((n, L, vals, scramble))
    R.sample(dict(case, eps=eps.tolist()))


def engine(case, R):
    """The whole engine over faulty samplers: the loops are those of the good samples only."""
    mk = (100.0, 95.0, 0.75, 0.06, 0.03, 0.3)
    S, K, t, r, b, sg = mk
    n, L = 2, 2
    fl = [None, [(0, 0.0)], [(3, 1.0)], [(1, 0.0), (2, 1.0)]]
    for loops in (1, 2, 3):
        for plan in itertools.product(range(len(fl)), repeat=loops):
            for twice in (0, 1):
                script = []
                for f in plan:
                    if fl[f] is not None:
                        script += [fl[f]] * (1 + twice)
                    script.append([])
                for side in ("call", "put"):
                    Env.script, Env.pos, Env.log = script, 0, []
                    o = mc.MonteCarloOption(loops, L, n, *mk, mc.NormalSobolInnovations, mc.WienerPath, mc.PlainVanillaPayoff)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got = getattr(o, side)()
                    good = [e[3] for e, f in zip(draws(), script) if not f]
                    R.state()
                    R.trace()
                    d = dict(script=script, loops=loops, side=side)
                    if len(draws()) != len(script):
                        R.fail("engine.draws", f"{len(draws())} draws, script has {len(script)}", **d)
                        return
                    want = []
                    z = 1 if side == "call" else -1
                    for g in good:
                        x = S * np.exp((b - sg**2 / 2) * t + sg * np.sqrt(t / L) * ppf(g).sum(axis=1))
                        want.append(float(np.mean(np.exp(-r * t) * np.maximum(z * (x - K), 0))))
                    if not R.close(got, want, 1e-8, "engine.loops", "loop means over the good samples", **d):
                        return
                    R.outcome(tuple(round(w, 8) for w in want))
    R.sample(dict(case, script=script))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="answers of a scrambled draw: good, or 0/1 in any one cell, any two cells (<= 4 cells), all cells",
            bounds=dict(fault_shapes=FAULT_SHAPES[tier], max_faulty_draws_by_cells=DEPTH[tier], shape_grid=GRID[tier]),
            oracle="NormalDist().inv_cdf of the accepted answer; number of draws = faults + 1; scipy's own unscrambled sequence",
        ),
        assumptions=["the sampler is reached through scipy.stats.qmc.Sobol; faults are only played on scrambled draws (an unscrambled sampler is deterministic)"],
    )
