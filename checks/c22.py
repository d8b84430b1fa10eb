"""C22: Monte Carlo loops compose innovations, variates, paths and payoffs as specified."""
import contextlib
import io
import itertools
import math
import re
import warnings

import numpy as np

import finoptions as fo

mc = fo.monte_carlo_options
PROP = "C22"
TECHNIQUE = "exhaustive enumeration of innovation-batch histories, flag combinations and faulty loops; implementation vs reference loop"

MKT = [(100.0, 95.0, 0.75, 0.06, 0.03, 0.3), (100, 100, 2, 0, -0.05, 0.6), (50.0, 80.0, 0.1, 0.1, 0.0, 1.5)]
ALPH = [-1.0, 0.5]
SHAPES = {"quick": [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)], "thorough": [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (4, 1), (1, 4)]}
LOOPS = {"quick": [1, 2], "thorough": [1, 2, 3]}
PAYOFFS = ["vanilla", "asian", "custom"]


class Script(mc.Innovations):
    """User innovations: answers the batches of a script, one per request."""

    script = []
    made = []

    def __init__(self, mc_paths, path_length, eps=None):
        super().__init__(mc_paths, path_length, eps)
        Script.made.append((mc_paths, path_length, eps))
        self.i = 0

    def sample_innovation(self, init=False):
        self.i += 1
        return Script.script[self.i - 1]


class DriftPath(mc.Path):
    """User path class: records what it is given."""

    seen = []

    def __init__(self, epsilon, sigma, dt, b):
        super().__init__(epsilon, sigma, dt, b)
        DriftPath.seen.append((np.array(epsilon), sigma, dt, b))

    def generate_path(self):
        return self.b * self.dt + self.sigma * self.epsilon


class DigitalPayoff(mc.Payoff):
    """User payoff class: pays different amounts for call and put, depends on every argument."""

    seen = []

    def __init__(self, path, S, K, t, r, b, sigma):
        super().__init__(path, S, K, t, r, b, sigma)
        DigitalPayoff.seen.append((S, K, t, r, b, sigma))

    def call(self):
        return np.sum(self.path.generate_path(), axis=1) * self.S - self.K * self.t

    def put(self):
        return np.sum(self.path.generate_path(), axis=1) * self.K + self.r + self.b + self.sigma


class InfPayoff(mc.Payoff):
    """Overflows for an innovation of 7."""

    def call(self):
        v = np.where(self.path.epsilon[:, 0] == 7.0, np.inf, 1.0 + self.path.epsilon[:, 0])
        return v

    put = call


CLS = {"vanilla": (mc.WienerPath, mc.PlainVanillaPayoff), "asian": (mc.WienerPath, mc.ArithmeticAsianPayoff), "custom": (DriftPath, DigitalPayoff)}


def variates(batch, anti, std):
    rows = [list(map(float, r)) for r in batch]
    if anti:
        rows = rows + [[-x for x in r] for r in rows]
    if std:
        flat = [x for r in rows for x in r]
        m = sum(flat) / len(flat)
        s = math.sqrt(sum((x - m) ** 2 for x in flat) / len(flat))
        if s < 1e-9:
            return None
        rows = [[(x - m) / s for x in r] for r in rows]
    return rows


def model(batch, anti, std, mk, L, payoff, z):
    """Mean payoff of one loop (None where standardization divides by zero)."""
    S, K, t, r, b, sg = mk
    rows = variates(batch, anti, std)
    if rows is None:
        return None
    dt = t / L
    tot = 0.0
    for row in rows:
        if payoff == "custom":
            x = sum(b * dt + sg * e for e in row)
            tot += x * S - K * t if z == 1 else x * K + r + b + sg
            continue
        p, prices = S, []
        for e in row:
            p *= math.exp((b - sg * sg / 2) * dt + sg * math.sqrt(dt) * e)
            prices.append(p)
        v = p if payoff == "vanilla" else sum(prices) / len(prices)
        tot += math.exp(-r * t) * max(z * (v - K), 0.0)
    return tot / len(rows)


def batches(shape):
    n, L = shape
    return [np.array(v, dtype=float).reshape(n, L) for v in itertools.product(ALPH, repeat=n * L)]


def cases(tier):
    out = []
    for shape in SHAPES[tier]:
        for loops in LOOPS[tier]:
            if (2 ** (shape[0] * shape[1])) ** loops > 4200:
                continue
            for payoff in PAYOFFS:
                for m in range(len(MKT)):
                    out.append(dict(tier=tier, part="loops", shape=shape, loops=loops, payoff=payoff, m=m))
    out.append(dict(tier=tier, part="loops", shape=(1, 1), loops=4, payoff="vanilla", m=0))
    out.append(dict(tier=tier, part="loops", shape=(2, 1), loops=5, payoff="custom", m=0))
    for loops in (1, 2, 3, 4):
        out.append(dict(tier=tier, part="inf", loops=loops))
    out.append(dict(tier=tier, part="options"))
    return out


def build(mk, loops, shape, payoff, anti, std, trace=False, **kw):
    S, K, t, r, b, sg = mk
    P, F = CLS[payoff]
    return mc.MonteCarloOption(loops, shape[1], shape[0], S, K, t, r, b, sg, Script, P, F, trace=trace, antithetic=anti, standardization=std, **kw)


def run(case, R):
    {"loops": loops_, "inf": infs, "options": options}[case["part"]](case, R)


def loops_(case, R):
    tier, shape, loops, payoff, mk = case["tier"], tuple(case["shape"]), case["loops"], case["payoff"], MKT[case["m"]]
    S, K, t, r, b, sg = mk
    scale = 5 * (S + K) * max(1, math.exp(4 * sg * math.sqrt(t)))
    bs = batches(shape)
    for seq in itertools.product(range(len(bs)), repeat=loops):
        for anti, std in itertools.product((False, True), repeat=2):
            R.state()
            for side, z in (("call", 1), ("put", -1)):
                if (seq[0] + z + anti) % 2 and loops > 1 and tier == "quick" and shape[0] * shape[1] > 2:
                    continue
                want = [model(bs[i], anti, std, mk, shape[1], payoff, z) for i in seq]
                if None in want:
                    R.count("skipped_zero_deviation")
                    continue
                script = [bs[i].copy() for i in seq]
                Script.script, Script.made = script, []
                DriftPath.seen, DigitalPayoff.seen = [], []
                o = build(mk, loops, shape, payoff, anti, std)
                got = getattr(o, side)()
                R.trace()
                d = dict(batches=[bs[i].tolist() for i in seq], antithetic=anti, standardization=std, market=mk, shape=shape, side=side)
                if not R.close(got, want, 1e-10 * scale, f"loop.{payoff}.{side}", "loop means", **d):
                    return
                if any(not np.array_equal(a, bs[i]) for a, i in zip(script, seq)):
                    R.fail("mutates", "the engine changed the array returned by the innovation class", **d)
                    return
                if Script.made != [(shape[0], shape[1], None)]:
                    R.fail("innovation.args", f"innovation class constructed with {Script.made}", **d)
                    return
                if payoff == "custom":
                    wp = [(np.array(variates(bs[i], anti, std)), sg, t / shape[1], b) for i in seq]
                    ok = len(wp) == len(DriftPath.seen) and all(np.allclose(x[0], y[0], atol=1e-12) and x[1:] == y[1:] for x, y in zip(DriftPath.seen, wp))
                    if not ok:
                        R.fail("path.args", f"path class constructed with {DriftPath.seen}", **d)
                        return
                    if DigitalPayoff.seen != [(S, K, t, r, b, sg)] * loops:
                        R.fail("payoff.args", f"payoff class constructed with {DigitalPayoff.seen}", **d)
                        return
                # trace changes nothing but the output
                if seq[-1] % 3 == 0 or loops > 2:
                    buf = io.StringIO()
                    o = build(mk, loops, shape, payoff, anti, std, trace=True)
                    with contextlib.redirect_stdout(buf):
                        tr = getattr(o, side)()
                    R.trace()
                    if not np.array_equal(tr, got):
                        R.fail("trace.result", f"trace changes the result: {tr} {got}", **d)
                        return
                    rows = re.findall(r"Loop:\s*(\d+)\s*:\s*(\S+)\s+(\S+)", buf.getvalue())
                    exp = [(i, want[i], sum(want[: i + 1]) / (i + 1)) for i in range(loops)]
                    try:
                        good = len(rows) == loops and all(
                            int(a) == i and abs(float(v) - w) <= 1e-9 * scale and abs(float(c) - q) <= 1e-9 * scale
                            for (a, v, c), (i, w, q) in zip(rows, exp))
                    except ValueError:
                        good = False
                    if not good:
                        R.fail("trace.text", f"trace printed {rows}, expected loop, value, running average {exp}", **d)
                        return
                R.outcome((payoff, side, tuple(round(v, 6) for v in want)))
    R.sample(dict(case, seq=[bs[i].tolist() for i in seq], want=want))


def infs(case, R):
    """Every placement of overflowing batches among the loops."""
    loops = case["loops"]
    for seq in itertools.product((0.5, 2.0, 7.0), repeat=loops):
        for side in ("call", "put"):
            Script.script = [np.array([[e], [1.0]]) for e in seq]
            o = mc.MonteCarloOption(loops, 1, 2, *MKT[0], Script, mc.WienerPath, InfPayoff)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = getattr(o, side)()
            R.state()
            R.trace()
            d = dict(seq=list(seq), side=side)
            if 7.0 in seq:
                i = seq.index(7.0)
                if not any(str(i) in str(x.message) and "inf" in str(x.message).lower() for x in w):
                    R.fail("inf.warning", f"loop {i} has an infinite mean, warnings: {[str(x.message) for x in w]}", **d)
                    return
            else:
                if w:
                    R.fail("inf.spurious", f"warning {w[0].message} without an infinite loop", **d)
                    return
                R.close(got, [1 + (e + 1) / 2 for e in seq], 1e-12, "inf.values", "loop means", **d)
            R.outcome((seq, side))
    R.sample(dict(case, seq=seq))


class EpsInnovation(mc.Innovations):
    def sample_innovation(self, init=False):
        return self._eps


def options(case, R):
    """Pre-generated innovations, default flags, repeated calls."""
    eps = np.array([[0.3, -1.0], [1.2, 0.1], [-0.4, 0.8]])
    for m, mk in enumerate(MKT):
        for payoff in ("vanilla", "asian"):
            P, F = CLS[payoff]
            for inno in (EpsInnovation, mc.NormalSobolInnovations):
                o = mc.MonteCarloOption(2, 2, 3, *mk, inno, P, F, eps=eps)
                for rep in range(2):
                    for side, z in (("call", 1), ("put", -1)):
                        w = model(eps, False, False, mk, 2, payoff, z)
                        R.state()
                        R.trace()
                        if not R.close(getattr(o, side)(), [w, w], 1e-9 * (mk[0] + mk[1]), f"eps.{side}", f"given innovations, repetition {rep}", market=mk, payoff=payoff):
                            return
            # consecutive calls consume consecutive samples
            bs = batches((1, 2))
            Script.script = bs
            o = build(mk, 2, (1, 2), payoff, False, False)
            got = list(o.call()) + list(o.put())
            want = [model(bs[0], 0, 0, mk, 2, payoff, 1), model(bs[1], 0, 0, mk, 2, payoff, 1), model(bs[2], 0, 0, mk, 2, payoff, -1), model(bs[3], 0, 0, mk, 2, payoff, -1)]
            R.trace()
            R.close(got, want, 1e-9 * (mk[0] + mk[1]), "fresh", "call() then put() use the next samples", market=mk)
            R.outcome(tuple(round(v, 6) for v in want))
    # real sampler: every loop and every call draws a new sample
    o = mc.MonteCarloOption(3, 4, 8, *MKT[0], mc.NormalSobolInnovations, mc.WienerPath, mc.PlainVanillaPayoff)
    a, c = list(o.call()), list(o.call())
    R.trace()
    if len(set(a + c)) < 6:
        R.fail("fresh.sobol", f"loops repeat their sample: {a} {c}")
    R.sample(dict(case, got=got, want=want))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet=f"innovations {ALPH} in every cell of every batch; antithetic x standardization x trace x call/put; built-in and user supplied path and payoff classes",
            bounds=dict(shapes=SHAPES[tier], loops=LOOPS[tier] + [4, 5], markets=MKT, overflow_loops=4),
            oracle="reference loop written from the documentation; constructor arguments of user classes recorded and compared",
        ),
        assumptions=["standardization of a constant batch (0/0) is skipped and counted"],
    )
