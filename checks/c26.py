"""C26: concurrent use of options from several threads gives the sequential results.

Stateless model checking of the real code: two real threads, every source line inside finoptions a
scheduling point, all schedules up to the preemption bound (see mc/sched.py)."""
import sys

import numpy as np

import finoptions as fo
from mc.core import in_child, jsonable
from mc.engines import CLASSES, HN_BASE, sides
from mc.sched import Scheduler, points

PROP = "C26"
TECHNIQUE = "stateless model checking: exhaustive preemption-bounded interleavings of real threads under a controlled line-level scheduler"
CPU_LIMIT = 300.0
CHUNKS = 160
sys.setswitchinterval(1e-4)

mc = fo.monte_carlo_options
hn = fo.heston_nandi_options

# the second object differs from the first in every one of these
OTHER = {
    "S": 120.0, "FT": 80.0, "K": 110.0, "t": 0.4, "r": 0.02, "b": -0.01, "sigma": 0.45, "type": "european", "otype": "european", "n": 3, "option": 9, "K2": 90.0,
    "Pt": 0.8, "T": 1.0, "sigmaS": 0.4, "sigmaE": 0.1, "sigmaF": 0.05, "rhoSE": -0.3, "rhoSF": 0.3, "rhoEF": -0.2, "KappaE": 0.5, "KappaF": 2.0,
    "td": 0.1, "D": 6.0, "S1": 90.0, "S2": 150.0, "b1": -0.05, "b2": 0.1, "sigma1": 0.6, "sigma2": 0.1, "rho": 0.4, "Q1": 0.7, "Q2": 1.6,
}
SMALL = {"n": 2}
SLOW = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption")
ARRAYS = ("GBSOption", "Black76Option", "MiltersenSchwartzOption")


class EpsInnovation(mc.Innovations):
    def sample_innovation(self, init=False):
        return self._eps


def mc_option(v):
    eps = np.array([[0.3, -1.0], [1.2, 0.1], [-0.4, 0.8]]) * (1 if v == 0 else -0.7)
    args = (100.0, 95.0, 0.75, 0.06, 0.03, 0.3) if v == 0 else (50.0, 60.0, 1.5, 0.02, 0.05, 0.5)
    return mc.MonteCarloOption(2 + v, 2, 3, *args, EpsInnovation, mc.WienerPath, (mc.ArithmeticAsianPayoff, mc.PlainVanillaPayoff)[v], eps=eps, antithetic=bool(v), standardization=not v)


def make(name, v):
    if name == "MonteCarloOption":
        return mc_option(v)
    if name == "HestonNandiOption":
        return hn.HestonNandiOption(**(HN_BASE if v == 0 else dict(HN_BASE, S=90.0, K=82.0, t=2, beta=0.6, gamma=100.0)))
    if name == "hngarch":
        return v
    cls, base = CLASSES[name]
    base = dict(base, **{k: x for k, x in SMALL.items() if k in base})
    if name == "BAWAmericanApproxOption":  # the critical price search is short here
        base.update(t=2.0, b=-0.05, sigma=0.2)
    if v == 0:
        return cls(**base)
    base = {k: OTHER[k] for k in base}
    if "S1" in base:
        base["K"] = 5.0
    if name == "RollGeskeWhaleyOption":
        base.update(t=0.5)
    if name == "BAWAmericanApproxOption":
        base.update(t=1.5, b=-0.04)
    return cls(**base)


def arr_option(name, v):
    cls, base = CLASSES[name]
    key = "S" if "S" in base else "FT"
    kw = dict(base, **{key: base[key] * np.array([0.9, 1.0, 1.2])})
    if v:
        kw["K"] = base["K"] * np.array([1.1, 0.8, 1.0])
    return cls(**kw)


INNO = {0: np.array([0.5, -1.0, 2.0, 0.3]), 1: np.array([-0.7, 1.1, 0.2, -2.0])}


def op_call(o): return o.call()
def op_put(o): return o.put()
def op_tree(o): return o.call(tree=True), o.put(tree=True)
def op_summary(o): return o.summary(printer=False), repr(o)
def op_delta(o): return o.delta()
def op_theta(o): return o.theta()
def op_greeks(o): return o.greeks()
def op_gamma(o): return o.gamma()
def op_params(o): return dict(o.get_params())


def op_copyset(o):
    c = o.copy()
    k = "K"
    c.set_param(k, c.get_params()[k] * 1.1)
    return c.call(), c.get_params()


def op_set(o):
    k = "K"
    o.set_param(k, o.get_params()[k] * 1.1)
    return o.call(), o.get_params()


def op_vol(o):
    return o.volatility(o.call() * 1.05)


def op_flag(o):
    return bool(o.is_call_optimal()), o.call()


def op_sim(v):
    kw = dict(lamb=-0.5, omega=2e-4, alpha=1e-4, beta=0.3, gamma=5.0) if v == 0 else dict(lamb=1.0, omega=1e-4, alpha=3e-4, beta=0.2, gamma=-8.0, rf=0.01)
    return hn.hngarch_sim(**kw, n=3, n_start=1, inno=INNO[v][1:], inno_start=INNO[v][:1])


def op_llh(v):
    x = INNO[v] * 0.01
    p = (-0.5, 2e-4, 1e-4, 0.3, 5.0) if v == 0 else (1.0, 1e-4, 3e-4, 0.2, -8.0)
    logit = lambda y: np.log(y / (1 - y))
    x0 = (p[0], logit(p[1]), logit(p[2]), logit(p[3]), p[4])
    return float(hn._llhHNGarch(x0, False, v == 1, 0.001, x))


OPS = {k[3:]: f for k, f in globals().items() if k.startswith("op_")}


def wrap(o):
    """Result of an operation as plain comparable data."""
    return jsonable(o)


def ops_of(name):
    if name == "hngarch":
        return ["sim", "llh"]
    if name == "MonteCarloOption":
        return ["call", "put"]
    if name == "HestonNandiOption":
        return ["call", "put", "delta", "gamma"]
    cls = CLASSES[name][0]
    out = ["call"] if name == "RollGeskeWhaleyOption" else ["call", "put"]
    out += ["summary", "copyset", "theta", "delta", "greeks"]
    if hasattr(cls, "plot"):
        out.append("tree")
    if name in ("GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption"):
        out.append("vol")
    if name == "RollGeskeWhaleyOption":
        out.append("flag")
    return out


NAMES = list(CLASSES) + ["MonteCarloOption", "HestonNandiOption", "hngarch"]
HEAVY = {"delta", "greeks", "vol", "gamma"}
CROSS = [
    ("CRRBinomialTreeOption", "JRBinomialTreeOption"), ("TIANBinomialTreeOption", "CRRBinomialTreeOption"), ("TrinomialTreeOption", "JRBinomialTreeOption"),
    ("JRBinomialTreeOption", "TIANBinomialTreeOption"), ("CRRBinomialTreeOption", "TrinomialTreeOption"),
    ("BionomialMaxOption", "BionomialMinOption"), ("BionomialSpreadOption", "BionomialSpreadAllTypes"), ("BionomialMinOption", "BionomialSpreadOption"),
    ("GBSOption", "Black76Option"), ("Black76Option", "BlackScholesOption"), ("BAWAmericanApproxOption", "GBSOption"), ("BSAmericanApproxOption", "GBSOption"),
    ("RollGeskeWhaleyOption", "GBSOption"), ("SpreadApproxOption", "BionomialSpreadOption"), ("MiltersenSchwartzOption", "GBSOption"),
    ("HestonNandiOption", "CRRBinomialTreeOption"), ("BAWAmericanApproxOption", "BSAmericanApproxOption"),
]


def seconds(name, opa, tier):
    """Operations of the other thread."""
    if name == "hngarch":
        return ["sim", "llh"]
    out = [x for x in ("call", "put") if x in ops_of(name)]
    if name in ("MonteCarloOption", "HestonNandiOption"):
        return out
    if opa in HEAVY and tier == "quick":
        return [out[-1]]
    if opa in HEAVY:
        return [out[-1], "copyset"] + ([opa] if opa == "delta" else [])
    if tier == "quick":
        return [x for x in out if x != opa][:1] + (["theta"] if opa in ("call", "put") else [])
    return out + ["copyset", "theta"]


def cases(tier):
    out = []
    for name in NAMES:
        for a in ops_of(name):
            for b in seconds(name, a, tier):
                slow = name in SLOW or name == "HestonNandiOption"
                heavyclass = slow or name.startswith("Bionomial")
                if tier == "quick" and a == "greeks" and heavyclass:
                    continue
                if tier == "quick" and slow and (b == "theta" or a in HEAVY and b != "put" and b != "call"):
                    continue
                if tier == "quick":
                    visits = "once" if a in HEAVY or name == "HestonNandiOption" else "first" if slow or a in ("theta", "summary", "tree") else "first2"
                else:
                    visits = "first2" if a in HEAVY or slow else "all"
                parts = 4 if a in HEAVY and heavyclass else 1
                for share in (False, True):
                    if name == "hngarch" and share:
                        continue
                    if tier == "quick" and a in HEAVY and share != (a in ("greeks", "gamma", "vol")):
                        continue
                    for k in range(parts):
                        out.append(dict(kind="one", names=(name, name), ops=(a, b), share=share, visits=visits, part=(k, parts)))
        if name in CLASSES:
            light = "first" if name in SLOW or tier == "quick" else "all"
            out.append(dict(kind="one", names=(name, name), ops=("set", "call"), share=False, visits=light, part=(0, 1)))
            out.append(dict(kind="one", names=(name, name), ops=("call", "set"), share=False, visits=light, part=(0, 1)))
            out.append(dict(kind="one", names=(name, name), ops=("set", "set"), share=False, visits="first", part=(0, 1)))
            # two preemptions
            v2 = "once" if tier == "quick" else "first" if name in SLOW else "first2"
            if name in SLOW and tier == "quick":
                continue
            for share in (False, True):
                for a, b in [("call", "put" if share else "call")] if tier == "quick" or name in SLOW else [("call", "call"), ("call", "put")]:
                    if name == "RollGeskeWhaleyOption" and b == "put":
                        b = "call"
                    out.append(dict(kind="two", names=(name, name), ops=(a, b), share=share, visits=v2, part=(0, 1)))
    for n in ARRAYS:
        for a in ("call", "put", "copyset"):
            out.append(dict(kind="one", names=(n, n), ops=(a, "call"), share=False, visits="all", part=(0, 1), arr=True))
    for x, y in CROSS:
        for a, b in [("call", "call"), ("call", "theta" if y in CLASSES and y not in SLOW else "call")]:
            out.append(dict(kind="one", names=(x, y), ops=(a, b), share=False, visits="first" if x in SLOW + ("HestonNandiOption",) or tier == "quick" else "all", part=(0, 1)))
    return out


def pick(log, visits):
    """Indices (1-based) of the preemption points that the visit bound keeps."""
    if visits == "all":
        return list(range(1, len(log) + 1))
    keep = {"once": 1, "first": 1, "first2": 2}[visits]
    seen, last, out = {}, {}, set()
    for i, p in enumerate(log, 1):
        seen[p] = seen.get(p, 0) + 1
        last[p] = i
        if seen[p] <= keep:
            out.add(i)
    return sorted(out if visits == "once" else out | set(last.values()))


def objects(case):
    (x, y), share = case["names"], case["share"]
    f = arr_option if case.get("arr") else make
    a = f(x, 0)
    return a, (a if share else f(y, 1))


def alone(case, which):
    o = objects(case)[which]
    return wrap(OPS[case["ops"][which]](o))


def run(case, R):
    case = dict(case, names=tuple(case["names"]), ops=tuple(case["ops"]))
    want = [in_child(alone, case, i) for i in (0, 1)]
    opa, opb = (OPS[n] for n in case["ops"])

    def play(turns, what):
        a, b = objects(case)
        s = Scheduler(lambda: wrap(opa(a)), lambda: wrap(opb(b)))
        res, blocked = s.run(turns)
        R.trace()
        R.trans(len(turns))
        if blocked:
            R.count("lock_blocked")
        for i, (v, e) in enumerate(res):
            if e is not None or not eq(v, want[i]):
                R.fail(
                    "interleaving", f"thread {i} ({case['ops'][i]} of {case['names'][i]}) gives {e or str(v)[:200]}, alone {str(want[i])[:200]}",
                    schedule=turns, at=what, case_ops=case["ops"], names=case["names"], shared=case["share"])
                return False
        return True

    a, b = objects(case)
    la = points(lambda: wrap(opa(a)))
    ia = pick(la, case["visits"])
    k, n = case["part"]
    ia = ia[k::n]
    R.state(len(ia))
    R.maximum("scheduling_points", len(la))
    if case["kind"] == "one":
        for i in ia:
            if not play([(0, i), (1, None), (0, None)], [la[i - 1]]):
                return
            R.outcome((case["names"], case["ops"], i))
    else:
        lb = points(lambda: wrap(opb(b)))
        ib = pick(lb, case["visits"])
        for i in ia:
            for j in ib:
                if not play([(0, i), (1, j), (0, None), (1, None)], [la[i - 1], lb[j - 1]]):
                    return
            R.outcome((case["names"], case["ops"], i))
        R.count("two_preemption_schedules", len(ia) * len(ib))
    R.sample(dict(case, points=len(ia)))


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="two threads running one operation each (price, tree, greek, greeks, report, copy+set_param, set_param, implied volatility, garch simulation and likelihood, Monte Carlo) on separate objects of a class, on one shared object (queries), on objects of different classes",
            bounds=dict(preemptions="1 for every pair, 2 for call/call and call/put", points="every executed line of the first thread (long operations: the first, the last and in the thorough tier the second execution of each source line)"),
            oracle="the same operation alone, in a process of its own",
        ),
        assumptions=["a scheduling point is a source line inside finoptions; numpy/scipy calls are atomic (the GIL is held or no Python state is touched)"],
    )
