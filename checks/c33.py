"""C33: the same numbers given in another representation, order or way of passing give the same option."""
import inspect
import itertools
import math

import numpy as np

import finoptions as fo
from mc.engines import CLASSES, price, sides

mc = fo.monte_carlo_options
HN = fo.heston_nandi_options.HestonNandiOption
PROP = "C33"
TECHNIQUE = "explicit-state enumeration of representation assignments per constructor; all observables compared on the real code"
CPU_LIMIT = 60.0

# whole numbers, so that every representation holds them exactly
WHOLE = {
    "S": [100, 7, 95], "FT": [100, 7], "K": [95, 9], "t": [1, 2], "r": [0, 1], "b": [0, 1, -1], "sigma": [1, 2],
    "Pt": [1], "T": [2, 3], "sigmaS": [1], "sigmaE": [1], "sigmaF": [1], "rhoSE": [0], "rhoSF": [0], "rhoEF": [0], "KappaE": [1, 2], "KappaF": [3],
    "S1": [122, 8], "S2": [120, 7], "K2": [110], "b1": [0, 1], "b2": [0, -1], "sigma1": [1], "sigma2": [1], "rho": [0, 1], "Q1": [1, 2], "Q2": [1, 3],
    "td": [1], "D": [4], "lamb": [-1], "beta": [0], "gamma": [180],
}
# the characteristic function is integrated: keep away from prices it cannot resolve
NEXT = {"HestonNandiOption": {"K": [105]}}
START = {"RollGeskeWhaleyOption": dict(t=2)}
REPR = {"float": float, "int": int, "float64": np.float64, "int64": np.int64, "int32": np.int32}
COUNT = {"int": int, "int64": np.int64, "int32": np.int32}


def bases():
    out = {}
    for name, (cls, base) in CLASSES.items():
        out[name] = (cls, dict({p: WHOLE[p][0] if p in WHOLE else v for p, v in base.items()}, **START.get(name, {})))
    out["HestonNandiOption"] = (HN, dict(S=100, K=95, t=3, r=0, lamb=-1, omega=2.3e-4, alpha=2.9e-6, beta=0, gamma=180))
    for pay in ("PlainVanillaPayoff", "ArithmeticAsianPayoff"):
        out[f"MonteCarloOption {pay}"] = (monte_carlo(pay), dict(mc_loops=2, path_length=2, mc_paths=4, S=100, K=95, t=1, r=0, b=0, sigma=1))
    return out


def monte_carlo(pay):
    def make(mc_loops, path_length, mc_paths, S, K, t, r, b, sigma):
        return mc.MonteCarloOption(mc_loops, path_length, mc_paths, S, K, t, r, b, sigma, mc.NormalSobolInnovations, mc.WienerPath, getattr(mc, pay), eps=np.array([[0.3, -1], [1, 0.5], [-0.4, 0.2], [0, 0]]))

    return make


BASES = bases()
COUNTS = ("n", "option", "mc_loops", "path_length", "mc_paths")
DAYS = {("HestonNandiOption", "t")}


def kinds(name, p, v):
    if p in COUNTS or (name, p) in DAYS:
        return list(COUNT)
    return list(REPR) if p in WHOLE and isinstance(v, int) else []


def cast(name, par, how):
    return {p: (COUNT if p in COUNTS or (name, p) in DAYS else REPR)[how[p]](v) if p in how else float(v) if p in WHOLE and isinstance(v, int) and (name, p) not in DAYS else v for p, v in par.items()}


def number(v):
    if isinstance(v, dict):
        return {k: number(x) for k, x in v.items()}
    a = np.asarray(v)
    if a.dtype.kind not in "fiu":
        raise TypeError(f"{v!r} of type {type(v).__name__} is not a number")
    if a.dtype.kind in "iu" and a.ndim:
        raise TypeError(f"array of {a.dtype}: fractions are cut off")
    return a.astype(float).ravel().tolist()


def observe(name, o, full):
    out = {}
    for s in (sides(name) if name in CLASSES else ("call", "put")):
        out[s] = number(getattr(o, s)())
    if name == "HestonNandiOption":
        out["delta"], out["gamma"] = number(o.delta()), number(o.gamma())
    elif name in CLASSES:
        cl = () if name == "RollGeskeWhaleyOption" else (False,)
        if name in ("GBSOption", "BlackScholesOption", "Black76Option") or full:
            for k, v in o.greeks(*cl).items():
                out["greeks " + k] = number(v)
        if "Tree" in name or "Bionomial" in name:
            out["tree"] = number(o.call(tree=True))
        if name == "RollGeskeWhaleyOption":
            out["flag"] = float(bool(o.is_call_optimal()))
        if name in ("GBSOption", "Black76Option"):
            out["volatility"] = number(np.round(o.volatility(float(o.call())), 6))
    return out


def alike(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-11 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def cases(tier):
    out = []
    for name in BASES:
        out.append(dict(tier=tier, cls=name, what="single"))
        out.append(dict(tier=tier, cls=name, what="passing"))
        ps = [p for p, v in BASES[name][1].items() if kinds(name, p, v)]
        for p in ps:
            out.append(dict(tier=tier, cls=name, what="pairs", param=p))
        out.append(dict(tier=tier, cls=name, what="all"))
    return out


def settings(name, base):
    """Valuations reached from the base by one whole-number deviation."""
    yield base
    for p in base:
        for v in NEXT.get(name, {q: w[1:] for q, w in WHOLE.items()}).get(p, []):
            q = dict(base, **{p: v})
            if isinstance(base[p], int) and (name, p) not in DAYS and q.get("td", 0) < q["t"] <= q.get("T", q["t"]):
                yield q


def run(case, R):
    name, what = case["cls"], case["what"]
    ctor, base = BASES[name]
    if what == "passing":
        return passing(case, R, name, ctor, base)
    for par in settings(name, base) if what != "pairs" or case["tier"] == "thorough" else [base]:
        ps = [p for p, v in par.items() if kinds(name, p, v)]
        if what == "single":
            hows = [{p: k} for p in ps for k in kinds(name, p, par[p])]
        elif what == "pairs":
            hows = [{case["param"]: k, q: l} for q in ps if q > case["param"] for k in kinds(name, case["param"], par[case["param"]]) for l in kinds(name, q, par[q]) if k != "float" and l != "float"]
        else:
            hows = [{p: k for p in ps} for k in COUNT] + [{p: "float64" if "float64" in kinds(name, p, par[p]) else "int64" for p in ps}]
        compare(R, name, ctor, par, hows, what == "all")
        if R.failures:
            return
    R.sample(dict(case, last={k: repr(v) for k, v in par.items()}))


def compare(R, name, ctor, par, hows, full):
    want = observe(name, ctor(**cast(name, par, {})), full)
    for how in hows:
        R.state()
        R.trace()
        given = cast(name, par, how)
        got = observe(name, ctor(**given), full)
        R.outcome((name, str(want["call"])[:40]))
        if not alike(got, want):
            bad = [k for k in want if not alike(got.get(k), want[k])]
            R.fail(f"{name}.{bad[0]}", f"{name} with { {p: f'{type(given[p]).__name__} {given[p]}' for p in how} }: {bad[0]} {str(got[bad[0]])[:150]}, with floats {str(want[bad[0]])[:150]}"[:600], how=how)
            return


def passing(case, R, name, ctor, base):
    """positional, keyword in any rotation of the order, by set_param from elsewhere, from get_params of another option"""
    for par in settings(name, base):
        par = cast(name, par, {})
        names = list(inspect.signature(ctor).parameters)
        want = observe(name, ctor(**par), False)
        vals = [par[p] for p in names if p in par]
        ways = [("positional", lambda: ctor(*vals))] if [p for p in names if p in par] == names[: len(par)] else []
        items = list(par.items())
        for k in range(1, len(items)):
            ways.append((f"keywords rotated by {k}", lambda k=k: ctor(**dict(items[k:] + items[:k]))))
        ways.append(("keywords reversed", lambda: ctor(**dict(items[::-1]))))
        for k in range(1, len(vals)):
            if ways[0][0] == "positional":
                ways.append((f"{k} positional", lambda k=k: ctor(*vals[:k], **{p: par[p] for p in names[k:] if p in par})))
        if name in CLASSES:
            ways.append(("get_params", lambda: ctor(**{p: v for p, v in ctor(**par).get_params().items() if p in names})))

            def walk():
                o = ctor(**cast(name, base, {}))
                for p, v in par.items():
                    o.set_param(p, int(v) if isinstance(v, float) else v)
                return o

            ways.append(("set_param with ints", walk))

        for label, f in ways:
            R.state()
            R.trace()
            got = observe(name, f(), False)
            R.outcome((name, label))
            if not alike(got, want):
                bad = [k for k in want if not alike(got.get(k), want[k])]
                R.fail(f"{name}.{label.split()[0]}", f"{name} built by {label}: {bad[0]} {str(got[bad[0]])[:150]}, by keywords {str(want[bad[0]])[:150]}"[:600], **{k: repr(v) for k, v in par.items()})
                return
    R.sample(dict(case, ways=[w for w, _ in ways]))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="every class (Heston-Nandi and Monte Carlo included) x whole-number valuations x representation of one parameter, of two, of all (int, float, numpy float64/int64/int32); positional, mixed and permuted keyword arguments, get_params round trip, set_param one by one",
            bounds=dict(valuations=WHOLE, representations=list(REPR)),
            oracle="prices, greeks, trees, implied volatility and flags equal those of the option built from floats by keyword (1e-11 relative); answers are real numbers, never integer arrays",
        ),
        assumptions=["numpy float32 is not an exact representation of intermediate results and is left out"],
    )
