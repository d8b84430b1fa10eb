"""C06: finite-difference greeks are the derivatives of the object's own price in the named parameter."""
import itertools
import math

import numdifftools as nd
import numpy as np

import finoptions as fo
from mc.engines import CLASSES, MS_BASE, SPREAD_BASE, price, sides

PROP = "C06"
TECHNIQUE = "explicit-state enumeration of option states on the real code vs derivative of the price function of fresh objects"

# parameter deviations from the base of each class: the states
DEV = {
    "S": [50.0, 99.0, 140.0], "FT": [60.0, 120.0], "K": [80.0, 130.0], "t": [0.1, 2.0, 5.0, 0.01, 1 / 365, 0.0004], "r": [0.0, 0.15, 1e-4],
    "b": [0.0, -0.04, 0.06, 0.12], "sigma": [0.1, 0.25, 0.5, 0.8, 1.5, 0.012], "type": ["european"], "otype": ["european"], "n": [1, 7],
    "T": [1.0], "sigmaS": [0.6], "sigmaE": [0.1], "sigmaF": [0.05], "rhoSE": [-0.3], "KappaE": [0.5], "KappaF": [2.0], "Pt": [0.8],
    "S1": [90.0, 140.0], "S2": [90.0], "b1": [-0.05], "b2": [0.1], "sigma1": [0.6], "sigma2": [0.1, 0.01], "rho": [0.4], "Q1": [0.7], "Q2": [1.6],
    "td": [0.05, 0.3], "D": [0.3, 9.0],
}
SPECIAL = {
    "RollGeskeWhaleyOption": {"S": [60.0, 120.0], "K": [70.0, 100.0], "t": [0.27, 0.2503, 1.5], "r": [0.01, 0.15], "sigma": [0.1, 0.25, 0.5, 0.8, 1.0]},
    "SpreadApproxOption": {"K": [10.0, 40.0]},
    "BionomialSpreadAllTypes": {"K": [10.0, 40.0], "K2": [60.0, 150.0], "option": [2, 3, 4, 5, 6, 7, 8, 9], "n": [1, 4]},
    "BionomialMaxOption": {"K": [110.0, 150.0], "n": [1, 4]},
    "BionomialMinOption": {"K": [90.0, 120.0], "n": [1, 4]},
    "BionomialSpreadOption": {"K": [10.0, 40.0], "n": [1, 4]},
}


# several parameters at once: uneven small and large units, other rates and times (factors on the base values)
MONEY = ("S", "FT", "K", "S1", "S2", "K2", "D")
PROFILES = [dict(unit=0.01234567), dict(unit=41.7, t=0.47, r=-0.3, sigma=1.37), dict(unit=0.000377, t=1.618), dict(unit=1.0371, sigma=0.713, r=2.1, t=3.3)]


def profile(base, f):
    out = {}
    for p, v in base.items():
        k = f["unit"] if p in MONEY else f.get("t", 1) if p in ("t", "td", "T") else f.get("r", 1) if p == "r" else f.get("sigma", 1) if p.startswith("sigma") else 1
        if k != 1:
            out[p] = v * k
    return out


def devs(name, base):
    for p in base:
        for v in SPECIAL.get(name, {}).get(p, DEV.get(p, [])):
            if v != base[p]:
                yield p, v


def cases(tier):
    out = []
    for name, (cls, base) in CLASSES.items():
        out.append(dict(cls=name, dev={}))
        ds = list(devs(name, base))
        for f in PROFILES:
            if f.get("r", 1) > 0 or name not in ("BAWAmericanApproxOption", "BSAmericanApproxOption"):
                out.append(dict(cls=name, dev=profile(base, f)))
        for p, v in ds:
            out.append(dict(cls=name, dev={p: v}))
        if tier == "thorough" or name in ("GBSOption", "Black76Option", "SpreadApproxOption"):
            for (p, v), (q, w) in itertools.combinations(ds, 2):
                if p != q:
                    out.append(dict(cls=name, dev={p: v, q: w}))
    out = [c for c in out if valid(c)]
    return out


def valid(c):
    p = dict(CLASSES[c["cls"]][1], **c["dev"])
    if "td" in p and not p["td"] < p["t"]:
        return False
    if "T" in p and not p["t"] <= p["T"]:
        return False
    return True


def candidates(f, x, n, kw):
    """The derivative by the documented tool, and by plain central differences of several widths."""
    out = [float(np.asarray(nd.Derivative(f, n=n, **kw)(x)).ravel()[0])]
    for rel in (1e-2, 1e-3, 1e-4):
        h = rel * max(abs(x), 1e-2)
        if n == 1:
            out.append((f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h))
        else:
            out.append((-f(x - 2 * h) + 16 * f(x - h) - 30 * f(x) + 16 * f(x + h) - f(x + 2 * h)) / (12 * h * h))
    return out


def run(case, R):
    name, dev = case["cls"], case["dev"]
    cls, base = CLASSES[name]
    par = dict(base, **dev)
    o = cls(**par)
    walked = cls(**base)  # reaches the same state through set_param
    for p, v in dev.items():
        walked.set_param(p, v)
        R.trans()
    before = {k: v for k, v in o.get_params().items()}

    def fn(p, side):
        return lambda x: float(price(cls(**dict(par, **{p: float(x)})), side))

    und = "FT" if "FT" in par else "S"
    two = "S1" in par
    gbs = name in ("GBSOption", "BlackScholesOption", "Black76Option")
    american_vega = name in ("BAWAmericanApproxOption", "BSAmericanApproxOption")
    fdm = dict(method="fdm") if gbs else {}
    th = dict(step=min(1 / 252, (par["t"] - par.get("td", 0)) / 10))
    vs = {"step": par["sigma"] / 10} if american_vega else {}
    want = {}
    for side in sides(name):
        if two:
            for p in ("S1", "S2"):
                want["delta", side, p] = candidates(fn(p, side), par[p], 1, {})
        else:
            want["delta", side, None] = candidates(fn(und, side), par[und], 1, {})
        want["theta", side, None] = [-x for x in candidates(fn("t", side), par["t"], 1, th)]
        if "r" in par and not (gbs and par.get("b", 0) != 0):
            want["rho", side, None] = candidates(fn("r", side), par["r"], 1, {})
        pv = float(price(o, side))
        if abs(pv) > 1e-3:
            for p in ("S1", "S2") if two else (None,):
                u = par[p or und]
                want["lambda", side, p] = [d * u / pv for d in want["delta", side, p]]
    for p in ("S1", "S2") if two else (None,):
        want["gamma", "call", p] = candidates(fn(p or und, "call"), par[p or und], 2, {})
    vp = ("sigma1", "sigma2") if two else ("sigmaS", "sigmaE", "sigmaF") if "sigmaS" in par else ("sigma",)
    for p in vp:
        want["vega", "call", p if len(vp) > 1 else None] = candidates(fn(p, "call"), par[p], 1, vs)

    rgw = name == "RollGeskeWhaleyOption"
    for tag, obj in (("fresh", o), ("walked", walked)):
        for side in sides(name):
            cl = {} if rgw else dict(call=side == "call")
            got = dict(
                delta=obj.delta(**cl, **fdm), theta=obj.theta(**cl, **fdm), gamma=obj.gamma(**fdm), vega=obj.vega(**fdm)
            )
            got["lambda"] = obj.lamb(**cl, **fdm)
            if any(k[0] == "rho" for k in want):
                got["rho"] = obj.rho(**cl, **fdm)
            compare(R, f"{name} {tag}", got, want, side, vp, case)
            if not gbs:
                bundle = obj.greeks(**cl)
                exp = {"delta", "theta", "vega", "gamma", "lambda"} | ({"rho"} if "rho" in got else set())
                if set(bundle) != exp:
                    R.fail(f"{name}.greeks.keys", f"greeks() of {name} names {sorted(bundle)}, expected {sorted(exp)}")
                compare(R, f"{name} {tag} greeks()", bundle, want, side, vp, case)
        R.state()
        if R.failures:
            return
    if o.get_params() != before:
        R.fail(f"{name}.mutated", f"computing greeks changed the parameters: {before} -> {o.get_params()}")
    R.sample(dict(case, greeks={k: repr(v) for k, v in got.items()}))


def pick(got, greek, p, vp):
    v = got[greek]
    if p is None:
        return float(np.asarray(v).ravel()[0]) if np.size(v) == 1 else v
    if isinstance(v, dict):
        return float(np.asarray(v[p]).ravel()[0])
    return float(np.asarray(v).ravel()[vp.index(p)])


def compare(R, who, got, want, side, vp, case):
    for (greek, sd, p), cand in want.items():
        if greek not in got or (sd != side and greek not in ("gamma", "vega")):
            continue
        R.trans()
        R.trace()
        g = pick(got, greek, p, vp)
        if not isinstance(g, float):
            R.fail(f"{who}.{greek}", f"{who} {greek} {side}: {g!r} is not a number")
            continue
        R.outcome((greek, round(g, 6) if math.isfinite(g) else "nan"))
        ok = any((math.isnan(g) and all(map(math.isnan, cand))) or abs(g - c) <= 2e-4 * abs(c) + 2e-6 for c in cand)
        if not ok:
            R.fail(f"{who.split()[0]}.{greek}", f"{who} {greek} {side} {p or ''}: {g}, derivative of its own price is {cand[:2]}", **case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="every option class; its base parameters with every single listed deviation, four profiles deviating in all money units, times, rates and volatilities at once (quick: pairs for GBS, Black76 and "
            "Kirk; thorough: all pairs), reached by construction and by set_param; delta, theta, vega, rho, lambda, gamma, greeks(); call and put",
            bounds=dict(deviations=DEV, special=SPECIAL, profiles=PROFILES),
            oracle="derivative of the price of freshly built objects in the named parameter: numdifftools with the documented steps "
            "(theta 1/252 or a tenth of the remaining life, American vega sigma/10), or five-point differences of width 1e-2, 1e-3, 1e-4",
            tolerance="2e-4 relative + 2e-6",
        ),
        assumptions=["numdifftools is correct", "kinked lattice prices may be differentiated with any of the listed widths"],
    )
