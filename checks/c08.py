"""C08: array parameters of the vanilla options give exactly the elementwise scalar results."""
import itertools

import numpy as np

import finoptions as fo
from mc.engines import GBS_BASE, MS_BASE

PROP = "C08"
TECHNIQUE = "exhaustive enumeration of array/scalar argument shapes on the real code vs its own elementwise results"

VAL = {
    "S": [100.0, 80.0, 100.0, 125.0, 97.5, 60.0, 180.0, 110.0], "FT": [100.0, 80.0, 100.0, 125.0, 97.5, 60.0, 180.0, 110.0],
    "K": [95.0, 100.0, 120.0, 95.0, 70.0, 105.0, 99.0, 140.0], "t": [0.75, 0.25, 1.0, 2.0, 0.05, 1.5, 0.5, 3.0],
    "r": [0.06, 0.0, 0.02, 0.1, -0.01, 0.06, 0.15, 0.03], "b": [0.03, 0.0, -0.04, 0.06, 0.0, 0.1, 0.03, -0.1],
    "sigma": [0.3, 0.1, 0.6, 0.3, 1.2, 0.2, 0.45, 2.0],
    "Pt": [0.98, 0.9, 1.0, 0.95, 0.8, 0.98, 0.99, 0.7], "T": [0.5, 1.0, 0.6, 2.0, 0.5, 0.75, 3.0, 0.9],
    "sigmaS": [0.266, 0.4, 0.1, 0.266, 0.8, 0.2, 0.3, 0.5], "sigmaE": [0.249, 0.1, 0.3, 0.249, 0.5, 0.2, 0.4, 0.15],
    "sigmaF": [0.0096, 0.05, 0.02, 0.1, 0.0096, 0.03, 0.08, 0.01], "rhoSE": [0.805, 0.5, -0.2, 0.1, 0.8, 0.3, 0.6, 0.7],
    "rhoSF": [0.08, -0.1, 0.2, 0.0, 0.08, 0.3, 0.1, -0.05], "rhoEF": [0.12, 0.3, -0.2, 0.0, 0.1, 0.2, 0.12, 0.05],
    "KappaE": [1.045, 0.5, 2.0, 1.045, 3.0, 0.8, 1.5, 1.0], "KappaF": [0.2, 1.0, 0.5, 2.0, 0.2, 0.3, 3.0, 0.1],
}
INT = {"S": [100, 80, 101, 125, 97, 60, 180, 110], "FT": [100, 80, 101, 125, 97, 60, 180, 110], "K": [95, 100, 120, 95, 70, 105, 99, 140],
       "t": [1, 2, 1, 3, 1, 2, 1, 5], "b": [0, 0, 0, 0, 0, 0, 0, 0], "r": [0, 0, 0, 0, 0, 0, 0, 0], "sigma": [1, 1, 2, 1, 1, 2, 1, 1]}
GB = ("GBSOption", "BlackScholesOption", "Black76Option")
PARAMS = {"GBSOption": ["S", "K", "t", "r", "b", "sigma"], "BlackScholesOption": ["S", "K", "t", "r", "b", "sigma"],
          "Black76Option": ["FT", "K", "t", "r", "sigma"], "MiltersenSchwartzOption": list(MS_BASE)}
LEN = {"quick": [1, 2, 3, 5, 6, 7, 8, 30], "thorough": list(range(1, 13)) + [30, 101]}


def base(name):
    if name == "MiltersenSchwartzOption":
        return dict(MS_BASE)
    p = dict(GBS_BASE)
    if name == "Black76Option":
        p["FT"] = p.pop("S")
        p.pop("b")
    return p


def subsets(name):
    ps = PARAMS[name]
    if name == "MiltersenSchwartzOption":
        out = [c for k in (1, 2) for c in itertools.combinations(ps, k)] + [tuple(ps)]
    else:
        out = [c for k in range(1, len(ps) + 1) for c in itertools.combinations(ps, k)]
    return out


def cases(tier):
    out = []
    for name in PARAMS:
        for sub in subsets(name):
            out.append(dict(tier=tier, cls=name, sub=list(sub), dt="float"))
            if all(p in INT for p in sub) and name != "MiltersenSchwartzOption":
                out.append(dict(tier=tier, cls=name, sub=list(sub), dt="int"))
    return out


def run(case, R):
    name, sub, tier = case["cls"], case["sub"], case["tier"]
    cls = getattr(fo, name)
    src = INT if case["dt"] == "int" else VAL
    ms = name == "MiltersenSchwartzOption"
    fd = tier == "thorough" or len(sub) in (1, len(PARAMS[name])) or (len(sub) == 2 and not ms)
    for L in LEN[tier]:
        for off in (0, 3) if L <= 8 else (1,):
            par = base(name)
            for p in sub:
                par[p] = np.array([src[p][(i + off) % 8] for i in range(L)])
            if ms and np.any(np.asarray(par["T"]) < np.asarray(par["t"])):
                par["T"] = np.asarray(par["T"]) + np.maximum(np.asarray(par["t"]), 0) if "T" in sub else 4.0
            keep = {k: np.array(v, copy=True) for k, v in par.items()}
            o = cls(**par)
            w = cls(**base(name))
            for p in sub + (["T"] if ms else []):
                w.set_param(p, par[p])
                R.trans()
            el = [cls(**{k: (v[i].item() if isinstance(v, np.ndarray) else v) for k, v in par.items()}) for i in range(L)]
            bs = np.asarray(getattr(o, "get_params")().get("b", 0.0)) * np.ones(L)
            R.state()
            d = dict(L=L, off=off, subset=sub)
            for q, f in queries(name, fd and (L in (1, 2, 3, 7) or tier == "thorough"), bs, L):
                want = [f(e) for e in el]
                for tag, obj in (("constructed", o), ("set_param", w)):
                    got = f(obj)
                    R.trace()
                    if not same(got, want, L, 1e-12 if "fdm" not in q else 2e-4, R, f"{name}.{q}", f"{name} ({tag}) {q}", d):
                        return
            for k in par:
                if not np.array_equal(np.asarray(par[k]), keep[k]):
                    R.fail("mutated", f"{name} wrote into its parameter array {k}", **d)
                    return
            if not ms and L >= 2 and off == 0 and len(sub) <= 2 and "sigma" not in sub and "r" not in sub:
                # implied volatilities: element by element
                pr = np.array([float(e.call()) for e in el])
                s = dict(par)
                s["sigma"] = None
                got = cls(**s).volatility(pr)
                want = [cls(**{k: (v[i].item() if isinstance(v, np.ndarray) else v) for k, v in s.items()}).volatility(float(pr[i])) for i in range(L)]
                same(got, want, L, 1e-4, R, f"{name}.volatility", f"{name} volatility", d)
                # one price for all elements, where there is one that every element can have
                lo = hi = None
                for e in el:
                    q = dict(e.get_params())
                    S_, dis = (q["FT"] if "FT" in q else q["S"]), np.exp((q.get("b", 0.0) - q["r"]) * q["t"])
                    f, k = S_ * dis, q["K"] * np.exp(-q["r"] * q["t"])
                    lo, hi = max(lo or 0.0, f - k), min(hi or f, f)
                if hi > lo + 0.3 * 100:
                    one = float(lo + 0.4 * (hi - lo))
                    got = cls(**s).volatility(one)
                    want = [cls(**{k: (v[i].item() if isinstance(v, np.ndarray) else v) for k, v in s.items()}).volatility(one) for i in range(L)]
                    same(got, want, L, 1e-4, R, f"{name}.volatility-one-price", f"{name} volatility of one price", d)
                    R.count("one_price_for_an_array")
    matrices(case, R, fd)
    R.sample(dict(case, last=L))


SHAPES = [(), (2, 3), (3, 3), (6, 1), (1, 4), (2, 1, 3)]


def matrices(case, R, fd):
    """Parameters given as matrices (all of one shape) or as a row and a column that broadcast, and as 0-d arrays."""
    name, sub = case["cls"], case["sub"]
    cls = getattr(fo, name)
    src = INT if case["dt"] == "int" else VAL
    ms = name == "MiltersenSchwartzOption"
    layouts = [("same", sh) for sh in SHAPES] + ([("grid", (2, 3))] if len(sub) >= 2 else [])
    for kind, shape in layouts:
        par = base(name)
        for j, p in enumerate(sub):
            sh = shape if kind == "same" else ((3,) if j % 2 == 0 else (2, 1))
            par[p] = np.array([src[p][i % 8] for i in range(int(np.prod(sh)))]).reshape(sh)
        if ms:
            par["T"] = np.asarray(par["T"]) + np.maximum(np.asarray(par["t"]).max(), 0) if "T" in sub else 4.0
        L = int(np.prod(shape))
        full = {k: np.broadcast_to(v, shape).ravel() for k, v in par.items() if isinstance(v, np.ndarray)}
        el = [cls(**{k: (full[k][i].item() if k in full else v) for k, v in par.items()}) for i in range(L)]
        objs = [("constructed", cls(**par))]
        w = cls(**base(name))
        for p in sub + (["T"] if ms else []):
            w.set_param(p, par[p])
        objs.append(("set_param", w))
        bs = np.broadcast_to(np.asarray(el[0].get_params().get("b", 0.0) if L == 1 else par.get("b", 0.0)), shape)
        R.state()
        d = dict(subset=sub, layout=kind, shape=shape)
        for q, f in queries(name, fd and shape in ((2, 3), (3, 3), ()), bs, L):
            want = np.array([np.asarray(f(e), dtype=float) for e in el])
            if want.ndim != 1 and want.size != L:
                continue
            want = want.ravel()
            for tag, o in objs:
                got = np.asarray(f(o), dtype=float)
                R.trace()
                if got.shape != shape and not (shape == () and got.size == 1):
                    R.fail(f"{name}.shape", f"{name} ({tag}) {q} of parameters of shape {shape} has shape {got.shape}", **d)
                    return
                if not same(got.ravel(), want, L, 1e-12 if "fdm" not in q else 2e-4, R, f"{name}.{q} matrix", f"{name} ({tag}) {q} of a matrix", d):
                    return
        if not ms and "sigma" not in sub and "r" not in sub and len(sub) <= 2:
            pr = np.array([float(e.call()) for e in el]).reshape(shape)
            s = dict(par, sigma=None)
            for verbose in (False, True):
                got = cls(**s).volatility(pr, verbose=verbose)
                if verbose:
                    got = got.x if shape != () else got.root
                got = np.asarray(got, dtype=float)
                R.trace()
                if got.shape != shape and not (shape == () and got.size == 1):
                    R.fail(f"{name}.shape", f"{name} volatility of prices of shape {shape} has shape {got.shape}", **d)
                    return
                if not same(got.ravel(), [base(name)["sigma"]] * L, L, 1e-4, R, f"{name}.volatility matrix", f"{name} volatility of a matrix", d):
                    return


def queries(name, fd, bs, L):
    yield "call", lambda o: o.call()
    yield "put", lambda o: o.put()
    if name in GB:
        for c in (True, False):
            for g in ("delta", "theta", "rho", "lamb"):
                yield f"{g}({c})", lambda o, g=g, c=c: getattr(o, g)(c)
            yield f"c_of_c({c})", lambda o, c=c: o.c_of_c(call=c)
            for k in ("delta", "theta", "rho", "lambda", "gamma", "vega", "CofC"):
                yield f"greeks({c})[{k}]", lambda o, k=k, c=c: o.greeks(c)[k]
        yield "gamma", lambda o: o.gamma()
        yield "vega", lambda o: o.vega()
    if fd:
        kw = dict(method="fdm") if name in GB else {}
        for c in (True, False):
            for g in ("delta", "theta", "lamb"):
                yield f"fdm {g}({c})", lambda o, g=g, c=c: getattr(o, g)(c, **kw)
            if name in GB and np.all(bs == 0):
                yield f"fdm rho({c})", lambda o, c=c: o.rho(c, **kw)
        yield "fdm vega", lambda o: o.vega(**kw)
        yield "fdm gamma", lambda o: o.gamma(**kw)


def same(got, want, L, rtol, R, key, what, d):
    R.trans()
    w = np.array([np.asarray(x, dtype=float).ravel() for x in want])
    g = np.asarray(got, dtype=float)
    if w.shape[1] == 1:
        w = w[:, 0]
        if not (g.shape == (L,) or (L == 1 and g.size == 1)):
            R.fail(key, f"{what}: shape {g.shape}, expected ({L},)", **d)
            return False
        g = g.ravel()
    else:
        if g.size != w.size:
            R.fail(key, f"{what}: shape {g.shape}, expected {w.shape}", **d)
            return False
        g = g.reshape(w.shape)
    fin = np.isfinite(w)
    atol = 1e-12 if rtol < 1e-9 else 2e-6
    ok = np.array_equal(np.isfinite(g), fin) and bool(np.all(np.abs(g - w)[fin] <= rtol * np.abs(w[fin]) + atol * (1 + 0 * w[fin])))
    if not ok:
        R.fail(key, f"{what}: {g.tolist()} elementwise {w.tolist()}"[:400], **d)
    R.outcome((key, round(float(np.nan_to_num(w.ravel()[0])), 4)))
    return ok


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="class x every subset of parameters given as arrays (Miltersen-Schwartz: singles, pairs, all) x float/int dtype x length x "
            "offset into a value list with repeated elements and mixed b = 0 / b != 0; matrices of six shapes incl. 0-d, row x column broadcasting; prices, every analytic greek, greeks(), fdm greeks, "
            "volatility; objects built with the arrays and objects reached by set_param",
            bounds=dict(lengths=LEN[tier], fdm="single, pair and full subsets at lengths 1, 2, 3, 7" if tier == "quick" else "everywhere"),
            oracle="the same query on separate options with the scalar values (anchored to the models by C01, C02, C05, C06, C07)",
        ),
        assumptions=["arrays are documented for the vanilla options only"],
    )
