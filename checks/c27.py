"""C27: unusable requests are refused, not answered wrongly."""
import itertools
import warnings

import numpy as np

from mc.core import in_child
from mc.engines import CLASSES, price, sides, visible

PROP = "C27"
TECHNIQUE = "explicit-state enumeration of (option state x refusable request) and of request histories; refusal table as the model"

VANILLA = ("GBSOption", "BlackScholesOption", "Black76Option")
NOARRAY = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
TREES = ("CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption",
         "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")
ANALYTIC = ("delta", "theta", "vega", "rho", "lamb", "gamma")
SIDED = ("delta", "theta", "rho", "lamb")


def no_sigma_requests():
    out = [("call", {}), ("put", {}), ("greeks", {}), ("greeks", {"call": False}), ("c_of_c", {}), ("c_of_c", {"call": False})]
    for m in ANALYTIC:
        for method in ("analytic", "fdm"):
            for c in ((True, False) if m in SIDED else (None,)):
                kw = {"method": method}
                if c is not None:
                    kw["call"] = c
                out.append((m, kw))
    return out


# arrays of more than one value
ARRAYS = [("two", lambda x: np.array([x, x * 1.1])), ("equal", lambda x: np.array([x, x])), ("seven", lambda x: np.full(7, x)), ("matrix", lambda x: np.full((2, 2), x)), ("ints", lambda x: np.array([1, 2]))]
BAD_NAMES = ["zz", "s", "Sigma", "", "_S", "strike", "S ", "FT1", "price"]


def number(v):
    """No number (nan, None) is a refusal too."""
    if v is None or np.all(np.isnan(np.asarray(v, dtype=float))):
        raise ValueError("no number")
    return v


def refusals(name, o_params, tier):
    """The model: requests that must raise, as (label, exception types or None for any, function of a live option)."""
    out = []
    cls, base = CLASSES[name]
    known = set(base) | ({"S", "b"} if name == "Black76Option" else set())
    for bad in BAD_NAMES:
        if bad not in known:
            out.append((f"set_param({bad!r})", TypeError, lambda o, bad=bad: o.set_param(bad, 1.0)))
    for bad in ("zz", "Sigma", "price"):
        out.append((f"new({bad!r})", TypeError, lambda o, bad=bad: cls(**dict(base, **{bad: 1.0}))))
    if name in NOARRAY:
        for p in base:
            for lab, f in ARRAYS:
                out.append((f"set_param({p!r}, {lab} array)", TypeError, lambda o, p=p, f=f: o.set_param(p, f(base[p]))))
                out.append((f"new({p!r}={lab} array)", TypeError, lambda o, p=p, f=f: cls(**dict(base, **{p: f(base[p])}))))
        for p, q in itertools.combinations(base, 2):
            out.append((f"new({p!r}, {q!r} arrays)", TypeError, lambda o, p=p, q=q: cls(**dict(base, **{p: np.array([base[p]] * 3), q: np.array([base[q]] * 3)}))))
    if name in VANILLA:
        if o_params.get("sigma", 1) is None:
            for m, kw in no_sigma_requests():
                out.append((f"{m}({kw})", ValueError, lambda o, m=m, kw=kw: getattr(o, m)(**kw)))
        elif np.any(np.asarray(o_params.get("b", 0)) != 0):
            for c in (True, False):
                out.append((f"rho(call={c}, fdm)", ValueError, lambda o, c=c: o.rho(call=c, method="fdm")))
    if name == "RollGeskeWhaleyOption" and o_params["sigma"] is None:
        for m in ("call", "delta", "theta", "vega", "rho", "lamb", "gamma", "greeks"):
            out.append((f"{m}()", None, lambda o, m=m: getattr(o, m)()))
    if name in TREES:
        for n in (0, 2.5):
            out.append((f"n={n}", None, lambda o, n=n: [getattr(cls(**dict(base, n=n)), s)() for s in sides(name)[:1]]))
        key = "type" if "type" in base else "otype"
        for style in ("American", "EUROPEAN", "bermudan", "", "amer", None):
            for s in ("call", "put"):
                out.append((f"{key}={style!r} {s}", None, lambda o, style=style, s=s: getattr(cls(**dict(base, **{key: style})), s)()))
            out.append((f"set_param({key!r}, {style!r})", ValueError, lambda o, style=style: o.set_param(key, style)))
        if "option" in base:
            for k in (0, 10, -1, "max", None):
                for s in ("call", "put"):
                    for ot in ("american", "european"):
                        out.append((f"option={k!r} {s} {ot}", None, lambda o, k=k, s=s, ot=ot: number(getattr(cls(**dict(base, option=k, otype=ot)), s)())))
    return out


def states(name):
    """Parameter states in which requests are made."""
    base = CLASSES[name][1]
    out = [dict(base)]
    if name in VANILLA:
        out.append(dict(base, sigma=None))
        out.append(dict(base, sigma=None, K=120.0, t=2))
        if "b" in base:
            out += [dict(base, b=b) for b in (0.06, -0.02, 1e-9)]
            out += [dict(base, b=b) for b in (np.array([0.0, 0.1]), np.array([0.05, 0.0, 0.0]))]
            out.append(dict(base, b=0))
    elif name == "RollGeskeWhaleyOption":
        out.append(dict(base, sigma=None))
    return out


def cases(tier):
    out = []
    for name in CLASSES:
        for i in range(len(states(name))):
            for how in ("new", "set"):
                out.append(dict(part="refuse", cls=name, state=i, how=how, tier=tier))
    for name in VANILLA + ("RollGeskeWhaleyOption",):
        out.append(dict(part="nosigma", cls=name))
    out.append(dict(part="rho"))
    for name in NOARRAY:
        out.append(dict(part="size1", cls=name))
    for name in VANILLA:
        out.append(dict(part="method", cls=name))
    for name in VANILLA + ("RollGeskeWhaleyOption",):
        out.append(dict(part="unreachable", cls=name))
    return out


def make(name, val, how):
    cls, base = CLASSES[name]
    if how == "new":
        return cls(**val)
    o = cls(**base)
    for p, v in val.items():
        if v is not base[p]:
            o.set_param(p, v)
    return o


def observe(name, o):
    out = []
    for side in sides(name):
        try:
            out.append(np.asarray(price(o, side), dtype=float).tolist())
        except Exception as e:
            out.append(type(e).__name__)
    return out


def refused(R, o, label, exc, f, d):
    """True if f raised what it has to; the option must be untouched by the attempt."""
    before = visible(o)
    R.trans()
    R.trace()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = f(o)
    except Exception as e:
        if exc is not None and not isinstance(e, exc):
            R.fail("exception.type", f"{label} raises {type(e).__name__}: {e}, expected {exc.__name__}", **d)
            return False
    else:
        R.fail("answered", f"{label} is answered with {v!r}", **d)
        return False
    if visible(o) != before:
        R.fail("state", f"the refused {label} changed the option", **d)
        return False
    return True


def run(case, R):
    {"refuse": refuse, "nosigma": nosigma, "rho": rho, "size1": size1, "method": method, "unreachable": unreachable}[case["part"]](case, R)


def fresh(name, i):
    return observe(name, CLASSES[name][0](**states(name)[i]))


def refuse(case, R):
    name, val = case["cls"], states(case["cls"])[case["state"]]
    d = dict(cls=name, params={k: str(v) for k, v in val.items()}, how=case["how"])
    want = in_child(fresh, name, case["state"])
    table = refusals(name, val, case["tier"])
    for label, exc, f in table:
        o = make(name, val, case["how"])
        R.state()
        if not refused(R, o, label, exc, f, d):
            return
        if observe(name, o) != want:
            R.fail("after", f"after {label} was refused the option answers {observe(name, o)}, a fresh one {want}", **d)
            return
        R.outcome((name, case["state"], label))
    # histories: two refusals in a row on one object, queries in between
    some = [r for r in table if not r[0].startswith("new(")]
    if case["tier"] == "quick":
        some = some[:: max(1, len(some) // 12)]
    for a, b in itertools.product(some, repeat=2):
        o = make(name, val, case["how"])
        R.state()
        for label, exc, f in (a, b):
            if not refused(R, o, label, exc, f, dict(d, history=[a[0], b[0]])):
                return
        if observe(name, o) != want:
            R.fail("after", f"after {a[0]}, {b[0]} were refused the option answers {observe(name, o)}, a fresh one {want}", **d)
            return
    R.sample(dict(case, refused=[r[0] for r in table[:5]]))


def nosigma(case, R):
    """Without a volatility the option still inverts prices, and comes back to life once it has one."""
    name = case["cls"]
    cls, base = CLASSES[name]
    part = {k: v for k, v in base.items() if k != "sigma"}
    for true in (0.15, 0.3, 0.7):
        full = cls(**dict(base, sigma=true))
        for side in sides(name):
            p = getattr(full, side)()
            for how in ("new", "set"):
                o = cls(**part) if how == "new" else cls(**base)
                if how == "set":
                    o.set_param("sigma", None)
                before = visible(o)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    v = o.volatility(p) if name == "RollGeskeWhaleyOption" else o.volatility(p, call=side == "call")
                R.state()
                R.trace()
                d = dict(cls=name, sigma=true, side=side, how=how)
                if not R.close(v, true, 1e-5, "volatility", "implied volatility without a sigma", **d):
                    return
                if any("sigma is not None" in str(x.message) for x in w):
                    R.fail("warning", f"warns {w[0].message} although sigma is missing", **d)
                    return
                if visible(o) != before:
                    R.fail("state", "volatility() changed the option", **d)
                    return
                try:
                    getattr(o, side)()
                    R.fail("answered", "priced without a volatility after volatility()", **d)
                    return
                except ValueError:
                    pass
                o.set_param("sigma", true)
                if getattr(o, side)() != p:
                    R.fail("after", "price after the volatility is set differs", **d)
                    return
                R.outcome((name, side, true, how))
    R.sample(dict(case, v=float(v)))


def rho(case, R):
    """Numeric rho is allowed exactly when b is zero (then it agrees with the closed form)."""
    for name in VANILLA:
        cls, base = CLASSES[name]
        bs = [0.0, 0, np.float64(0.0), np.array([0.0, 0.0])] if "b" in base else [None]
        for b in bs:
            for c in (True, False):
                for how in ("new", "set"):
                    if b is None:
                        o = cls(**base)
                    elif how == "new":
                        o = cls(**dict(base, b=b))
                    else:
                        o = cls(**base)
                        o.set_param("b", b)
                    R.state()
                    R.trace()
                    if not R.close(o.rho(call=c, method="fdm"), o.rho(call=c), 1e-3, "rho", "numeric rho for b = 0", cls=name, b=str(b), call=c, how=how):
                        return
                    R.outcome((name, str(b), c))
    R.sample(dict(case))


def size1(case, R):
    """Arrays of one value are not refused and price like the value."""
    name = case["cls"]
    cls, base = CLASSES[name]
    for p in base:
        o = cls(**dict(base, **{p: np.array([base[p]])}))
        R.state()
        R.trace()
        for side in sides(name):
            want = float(price(cls(**base), side))
            R.close(np.asarray(price(o, side), dtype=float).ravel(), [want], 1e-12 * (1 + abs(want)), "size1", "price with a one-element array", cls=name, param=p, side=side)
        R.outcome((name, p))
    R.sample(dict(case))


def method(case, R):
    """An unknown method name never yields a number."""
    name = case["cls"]
    cls, base = CLASSES[name]
    for m in ANALYTIC:
        for bad in ("xxx", "", "FDM", "Analytic", "numeric", None, 1):
            for c in ((True, False) if m in SIDED else (None,)):
                o = cls(**base)
                kw = {} if c is None else {"call": c}
                R.state()
                R.trace()
                before = visible(o)
                try:
                    v = getattr(o, m)(method=bad, **kw)
                except Exception:
                    v = None
                if v is not None:
                    R.fail("method", f"{m}(method={bad!r}) gives {v!r}", cls=name)
                    return
                if visible(o) != before:
                    R.fail("state", f"{m}(method={bad!r}) changed the option", cls=name)
                    return
                R.outcome((name, m, str(bad)))
    R.sample(dict(case))


def unreachable(case, R):
    """Prices no volatility reproduces (above every model price, below the value without volatility, negative)
    are refused, alone and as one element of an array; the option is untouched and still inverts a possible price."""
    name = case["cls"]
    cls, base = CLASSES[name]
    under = "FT" if "FT" in base else "S"
    rgw = name == "RollGeskeWhaleyOption"
    for sigma, S, t in itertools.product((None, 0.3), (50.0, 90.0, 100.0, 200.0), (0.25, 2.0) if not rgw else (0.5,)):
        par = dict(base, **{under: S, "sigma": sigma, "t": t})
        K, r = par["K"], par["r"]
        for c in (True, False) if not rgw else (True,):
            side = "call" if c else "put"
            # the smallest model price, reached without volatility, and what the price can resolve
            if rgw:
                low = max(S - par["D"] * np.exp(-r * par["td"]) - K * np.exp(-r * t), S - K, 0.0)
            else:
                f = S * np.exp((par.get("b", 0.0) - r) * t) - K * np.exp(-r * t)
                low = max(f if c else -f, 0.0)
            bad = [k * max(S, K) for k in (1.5, 10.0, 1e6)] + [-1e-2 * S, -5.0, -S] + [low * k for k in (0.9, 0.5, 0.01) if low > 0.05 * S]
            good = float(getattr(cls(**dict(par, sigma=0.35)), side)())
            kw = {} if rgw else dict(call=c)
            want = float(cls(**dict(par, sigma=None)).volatility(good, **kw))
            o = cls(**par)
            for p in bad:
                R.state()
                d = dict(cls=name, S=S, t=t, sigma=sigma, lowest=float(low))
                todo = [(f"volatility({p}, {side})", lambda o: o.volatility(p, **kw)), (f"volatility({p}, {side}, verbose)", lambda o: o.volatility(p, verbose=True, **kw))]
                if not rgw:
                    for arr in ([p, good], [good, good, p], [p, p]):
                        todo.append((f"volatility({arr}, {side})", lambda o, arr=arr: o.volatility(np.array(arr), **kw)))
                for label, f in todo:
                    if not refused(R, o, label, Exception, f, d):
                        return
                got = float(o.volatility(good, **kw))
                if got != want:
                    R.fail("after", f"after refused prices volatility({good}) is {got}, of a fresh option {want}", **d)
                    return
                R.outcome((name, S, c, t, round(p, 3)))
    R.sample(dict(case))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="unknown parameter names (set and constructor), arrays of length 2, 3, 7 and 2x2 in every parameter and pair of parameters of the scalar-only classes, every price/greek without sigma, numeric rho with every kind of non-zero b, unknown payoff numbers and exercise styles, zero and fractional steps, unknown method names, market prices above, below and of the wrong sign (alone, verbose, as one element of an array)",
            bounds=dict(history="all ordered pairs of refused requests on one object"),
            oracle="refusal table; everything visible of the option (parameters, text, prices) before = after; prices afterwards equal those of a fresh process",
        ),
        assumptions=["an unknown `method` may raise or return None, never a number"],
    )
