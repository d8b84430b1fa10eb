"""C25: reports name the right model and the current parameters and prices."""
import contextlib
import io
import itertools
import math
import re

import numpy as np

from mc.engines import CLASSES, sides, visible

PROP = "C25"
TECHNIQUE = "explicit-state enumeration of option states and set_param histories; every report parsed and compared with the model state"

TITLES = {
    "GBSOption": "Black Scholes Option", "BlackScholesOption": "Black Scholes Option", "Black76Option": "Black 1977 Option",
    "MiltersenSchwartzOption": "Miltersen Schwartz Option",
    "RollGeskeWhaleyOption": "Roll-Geske-Whaley Calls on Dividend Paying Stocks",
    "BAWAmericanApproxOption": "Barone-Adesi and Whaley Approximation",
    "BSAmericanApproxOption": "The Bjerksund and Stensland (1993) American Approximation Option",
    "CRRBinomialTreeOption": "CRR Binomial Tree Model", "JRBinomialTreeOption": "JR Binomial Tree Model",
    "TIANBinomialTreeOption": "TIAN Binomial Tree Model", "TrinomialTreeOption": "Trinomial Tree Model",
    "BionomialSpreadAllTypes": "Rubinstein Binomial Tree Spread Option Model",
    "BionomialMaxOption": "Binomial Tree Maximum Spread Option Model",
    "BionomialMinOption": "Binomial Tree Minimum Spread Option Model",
    "BionomialSpreadOption": "Binomial Tree Spread Option Model",
    "SpreadApproxOption": "Spread-Option Approximation Model",
}
VANILLA = ("GBSOption", "BlackScholesOption", "Black76Option")

ALT = {
    "S": [50.0, 130, 1e-3, 12345.678], "FT": [50.0, 130, 12345.678], "K": [80.0, 140, 7777.7], "t": [2.0, 0.25, 1 / 3, 1], "r": [0.0, 0.15, -0.01, 1 / 7],
    "b": [0.0, -0.05, 0.06, 0.1], "sigma": [0.8, 0.05, 2 / 3], "type": ["european"], "otype": ["european"], "n": [6, 1, 2], "option": [1, 2, 4, 7, 9], "K2": [60.0],
    "Pt": [0.8], "T": [1.0, 2.5], "sigmaS": [0.6], "sigmaE": [0.1], "sigmaF": [0.05], "rhoSE": [-0.3], "rhoSF": [0.3], "rhoEF": [-0.2], "KappaE": [0.5], "KappaF": [2.0],
    "td": [0.1], "D": [0.3, 0.0], "S1": [90.0], "S2": [150.0], "b1": [-0.05], "b2": [0.1], "sigma1": [0.6], "sigma2": [0.1], "rho": [0.4], "Q1": [0.7, 3], "Q2": [1.6],
}
RGW = {"S": [95.0, 1e-3], "K": [70.0, 140], "t": [0.5], "r": [0.01, 0.2], "sigma": [0.7], "td": [0.1], "D": [0.3, 12.0]}
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)"


def domain(name):
    base = CLASSES[name][1]
    dom = {}
    for p in base:
        a = (RGW if name.startswith("Roll") else ALT).get(p, [])
        if "S1" in base and p == "K":
            a = [30.0, -5]
        if p == "r" and name in ("BAWAmericanApproxOption", "BSAmericanApproxOption"):
            a = [0.01, 0.15, 1 / 7]
        dom[p] = list(a)
    return dom


def cases(tier):
    out = []
    for name, (cls, base) in CLASSES.items():
        dom = domain(name)
        out.append(dict(part="state", cls=name, how="new", vals=[]))
        singles = [(p, v) for p in dom for v in dom[p]]
        for pv in singles:
            for how in ("new", "set"):
                out.append(dict(part="state", cls=name, how=how, vals=[pv]))
        pairs = [(a, b) for a, b in itertools.permutations(singles, 2) if a[0] != b[0]]
        if len(base) > 8 and tier == "quick":
            pairs = [q for q in pairs if q[0][0] == "n" or q[1][0] in ("otype", "option", "type")]
        elif tier == "quick":
            pairs = [q for i, q in enumerate(pairs) if q[0][1] == dom[q[0][0]][0]]
        for q in pairs:
            out.append(dict(part="state", cls=name, how="set", vals=list(q)))
        if name in VANILLA:
            out.append(dict(part="nosigma", cls=name))
            out.append(dict(part="array", cls=name))
        if name == "MiltersenSchwartzOption":
            out.append(dict(part="array", cls=name))
    return out


def shown(o):
    """The texts of one option through every channel; channels must agree."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ret = o.summary()
    quiet = io.StringIO()
    with contextlib.redirect_stdout(quiet):
        texts = dict(printed=buf.getvalue(), returned=o.summary(printer=False), str=str(o), fmt=f"{o}", explicit_ret=ret)
        r = repr(o)
    buf2 = io.StringIO()
    with contextlib.redirect_stdout(buf2):
        o.summary(printer=True)
    texts["printed_true"] = buf2.getvalue()
    return texts, r, quiet.getvalue()


def parse(text):
    """Title, parameters and price lines of a report."""
    m = re.match(r"\s*Title:\s*(.*?)\s+Valuation\s*\n", text)
    title = m.group(1) if m else None
    body, _, prices = text.partition("Option Price:")
    params = {}
    for k, v in re.findall(r"^\s*(\w+) = (.*?)(?=^\s*\w+ = |\Z)", body.split("Parameters:", 1)[-1], re.M | re.S):
        params[k] = v.strip()
    rows = re.findall(r"^\s*(call|put)(?:-(\w+))?:\s*(" + NUM + r")(?:,\s*trigger:\s*(" + NUM + r"))?\s*$", prices, re.M)
    return title, params, rows, prices


def same(a, b, tol=1e-6):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= tol * max(1, abs(b) * 1e-9)


def value_shown(text, v):
    if isinstance(v, str) or v is None:
        return text.strip("'\"") == str(v)
    try:
        return float(text) == float(v)
    except ValueError:
        return False


def run(case, R):
    {"state": state, "nosigma": nosigma, "array": array}[case["part"]](case, R)


def expected(name, vals):
    want = dict(CLASSES[name][1])
    for p, v in vals:
        want[p] = v
    return want


def with_b(name, want):
    if name == "Black76Option":
        want = dict(want, b=0)
    return want


def channels(o, R, d):
    before = visible(o)
    texts, rep, noise = shown(o)
    R.trace()
    if visible(o) != before:
        R.fail("mutates", "reporting changed the option", **d)
        return None
    if texts["explicit_ret"] is not None:
        R.fail("printer", "summary() both prints and returns", **d)
        return None
    if noise:
        R.fail("noise", f"str/repr/summary(printer=False) printed {noise!r}", **d)
        return None
    ref = texts["returned"]
    if not isinstance(ref, str):
        R.fail("printer", f"summary(printer=False) returned {ref!r}", **d)
        return None
    for k in ("printed", "printed_true", "str", "fmt"):
        if texts[k].rstrip("\n") != ref.rstrip("\n"):
            R.fail("channel", f"{k} shows {texts[k]!r}, returned text is {ref!r}", **d)
            return None
    return ref, rep


def header(name, text, rep, want, order, R, d):
    title, params, rows, prices = parse(text)
    if title != TITLES[name]:
        R.fail("title", f"{name} reports title {title!r}", **d)
        return None
    if set(params) - {"b"} != set(want) - {"b"} or not all(value_shown(params[k], want[k]) for k in params):
        R.fail("params", f"report shows {params}, the option has {want}", **d)
        return None
    m = re.fullmatch(re.escape(name) + r"\((.*)\)", rep, re.S)
    if not m:
        R.fail("repr", f"repr is {rep!r}", **d)
        return None
    got = [x.strip() for x in m.group(1).split(",")]
    options = [[want.get(k) for k in order]] + ([[v for k, v in want.items() if k != "b"]] if name == "Black76Option" else [])
    if not any(len(got) == len(w) and all(value_shown(g, v) for g, v in zip(got, w)) for w in options):
        R.fail("repr", f"repr is {rep!r}, the option has {want}", **d)
        return None
    return rows, prices


def state(case, R):
    name, vals = case["cls"], [tuple(v) for v in case["vals"]]
    cls, base = CLASSES[name]
    want = with_b(name, expected(name, vals))
    d = dict(cls=name, how=case["how"], changes=vals)
    if case["how"] == "new":
        o = cls(**expected(name, vals))
    else:
        o = cls(**base)
        str(o)  # a report before the change must not stick
        for p, v in vals:
            o.set_param(p, v)
            repr(o)
    R.state()
    R.trans(len(vals))
    res = channels(o, R, d)
    if res is None:
        return
    text, rep = res
    h = header(name, text, rep, want, list(o.get_params()), R, d)
    if h is None:
        return
    rows, prices = h
    style = want.get("type", want.get("otype"))
    if [r[0] for r in rows] != sides(name):
        R.fail("prices", f"report shows price rows {rows}", text=text, **d)
        return
    for side, st, val, trig in rows:
        v = getattr(o, side)()
        if style is not None and st != style:
            R.fail("style", f"price row is labelled {side}-{st}, the option is {style}", **d)
            return
        if isinstance(v, dict):
            if trig == "" or not same(trig, v["TriggerPrice"]):
                R.fail("trigger", f"{side} trigger shown {trig!r}, call() says {v['TriggerPrice']}", **d)
                return
            v = v["OptionPrice"]
        if not same(val, v):
            R.fail("prices", f"{side} shown {val}, price is {v}", **d)
            return
        R.outcome((name, side, val))
    if name == "RollGeskeWhaleyOption":
        m = re.search(r"Optimal to Exercise Call Option: (True|False)", text)
        flag = bool(o.is_call_optimal())
        if not m or (m.group(1) == "True") != flag:
            R.fail("flag", f"exercise flag {m and m.group(0)}, is_call_optimal() is {flag}", **d)
            return
    # the report follows the option, not a copy of it or an earlier state
    c = o.copy()
    if c.summary(printer=False) != text or repr(c) != rep:
        R.fail("copy", "a copy reports differently", **d)
    R.sample(dict(case, text=text))


def nosigma(case, R):
    name = case["cls"]
    cls, base = CLASSES[name]
    part = {k: v for k, v in base.items() if k != "sigma"}
    for S, K in [(100.0, 95.0), (50.0, 80.0)]:
        key = "FT" if "FT" in base else "S"
        for how in ("new", "set"):
            args = dict(part, **{key: S, "K": K})
            if how == "new":
                o = cls(**args)
            else:
                o = cls(**dict(args, sigma=0.4))
                str(o)
                o.set_param("sigma", None)
            d = dict(cls=name, how=how, S=S, K=K)
            R.state()
            res = channels(o, R, d)
            if res is None:
                return
            h = header(name, res[0], res[1], with_b(name, dict(args, sigma=None)), list(o.get_params()), R, d)
            if h is None:
                return
            if h[0]:
                R.fail("nosigma", f"prices {h[0]} shown without a volatility", **d)
                return
            # once given a volatility the prices appear
            o.set_param("sigma", 0.4)
            rows = parse(str(o))[2]
            if [r[0] for r in rows] != ["call", "put"] or not all(same(r[2], getattr(o, r[0])()) for r in rows):
                R.fail("prices", f"report shows {rows} after the volatility is set", **d)
                return
            R.outcome((name, how, S))
    R.sample(dict(case, text=res[0]))


def numbers(s):
    return [float(x) for x in re.findall(NUM, s)]


def array(case, R):
    """Arrays of every length 1..9 and 0-d arrays in every parameter: what is shown are the (rounded) current values."""
    name = case["cls"]
    cls, base = CLASSES[name]
    for p in base:
        for n in range(0, 10):
            arr = np.array(float(base[p])) if n == 0 else float(base[p]) * np.linspace(0.9, 1.1, n) if p not in ("t",) else float(base[p]) * np.linspace(0.8, 1.0, n)
            for how in ("new", "set"):
                if how == "new":
                    o = cls(**dict(base, **{p: arr}))
                else:
                    o = cls(**base)
                    str(o)
                    o.set_param(p, arr)
                d = dict(cls=name, param=p, length=n, how=how)
                R.state()
                res = channels(o, R, d)
                if res is None:
                    return
                text, rep = res
                title, params, _, prices = parse(text)
                if title != TITLES[name]:
                    R.fail("title", f"{name} reports title {title!r}", **d)
                    return
                call, _, put = prices.partition("put")
                for what, got, want in (("param", params.get(p, ""), arr), ("call", call, o.call()), ("put", put, o.put())):
                    g = numbers(got)
                    short = n > 6
                    w = list(np.atleast_1d(want).astype(float))
                    if short:
                        w = w[:3] + w[-3:] if "..." in got else w
                    tol = 0.00501 if (short or what != "param") else 1e-6
                    if len(g) != len(w) or any(abs(x - y) > tol + 1e-7 * abs(y) for x, y in zip(g, w)):
                        R.fail("array." + what, f"report shows {got.strip()!r}, the values are {w}", **d)
                        return
                if not rep.startswith(name + "("):
                    R.fail("repr", f"repr is {rep!r}", **d)
                    return
                R.outcome((name, p, n))
    R.sample(dict(case, text=text))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="16 classes x every single parameter change (constructed and set) x pairs of set_param changes x six report channels; missing sigma; 0-d arrays and arrays of length 1..9 in every parameter of the array-capable classes",
            bounds=dict(set_param_history=2),
            oracle="the parameter model (base values overwritten by the changes) and the option's own call()/put()",
        ),
        assumptions=["titles and class names are those of the pinned release", "prices agree to the six decimals shown (two for arrays)"],
    )
