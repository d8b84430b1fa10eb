"""C10: queries are pure; objects, copies, returned values and inputs are independent of each other.

Every operation sequence up to the depth bound is executed on a small world of interacting objects
(two options a, b, later a copy c).  After every operation each object must behave like a fresh option
with its own logical parameters (computed by a forked process without history) and each answer must be
the answer a fresh option gives.
"""
import contextlib
import io
import itertools

import numpy as np

import finoptions as fo
from mc.core import close_figures, in_child, jsonable
from mc.engines import CLASSES, HN_BASE, TREES, price, sides
from checks.c09 import equal

PROP = "C10"
TECHNIQUE = "exhaustive enumeration of operation sequences on interacting real objects vs isolated fresh objects"
CHUNKS = 128
CPU_LIMIT = 200.0

SMALL = {"n": 2}
OTHER = {  # parameters of the second object
    "S": 90.0, "FT": 90.0, "K": 100.0, "t": 0.5, "sigma": 0.5, "td": 0.2, "r": 0.02, "S1": 100.0, "K2": 90.0, "sigmaS": 0.4, "Q1": 1.3, "T": 0.8, "type": "european", "otype": "european",
}
mc = fo.monte_carlo_options
EPS = np.array([[0.3, -1.2], [1.0, 0.5], [-0.4, 0.1]])


def mc_opt(**kw):
    d = dict(mc_loops=2, path_length=2, mc_paths=3, S=100.0, K=98.0, t=0.5, r=0.05, b=0.02, sigma=0.4)
    d.update(kw)
    return mc.MonteCarloOption(**d, Innovation=mc.NormalSobolInnovations, Path=mc.WienerPath)


MC_FLAGS = [(True, True, "PlainVanillaPayoff"), (False, True, "PlainVanillaPayoff"), (True, False, "ArithmeticAsianPayoff"), (False, False, "ArithmeticAsianPayoff")]


# models of the world: name -> (constructor, base parameters)
def models():
    out = {}
    for name, (cls, base) in CLASSES.items():
        out[name] = (cls, {k: SMALL.get(k, v) for k, v in base.items()})
    for name, p in (("GBSOption", "K"), ("Black76Option", "FT"), ("MiltersenSchwartzOption", "K"), ("GBSOption", "b")):
        cls, base = CLASSES[name]
        arr = np.array([base[p], 0.0 if p == "b" else base[p] * 1.1])
        out[f"{name}[{p}]"] = (cls, dict(base, **{p: arr}))
    out["HestonNandiOption"] = (fo.heston_nandi_options.HestonNandiOption, dict(HN_BASE))
    for anti, std, payoff in MC_FLAGS:
        lab = "MonteCarloOption[" + ("anti " if anti else "") + ("std " if std else "") + payoff + "]"
        out[lab] = (mc_opt, dict(S=100.0, K=98.0, t=0.5, r=0.05, b=0.02, sigma=0.4, eps=EPS.copy(), antithetic=anti, standardization=std, Payoff=getattr(mc, payoff)))
    return out


MODELS = models()


def num(x):
    if isinstance(x, dict):
        return {k: num(v) for k, v in x.items()}
    if isinstance(x, (np.ndarray, np.generic, float, int)):
        return np.asarray(x, dtype=float).ravel().tolist()
    return repr(x)


def queries(name, cheap):
    """name -> function(option) of the read-only operations of a class."""
    base = name.split("[")[0]
    q = {"call": lambda o: num(o.call())}
    if base != "RollGeskeWhaleyOption":
        q["put"] = lambda o: num(o.put())
    if base in CLASSES:
        q["str"] = lambda o: str(o)
        q["repr"] = lambda o: repr(o)
        q["print"] = lambda o: o.summary() or ""
        gbs = base in ("GBSOption", "BlackScholesOption", "Black76Option")
        rgw = base == "RollGeskeWhaleyOption"
        cl = () if rgw else (False,)
        q["greeks"] = lambda o: num(o.greeks(*cl))
        if not cheap or gbs:
            q["delta"] = lambda o: num(o.delta(*cl))
            q["theta"] = lambda o: num(o.theta(*cl))
            q["vega"] = lambda o: num(o.vega())
            q["gamma"] = lambda o: num(o.gamma())
            q["lamb"] = lambda o: num(o.lamb(*cl))
            if base != "MiltersenSchwartzOption":
                q["rho"] = lambda o: num(o.rho(*cl))
        if gbs:
            q["fdm delta"] = lambda o: num(o.delta(False, method="fdm"))
            q["fdm gamma"] = lambda o: num(o.gamma(method="fdm"))
            q["c_of_c"] = lambda o: num(o.c_of_c(False))
            q["volatility"] = lambda o: num(np.round(np.asarray(o.volatility(np.array([9.0, 16.0]) if "[" in name else 9.0), dtype=float), 9))
        if rgw:
            q["volatility"] = lambda o: num(round(float(o.volatility(5.0)), 9))
            q["optimal"] = lambda o: repr(o.is_call_optimal())
        if base in ("CRRBinomialTreeOption", "TrinomialTreeOption", "BionomialSpreadAllTypes", "BionomialMaxOption"):
            q["tree"] = lambda o: num(o.put(tree=True))
        if base in ("JRBinomialTreeOption", "TIANBinomialTreeOption", "CRRBinomialTreeOption", "TrinomialTreeOption"):
            q["calltree"] = lambda o: num(o.call(tree=True))
    if base == "HestonNandiOption":
        q["delta"] = lambda o: num(o.delta())
        q["gamma"] = lambda o: num(o.gamma())
    return q


def actions(name):
    """Operations that may legitimately change one object (or nothing)."""
    base = name.split("[")[0]
    acts = []
    if base in CLASSES:
        acts += ["a.set", "b.set", "copy", "c.set", "scribble params", "scribble arrays of c", "scribble greeks"]
        if base in [c.__name__ for c in TREES.values()]:
            acts += ["plot"]
    acts += ["scribble call", "new object"]
    if "Tree" in base or "Bionomial" in base:
        acts.append("scribble tree")
    return acts


def ops(name, cheap, everything=False):
    qs = list(queries(name, cheap))
    return ["a:" + q for q in qs] + ["b:" + q for q in (qs if everything else qs[:3])] + actions(name)


def cases(tier):
    out = []
    for name in MODELS:
        th = tier == "thorough"
        out.append(dict(tier=tier, cls=name, prefix=[], last=ops(name, False, True)))
        full = ops(name, False, th)
        for x in full:
            out.append(dict(tier=tier, cls=name, prefix=[x], last=full))
        if not th and name in HEAVY:
            continue
        acts = actions(name)
        mid = full if th else ops(name, True)
        for x in full if th and name not in HEAVY else acts:
            for y in mid:
                out.append(dict(tier=tier, cls=name, prefix=[x, y], last=full if th and name not in HEAVY else acts))
    for x in MODELS:
        out.append(dict(tier=tier, cross=x))
        for p in MODELS[x][1]:
            out.append(dict(tier=tier, memory=x, param=p))
    return out


HEAVY = ("HestonNandiOption", "RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")


def prepare(tier):
    """Fills the oracle table: every parameter state that can arise, each answer from its own forked process."""
    import concurrent.futures as cf
    import multiprocessing as mp

    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        for d in ex.map(oracle_table, list(MODELS)):
            _ORACLE.update(d)


def oracle_table(name):
    oracle = oracle_for(name)
    ctor, base = MODELS[name]
    pars = {"a": [dict(base)], "b": [other(name, base)], "c": []}
    if name.split("[")[0] in CLASSES:
        for who in ("a", "b"):
            p, v = setting(name, who)
            pars[who].append(dict(pars[who][0], **{p: v}))
        p, v = setting(name, "c")
        pars["c"] = pars["a"] + [dict(x, **{p: v}) for x in pars["a"]]
    for who, states in pars.items():
        for par in states:
            mk = lambda par=par: ctor(**par)
            if who != "c":
                for q, f in queries(name, False).items():
                    oracle(("q", q), par, lambda f=f: quiet(f, mk()))
            oracle("behaviour", par, lambda: quiet(lambda o: behaviour(name, o), mk()))
    return _ORACLE


def other(name, base):
    o = dict(base)
    for k in list(o):
        if k in OTHER and not isinstance(o[k], np.ndarray):
            o[k] = OTHER[k]
    if name.startswith("Miltersen"):
        o["t"] = 0.3
    if name == "HestonNandiOption":
        o.update(t=2, r=1e-4)
    if name.startswith("RollGeske"):
        o.update(S=85.0, K=80.0)
    return o


def setting(name, who):
    base = MODELS[name][1]
    p = {"a": "K", "b": "r", "c": "sigma"}[who]
    if p not in base:
        p = {"r": "KappaE", "sigma": "sigmaE"}.get(p, p) if "KappaE" in base else "sigma1"
    v = base[p]
    return p, (np.asarray(v) * 1.07 if isinstance(v, np.ndarray) else v * 1.25)


def behaviour(name, o):
    out = dict(call=num(o.call()))
    if name != "RollGeskeWhaleyOption":
        out["put"] = num(o.put())
    if hasattr(o, "get_params"):
        out["params"] = {k: repr(v) for k, v in o.get_params().items()}
        out["repr"] = repr(o)
    return jsonable(out)


class World:
    def __init__(self, name, R):
        self.name, self.R = name, R
        ctor, base = MODELS[name]
        self.par = {"a": dict(base), "b": other(name, base)}
        own = {k: {p: (v.copy() if isinstance(v, np.ndarray) else v) for p, v in self.par[k].items()} for k in self.par}
        self.given = [(k, p, v, v.copy()) for k in own for p, v in own[k].items() if isinstance(v, np.ndarray)]
        self.obj = {k: ctor(**own[k]) for k in own}

    def apply(self, op, oracle):
        name, R = self.name, self.R
        if op[1] == ":":
            who, q = op[0], op[2:]
            f = queries(name, False)[q]
            got = jsonable(quiet(f, self.obj[who]))
            want = oracle(("q", q), self.par[who], lambda: quiet(f, MODELS[name][0](**self.par[who])))
            R.trace()
            if not equal(got, want):
                return f"{who}.{q} answers {str(got)[:200]}, a fresh option {str(want)[:200]}"
            R.outcome((name, q, str(got)[:60]))
        elif op.endswith(".set"):
            who = op[0]
            if who in self.obj:
                p, v = setting(name, who)
                self.obj[who].set_param(p, v.copy() if isinstance(v, np.ndarray) else v)
                self.par[who] = dict(self.par[who], **{p: v})
        elif op == "copy":
            self.obj["c"] = self.obj["a"].copy()
            self.par["c"] = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.par["a"].items()}
        elif op == "scribble params":
            d = self.obj["a"].get_params()
            for k in list(d):
                d[k] = None
            d["zzz"] = 1
        elif op == "scribble arrays of c":
            if "c" not in self.obj:
                self.apply("copy", oracle)
            for k, v in self.obj["c"].get_params().items():
                if isinstance(v, np.ndarray):
                    v[...] = v * 2
                    self.par["c"][k] = self.par["c"][k] * 2
            # in-place writes into a parameter array are outside set_param: the copy is not used further
            del self.obj["c"], self.par["c"]
        elif op == "scribble greeks":
            g = self.obj["a"].greeks()
            scribble(g)
        elif op == "scribble call":
            scribble(self.obj["a"].call())
        elif op == "scribble tree":
            scribble(self.obj["a"].call(tree=True))
        elif op == "plot":
            quiet(lambda o: o.plot(call=True) and None, self.obj["a"])
            close_figures()
        elif op == "new object":
            ctor, base = MODELS[name]
            x = ctor(**other(name, base))
            quiet(lambda o: num(o.call()), x)
        else:
            raise KeyError(op)
        return None

    def check(self, oracle):
        for who, p, v, keep in self.given:
            if not np.array_equal(v, keep):
                return f"the array given to {who} as {p} was changed from {keep.tolist()} to {v.tolist()}"
        for who, o in self.obj.items():
            self.R.trace()
            got = jsonable(quiet(lambda o: behaviour(self.name, o), o))
            want = oracle("behaviour", self.par[who], lambda: quiet(lambda o: behaviour(self.name, o), MODELS[self.name][0](**self.par[who])))
            if not equal(got, want):
                bad = [k for k in want if not equal(got.get(k), want[k])]
                return f"{who} no longer behaves like an option with its parameters: {bad} {[got.get(k) for k in bad]} instead of {[want[k] for k in bad]}"
        return None


def scribble(x):
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, np.ndarray)):
                scribble(x[k])
            x[k] = -1.0
        x["zzz"] = 0
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
        x[...] = -7.0


def quiet(f, o):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            r = f(o)
        except Exception as e:
            return f"raised {type(e).__name__}"
    return (r + buf.getvalue()) if isinstance(r, str) else r


_ORACLE = {}


def oracle_for(name):
    def oracle(what, par, fn):
        key = (name, what, tuple((k, repr(v.tolist() if isinstance(v, np.ndarray) else v)) for k, v in par.items()))
        if key not in _ORACLE:
            _ORACLE[key] = in_child(lambda: jsonable(fn()))
        return _ORACLE[key]

    return oracle


def run(case, R):
    if "cross" in case:
        return cross(case, R)
    if "memory" in case:
        return memory(case, R)
    name = case["cls"]
    oracle = oracle_for(name)
    for op in case["last"]:
        w = World(name, R)
        seq = case["prefix"] + [op]
        R.state()
        for i, x in enumerate(seq):
            err = w.apply(x, oracle)
            R.trans()
            if err is None and (i == len(seq) - 1):
                err = w.check(oracle)
            if err:
                R.fail(f"{name}.{x}", f"{name}, after {seq[:i + 1]}: {err}"[:700], sequence=seq[: i + 1])
                return
    R.sample(dict(cls=name, sequence=seq))


def cross(case, R):
    """Everything is done with one class, then every other class must behave as if nothing had happened."""
    x = case["cross"]
    w = World(x, R)
    ox = oracle_for(x)
    others = {n: World(n, R) for n in MODELS if n != x}  # built before
    for op in ops(x, False, True):
        err = w.apply(op, ox)
        R.trans()
        if err:
            R.fail(f"{x}.{op}", f"{x} {op}: {err}"[:700])
            return
    for n, v in others.items():
        for world in (v, World(n, R)):
            R.state()
            err = world.check(oracle_for(n))
            if err:
                R.fail(f"cross.{n}", f"after using {x}, {n}: {err}"[:700])
                return


def neighbours(p, v):
    """Values that differ from v as little and as plainly as the parameter allows."""
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, np.ndarray):
        one = v.copy()
        one.flat[-1] = one.flat[-1] * 1.3 + 0.01
        tiny = v.copy()
        tiny.flat[0] = tiny.flat[0] * (1 + 3e-9) + 1e-12
        return [one, v[::-1].copy(), tiny]
    if isinstance(v, int) and p in ("n", "option"):
        return [v + 1]
    if p == "type" or p == "otype":
        return ["european" if v == "american" else "american"]
    if p == "Payoff":
        return [mc.ArithmeticAsianPayoff if v is mc.PlainVanillaPayoff else mc.PlainVanillaPayoff]
    if isinstance(v, (int, float)):
        if p == "t" and v >= 1 and isinstance(v, int):
            return [v + 1]
        return [v * 0.8 + (0.01 if v == 0 else 0.0), v * (1 + 3e-9) + (1e-12 if v == 0 else 0.0)]
    return []


def memory(case, R):
    """Options that differ in one parameter are evaluated one after the other: none may answer for another."""
    name, p = case["memory"], case["param"]
    ctor, base = MODELS[name]
    oracle = oracle_for(name)
    near = [dict(base, **{p: v}) for v in neighbours(p, base[p])]
    qs = queries(name, False)
    for par in near[:1] + [base] + near[1:] + [base]:
        for q, f in qs.items():
            if q in ("print", "volatility") and len(near) > 1 and par is near[-1]:
                continue
            keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in par.items()}
            got = jsonable(quiet(f, ctor(**keep)))
            want = oracle(("q", q), par, lambda: quiet(f, ctor(**par)))
            R.state()
            R.trace()
            R.outcome((name, p, q, str(got)[:60]))
            if not equal(got, want):
                R.fail(f"{name}.memory", f"{name}.{q} of an option with {p}={par[p]}, after options with other values of {p}, answers {str(got)[:200]}; without that history {str(want)[:200]}"[:700], param=p)
                return
    R.sample(dict(cls=name, param=p, values=[repr(x[p]) for x in near]))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet={n: ops(n, False) for n in ("GBSOption[K]", "CRRBinomialTreeOption", "BSAmericanApproxOption", "HestonNandiOption", "MonteCarloOption[PlainVanillaPayoff]") if n in MODELS},
            classes=list(MODELS),
            bounds="all sequences of 2 operations; 3 operations: " + ("all (first and last a mutation/copy for HN, BAW and two-asset lattices)" if tier == "thorough" else "first and last operation a mutation/copy, the middle from the cheap alphabet (not for HN, BAW, RGW and two-asset lattices)")
            + "; every ordered pair of classes: all operations of one, then behaviour of the other; every class x parameter: options that differ in that parameter alone (plainly, by one array element, by 3e-9) evaluated one after the other",
            oracle="each answer and each object's behaviour (prices, parameters, repr) equal those of a fresh option in a forked process without history",
        ),
        assumptions=["options share the parameter arrays they were given (as numpy users expect); only copies must not"],
    )
