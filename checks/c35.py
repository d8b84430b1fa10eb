"""C35: an interrupted query leaves no trace.

Fault injection on the real code: the query is stopped (Ctrl-C, or memory running out) at every source line of
finoptions it executes, then the option, a bystander and the query itself are used again and must answer as if
nothing had happened.
"""
import os
import sys
import warnings

import numpy as np

import finoptions as fo
from checks.c09 import equal
from checks.c10 import EPS, MODELS, other, queries, quiet
from mc.core import SRC, close_figures, jsonable
from mc.engines import CLASSES, TREES

PROP = "C35"
TECHNIQUE = "exhaustive fault injection: every crash point (source line occurrence) of every query on the real code, state after recovery compared with an undisturbed option"
CPU_LIMIT = 240.0
PREFIX = os.path.join(SRC, "finoptions") + os.sep
mc = fo.monte_carlo_options
KEEP = {"quick": 2, "thorough": 8}
MOST = {"quick": 150, "thorough": 2000}
FAULTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Tracer:
    """Counts the lines of finoptions executed; raises at the chosen one (for ever on: a retry in the code is stopped as well when `hard`)."""

    def __init__(self, stop=None, exc=None):
        self.n, self.stop, self.exc, self.places = 0, stop, exc, []

    def __call__(self, frame, event, arg):
        if event == "call" and not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if event == "line":
            self.n += 1
            if self.stop is None:
                self.places.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.n == self.stop:
                raise self.exc("stopped here")
        return self

    def run(self, f):
        sys.settrace(self)
        try:
            return "answer", f()
        except BaseException as e:
            if self.exc is not None and isinstance(e, self.exc):
                return "stopped", None
            raise
        finally:
            sys.settrace(None)


def points(places, keep, most):
    seen, last, out = {}, {}, []
    for i, p in enumerate(places):
        seen[p] = seen.get(p, 0) + 1
        last[p] = i + 1
        if seen[p] <= keep:
            out.append(i + 1)
    out = sorted(set(out) | set(last.values()))
    if len(out) > most:
        out = sorted({out[round(i * (len(out) - 1) / (most - 1))] for i in range(most)})
    return out


def operations(name):
    """queries, plots and set_param of a class, as functions of the option"""
    q = dict(queries(name, False))
    base = name.split("[")[0]
    if base in {c.__name__ for c in TREES.values()}:
        q["plot"] = lambda o: o.plot() and None
    if base in CLASSES:
        q["copy"] = lambda o: o.copy() and None
        q["set_param"] = lambda o: o.set_param(*change(name))
        q["unknown parameter"] = refused
    return q


def refused(o):
    try:
        o.set_param("no such parameter", 1.0)
    except TypeError:
        return "refused"


def change(name):
    base = MODELS[name][1]
    oth = other(name, base)
    p = [k for k in ("sigma", "sigmaS", "sigma1") if k in base][0]
    return p, oth[p]


SLOW = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "HestonNandiOption", "MiltersenSchwartzOption", "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")


def check_queries(name, tier):
    q = queries(name, False)
    keep = ["call", "put", "str", "tree"] + ([] if name.split("[")[0] in SLOW and tier == "quick" else ["delta", "gamma", "volatility", "vega"])
    return {k: q[k] for k in keep if k in q}


def cases(tier):
    return [dict(tier=tier, cls=name, query=k, fault=f) for name in MODELS for k in operations(name) for f in FAULTS] + [dict(tier=tier, cls="MonteCarloOption", part=p, fault=f) for p in ("Innovation", "Path", "Payoff") for f in ("ValueError", "KeyboardInterrupt")]


_WANT = {}


def answers(name, tier, o):
    return {k: jsonable(quiet(f, o)) for k, f in check_queries(name, tier).items()}


def want(name, tier, par):
    key = (name, tier, repr(par))
    if key not in _WANT:
        _WANT[key] = answers(name, tier, MODELS[name][0](**par))
    return _WANT[key]


def world():
    return (str(np.geterr()), str(warnings.filters[:3]))


def run(case, R):
    if "part" in case:
        return user_class(case, R)
    name, tier, qn = case["cls"], case["tier"], case["query"]
    ctor, base = MODELS[name]
    f = operations(name)[qn]
    exc = FAULTS[case["fault"]]
    tr = Tracer()
    o = ctor(**base)
    kind, ref = tr.run(lambda: jsonable(quiet(f, o)))
    R.maximum("crash_points_of_one_query", len(tr.places))
    pts = points(tr.places, KEEP[tier], MOST[tier])
    if tier == "quick" and (name.split("[")[0] in SLOW or len(tr.places) > 3000 or case["fault"] != "KeyboardInterrupt"):
        pts = points(tr.places, 1, 40 if len(tr.places) < 20000 else 14)
    bystander = other(name, base)
    for k in pts:
        o, by = ctor(**base), ctor(**bystander)
        before = world()
        kind, got = Tracer(k, exc).run(lambda: jsonable(quiet(f, o)))
        close_figures()
        R.state()
        R.trans()
        R.trace()
        R.count(kind)
        at = f"{os.path.relpath(tr.places[k - 1][0], SRC)}:{tr.places[k - 1][1]}"
        if world() != before:
            R.fail(f"{name}.{qn}.settings", f"{name}.{qn} stopped at {at}: numpy error or warning settings stay changed", at=k)
            return
        par = dict(base)
        if qn == "set_param":
            p, v = change(name)
            o.set_param(p, v)  # the user asks again
            par[p] = v
        elif qn in queries(name, False):
            again = jsonable(quiet(f, o))
            if not same(again, ref):
                R.fail(f"{name}.{qn}.again", f"{name}.{qn} stopped at {at} and asked again: {str(again)[:160]}, otherwise {str(ref)[:160]}"[:600], at=k)
                return
        for lab, x, pr in (("option", o, par), ("bystander", by, bystander)):
            if lab == "bystander" and k not in (pts[0], pts[len(pts) // 2], pts[-1]):
                continue
            if hasattr(x, "get_params") and not same(jsonable({a: b for a, b in x.get_params().items() if a in pr}), jsonable({a: pr[a] for a in x.get_params() if a in pr})):
                R.fail(f"{name}.{qn}.params", f"{name}.{qn} stopped at {at}: parameters of the {lab} are now {x.get_params()}"[:600], at=k)
                return
            a, w = answers(name, tier, x), want(name, tier, pr)
            R.outcome((name, qn, k, str(a["call"])))
            if not same(a, w):
                bad = [i for i in w if not same(a[i], w[i])][0]
                R.fail(f"{name}.{qn}.{bad}", f"{name}.{qn} stopped at {at}: the {lab} then answers {bad} = {str(a[bad])[:150]}, otherwise {str(w[bad])[:150]}"[:600], at=k)
                return
    R.sample(dict(case, lines=len(tr.places), crash_points=len(pts)))


def same(a, b):
    return repr(a) == repr(b) or equal(a, b)


class Trap(Exception):
    pass


def user_class(case, R):
    """a user's innovation, path or payoff class fails in one loop of a simulation; the option is then used again"""
    exc = dict(ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt)[case["fault"]]
    loops = 4
    for anti in (False, True):
        for std in (False, True):
            for pay in (mc.PlainVanillaPayoff, mc.ArithmeticAsianPayoff):
                for at in range(loops):
                    state = {"n": 0, "armed": True}

                    def tick(what):
                        if what == case["part"] and state["armed"]:
                            state["n"] += 1
                            if state["n"] == at + 1:
                                raise exc("user class fails")

                    class I(mc.Innovations):
                        n = 0

                        def sample_innovation(self, init=False):
                            tick("Innovation")
                            return EPS.copy()

                    class P(mc.WienerPath):
                        def generate_path(self):
                            tick("Path")
                            return super().generate_path()

                    class Y(pay):
                        def call(self):
                            tick("Payoff")
                            return super().call()

                        def put(self):
                            tick("Payoff")
                            return super().put()

                    mk = lambda: mc.MonteCarloOption(loops, 2, 3, 100.0, 98.0, 0.5, 0.05, 0.02, 0.4, I, P, Y, antithetic=anti, standardization=std)
                    state["armed"] = False
                    clean = {s: getattr(mk(), s)().tolist() for s in ("call", "put")}
                    for first in ("call", "put"):
                        o = mk()
                        state.update(n=0, armed=True)
                        R.state()
                        R.trans()
                        R.trace()
                        try:
                            v = getattr(o, first)()
                        except exc:
                            R.count("stopped")
                        else:
                            R.fail(f"MonteCarloOption.{case['part']}.swallowed", f"a {case['fault']} of the user's {case['part']} in loop {at + 1} is swallowed: {first}() = {v}", antithetic=anti, standardization=std)
                            return
                        state["armed"] = False
                        for s in ("call", "put", "call"):
                            got = getattr(o, s)().tolist()
                            R.outcome((anti, std, pay.__name__, s, str(got)))
                            if got != clean[s]:
                                R.fail(f"MonteCarloOption.{case['part']}.{s}", f"after a {case['fault']} of the user's {case['part']} in loop {at + 1} of {first}(): {s}() = {got}, otherwise {clean[s]}", antithetic=anti, standardization=std)
                                return
    R.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="every class (array-valued, Heston-Nandi and Monte Carlo included) x every query, report, plot, copy, refused and accepted set_param x every crash point x kind of fault; user-supplied Monte Carlo classes failing in each loop",
            bounds=dict(crash_points=f"the first {KEEP[tier]} and the last execution of every source line of finoptions, at most {MOST[tier]} per query (slow classes and memory faults in the quick tier: first and last, at most 40 or, beyond 20000 lines, 14)", faults=list(FAULTS)),
            oracle="afterwards the interrupted query, the option's other queries and an unrelated option of the class answer as without the fault; an interrupted set_param, repeated, gives the option with the new value; numpy error and warning settings are restored; a failing user class is not swallowed",
        ),
        assumptions=["faults strike between source lines of finoptions; code inside numpy, scipy and numdifftools runs to the next call back"],
    )
