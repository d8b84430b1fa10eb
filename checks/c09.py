"""C09: after any set_param history an option is exactly the fresh option with its final parameters.

Explicit-state search over the real objects.  A state is the canonical form of everything reachable
from the live object (core.canon), so hidden state left by an earlier event makes a new state with its
own futures.  Each state is re-reached by replaying its shortest history on a new object.  The oracle
for a parameter valuation is computed once by a fresh object in a forked process without history.
"""
import collections
import itertools

import numpy as np

from mc.core import canon, in_child, jsonable
from mc.engines import CLASSES, price, sides

PROP = "C09"
TECHNIQUE = "explicit-state BFS over set_param/query histories of real objects with full-state hashing vs fresh objects"
CHUNKS = 64
CPU_LIMIT = 300.0
MAX_STATES = 60000

ALT = {
    "S": [50.0, 130], "FT": [50.0, 130], "K": [80.0, 140], "t": [2.0, 0.25], "r": [0.0, 0.15], "b": [0.0, -0.05], "sigma": [0.8, None],
    "type": ["european"], "otype": ["european"], "n": [6], "option": [9], "K2": [60.0],
    "Pt": [0.8], "T": [1.0], "sigmaS": [0.6], "sigmaE": [0.1], "sigmaF": [0.05], "rhoSE": [-0.3], "rhoSF": [0.3], "rhoEF": [-0.2], "KappaE": [0.5], "KappaF": [2.0],
    "td": [0.1], "D": [0.3], "S1": [90.0], "S2": [150.0], "b1": [-0.05], "b2": [0.1], "sigma1": [0.6], "sigma2": [0.1], "rho": [0.4], "Q1": [0.7], "Q2": [1.6],
}
RGW = {"S": [95.0], "K": [70.0], "t": [0.5], "r": [0.01], "sigma": [0.7], "td": [0.1], "D": [0.3]}


def domain(name, tier):
    base = CLASSES[name][1]
    vanilla = name in ("GBSOption", "BlackScholesOption", "Black76Option")
    out = {}
    for p in base:
        alts = (RGW if name == "RollGeskeWhaleyOption" else ALT).get(p, [])
        if not vanilla:
            alts = [a for a in alts if a is not None][: 2 if tier == "thorough" and len(base) < 9 else 1]
        if "S1" in base and p == "K":
            alts = [30.0]
        if "S1" in base and p == "n" or p == "n" and name == "TrinomialTreeOption":
            alts = [4]
        out[p] = [base[p]] + alts
    return out


def depth_bound(name, tier):
    n = len(CLASSES[name][1])
    if n > 8:
        return 3 if tier == "quick" else (4 if n > 13 else 5)
    return None


def cases(tier):
    return [dict(tier=tier, cls=name) for name in CLASSES]


def observe(name, o):
    out = {"params": {k: repr(v) for k, v in o.get_params().items()}, "repr": None}
    for side in sides(name):
        try:
            out[side] = float(price(o, side))
        except Exception as e:
            out[side] = type(e).__name__
    try:
        out["repr"] = repr(o)
    except Exception as e:
        out["repr"] = type(e).__name__
    if name in ("GBSOption", "BlackScholesOption", "Black76Option"):
        for c in (True, False):
            try:
                out[f"greeks{c}"] = {k: float(v) for k, v in o.greeks(c).items()}
            except Exception as e:
                out[f"greeks{c}"] = type(e).__name__
    if name == "RollGeskeWhaleyOption":
        out["optimal"] = bool(o.is_call_optimal())
    if name == "BSAmericanApproxOption":
        out["trigger"] = [float(o.call()["TriggerPrice"]), float(o.put()["TriggerPrice"])]
    return jsonable(out)


def fresh_obs(name, val):
    return observe(name, CLASSES[name][0](**val))


def equal(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    return type(a) == type(b) and a == b


def run(case, R):
    name, tier = case["cls"], case["tier"]
    cls, base = CLASSES[name]
    dom = domain(name, tier)
    names = list(dom)
    alias = {"FT": "S"} if name == "Black76Option" else {}
    oracle = {}

    def want(val):
        key = tuple(map(repr, val.values()))
        if key not in oracle:
            oracle[key] = in_child(fresh_obs, name, val)
        return oracle[key]

    events = [(p, i) for p in names for i in range(len(dom[p]))]
    if alias:
        events += [("S", i) for i in range(len(dom["FT"]))]
    events.append(("query", 0))

    def apply(o, val, ev):
        p, i = ev
        if p == "query":
            for side in sides(name):
                try:
                    getattr(o, side)()
                except ValueError:
                    pass
            str(o)
            try:
                o.delta() if name == "RollGeskeWhaleyOption" else o.delta(call=False)
            except ValueError:
                pass
            return val
        q = {"S": "FT"}.get(p, p) if alias else p
        v = dom[q][i]
        o.set_param(p, v)
        return dict(val, **{q: v})

    def build(hist):
        o, val = cls(**base), dict(base)
        for ev in hist:
            val = apply(o, val, ev)
        return o, val

    start = []
    bound = depth_bound(name, tier)
    o, val = build(start)
    check(R, name, start, o, val, want)
    seen = {canon(o)}
    frontier = collections.deque([start])
    deepest = 0
    while frontier:
        hist = frontier.popleft()
        deepest = max(deepest, len(hist))
        if bound is not None and len(hist) >= bound:
            continue
        for ev in events:
            if tier == "quick" and ev[1] > 1 and len(hist) > 1:
                continue  # third values only among the first two events
            o, val = build(hist + [ev])
            R.trans()
            if not check(R, name, hist + [ev], o, val, want):
                return
            k = canon(o)
            if k not in seen and len(seen) < MAX_STATES:
                seen.add(k)
                frontier.append(hist + [ev])
    R.state(len(seen))
    R.count("parameter_valuations", len(oracle))
    R.maximum("history_length", deepest)
    if len(seen) >= MAX_STATES:
        R.count("state_cap_hit")
    R.sample(dict(cls=name, longest_history=[[p, repr(dom.get(p, [None])[i])] for p, i in hist]))


def check(R, name, hist, o, val, want):
    got = observe(name, o)
    R.trace()
    exp = want(val)
    R.outcome((name, str(exp)))
    if not equal(got, exp):
        bad = [k for k in exp if not equal(got.get(k), exp[k])]
        R.fail(f"{name}.{bad[0] if bad else 'keys'}", f"{name} after {hist}: {bad} = {[got.get(k) for k in bad]}, a fresh option gives {[exp[k] for k in bad]}"[:600],
               history=[list(e) for e in hist], params={k: repr(v) for k, v in val.items()})
        return False
    return True


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="events set_param(p, v) for every parameter p and v in its domain (base value included, so values are set back and repeated), "
            "and 'query' (call, put, str, delta); classes: all with set_param",
            bounds=dict(domains={n: jsonable(domain(n, tier)) for n in CLASSES}, depth={n: depth_bound(n, tier) or "closure" for n in CLASSES},
                        third_values="only among the first two events" if tier == "quick" else "anywhere", state_cap=MAX_STATES),
            oracle="price of both sides, get_params, repr, greeks (GBS family), trigger price, exercise flag of a fresh object in a forked process without history",
        ),
        assumptions=["two live objects with the same canonical state (all attributes, recursively) have the same futures"],
    )
