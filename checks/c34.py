"""C34: copied, pickled or transported options are the same option, and live on their own.

World: an original option with a history, a chain of up to two clones, and later changes to either.
Every history x clone chain x change is executed; each object must answer like a fresh option with its parameters.
"""
import copy
import itertools
import pickle

import numpy as np

from checks.c10 import MODELS, num, other, queries, quiet
from checks.c09 import equal
from mc.core import in_child, jsonable
from mc.engines import CLASSES

PROP = "C34"
TECHNIQUE = "exhaustive enumeration of history x clone chain x later change on real objects, against options built afresh"
CPU_LIMIT = 240.0

CLONES = {
    "copy()": lambda o: o.copy(),
    "copy.copy": copy.copy,
    "copy.deepcopy": copy.deepcopy,
    "deepcopy in a dictionary": lambda o: copy.deepcopy({"a": [o]})["a"][0],
}
for v in range(2, pickle.HIGHEST_PROTOCOL + 1):
    CLONES[f"pickle {v}"] = lambda o, v=v: pickle.loads(pickle.dumps(o, v))
QUICK = ("copy()", "copy.copy", "copy.deepcopy", "deepcopy in a dictionary", f"pickle {pickle.HIGHEST_PROTOCOL}")
SLOW = ("HestonNandiOption",)


def names(name, tier):
    q = queries(name, True)
    return {k: q[k] for k in q if k not in ("repr", "print")} if tier == "quick" else {k: v for k, v in queries(name, False).items() if k != "print"}


def cases(tier):
    ways = list(CLONES) if tier == "thorough" else list(QUICK)
    out = []
    for name in MODELS:
        own = [w for w in ways if w != "copy()" or name.split("[")[0] in CLASSES]
        for first in own:
            out.append(dict(tier=tier, cls=name, chain=[first]))
            for second in own:
                if name not in SLOW or tier == "thorough":
                    out.append(dict(tier=tier, cls=name, chain=[first, second]))
        if name.split("[")[0] in CLASSES:
            out.append(dict(tier=tier, cls=name, part="process"))
    return out


def histories(name, tier, base):
    yield "nothing", []
    q = names(name, tier)
    for k in list(q) if tier == "thorough" else list(q)[:1] + list(q)[-2:]:
        yield k, [("query", k)]
    if name.split("[")[0] in CLASSES:
        p, v = changes(name, base)[0]
        yield "set", [("set", p, v)]
        yield "query, set", [("query", "call"), ("set", p, v)]
        yield "set, query", [("set", p, v), ("query", "call")]


def changes(name, base):
    """(parameter, value) pairs: each numeric parameter moved to the value of a second option."""
    oth = other(name, base)
    return [(p, oth[p]) for p in base if not isinstance(base[p], np.ndarray) and oth[p] != base[p]]


def answers(name, tier, o):
    out = {}
    for k, f in names(name, tier).items():
        out[k] = jsonable(quiet(f, o))
    if hasattr(o, "get_params"):
        out["params"] = jsonable({k: (type(v).__name__, v) for k, v in o.get_params().items()})
    return out


_FRESH = {}


def fresh(name, tier, par):
    key = (name, tier, repr(sorted((k, repr(v)) for k, v in par.items())))
    if key not in _FRESH:
        _FRESH[key] = answers(name, tier, MODELS[name][0](**par))
    return _FRESH[key]


def run(case, R):
    name, tier = case["cls"], case["tier"]
    ctor, base = MODELS[name]
    if case.get("part") == "process":
        return process(case, R, name, tier, ctor, base)
    moves = changes(name, base) if name.split("[")[0] in CLASSES else []
    after = [None] + [(who, p, v) for p, v in moves for who in ("original", "clone")]
    if "copy.copy" in case["chain"]:
        after = [None]  # a shallow copy shares its parts with the original by definition: alike, not independent
    elif len(case["chain"]) > 1 and tier == "quick":
        after = after[:1] + after[-2:]
    hist = list(histories(name, tier, base))
    if len(case["chain"]) > 1 and tier == "quick":
        hist = hist[:1] + hist[-1:]
    for (label, h), change in itertools.product(hist, after):
        if change is not None and label not in ("nothing", "set, query") and tier == "quick":
            continue
        R.state()
        R.trace()
        par = dict(base)
        o = ctor(**par)
        for e in h:
            R.trans()
            if e[0] == "set":
                o.set_param(e[1], e[2])
                par[e[1]] = e[2]
            else:
                quiet(queries(name, False)[e[1]], o)
        objs = [("original", o, dict(par))]
        c = o
        for w in case["chain"]:
            c = CLONES[w](c)
            R.trans()
            objs.append((f"{w} clone", c, dict(par)))
        if type(c) is not type(o):
            R.fail(f"{name}.type", f"{case['chain']} of a {type(o).__name__} is a {type(c).__name__}")
            return
        if change is not None:
            who, p, v = change
            i = 0 if who == "original" else len(objs) - 1
            objs[i][1].set_param(p, v)
            objs[i][2][p] = v
            R.trans()
        for lab, x, want in objs:
            got, exp = answers(name, tier, x), fresh(name, tier, want)
            R.outcome((name, str(exp["call"])))
            if not equal(got, exp):
                k = [k for k in exp if not equal(got.get(k), exp[k])][0]
                R.fail(f"{name}.{k}", f"{name}: after {label}, {' then '.join(case['chain'])}, change {change}: the {lab} answers {k} = {str(got.get(k))[:140]}, a fresh one {str(exp[k])[:140]}"[:600])
                return
    R.sample(dict(case, histories=[x for x, _ in hist], changes=len(after)))


def process(case, R, name, tier, ctor, base):
    """the pickled option opened in another process (of this program) answers the same, and what comes back is the same option"""
    for label, h in histories(name, tier, base):
        par = dict(base)
        o = ctor(**par)
        for e in h:
            if e[0] == "set":
                o.set_param(e[1], e[2])
                par[e[1]] = e[2]
            else:
                quiet(queries(name, False)[e[1]], o)
        raw = pickle.dumps(o)

        def there():
            x = pickle.loads(raw)
            a = answers(name, tier, x)
            return dict(a=a, back=pickle.dumps(x).hex())

        out = in_child(there)
        R.state()
        R.trans(2)
        R.trace()
        exp = jsonable(fresh(name, tier, par))
        back = jsonable(answers(name, tier, pickle.loads(bytes.fromhex(out["back"]))))
        for lab, got in (("in the other process", out["a"]), ("after the round trip", back)):
            R.outcome((name, lab, str(exp["call"])))
            if not equal(got, exp):
                k = [k for k in exp if not equal(got.get(k), exp[k])][0]
                R.fail(f"{name}.{k}", f"{name}: after {label}, pickled option {lab}: {k} = {str(got.get(k))[:140]}, a fresh one {str(exp[k])[:140]}"[:600])
                return
    R.sample(case)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="every class (scalar and array valued, Heston-Nandi, Monte Carlo) x history before cloning (nothing, queries, set_param and both orders) x clone method (copy(), copy.copy, copy.deepcopy, pickle protocols), one or two in a row x later change of any parameter on the original or on the last clone; pickled option opened in another process and returned",
            bounds=dict(clone_methods=list(CLONES) if tier == "thorough" else list(QUICK), chain=2),
            oracle="original and every clone answer all queries like an option constructed afresh with their own parameters",
        ),
        assumptions=["copy.copy shares its parts with the original, as Python defines it: its clones are compared but not changed"],
    )
