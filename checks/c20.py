"""C20: hngarch_sim applies the GARCH recursion to exactly the given innovations."""
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

hn = fo.heston_nandi_options
PROP = "C20"
TECHNIQUE = "exhaustive enumeration of every innovation history over a small alphabet, every burn-in split and number type; implementation vs reference recursion"

ALPH = [-1.5, 0, 0.4, 2]
ALPH_INT = [-2, 0, 1]
LEN = {"quick": 4, "thorough": 6}
PARS = [  # lamb, omega, alpha, beta, gamma, rf
    (4, 8e-5, 6e-5, 0.7, 5, 0.001), (-0.5, 2.3e-6, 2.9e-6, 0.85, 184.25, 0), (0, 1e-3, 0.0, 0.0, 0, 0), (2.5, 1e-4, 3e-5, 0.3, -90.0, -0.0005), (1, 0.02, 0.05, 0.4, 1, 0.01),
]


def cases(tier):
    out = []
    for p in range(len(PARS)):
        for n in range(1, LEN[tier] + 1):
            for first in ALPH:
                out.append(dict(tier=tier, part="seq", p=p, n=n, first=first))
            out.append(dict(tier=tier, part="types", p=p, n=n))
        out.append(dict(tier=tier, part="random", p=p))
    out.append(dict(tier=tier, part="defaults"))
    return out


def kw(p):
    return dict(zip(("lamb", "omega", "alpha", "beta", "gamma", "rf"), PARS[p]))


def want(p, Z, start):
    k = kw(p)
    full = ref.hn_recursion(k["lamb"], k["omega"], k["alpha"], k["beta"], k["gamma"], k["rf"], list(start) + list(Z))
    return np.array(full[len(start):])


def tolof(w):
    return 1e-12 * (1 + np.max(np.abs(w)))


def one(R, p, Z, start, conv, name):
    z = conv(Z)
    s = conv(start) if len(start) else None
    keep = (repr(z), repr(s))
    got = hn.hngarch_sim(n=len(Z), n_start=len(start), inno=z, inno_start=s, **kw(p))
    R.state()
    R.trace()
    w = want(p, Z, start)
    d = dict(inno=list(Z), inno_start=list(start), par=PARS[p], type=name)
    if not R.close(got, w, tolof(w), "series" if not len(start) else "burn_in", "hngarch_sim", **d):
        return False
    if keep != (repr(z), repr(s)):
        R.fail("mutates", "hngarch_sim changed the innovations passed to it", **d)
        return False
    R.outcome(tuple(np.round(w, 9)))
    return True


def run(case, R):
    p = case.get("p")
    if case["part"] == "seq":
        n = case["n"]
        for tail in itertools.product(ALPH, repeat=n - 1):
            seq = (case["first"],) + tail
            for s in range(n):  # burn-in of the first s innovations
                if not one(R, p, seq[s:], seq[:s], lambda v: np.array(v, dtype=float), "float array"):
                    return
        R.sample(dict(case, seq=seq, split=s))
    elif case["part"] == "types":
        n = case["n"]
        for seq in itertools.product(ALPH_INT, repeat=n):
            for s in range(n):
                for name, conv in (("int array", lambda v: np.array(v, dtype=int)), ("list", list), ("tuple of float", lambda v: tuple(float(q) for q in v)), ("float32", lambda v: np.array(v, dtype=np.float32))):
                    if not one(R, p, seq[s:], seq[:s], conv, name):
                        return
        R.sample(dict(case))
    elif case["part"] == "random":
        k = kw(p)
        seen = []
        for n, m in itertools.product((1, 2, 50, 3000), (0, 1, 40)):
            np.random.seed(11)
            x = np.asarray(hn.hngarch_sim(n=n, n_start=m, **k))
            R.state()
            R.trace()
            if x.shape != (n,) or not np.all(np.isfinite(x)):
                R.fail("random.shape", f"hngarch_sim(n={n}, n_start={m}) returned shape {x.shape}, finite {np.isfinite(x).all()}", par=PARS[p])
                return
            if n == 3000:
                h = (k["omega"] + k["alpha"]) / (1 - k["alpha"] * k["gamma"] ** 2 - k["beta"])
                z = []
                for v in x:  # invert the recursion (after a burn-in the start variance is off but forgotten)
                    z.append((v - k["rf"] - k["lamb"] * h) / math.sqrt(h))
                    h = k["omega"] + k["alpha"] * (z[-1] - k["gamma"] * math.sqrt(h)) ** 2 + k["beta"] * h
                z = np.array(z[200:])
                R.trans()
                if abs(z.mean()) > 0.12 or abs(z.std() - 1) > 0.12 or abs(np.corrcoef(z[1:], z[:-1])[0, 1]) > 0.12:
                    R.fail("random.normal", f"innovations drawn have mean {z.mean()}, std {z.std()}", par=PARS[p], n=n, n_start=m)
                    return
                if len(np.unique(np.round(z, 12))) < 2700:
                    R.fail("random.repeat", "draws repeat", par=PARS[p])
                    return
            seen.append(float(x[0]))
            R.outcome(float(x[0]))
        a = hn.hngarch_sim(n=5, **k)
        b = hn.hngarch_sim(n=5, **k)
        R.trans()
        if np.array_equal(a, b):
            R.fail("random.fresh", "two calls without innovations returned the same series", par=PARS[p])
        # given series, drawn burn-in: only the burn-in may vary
        np.random.seed(3)
        Z = np.array([0.3, -1.0, 0.7])
        x = np.asarray(hn.hngarch_sim(n=3, n_start=4, inno=Z, **k))
        R.trans()
        if x.shape != (3,) or not np.all(np.isfinite(x)):
            R.fail("random.mixed", f"given innovations with drawn burn-in: {x}", par=PARS[p])
        R.sample(dict(case, last=seen[-1]))
    else:
        # documented defaults: lamb -0.5, beta 0.1, gamma 0, rf 0, no burn-in
        Z = np.array([0.5, -1.2, 0.0, 2.0])
        got = hn.hngarch_sim(omega=1e-4, alpha=1e-5, n=4, inno=Z)
        w = np.array(ref.hn_recursion(-0.5, 1e-4, 1e-5, 0.1, 0, 0, Z))
        R.state()
        R.trace()
        R.close(got, w, tolof(w), "defaults", "hngarch_sim with default parameters")
        R.sample(dict(case))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet=f"innovations {ALPH} (floats), {ALPH_INT} (int, list, tuple, float32)",
            bounds=dict(length=LEN[tier], burn_in="every split", parameters=PARS),
            oracle="reference recursion over burn-in plus series, tail returned; drawn innovations recovered from the returns and checked for moments and freshness",
        ),
        assumptions=["n and n_start are the lengths of the sequences given"],
    )
