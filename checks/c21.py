"""C21: the HN-GARCH fit filters, scores and reports the model it estimated."""
import contextlib
import io
import itertools
import math

import numpy as np

import finoptions as fo
from mc import ref

hn = fo.heston_nandi_options
PROP = "C21"
TECHNIQUE = "exhaustive enumeration of every return history over a small alphabet for the filter and likelihood; invariants on each of a listed set of fits"
CPU_LIMIT = 120.0

ALPH = [-0.02, 0.001, 0.015]
LEN = {"quick": 5, "thorough": 8}
PARS = [  # lamb, omega, alpha, beta, gamma, rf
    (4.0, 8e-5, 6e-5, 0.7, 5.0, 0.001), (-0.5, 2.3e-6, 2.9e-6, 0.85, 184.25, 0), (0.0, 1e-3, 1e-7, 0.01, 0.0, 0), (2.5, 1e-4, 3e-5, 0.3, -90.0, -0.0005), (1.0, 0.02, 0.05, 0.4, 1.0, 0.01),
]


def cases(tier):
    out = []
    for p in range(len(PARS)):
        for n in range(1, LEN[tier] + 1):
            out.append(dict(tier=tier, part="llh", p=p, n=n))
    for s in range(6 if tier == "quick" else 16):
        for sym in (True, False):
            for start in range(3):
                out.append(dict(tier=tier, part="fit", series=s, symmetric=sym, start=start))
    return out


def logit(p):
    return -math.log((1 - p) / p)


def run(case, R):
    llh(case, R) if case["part"] == "llh" else fit(case, R)


def llh(case, R):
    lamb, omega, alpha, beta, gamma, rf = PARS[case["p"]]
    x0 = [lamb, logit(omega), logit(alpha), logit(beta), gamma]
    for seq in itertools.product(ALPH, repeat=case["n"]):
        x = np.array(seq)
        for sym in (False, True):
            w, zs, hs = ref.hn_llh(seq, lamb, omega, alpha, beta, 0 if sym else gamma, rf)
            R.state()
            for trace in (False, True):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    v = hn._llhHNGarch(x0, trace, sym, rf, x)
                    o = hn._llhHNGarch(x0, trace, sym, rf, x, ret_obj=True)
                R.trace(2)
                d = dict(x=list(seq), par=PARS[case["p"]], symmetric=sym, trace=trace)
                # the density underflows (and its log is lost) for |z| > 38
                if max(abs(q) for q in zs) < 37 and not R.close(v, w, 1e-8 * (1 + abs(w)), "llh", "negative log-likelihood", **d):
                    return
                if max(abs(q) for q in zs) >= 37:
                    R.count("skipped_density_underflow")
                if not R.close(o.h, hs, 1e-10 * max(hs), "filter.h", "filtered variances", **d):
                    return
                if not R.close(o.z, zs, 1e-9 * (1 + max(abs(q) for q in zs)), "filter.z", "filtered innovations", **d):
                    return
                if bool(buf.getvalue()) != trace:
                    R.fail("trace", f"trace={trace} printed {buf.getvalue()!r}", **d)
                    return
                if list(x) != list(seq):
                    R.fail("mutates", "the likelihood changed the return series", **d)
                    return
            R.outcome(round(w, 7))
    R.sample(dict(case, x=seq, nll=w, h=hs, z=zs))


def series(i):
    """A listed, deterministic set of return series: GARCH paths driven by quantile innovations."""
    n = [60, 120, 200, 90, 150, 250, 40, 80, 300, 100, 64, 128, 31, 77, 180, 220][i]
    mult = [37, 53, 71, 29, 61, 97, 11, 23, 131, 43, 19, 45, 7, 31, 77, 83][i]
    from scipy.special import ndtri

    k = (np.arange(1, n + 1) * mult) % (n + 1)
    k = np.where(k == 0, (n + 1) // 2, k)
    z = ndtri(k / (n + 1))
    lamb, omega, alpha, beta, gamma, rf = [PARS[0], PARS[3], (1.0, 5e-5, 2e-5, 0.6, 20.0, 0.0)][i % 3]
    return np.array(ref.hn_recursion(lamb, omega, alpha, beta, gamma, rf, z)), rf


STARTS = [dict(), dict(lamb=1.0, omega=1e-4, alpha=2e-5, beta=0.5, gamma=10.0), dict(omega=3e-4, alpha=3e-5, beta=0.3, lamb=0.0, gamma=-5.0)]


def fit(case, R):
    x, rf = series(case["series"])
    sym, st = case["symmetric"], STARTS[case["start"]]
    keep = x.copy()
    d = dict(series=case["series"], start=st, symmetric=sym)
    outs = []
    for trace in (False, True):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o = hn.hngarch_fit(x, rf=rf, symmetric=sym, trace=trace, **st)
        R.trace()
        if bool(buf.getvalue()) != trace:
            R.fail("fit.trace", f"trace={trace} printed {len(buf.getvalue())} characters", **d)
            return
        outs.append(o)
    R.state()
    o = outs[0]
    if not np.array_equal(x, keep):
        R.fail("fit.mutates", "hngarch_fit changed the return series", **d)
        return
    if not np.array_equal(np.asarray(outs[0]["estimate"], float), np.asarray(outs[1]["estimate"], float), equal_nan=True):
        R.fail("fit.trace.result", "the estimate depends on trace", a=outs[0]["estimate"], b=outs[1]["estimate"], **d)
        return
    om0 = st.get("omega", float(np.var(x)))
    al0 = st.get("alpha", 0.1 * om0)
    start = (st.get("lamb", -0.5), om0, al0, st.get("beta", 0.1), 0 if sym else st.get("gamma", 0))
    v0 = ref.hn_llh(x, *start, rf)[0]
    R.close(o["value"], v0, 1e-8 * (1 + abs(v0)), "fit.value", "likelihood at the start values", **d)
    est = [float(v) for v in o["estimate"]]
    if len(est) != 5 or not all(math.isfinite(v) for v in est):
        R.fail("fit.estimate", f"estimate {est}", **d)
        return
    if sym and est[4] != 0:
        R.fail("fit.symmetric", f"symmetric fit reports gamma {est[4]}", **d)
        return
    if not all(0 < v < 1 for v in est[1:4]):
        R.fail("fit.range", f"omega, alpha, beta out of (0, 1): {est}", **d)
        return
    if not sym and est[4] == start[4]:
        R.fail("fit.gamma", "asymmetric fit left gamma at its start value", **d)
        return
    w, zs, hs = ref.hn_llh(x, *est, rf)
    R.close(o["h"], hs, 1e-9 * max(hs), "fit.h", "variances reported vs filter at the reported estimate", **d)
    R.close(o["z"], zs, 1e-7 * (1 + max(map(abs, zs))), "fit.z", "innovations reported vs filter at the reported estimate", **d)
    R.close(o["minimum"], -w + len(x) * math.sqrt(2 * math.pi), 1e-6 * (1 + abs(w)), "fit.minimum", "reported optimum vs likelihood of the reported estimate", **d)
    if w > v0 + 1e-8 * abs(v0):
        R.fail("fit.worse", f"likelihood at the estimate {w} is worse than at the start {v0}", **d)
    model = o["model"]
    for name, v in zip(("lamb", "omega", "alpha", "beta", "gamma", "rf"), est + [rf]):
        R.close(model[name], v, 0, "fit.model", f"model[{name}] vs estimate", **d)
    pers = est[3] + est[2] * est[4] ** 2
    R.close(o["persistence"], pers, 1e-12, "fit.persistence", "persistence", **d)
    R.close(o["sigma2"], (est[1] + est[2]) / (1 - pers), 1e-12 + 1e-10 * (est[1] + est[2]) / abs(1 - pers), "fit.sigma2", "long-run variance", **d)
    if w < v0 - 1e-3:
        R.count("fits_that_improved")
    R.count("fits")
    R.outcome(tuple(round(v, 9) for v in est))
    R.sample(dict(case, estimate=est, nll=w, start_nll=v0))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet=f"returns {ALPH}; parameter sets {PARS}; symmetric and trace flags",
            bounds=dict(length=LEN[tier], fits="6 (quick) or 16 listed series x symmetric x 3 start values"),
            oracle="reference filter and Gaussian likelihood; each fit's report recomputed from its own estimate",
        ),
        assumptions=["the optimiser's path is scipy's: only the relations between start values, estimate and report are decided"],
    )
