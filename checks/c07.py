"""C07: implied volatility inverts the pricing function, scalar and array, whatever sigma the option holds."""
import itertools
import math
import warnings

import numpy as np

import finoptions as fo
from mc import ref
from mc.engines import am

PROP = "C07"
TECHNIQUE = "explicit-state enumeration; round trip price -> volatility -> price in every state"

M = {"quick": [0.5, 0.8, 0.95, 1.0, 1.05, 1.25, 2.0], "thorough": [0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.05, 1.1, 1.25, 1.5, 2.0, 3.0]}
T = {"quick": [0.02, 0.25, 1, 1.5, 5], "thorough": [1 / 252, 0.02, 0.1, 0.25, 0.5, 1, 1.5, 3, 5, 10]}
RR = {"quick": [-0.02, 0.0, 0.05, 0.2], "thorough": [-0.05, -0.02, 0.0, 0.01, 0.05, 0.1, 0.2]}
BB = {"quick": [-0.1, 0.0, 0.05, 0.15], "thorough": [-0.2, -0.1, 0.0, 0.02, 0.05, 0.1, 0.15]}
SG = {"quick": [0.05, 0.2, 0.5, 1.0, 2.0, 3.5, 6.0], "thorough": [0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.8, 1.0, 1.5, 2.0, 3.0, 4.2, 6.0, 9.0]}
KS = [100.0, 1.3, 4200.0]
# option chains: strikes far from the money next to strikes at the money, short maturities, every level of volatility
CT = {"quick": [0.005, 0.02, 0.25, "mixed"], "thorough": [1 / 252, 0.005, 0.02, 0.1, 0.25, 1.0, 5.0, "mixed"]}
SMILES = ["0.06", "0.2", "0.7", "2", "4", "smile", "steps"]
CHAINS = [[90.0, 110.0], [100.0, 150.0], [50.0, 70.0, 100.0, 150.0, 200.0], [80.0, 90.0, 95.0, 100.0, 105.0, 110.0, 120.0], [60.0, 100.0], [100.0, 20.0], [100.0, 101.0, 400.0]]


def cases(tier):
    out = []
    for t in T[tier]:
        for r in RR[tier]:
            for b in BB[tier]:
                for K in KS if (r, b) in ((0.05, 0.05), (0.0, 0.15)) else KS[:1]:
                    out.append(dict(kind="scalar", tier=tier, t=t, r=r, b=b, K=K))
    for what in ("price", "K", "S", "t", "r", "b", "all", "pK"):
        for L in range(1, 8):
            for cls in ("GBSOption", "BlackScholesOption", "Black76Option"):
                if cls == "Black76Option" and what == "b":
                    continue
                out.append(dict(kind="array", tier=tier, what=what, L=L, cls=cls))
    for cls in ("GBSOption", "BlackScholesOption", "Black76Option"):
        for t in (CT[tier]):
            for smile in SMILES:
                out.append(dict(kind="chain", tier=tier, cls=cls, t=t, smile=smile))
    for S, t in itertools.product([72.0, 80.0, 90.0] if tier == "quick" else [65.0, 72.0, 80.0, 84.0, 90.0, 100.0], [0.25, 1 / 3, 1.0] if tier == "quick" else [0.1, 0.25, 1 / 3, 1.0, 3.0]):
        out.append(dict(kind="rgw", tier=tier, S=S, t=t))
    return out


def run(case, R):
    warnings.simplefilter("ignore")
    globals()[case["kind"]](case, R)
    R.sample(case)


def scalar(case, R):
    tier, t, r, b, K = case["tier"], case["t"], case["r"], case["b"], case["K"]
    for i, (m, sg) in enumerate(itertools.product(M[tier], SG[tier])):
        S = K * m
        vega = ref.gbs_greeks(S, K, t, r, b, sg, 1)["vega"]
        sc = ref.gbs_scale(S, K, t, r, b)
        if vega < 1e-2 * S:
            R.count("skipped_price_does_not_resolve_sigma")
            continue
        tol = 6e-7 * sc / vega + 1e-9
        objs = [("GBSOption", lambda s: fo.GBSOption(S, K, t, r, b, s)), ("BlackScholesOption", lambda s: fo.BlackScholesOption(S, K, t, r, b, s))]
        if b == 0:
            objs.append(("Black76Option", lambda s: fo.Black76Option(S, K, t, r, s)))
        for (name, mk), (side, z), prior in itertools.product(objs, (("call", 1), ("put", -1)), (None, 0.1, 2.5, "walked", "cleared")):
            R.state()
            price = ref.gbs(S, K, t, r, b, sg, z)
            if prior == "walked":
                o = mk(None)
                o.set_param("sigma", 0.4)
                o.set_param("K", 2 * K)
                o.set_param("K", K)
            elif prior == "cleared":
                o = mk(0.7)
                o.set_param("sigma", None)
            else:
                o = mk(prior)
            before = dict(o.get_params())
            v = o.volatility(price, call=side == "call")
            R.trace()
            d = dict(S=S, K=K, t=t, r=r, b=b, sigma=sg, prior=prior, side=side)
            if not R.close(v, sg, tol, f"{name}.volatility", f"{name}.volatility({price})", **d):
                return
            back = getattr(mk(float(v)), side)()
            if not R.close(back, price, 1e-12 * sc + 1e-9 * price if prior != 0.1 else 1e-8 * sc, f"{name}.reprice", f"{name} price at implied volatility", **d):
                return
            if dict(o.get_params()) != before:
                R.fail(f"{name}.mutated", f"volatility() changed the option: {before} -> {o.get_params()}")
                return
            R.outcome((side, round(float(v), 5)))
            if i % 5 == 0:
                full = o.volatility(price, side == "call", verbose=True)
                R.close(float(full.root), float(v), 1e-9, f"{name}.verbose", f"{name} verbose root", **d)
                own = getattr(mk(sg), side)()
                v2 = o.volatility(np.float64(own), side == "call", 1e-12, 500)
                if not R.close(float(v2), sg, 1e-7 * sc / vega + 1e-9, f"{name}.roundtrip", f"{name} own price round trip", **d):
                    return


def array(case, R):
    L, what, name = case["L"], case["what"], case["cls"]
    base = dict(S=100.0, K=97.0, t=0.75, r=0.04, b=0.03)
    if name == "Black76Option":
        base["b"] = 0.0
    vary = {
        "K": [97.0, 80.0, 110.0, 97.0, 125.0, 90.0, 104.0], "S": [100.0, 85.0, 120.0, 100.0, 93.0, 140.0, 108.0],
        "t": [0.75, 0.25, 2.0, 1.0, 0.5, 1.5, 3.0], "r": [0.04, 0.0, 0.1, -0.01, 0.04, 0.07, 0.15], "b": [0.03, 0.0, -0.04, 0.1, 0.0, 0.03, 0.06],
    }
    sig = [0.3, 0.15, 0.8, 0.3, 0.5, 1.2, 0.22]
    for off in range(7 if case["tier"] == "thorough" else 3):
        par = dict(base)
        names = {"price": [], "all": ["S", "K", "t", "r"] + (["b"] if name != "Black76Option" else []), "pK": ["K"]}.get(what, [what])
        for p in names:
            par[p] = np.array([vary[p][(i + off) % 7] for i in range(L)])
        sg = np.array([sig[(2 * i + off) % 7] for i in range(L)])
        if what != "price" and what != "all" and what != "pK":
            sg = np.full(L, sig[off])
        for side, z in (("call", 1), ("put", -1)):
            R.state()
            el = [{k: float(v[i]) if isinstance(v, np.ndarray) else v for k, v in par.items()} for i in range(L)]
            price = np.array([ref.gbs(z=z, sigma=float(sg[i]), **el[i]) for i in range(L)])
            if name == "Black76Option":
                mk = lambda s: fo.Black76Option(par["S"], par["K"], par["t"], par["r"], s)
            else:
                mk = lambda s: getattr(fo, name)(par["S"], par["K"], par["t"], par["r"], par["b"], s)
            keep = price.copy()
            kp = {k: np.array(v, copy=True) for k, v in par.items()}
            tol = [2e-6 * ref.gbs_scale(**e) / ref.gbs_greeks(z=1, sigma=float(sg[i]), **e)["vega"] + 1e-6 for i, e in enumerate(el)]
            for prior in (0.01, 2.5, np.full(L, 0.05), "walked", None):
                # whatever volatility the option holds
                o = mk(0.7 if isinstance(prior, str) else prior)
                if isinstance(prior, str):
                    o.set_param("sigma", None)
                d = dict(arrays=what, L=L, side=side, off=off, prior=repr(prior))
                got = np.asarray(o.volatility(price, side == "call"), dtype=float)
                R.trace()
                if got.size != L:
                    R.fail("array.shape", f"volatility of {L} prices has shape {got.shape}", **d)
                    return
                if not R.close(got.ravel(), sg, np.array(tol), f"{name}.array", f"{name}.volatility of an array", **d):
                    return
            back = np.asarray(getattr(mk(got.ravel()), side)(), dtype=float)
            R.close(back.ravel(), price, 1e-6 * price + 2e-6 * 100, f"{name}.array-reprice", f"{name} price at implied volatilities", **d)
            if not (np.array_equal(price, keep) and all(np.array_equal(par[k], kp[k]) for k in par)):
                R.fail("array.mutated", "volatility() wrote into its inputs", **d)
            if L > 1:
                s = o.volatility(price, side == "call", verbose=True)
                R.close(np.asarray(s.x, dtype=float).ravel(), got.ravel(), 1e-9, f"{name}.array-verbose", "verbose array solution", **d)
            R.outcome((what, side, tuple(np.round(got.ravel(), 4))))


def chain(case, R):
    """A chain of strikes in one array: every element is inverted as if alone."""
    name = case["cls"]
    for Ks, (b, r) in itertools.product(CHAINS, [(0.0, 0.05)] if name == "Black76Option" else [(0.0, 0.05), (0.05, 0.05), (-0.1, 0.02), (0.12, -0.01)]):
        L = len(Ks)
        K = np.array(Ks)
        t = np.array([[0.02, 3.0, 0.25, 0.01, 1.0][i % 5] for i in range(L)]) if case["t"] == "mixed" else np.full(L, case["t"])
        sg = {"smile": 0.2 + 0.8 * np.abs(np.log(K / 100.0)), "steps": np.array([[0.15, 1.5, 0.4, 3.0, 0.08][i % 5] for i in range(L)])}.get(case["smile"])
        sg = np.full(L, float(case["smile"])) if sg is None else sg
        el = [dict(S=100.0, K=float(K[i]), t=float(t[i]), r=r, b=b) for i in range(L)]
        sc = np.array([ref.gbs_scale(**e) for e in el])
        vega = np.array([ref.gbs_greeks(z=1, sigma=float(sg[i]), **e)["vega"] for i, e in enumerate(el)])
        on = vega > 1e-2 * 100.0
        R.count("skipped_price_does_not_resolve_sigma", int((~on).sum()))
        tt = t if case["t"] == "mixed" else case["t"]
        mk = (lambda s: fo.Black76Option(100.0, K, tt, r, s)) if name == "Black76Option" else (lambda s: getattr(fo, name)(100.0, K, tt, r, b, s))
        for side, z in (("call", 1), ("put", -1)):
            R.state()
            price = np.array([ref.gbs(z=z, sigma=float(sg[i]), **e) for i, e in enumerate(el)])
            d = dict(K=Ks, t=t.tolist(), b=b, r=r, sigma=sg.tolist(), side=side)
            for prior in (None, 0.3):
                v = np.asarray(mk(prior).volatility(price, side == "call"), dtype=float)
                R.trace()
                if v.shape != (L,):
                    R.fail("chain.shape", f"volatility of a chain of {L} has shape {v.shape}", **d)
                    return
                if not R.close(v[on], sg[on], (2e-6 * sc / vega + 1e-6)[on], f"{name}.chain", f"{name}.volatility of a chain", **d):
                    return
            back = np.asarray(getattr(mk(np.abs(v)), side)(), dtype=float)
            if not R.close(back, price, 2e-6 * sc + 1e-6 * price, f"{name}.chain-reprice", f"{name} chain priced at its implied volatilities", **d):
                return
            R.outcome((side, tuple(np.round(v[on], 4))))


def rgw(case, R):
    S, t, tier = case["S"], case["t"], case["tier"]
    K = 82.0
    for f, r, D, sg in itertools.product([0.3, 0.75, 0.95], [0.01, 0.06, 0.12], [0.5, 4.0, 10.0], [0.15, 0.3, 0.7] if tier == "quick" else [0.1, 0.15, 0.3, 0.5, 0.7, 1.2]):
        td = f * t
        mk = lambda s: am.RollGeskeWhaleyOption(S, K, t, td, r, D, s)
        R.state()
        p = float(mk(sg).call())
        # near sigma the price must move, and be above its sigma -> 0 limit, for the inverse to exist
        up, dn = float(mk(sg * 1.02).call()), float(mk(sg * 0.98).call())
        slope = (up - dn) / (0.04 * sg)
        floor = max(S - K, S - D * math.exp(-r * td) - K * math.exp(-r * t), 0)
        if slope < 2.0 or p < floor + 0.05:
            R.count("skipped_price_does_not_resolve_sigma")
            continue
        for prior in (None, 0.2, "cleared"):
            o = mk(0.45 if prior == "cleared" else prior)
            if prior == "cleared":
                o.set_param("sigma", None)
            before = dict(o.get_params())
            v = o.volatility(p)
            R.trace()
            d = dict(S=S, t=t, td=td, r=r, D=D, sigma=sg, prior=prior)
            if not R.close(float(v), sg, 1e-5, "RGW.volatility", f"RollGeskeWhaleyOption.volatility({p})", **d):
                return
            R.close(float(mk(float(v)).call()), p, 1e-5, "RGW.reprice", "price at implied volatility", **d)
            if dict(o.get_params()) != before:
                R.fail("RGW.mutated", f"volatility() changed the option: {before} -> {o.get_params()}")
            R.outcome(("rgw", round(float(v), 4)))
        R.close(float(o.volatility(p, verbose=True).root), sg, 1e-5, "RGW.verbose", "verbose root", S=S, t=t)


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="scalar: class x K x S/K x t x r x b x sigma x call/put x prior state of sigma (absent, two other values, walked, "
            "cleared) incl. verbose and own prices; arrays: which parameters are arrays x length 1..7 x three classes; chains of strikes in one array (far and near the money, short and mixed maturities) x volatility level / smile; Roll-Geske-Whaley grid",
            bounds=dict(S_over_K=M[tier], t=T[tier], r=RR[tier], b=BB[tier], sigma=SG[tier], K=KS),
            oracle="price from the lognormal reference model at sigma (RGW: own price); the answer must be sigma up to price error / vega, "
            "repricing at the answer must give the price back, the option must be unchanged",
        ),
        assumptions=["valuations whose vega is below 1% of S (the price does not determine sigma) are skipped and counted"],
    )
