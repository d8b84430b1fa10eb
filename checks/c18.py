"""C18: Roll-Geske-Whaley: American call on a stock with one known dividend."""
import itertools
import math

import finoptions as fo
from mc import ref
from mc.engines import am

PROP = "C18"
TECHNIQUE = "explicit-state enumeration of a parameter lattice on both sides of the exercise condition; decision-at-dividend model evaluated by exhaustive quadrature panels"

M = {"quick": [0.5, 0.8, 0.95, 1, 1.07, 1.3, 2.0], "thorough": [0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 1, 1.02, 1.07, 1.15, 1.3, 1.6, 2.0, 4.0]}
T = {"quick": [0.1, 1 / 3, 1, 3], "thorough": [0.02, 0.1, 1 / 3, 0.7, 1, 2, 3, 8]}
F = {"quick": [0.03, 0.3, 0.75, 0.97], "thorough": [0.005, 0.03, 0.15, 0.3, 0.5, 0.75, 0.9, 0.97, 0.995]}
R_ = {"quick": [-0.02, 0, 0.01, 0.06, 0.2], "thorough": [-0.05, -0.02, 0, 0.001, 0.01, 0.03, 0.06, 0.1, 0.2, 0.4]}
DK = {"quick": [0.002, 0.0122, 0.05, 0.18], "thorough": [0.0005, 0.002, 0.006, 0.0122, 0.03, 0.05, 0.1, 0.18, 0.35]}
SG = {"quick": [0.05, 0.15, 0.3, 0.8, 1.5], "thorough": [0.03, 0.05, 0.1, 0.15, 0.2, 0.3, 0.5, 0.8, 1.5, 2.5]}
KS = (82, 5.0, 1.2, 30000.0, 4e8, 3e-7)  # quick: the first and one of the others, in turn


def cases(tier):
    return [dict(tier=tier, t=t, f=f, r=r) for t in T[tier] for f in F[tier] for r in R_[tier]]


def run(case, R):
    tier, t, r = case["tier"], case["t"], case["r"]
    td = t * case["f"]
    lattice = enumerate(itertools.product(M[tier], DK[tier], SG[tier]))
    for K, m, dk, sg in ((K, *p) for i, p in lattice for K in (KS if tier == "thorough" else (KS[0], KS[1 + i % 5]))):
        S, D = K * m, K * dk
        lim = K * (1 - math.exp(-r * (t - td)))
        if abs(D - lim) < 1e-9 * K:
            continue
        if S - D * math.exp(-r * td) <= 0.02 * K:
            R.count("skipped_dividend_exceeds_price")
            continue
        o = am.RollGeskeWhaleyOption(S, K, t, td, r, D, sg)
        d = dict(S=S, K=K, t=t, td=td, r=r, D=D, sigma=sg)
        R.state()
        R.trace()
        got = float(o.call())
        tol = 1.5e-6 * (S + K)
        w, eu = ref.rgw(S, K, t, td, r, D, sg)
        optimal = D > lim
        if bool(o.is_call_optimal()) != optimal:
            R.fail("flag", f"is_call_optimal() is {o.is_call_optimal()}, D={D} against {lim}", **d)
            return
        if not optimal and abs(w - eu) > 1e-8 * (S + K):
            raise AssertionError(f"reference models disagree: {w} {eu}")
        R.count("exercise_possible" if optimal else "never_exercised")
        if not R.close(got, w, tol, "call", "RGW call vs expectation over the decision at the dividend date", european=eu, **d):
            return
        if got < eu - tol or got > S + tol or got < max(S - K, 0) * 0 - tol:
            R.fail("bounds", f"RGW call {got} outside [{eu}, {S}]", **d)
            return
        # exercising just before the dividend is always available
        fwd = S - K * math.exp(-r * td)
        if got < fwd - tol:
            R.fail("exercise", f"RGW call {got} below the value {fwd} of certain exercise at the dividend", **d)
            return
        if not optimal:
            g = fo.GBSOption(S - D * math.exp(-r * td), K, t, r, r, sg).call()
            R.close(got, float(g), 1e-9 * (S + K), "european", "RGW call where exercise is never optimal vs GBSOption on the escrowed price", **d)
        R.outcome((round(got / K, 6), optimal))
    R.sample(dict(case, last=d, call=got, model=w, european=eu))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="t x td/t x r x S/K x D/K x sigma x K",
            bounds=dict(t=T[tier], td_over_t=F[tier], r=R_[tier], S_over_K=M[tier], D_over_K=DK[tier], sigma=SG[tier], K=KS),
            oracle="exp(-r td) E[max(Black-Scholes value after the dividend, exercise value before it)] integrated in 64-node panels split at the exercise boundary; European escrowed-dividend price; static bounds",
        ),
        assumptions=["price net of the dividend's present value is positive", "tolerance 1.5e-6 (S+K): the package's normal and bivariate normal approximations"],
    )
