"""Reference models.  Independent of finoptions: nothing here imports it.

Everything is written from the published definition of the quantity (an expectation over an
explicitly enumerated set of outcomes, a dynamic programme over lattice nodes, a quadrature of the
defining integral), not from the code under test.
"""
import itertools
import math

import numpy as np
from scipy.special import ndtr

SQ2PI = math.sqrt(2 * math.pi)


def N(x):
    return float(ndtr(x))


def npdf(x):
    return math.exp(-0.5 * x * x) / SQ2PI


# ---------------------------------------------------------------- lognormal (Black-Scholes world)
def lognormal_value(F, K, v, disc, z):
    """disc * E[max(z(X-K),0)], X lognormal with mean F and log-standard-deviation v."""
    if v <= 0:
        return disc * max(z * (F - K), 0.0)
    d1 = math.log(F / K) / v + v / 2
    return disc * z * (F * N(z * d1) - K * N(z * (d1 - v)))


def gbs(S, K, t, r, b, sigma, z):
    return lognormal_value(S * math.exp(b * t), K, sigma * math.sqrt(t), math.exp(-r * t), z)


def gbs_scale(S, K, t, r, b):
    return S * math.exp((b - r) * t) + K * math.exp(-r * t)


def gbs_greeks(S, K, t, r, b, sigma, z):
    """Derivatives of gbs(); rho follows the cost-of-carry regime (b moves with r unless b == 0)."""
    v = sigma * math.sqrt(t)
    d1 = math.log(S / K) / v + b * t / v + v / 2
    d2 = d1 - v
    e, dk = math.exp((b - r) * t), math.exp(-r * t)
    price = gbs(S, K, t, r, b, sigma, z)
    delta = z * e * N(z * d1)
    out = dict(
        delta=delta,
        gamma=e * npdf(d1) / (S * v),
        vega=S * e * npdf(d1) * math.sqrt(t),
        theta=-S * e * npdf(d1) * sigma / (2 * math.sqrt(t))
        - z * (b - r) * S * e * N(z * d1)
        - z * r * K * dk * N(z * d2),
        rho=(z * t * K * dk * N(z * d2)) if b != 0 else -t * price,
        CofC=z * t * S * e * N(z * d1),
    )
    out["lambda"] = delta * S / price if price > 0 else float("nan")
    return out


def gl_nodes(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


_GL = gl_nodes(48)


def ms_moments(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF):
    """Variance of log futures and its covariance with the bond, by quadrature of the definition."""
    u = _GL[0] * t
    w = _GL[1] * t
    f = sF / kF * (1 - np.exp(-kF * (T - u)))
    e = sE / kE * (1 - np.exp(-kE * (T - u)))
    p = sF / kF * (1 - np.exp(-kF * (t - u)))
    vz2 = np.sum(
        w * (sS ** 2 + f ** 2 + e ** 2 + 2 * sS * rSF * f - 2 * sS * rSE * e - 2 * rEF * e * f)
    )
    vxz = np.sum(w * p * (sS * rSF + f - rEF * e))
    return float(vz2), float(vxz)


def ms(Pt, FT, K, t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF, z):
    vz2, vxz = ms_moments(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF)
    return lognormal_value(FT * math.exp(-vxz), K, math.sqrt(max(vz2, 0.0)), Pt, z)


# ----------------------------------------------------------------------------- one-asset lattices
def lattice(kind, t, b, sigma, n):
    """-> list of (factor, probability) of one step."""
    dt = t / n
    if kind == "CRR":
        u = math.exp(sigma * math.sqrt(dt))
        d = math.exp(-sigma * math.sqrt(dt))
        p = (math.exp(b * dt) - d) / (u - d)
        return [(u, p), (d, 1 - p)]
    if kind == "JR":
        m = (b - sigma * sigma / 2) * dt
        s = sigma * math.sqrt(dt)
        return [(math.exp(m + s), 0.5), (math.exp(m - s), 0.5)]
    if kind == "TIAN":
        M, V = math.exp(b * dt), math.exp(sigma * sigma * dt)
        q = math.sqrt(V * V + 2 * V - 3)
        u, d = M * V / 2 * (V + 1 + q), M * V / 2 * (V + 1 - q)
        p = (M - d) / (u - d)
        return [(u, p), (d, 1 - p)]
    if kind == "TRI":
        u = math.exp(sigma * math.sqrt(2 * dt))
        h = math.exp(b * dt / 2)
        up, dn = math.exp(sigma * math.sqrt(dt / 2)), math.exp(-sigma * math.sqrt(dt / 2))
        pu, pd = ((h - dn) / (up - dn)) ** 2, ((up - h) / (up - dn)) ** 2
        return [(u, pu), (1.0, 1 - pu - pd), (1 / u, pd)]
    raise KeyError(kind)


def lattice_nodes(kind, S, t, b, sigma, n):
    """nodes[m] = list of asset prices after m steps, highest first; branch(k)-> children indices.

    Prices are formed from the number of net moves, so recombination is explicit in the model."""
    step = lattice(kind, t, b, sigma, n)
    u, d = step[0][0], step[-1][0]
    nodes = []
    for m in range(n + 1):
        if kind == "TRI":
            nodes.append([S * u ** k for k in range(m, -m - 1, -1)])
        else:
            nodes.append([S * u ** (m - i) * d ** i for i in range(m + 1)])
    return step, nodes


def lattice_values(kind, S, K, t, r, b, sigma, n, z, american):
    """Values at every node by backward induction: vals[m][i], i = 0 the highest node."""
    step, nodes = lattice_nodes(kind, S, t, b, sigma, n)
    probs = [p for _, p in step]
    disc = math.exp(-r * t / n)
    vals = [None] * (n + 1)
    vals[n] = [max(z * (x - K), 0.0) for x in nodes[n]]
    for m in range(n - 1, -1, -1):
        row = []
        for i, x in enumerate(nodes[m]):
            cont = disc * sum(p * vals[m + 1][i + k] for k, p in enumerate(probs))
            row.append(max(cont, z * (x - K)) if american else cont)
        vals[m] = row
    return vals


def lattice_paths(kind, S, K, t, r, b, sigma, n, z):
    """European value by enumerating every path explicitly (no recombination, no induction)."""
    step = lattice(kind, t, b, sigma, n)
    tot = 0.0
    count = 0
    for path in itertools.product(step, repeat=n):
        p, x = 1.0, S
        for f, q in path:
            p *= q
            x *= f
        tot += p * max(z * (x - K), 0.0)
        count += 1
    return math.exp(-r * t) * tot, count


def lattice_policies(kind, S, K, t, r, b, sigma, n, z):
    """American value as the maximum over every node exercise policy (subset of non-terminal nodes).

    Each policy is evaluated by forward propagation of state probabilities.  Meaningful as the
    American value when all one-step probabilities are non-negative."""
    step, nodes = lattice_nodes(kind, S, t, b, sigma, n)
    probs = [p for _, p in step]
    disc = math.exp(-r * t / n)
    keys = [(m, i) for m in range(n) for i in range(len(nodes[m]))]
    best = -1e300
    for mask in range(1 << len(keys)):
        stop = {k for j, k in enumerate(keys) if mask >> j & 1}
        cur, tot = {0: 1.0}, 0.0
        for m in range(n):
            nxt = {}
            for i, w in cur.items():
                if (m, i) in stop:
                    tot += w * disc ** m * z * (nodes[m][i] - K)
                else:
                    for k, p in enumerate(probs):
                        nxt[i + k] = nxt.get(i + k, 0.0) + w * p
            cur = nxt
        tot += sum(w * disc ** n * max(z * (nodes[n][i] - K), 0.0) for i, w in cur.items())
        best = max(best, tot)
    return best, 1 << len(keys)


def lattice_np(kind, S, K, t, r, b, sigma, n, z, american):
    """Vectorised backward induction for larger n (same model as lattice_values)."""
    step = lattice(kind, t, b, sigma, n)
    probs = [p for _, p in step]
    u, d = step[0][0], step[-1][0]
    disc = math.exp(-r * t / n)

    def prices(m):
        if kind == "TRI":
            return S * u ** np.arange(m, -m - 1, -1.0)
        i = np.arange(m + 1.0)
        return S * u ** (m - i) * d ** i

    v = np.maximum(z * (prices(n) - K), 0)
    for m in range(n - 1, -1, -1):
        ln = (2 * m + 1) if kind == "TRI" else m + 1
        v = disc * sum(p * v[k:k + ln] for k, p in enumerate(probs))
        if american:
            v = np.maximum(v, z * (prices(m) - K))
    return float(v[0])


# ----------------------------------------------------------------------------- two-asset lattice
def spread_payoff(option, z, s1, s2, Q1, Q2, K, K2):
    a, b = Q1 * s1, Q2 * s2
    if option == 1:
        x = z * ((a - b) - K)
    elif option == 2:
        x = z * (max(a, b) - K)
    elif option == 3:
        x = z * (min(a, b) - K)
    elif option == 4:
        x = max(z * (a - K), z * (b - K2))
    elif option == 5:
        x = max(z * (a - K), z * (K2 - b))
    elif option == 6:
        x = z * ((a + b) - K)
    elif option == 7:
        x = z * (b - a)
    elif option == 8:
        x = z * (a / b - K)
    elif option == 9:
        x = z * (a * b - K)
    else:
        raise KeyError(option)
    return max(x, 0.0)


def spread_moves(t, b1, b2, sg1, sg2, rho, n):
    """Rubinstein's four equally likely joint moves -> list of (f1, f2)."""
    dt = t / n
    h = math.sqrt(dt)
    out = []
    for e1 in (1, -1):
        for e2 in (1, -1):
            f1 = math.exp((b1 - sg1 * sg1 / 2) * dt + sg1 * h * e1)
            f2 = math.exp(
                (b2 - sg2 * sg2 / 2) * dt + sg2 * h * (rho * e1 + math.sqrt(1 - rho * rho) * e2)
            )
            out.append((f1, f2))
    return out


def spread_node(S1, S2, t, b1, b2, sg1, sg2, rho, n, m, j, i):
    """Prices after m steps with j ups of the first and i ups of the second innovation."""
    dt = t / n
    h = math.sqrt(dt)
    y1, y2 = (2 * j - m) * h, (2 * i - m) * h
    s1 = S1 * math.exp((b1 - sg1 * sg1 / 2) * m * dt + sg1 * y1)
    s2 = S2 * math.exp(
        (b2 - sg2 * sg2 / 2) * m * dt + sg2 * (rho * y1 + math.sqrt(1 - rho * rho) * y2)
    )
    return s1, s2


def spread_paths(S1, S2, t, r, b1, b2, sg1, sg2, rho, K, K2, Q1, Q2, option, n, z):
    mv = spread_moves(t, b1, b2, sg1, sg2, rho, n)
    tot, cnt = 0.0, 0
    for path in itertools.product(mv, repeat=n):
        s1, s2 = S1, S2
        for f1, f2 in path:
            s1 *= f1
            s2 *= f2
        tot += spread_payoff(option, z, s1, s2, Q1, Q2, K, K2)
        cnt += 1
    return math.exp(-r * t) * tot / cnt, cnt


def spread_values(S1, S2, t, r, b1, b2, sg1, sg2, rho, K, K2, Q1, Q2, option, n, z, american):
    """vals[m][j][i] by backward induction over every node."""
    disc = math.exp(-r * t / n)
    pay = lambda m, j, i: spread_payoff(
        option, z, *spread_node(S1, S2, t, b1, b2, sg1, sg2, rho, n, m, j, i), Q1, Q2, K, K2
    )
    vals = [None] * (n + 1)
    vals[n] = [[pay(n, j, i) for i in range(n + 1)] for j in range(n + 1)]
    for m in range(n - 1, -1, -1):
        nx = vals[m + 1]
        vals[m] = [
            [
                disc * (nx[j][i] + nx[j + 1][i] + nx[j][i + 1] + nx[j + 1][i + 1]) / 4
                for i in range(m + 1)
            ]
            for j in range(m + 1)
        ]
        if american:
            vals[m] = [
                [max(vals[m][j][i], pay(m, j, i)) for i in range(m + 1)] for j in range(m + 1)
            ]
    return vals


def kirk(S1, S2, K, t, r, b1, b2, sg1, sg2, rho, Q1, Q2, z):
    F1, F2 = Q1 * S1 * math.exp(b1 * t), Q2 * S2 * math.exp(b2 * t)
    w = F2 / (F2 + K)
    v2 = sg1 ** 2 + (sg2 * w) ** 2 - 2 * rho * sg1 * sg2 * w
    return lognormal_value(F1, F2 + K, math.sqrt(v2 * t), math.exp(-r * t), z)


# ------------------------------------------------------------------------------- Heston-Nandi
_GH = {}


def gh(n):
    if n not in _GH:
        x, w = np.polynomial.hermite_e.hermegauss(n)
        _GH[n] = (x, w / SQ2PI)
    return _GH[n]


def hn_value(S, K, t, r, lamb, omega, alpha, beta, gamma, z, nodes=40):
    """Risk-neutral Heston-Nandi price: recursion over the innovations of every day but the last

    (Gauss-Hermite product grid), the last day being lognormal in closed form."""
    g = gamma + lamb + 0.5
    h0 = (omega + alpha) / (1 - beta - alpha * g * g)
    x, w = gh(nodes)
    X = np.array([0.0])
    H = np.array([h0])
    W = np.array([1.0])
    for _ in range(t - 1):
        X = (X[:, None] + r - H[:, None] / 2 + np.sqrt(H)[:, None] * x[None, :]).ravel()
        Hn = omega + beta * H[:, None] + alpha * (x[None, :] - g * np.sqrt(H)[:, None]) ** 2
        W = (W[:, None] * w[None, :]).ravel()
        H = Hn.ravel()
    F = S * np.exp(X + r)
    v = np.sqrt(H)
    d1 = np.log(F / K) / v + v / 2
    val = z * (F * ndtr(z * d1) - K * ndtr(z * (d1 - v)))
    return float(math.exp(-r * t) * np.sum(W * val))


def hn_recursion(lamb, omega, alpha, beta, gamma, rf, Z):
    """Returns of the HN-GARCH(1,1) process driven by the whole innovation list Z."""
    h = (omega + alpha) / (1 - alpha * gamma * gamma - beta)
    out, prev = [], None
    for zz in Z:
        if prev is not None:
            h = omega + alpha * (prev - gamma * math.sqrt(h)) ** 2 + beta * h
        out.append(rf + lamb * h + math.sqrt(h) * zz)
        prev = zz
    return out


def hn_llh(x, lamb, omega, alpha, beta, gamma, rf):
    """-> (negative log likelihood, z, h)"""
    h = (omega + alpha) / (1 - alpha * gamma * gamma - beta)
    hs, zs = [], []
    for i, xi in enumerate(x):
        if i:
            h = omega + alpha * (zs[-1] - gamma * math.sqrt(hs[-1])) ** 2 + beta * hs[-1]
        hs.append(h)
        zs.append((xi - rf - lamb * h) / math.sqrt(h))
    nll = sum(0.5 * z * z + 0.5 * math.log(2 * math.pi) + 0.5 * math.log(h) for z, h in zip(zs, hs))
    return nll, zs, hs


# --------------------------------------------------------------- published American approximations
def baw(S, K, t, r, b, sigma, z):
    """Barone-Adesi/Whaley quadratic approximation -> (price, critical price or None), r >= 0."""
    from scipy.optimize import brentq

    if (z == 1 and b >= r) or (z == -1 and r <= 0 and b <= r):
        return gbs(S, K, t, r, b, sigma, z), None
    n = 2 * b / sigma ** 2
    X = 2 / (sigma * sigma * t) if r == 0 else 2 * r / (sigma * sigma * -math.expm1(-r * t))
    q = (-(n - 1) + z * math.sqrt((n - 1) ** 2 + 4 * X)) / 2
    v = sigma * math.sqrt(t)

    def prem(x):
        d1 = math.log(x / K) / v + b * t / v + v / 2
        return z * (1 - math.exp((b - r) * t) * N(z * d1)) * x / q

    f = lambda x: z * (x - K) - gbs(x, K, t, r, b, sigma, z) - prem(x)
    a, c = K, K
    while f(a) < 0:
        a, c = (a * 2, a) if z == 1 else (a / 2, a)
        if not 1e-12 < a / K < 1e12:
            raise ArithmeticError("no critical price")
    x = a if a == c else brentq(f, min(a, c), max(a, c), xtol=1e-13 * K)
    if z * (S - x) >= 0:
        return z * (S - K), x
    return gbs(S, K, t, r, b, sigma, z) + prem(x) * (S / x) ** q, x


def bs93(S, K, t, r, b, sigma):
    """Bjerksund/Stensland 1993 call -> (price, trigger or None, sum of absolute terms, largest exponent a term
    needs when its factors are formed one by one)."""
    if b >= r:
        return gbs(S, K, t, r, b, sigma, 1), None, gbs_scale(S, K, t, r, b), 0.0
    v = sigma * math.sqrt(t)
    beta = 0.5 - b / sigma ** 2 + math.sqrt((b / sigma ** 2 - 0.5) ** 2 + 2 * r / sigma ** 2)
    binf = beta / (beta - 1) * K
    b0 = max(K, r / (r - b) * K)
    h = -(b * t + 2 * v) * b0 / (binf - b0)
    trig = b0 + (binf - b0) * (1 - math.exp(min(h, 0)))
    if S >= trig:
        return S - K, trig, S + K, 0.0
    tot, size = (trig - K) * (S / trig) ** beta, abs(trig - K)
    la = math.log(trig - K) - beta * math.log(trig) if trig > K else -math.inf

    def term(sign, logc, g, H):
        # sign * exp(logc) * phi(S, t, g, H, trig)
        nonlocal tot, size
        if logc == -math.inf:
            return
        lam = (-r + g * b + 0.5 * g * (g - 1) * sigma * sigma) * t
        d = -(math.log(S / H) + (b + (g - 0.5) * sigma * sigma) * t) / v
        kap = 2 * b / sigma ** 2 + 2 * g - 1
        L = math.log(trig / S)
        c = math.exp(logc + lam + g * math.log(S))
        w = math.exp(kap * L)
        tot += sign * c * (N(d) - w * N(d - 2 * L / v))
        size += c * (1 + w)

    term(-1, la, beta, trig)
    term(1, 0.0, 1, trig)
    term(-1, 0.0, 1, K)
    term(-1, math.log(K), 0, trig)
    term(1, math.log(K), 0, K)
    kap = abs(2 * b / sigma ** 2) + 2 * beta
    big = max(beta * abs(math.log(S)), beta * abs(math.log(trig)), kap * math.log(trig / S))
    return tot, trig, size, big


# ----------------------------------------------------------------- American call, one dividend
_GL64 = gl_nodes(64)


def rgw(S, K, t, td, r, D, sigma):
    """exp(-r td) E[max(call after the dividend, exercise just before it)] -> (value, escrowed European).

    The price net of the escrowed dividend is lognormal; the decision kink is located and the
    expectation integrated piecewise with Gauss-Legendre panels."""
    from scipy.optimize import brentq

    X0 = S - D * math.exp(-r * td)
    tau = t - td
    eu = gbs(X0, K, t, r, r, sigma, 1)
    keep = lambda x: gbs(x, K, tau, r, r, sigma, 1)
    ex = lambda x: x + D - K
    v = sigma * math.sqrt(td)
    m = math.log(X0) + (r - sigma * sigma / 2) * td
    zs = [-9.0, v - 9.0, 9.0, v + 9.0]
    g = lambda z: ex(math.exp(m + v * z)) - keep(math.exp(m + v * z))
    lo, hi = -9.0, v + 9.0
    cuts = [lo, hi, (math.log(K) - m) / v]
    if g(hi) > 0 > g(lo):
        cuts.append(brentq(g, lo, hi, xtol=1e-13))
    cuts = sorted(c for c in cuts if lo <= c <= hi)
    tot = 0.0
    x, w = _GL64
    for a, c in zip(cuts, cuts[1:]):
        k = max(1, int(math.ceil((c - a) / 1.5)))
        for i in range(k):
            p = a + (c - a) * i / k
            q = a + (c - a) * (i + 1) / k
            z = p + (q - p) * x
            X = np.exp(m + v * z)
            d1 = (np.log(X / K) + (r + sigma * sigma / 2) * tau) / (sigma * math.sqrt(tau))
            hold = X * ndtr(d1) - K * math.exp(-r * tau) * ndtr(d1 - sigma * math.sqrt(tau))
            tot += float(np.sum(w * (q - p) * np.exp(-z * z / 2) / SQ2PI * np.maximum(hold, X + D - K)))
    return math.exp(-r * td) * tot, eu


def hn_mgf(u, t, r, omega, alpha, beta, g, h0):
    """log E[exp(u (log S_T - log S_0))] under the risk-neutral HN-GARCH(1,1), u complex array."""
    A = np.zeros_like(u)
    B = np.zeros_like(u)
    for _ in range(t):
        # one more day: E exp(u (r - h/2 + sqrt(h) z) + A + B (omega + beta h + alpha (z - g sqrt(h))^2))
        c = 1 - 2 * alpha * B
        A, B = A + u * r + B * omega - 0.5 * np.log(c), -u / 2 + B * (beta + alpha * g * g) + (u - 2 * alpha * g * B) ** 2 / (2 * c)
    return A + B * h0


def hn_fourier(S, K, t, r, lamb, omega, alpha, beta, gamma, z, n=20000):
    """Single-integral (Lewis contour) value for any number of days -> (value, delta, gamma)."""
    g = gamma + lamb + 0.5
    h0 = (omega + alpha) / (1 - beta - alpha * g * g)
    # the integrand decays like exp(-u^2 var/2)/(u^2 + 1/4)
    umax = 1.0
    lv = lambda u: float(np.real(hn_mgf(np.array([0.5 + 1j * u]), t, r, omega, alpha, beta, g, h0))[0])
    base = lv(0.0)
    while lv(umax) > base - 46 and umax < 1e7:
        umax *= 1.5
    k = math.log(S / K)
    n = max(n, int(umax * abs(k) * 4))
    x, w = _GL64
    panels = max(8, n // 64)
    e = umax * (np.arange(panels + 1) / panels) ** 2  # denser near 0
    u = (e[:-1, None] + (e[1:] - e[:-1])[:, None] * x[None, :]).ravel()
    wu = ((e[1:] - e[:-1])[:, None] * w[None, :]).ravel()
    p = 0.5 + 1j * u
    f = np.exp(p * k + hn_mgf(p, t, r, omega, alpha, beta, g, h0)) / (u * u + 0.25)
    c = K * math.exp(-r * t) / math.pi
    call = S - c * float(np.sum(wu * f.real))
    dl = 1 - c / S * float(np.sum(wu * (p * f).real))
    gm = -c / S ** 2 * float(np.sum(wu * (p * (p - 1) * f).real))
    if z == -1:
        return call - S + K * math.exp(-r * t), dl - 1, gm
    return call, dl, gm
