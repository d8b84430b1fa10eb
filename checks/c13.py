"""C13: returned trees and plots show the value at every node."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import close_figures
from mc.engines import TREES

PROP = "C13"
TECHNIQUE = "explicit-state enumeration: every node of every lattice up to a depth compared with the model's node value; plots parsed"

NMAX = {"quick": {"CRR": 12, "JR": 12, "TIAN": 12, "TRI": 9}, "thorough": {"CRR": 30, "JR": 30, "TIAN": 30, "TRI": 20}}
PLOT = {"quick": [1, 2, 3, 4, 5, 7, 9, 11], "thorough": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13]}
PAR = [dict(S=50.0, K=50.0, t=5 / 12, r=0.1, b=0.1, sigma=0.4), dict(S=95.0, K=100.0, t=1.0, r=0.08, b=0.0, sigma=0.25),
       dict(S=110.0, K=100.0, t=2.0, r=0.05, b=-0.06, sigma=0.6), dict(S=80.0, K=100.0, t=0.5, r=0.0, b=0.04, sigma=0.3),
       dict(S=1.2, K=1.1, t=0.25, r=-0.03, b=0.02, sigma=0.1), dict(S=41000.0, K=60000.0, t=3.0, r=0.12, b=0.12, sigma=0.9)]


def cases(tier):
    out = []
    for kind in TREES:
        for n in list(range(1, NMAX[tier][kind] + 1)) + ([25] if tier == "quick" and kind != "TRI" else []):
            out.append(dict(tier=tier, kind=kind, n=n, what="matrix"))
        for n in PLOT[tier]:
            for typ in ("european", "american"):
                for side in ("call", "put"):
                    out.append(dict(tier=tier, kind=kind, n=n, what="plot", type=typ, side=side))
    return out


def layout(kind, n, vals):
    """The documented matrix of the node values."""
    if kind == "TRI":
        m = np.zeros((2 * n + 1, n + 1))
        for j in range(n + 1):
            for i, v in enumerate(vals[j]):
                m[n - j + i, j] = v
        return m
    m = np.zeros((n + 1, n + 1))
    for j in range(n + 1):
        for i, v in enumerate(vals[j]):
            m[i, j] = v
    return m


def run(case, R):
    (matrix if case["what"] == "matrix" else plot)(case, R)


def matrix(case, R):
    kind, n = case["kind"], case["n"]
    cls = TREES[kind]
    for p, typ in itertools.product(PAR, ("european", "american")):
        o = cls(**p, type=typ, n=n)
        for side, z in (("call", 1), ("put", -1)):
            vals = ref.lattice_values(kind, p["S"], p["K"], p["t"], p["r"], p["b"], p["sigma"], n, z, typ == "american")
            want = layout(kind, n, vals)
            R.state(sum(len(v) for v in vals))
            got = np.asarray(getattr(o, side)(tree=True))
            R.trace()
            d = dict(p, type=typ, side=side)
            if not R.close(got, want, 1e-9 * np.max(np.abs(want) + 1), f"{kind}.tree", f"{cls.__name__} {typ} {side}(tree=True) n={n}", **d):
                return
            root = float(getattr(o, side)())
            R.close(float(got[n, 0] if kind == "TRI" else got[0, 0]), root, 1e-12 * (1 + root), f"{kind}.root", f"{cls.__name__} root of the tree", **d)
            again = np.asarray(getattr(o, side)(True))
            R.close(again, want, 1e-9 * np.max(np.abs(want) + 1), f"{kind}.tree2", f"{cls.__name__} second tree", **d)
            # the matrix is consistent in itself
            nodes = ref.lattice_nodes(kind, p["S"], p["t"], p["b"], p["sigma"], n)[1]
            last = got[:, n]
            pay = [max(z * (x - p["K"]), 0.0) for x in nodes[n]]
            R.close(last, pay, 1e-9 * (max(pay) + p["K"]), f"{kind}.payoff", f"{cls.__name__} last column", **d)
            R.outcome((kind, typ, side, round(root, 6)))
    R.sample(dict(case, last=got.round(4).tolist() if n < 4 else float(root)))


def plot(case, R):
    import matplotlib.pyplot as plt

    kind, n, typ, side = case["kind"], case["n"], case["type"], case["side"]
    cls = TREES[kind]
    for p, (digits, kw) in itertools.product([PAR[0], PAR[1], PAR[4]], ((2, {}), (1, {}), (4, dict(dx=0.1, dy=0.15, size=8, figsize=(4, 4))), (0, {}))):
        if digits < 2 and p is PAR[1]:
            continue
        vals = ref.lattice_values(kind, p["S"], p["K"], p["t"], p["r"], p["b"], p["sigma"], n, 1 if side == "call" else -1, typ == "american")
        o = cls(**p, type=typ, n=n)
        fig = o.plot(call=side == "call", digits=digits, **kw) if digits != 2 or side == "put" else o.plot()
        R.trace()
        ax = fig.axes[0]
        notes = {}
        for a in ax.texts:
            if not hasattr(a, "xy"):
                continue
            x, y = (int(round(v)) for v in a.xy)
            notes.setdefault((x, y), []).append((a.get_text(), tuple(a.xyann)))
        want = {}
        for j in range(n + 1):
            for i, v in enumerate(vals[j]):
                want[j, (j - i) if kind == "TRI" else (j - 2 * i)] = v
        R.state(len(want))
        d = dict(p, digits=digits)
        if set(notes) != set(want):
            R.fail(f"{kind}.plot-nodes", f"{cls.__name__}.plot n={n} labels nodes {sorted(notes)}, the tree has {sorted(want)}", **d)
            return
        dx, dy = kw.get("dx", -0.2 if kind == "TRI" else -0.025), kw.get("dy", 0.2 if kind == "TRI" else 0.4)
        for xy, labels in notes.items():
            for text, pos in labels:
                R.trans()
                v = float(text)
                if abs(v - want[xy]) > 0.5 * 10.0 ** -digits + 1e-9:
                    R.fail(f"{kind}.plot-label", f"{cls.__name__}.plot n={n} {typ} {side}: node {xy} labelled {text}, its value is {want[xy]}", **d)
                    return
                if abs(pos[0] - xy[0] - dx) > 1e-9 or abs(pos[1] - xy[1] - dy) > 1e-9:
                    R.fail(f"{kind}.plot-offset", f"{cls.__name__}.plot label of node {xy} placed at {pos}, offset ({dx}, {dy}) was asked for", **d)
                    return
        # every edge joins a node with a successor, and every such edge is drawn
        edges = set()
        for line in ax.lines:
            xs, ys = np.round(line.get_xdata()).astype(int), np.round(line.get_ydata()).astype(int)
            for k in range(len(xs) - 1):
                a, b = sorted([(int(xs[k]), int(ys[k])), (int(xs[k + 1]), int(ys[k + 1]))])
                edges.add((a, b))
        exp = set()
        for (x, y) in want:
            if x < n:
                for c in (-1, 0, 1) if kind == "TRI" else (-1, 1):
                    exp.add(((x, y), (x + 1, y + c)))
        if edges != exp:
            R.fail(f"{kind}.plot-edges", f"{cls.__name__}.plot n={n}: edges missing {sorted(exp - edges)[:4]} extra {sorted(edges - exp)[:4]}", **d)
            return
        R.outcome((kind, typ, side, digits, notes[0, 0][0][0]))
        plt.close("all")
    close_figures()
    R.sample(dict(case, labels={str(k): v[0][0] for k, v in list(notes.items())[:6]}))


def describe(tier):
    return dict(
        coverage=dict(
            alphabet="model x style x call/put x depth x six parameter sets; plots: depth x style x side x digits/offset/size options",
            bounds=dict(depth=NMAX[tier], plots=PLOT[tier]),
            oracle="node values of the reference lattice at their (step, level); zero elsewhere; root = price; last column = payoff; plot labels, "
            "label offsets and edges parsed from the returned figure",
        ),
        assumptions=["matplotlib renders the annotations it is given"],
    )
