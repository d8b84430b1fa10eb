"""Explorer core shared by every check.

A check module (checks/cNN.py) closes one part of finoptions with a small driver and hands this
core a *finite, completely listed* space of cases (histories, lattices, schedules, environment
answers, parameter valuations).  The core runs every case against the code in /repo/src, counts
model states / transitions / replayed traces as they are visited, and turns the first failing
cases into replay files.

A module provides
    PROP        property id
    TECHNIQUE   short text
    cases(tier) -> list of JSON-able cases, simplest first (this *is* the explored space)
    run(case, R)  explores one case; calls R.state/R.trans/R.trace for coverage and R.fail(...)
    describe(tier) -> dict of text for the evidence file (alphabet, bounds, oracle)
Nothing is sampled: VERIF_SEED only rotates the order in which chunks are handed to workers.
"""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FINOPT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_S = 60.0  # user-CPU seconds after which one call counts as not terminating
BUDGET = {"quick": 700.0, "thorough": 3 * 3600.0}


class NonTermination(BaseException):
    pass


def load_finoptions():
    """Import finoptions from the working tree under test, never from anywhere else."""
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import numpy as np

    np.seterr(all="ignore")
    import finoptions as fo

    here = os.path.realpath(fo.__file__)
    if not here.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"finoptions imported from {here}, not from {SRC}")
    return fo


class Recorder:
    """Coverage counters and failures of one worker."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.outcomes = set()
        self.samples = []
        self.failures = []
        self.case = None
        self._idx = None

    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, v):
        self.extra["max_" + name] = max(self.extra.get("max_" + name, v), v)

    def outcome(self, x):
        """Distinct observed results: shows that the explored space is not vacuous."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(x))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def fail(self, key, msg, **detail):
        """key identifies the failing input/history (matched against known findings)."""
        if len(self.failures) < 400:
            self.failures.append(
                dict(key=key, msg=msg, detail=jsonable(detail), case=self.case, index=self._idx)
            )

    # -- convenience comparison -------------------------------------------------------------
    def close(self, got, want, tol, key, what, **detail):
        import numpy as np

        self.trans()
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol))
        except Exception as e:  # not a number at all
            self.fail(key, f"{what}: not numeric ({type(e).__name__}: {e})", got=repr(got), **detail)
            return False
        if not ok:
            self.fail(key, f"{what}: got {short(got)} want {short(want)} (tol {short(tol)})", **detail)
        return ok


def short(x):
    s = repr(jsonable(x))
    return s if len(s) < 200 else s[:200] + "..."


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


class cpu_limit:
    """Raises NonTermination inside the body after `sec` seconds of user CPU time of this process."""

    def __init__(self, sec=CASE_CPU_S):
        self.sec = sec

    def __enter__(self):
        def h(*_):
            raise NonTermination(f"no answer after {self.sec:g} s of CPU")

        self.old = signal.signal(signal.SIGVTALRM, h)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.sec)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


def run_one(mod, case, R, idx, tier="quick"):
    R.case, R._idx = case, idx
    limit = getattr(mod, "CPU_LIMIT", CASE_CPU_S) * (10 if tier == "thorough" else 1)
    try:
        with cpu_limit(limit):
            mod.run(case, R)
    except NonTermination as e:
        R.fail("hang", f"does not terminate: {e}", where=_where(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        R.fail("exception", f"{type(e).__name__}: {e}", tb=[f"{f.filename}:{f.lineno} {f.name}" for f in tb[-6:]])
    finally:
        close_figures()


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]


def in_child(fn, *args):
    """fn(*args) evaluated in a forked child that shares no later history with this process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            os.close(r)
            try:
                out = dict(ok=fn(*args))
            except Exception as e:
                out = dict(err=f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(jsonable(out)).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    out = json.loads(raw)
    if "err" in out:
        raise RuntimeError("in forked child: " + out["err"])
    return out["ok"]


def canon(x, _seen=None):
    """Hashable canonical form of a live object graph: the full implementation state."""
    import types

    import numpy as np

    seen = {} if _seen is None else _seen
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, repr(x.item()))
    if isinstance(x, type) or isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        return ("ref", getattr(x, "__module__", ""), getattr(x, "__qualname__", getattr(x, "__name__", "?")))
    if id(x) in seen:
        return ("seen", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, np.ndarray):
        return ("arr", x.dtype.str, x.shape, x.tobytes() if x.dtype != object else tuple(canon(v, seen) for v in x.ravel()))
    if isinstance(x, dict):
        return ("dict",) + tuple((canon(k, seen), canon(v, seen)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v, seen) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(canon(v, seen)) for v in x))
    if isinstance(x, types.MethodType):
        return ("meth", x.__func__.__qualname__, canon(x.__self__, seen))
    d = getattr(x, "__dict__", None)
    if d is not None:
        return ("obj", type(x).__qualname__) + tuple((k, canon(d[k], seen)) for k in sorted(d))
    return ("repr", type(x).__qualname__)


def close_figures():
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None:
        plt.close("all")


def _child(mod, chunk, wfd, deadline, tier):
    faulthandler.enable()
    R = Recorder()
    done = 0
    try:
        for idx, case in chunk:
            if time.time() > deadline:
                break
            run_one(mod, case, R, idx, tier)
            done += 1
        out = dict(done=done, R=R.__dict__)
    except BaseException as e:
        out = dict(done=done, crash="".join(traceback.format_exception(e)), R=R.__dict__)
    out["R"] = {k: v for k, v in out["R"].items() if k not in ("case", "_idx")}
    out["R"]["outcomes"] = list(out["R"]["outcomes"])
    data = json.dumps(jsonable(out)).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def explore(mod, tier, seed, verbose=False):
    """Runs every case in freshly forked children (one chunk each) and merges their counts."""
    import selectors

    cases = list(enumerate(mod.cases(tier)))
    nchunks = getattr(mod, "CHUNKS", WORKERS * 8)
    nchunks = max(1, min(nchunks, len(cases)))
    chunks = [cases[i::nchunks] for i in range(nchunks)]
    rot = seed % nchunks
    order = list(range(nchunks))[rot:] + list(range(nchunks))[:rot]
    deadline = time.time() + BUDGET[tier]
    sel = selectors.DefaultSelector()
    running, results = {}, {}
    pending = order[:]
    while pending or running:
        while pending and len(running) < WORKERS:
            c = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _child(mod, chunks[c], w, deadline, tier)
                finally:
                    os._exit(70)
            os.close(w)
            running[r] = (pid, c, [])
            sel.register(r, selectors.EVENT_READ)
        for keyobj, _ in sel.select(timeout=5.0):
            fd = keyobj.fd
            data = os.read(fd, 1 << 16)
            pid, c, buf = running[fd]
            if data:
                buf.append(data)
                continue
            sel.unregister(fd)
            os.close(fd)
            del running[fd]
            _, status = os.waitpid(pid, 0)
            raw = b"".join(buf)
            if not raw:
                # the interpreter itself died on this chunk: find the case by running one at a time
                results[c] = dict(done=0, died=status, R=None)
            else:
                results[c] = json.loads(raw)
    agg = dict(
        cases=len(cases), done=0, states=0, transitions=0, traces=0, extra={}, outcomes=set(),
        samples=[], failures=[], crashes=[],
    )
    for c in sorted(results):
        res = results[c]
        if res.get("crash"):
            agg["crashes"].append(res["crash"])
        if res["R"] is None:
            agg["crashes"].append(f"worker for chunk {c} died with status {res['died']}")
            continue
        R = res["R"]
        agg["done"] += res["done"]
        agg["states"] += R["states"]
        agg["transitions"] += R["transitions"]
        agg["traces"] += R["traces"]
        agg["outcomes"].update(R["outcomes"])
        for k, v in R["extra"].items():
            old = agg["extra"].get(k, 0)
            agg["extra"][k] = max(old, v) if k.startswith("max_") else old + v
        if len(agg["samples"]) < 4:
            agg["samples"] += R["samples"][:1]
        for f in R["failures"]:
            f["chunk"] = c
            f["before"] = [i for i, _ in chunks[c] if i < f["index"]]
        agg["failures"] += R["failures"]
    agg["failures"].sort(key=lambda f: f["index"])
    return agg, cases


# ---------------------------------------------------------------------------------------------
def known_findings(prop):
    """Lines `finding: property=Cxx key=<key> :: <text>`; `fixed:` lines suppress nothing."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body = line[len("finding:"):].strip()
            head, _, text = body.partition(" :: ")
            fields = dict(p.split("=", 1) for p in head.split(" ", 1) if "=" in p)
            if fields.get("property") == prop:
                out[fields["key"]] = text.strip()
    return out


def write_replay(prop, tier, n, f):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{n:03d}.json")
    with open(path, "w") as fh:
        json.dump(dict(property=prop, tier=tier, **f), fh, indent=1, sort_keys=True)
    return path


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop == "C24":  # the environment whose answers C24 enumerates
        from mc import sobol_env

        sobol_env.install()
    load_finoptions()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if "--replay" in argv:
        return replay(mod, prop, argv[argv.index("--replay") + 1])
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    agg, cases = explore(mod, tier, seed)
    if agg["crashes"]:
        for c in agg["crashes"]:
            print(c, file=sys.stderr)
    known = known_findings(prop)
    new, hit = [], {}
    for f in agg["failures"]:
        if f["key"] in known:
            hit.setdefault(f["key"], f)
        else:
            new.append(f)
    desc = mod.describe(tier)
    complete = agg["done"] == agg["cases"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=agg["states"], transitions=agg["transitions"],
            traces_validated_against_impl=agg["traces"],
            cases=agg["cases"], cases_completed=agg["done"],
            distinct_outcomes=len(agg["outcomes"]), exhaustive=complete,
            samples=agg["samples"] or [jsonable(cases[0][1])],
            counters=agg["extra"], workers=WORKERS, **desc.get("coverage", {}),
        ),
        assumptions=desc.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(jsonable(ev), fh, indent=1)
    print(
        f"{prop} {tier}: cases={agg['done']}/{agg['cases']} states={agg['states']} "
        f"transitions={agg['transitions']} traces={agg['traces']} outcomes={len(agg['outcomes'])} "
        f"{agg['extra'] or ''} wall={ev['wall_s']}s"
        + ("" if complete else "  CAPPED: time budget reached, space not fully covered")
    )
    for k, text in known.items():
        if k in hit:
            print(f"KNOWN-FINDING: property={prop} {text} [{k}]")
    if new:
        shown = {}
        for f in new:
            shown.setdefault(f["key"], f)
        for i, f in enumerate(list(shown.values())[:5]):
            path = write_replay(prop, tier, i, f)
            print(f"  {f['key']}: {f['msg']}  case={json.dumps(f['case'])[:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(new)} failing comparisons, {len(shown)} distinct keys")
        return 1
    if agg["crashes"]:
        return 2
    return 0


def replay(mod, prop, path):
    f = json.load(open(path))
    if hasattr(mod, "prepare"):
        mod.prepare(f.get("tier", "quick"))
    R = Recorder()
    run_one(mod, f["case"], R, f["index"], f.get("tier", "quick"))
    if not any(x["key"] == f["key"] for x in R.failures):
        # not reproducible alone: replay the whole history the worker had executed before it
        print("case alone is quiet; replaying the histories that preceded it in its process")
        cases = list(mod.cases(f.get("tier", "quick")))
        R = Recorder()
        for i in f.get("before", []):
            run_one(mod, cases[i], R, i, f.get("tier", "quick"))
        run_one(mod, f["case"], R, f["index"], f.get("tier", "quick"))
    for x in R.failures:
        print(x["key"], x["msg"])
        print("   case", json.dumps(x["case"])[:1000])
    if R.failures:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("does not fail any more")
    return 0


if __name__ == "__main__":
    sys.exit(main())
