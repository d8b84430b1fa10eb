"""Environment of C24: scipy's Sobol sampler behind a delegating subclass that follows a script.

Installed before finoptions is imported, so that whichever way the code reaches scipy.stats.qmc.Sobol it
gets this class.  A script is a list of faults, one per scrambled random() call: [] (good answer) or a list
of (cell, value) pairs to overwrite.  Answers are logged.  Without a script the class is plain Sobol."""
import numpy as np
from scipy.stats import qmc

REAL = qmc.Sobol


class Env:
    script = None  # list of faults, or None: real answers
    pos = 0
    log = []  # (scramble, d, n, array returned)
    overrun = False


class ScriptedSobol(REAL):
    def __init__(self, d, *args, **kw):
        self._c24_d = d
        self._c24_scramble = kw.get("scramble", args[0] if args else True)
        if self._c24_scramble and Env.script is not None and "seed" not in kw and "rng" not in kw:
            kw["seed"] = 1000 + len(Env.log)  # every sampler object gives a different, reproducible sample
        super().__init__(d, *args, **kw)

    def _c24_answer(self, x):
        x = np.array(x)
        if Env.script is not None and self._c24_scramble:
            if Env.pos < len(Env.script):
                for i, v in Env.script[Env.pos]:
                    x.reshape(-1)[i % x.size] = v
            else:
                Env.overrun = True
            Env.pos += 1
        Env.log.append((bool(self._c24_scramble), self._c24_d, x.shape[0], x.copy()))
        return x

    def random(self, n=1, *args, **kw):
        return self._c24_answer(super().random(n, *args, **kw))


def install():
    qmc.Sobol = ScriptedSobol
