"""Concrete execution of a harness on the real, unpatched code.

`python3-vt -m engine.concrete <replay.json>` re-runs a reported counterexample; `run_cases` is
used by the driver (in a child process) to replay counterexamples and to validate sampled paths.
"""
from __future__ import annotations

import fractions
import json
import os
import random
import signal
import sys
import traceback

from . import loader, shims


class Violation(BaseException):
    def __init__(self, label):
        self.label = label


class Skip(BaseException):
    """An assumption of the harness does not hold for these inputs."""


class Timeout(BaseException):
    pass


class ConcreteContext:
    symbolic = False

    def __init__(self, inputs, known=(), seed=None):
        self.inputs = inputs
        self.rng = random.Random(seed) if seed is not None else None
        self.known = set(known)
        self.labels = []
        self.missing = []

    def _get(self, name, default, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        self.missing.append(name)
        if self.rng is not None:
            # completing the inputs of a path that could not be encoded to its end
            default = self.rng.randint(-1000 if lo is None else lo, 1000 if hi is None else hi)
            self.inputs[name] = default
        return default

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0),
                             lo if lo is not None or hi is None else hi - 1000, hi if hi is not None or lo is None else lo + 1000))

    def bool(self, name):
        return bool(self._get(name, False, 0, 1))

    def flt(self, name, k, lo, hi):
        if name not in self.inputs and self.rng is not None:
            f = fractions.Fraction
            self.inputs[name] = self.rng.randint(int(f(lo) * 2 ** k), int(f(hi) * 2 ** k)) / 2 ** k
        return float(self._get(name, lo))

    def choice(self, name, n):
        return 0 if n <= 1 else int(self._get(name, 0, 0, n - 1))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def index(self, name, n):
        return int(self._get(name, 0, 0, n - 1))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, known=None, region=True):
        self.labels.append(label)
        if not cond and not (known in self.known and region):
            raise Violation(label)

    def fail(self, label, **kw):
        self.check(False, label, **kw)

    def patch(self, module, name, value):
        shims.MODULE_STUBS[module]._overrides[name] = value

    def fresh_modules(self):
        return loader.load(False)

    def incomplete(self, why):
        pass

    def note(self, text):
        pass


def run_one(fn, params, inputs, seconds, known=(), seed=None):
    ctx = ConcreteContext(inputs, known, seed)
    shims.reset_overrides()
    out = {"outcome": "ok"}

    def on_alarm(sig, frame):
        raise Timeout()

    signal.signal(signal.SIGALRM, on_alarm)
    try:
        M = loader.load(False)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            fn(ctx, M, **params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        out = {"outcome": "violation", "label": v.label, "where": traceback.format_exc(limit=-2)}
    except Skip:
        out = {"outcome": "skip"}
    except Timeout:
        out = {"outcome": "violation", "label": "terminates", "hang": True}
    except Exception as e:
        out = {"outcome": "violation", "label": "unexpected %s" % type(e).__name__,
               "where": traceback.format_exc(limit=-4)}
    out["labels"] = ctx.labels
    out["missing"] = ctx.missing
    if seed is not None:
        out["inputs"] = ctx.inputs
    return out


def main(argv):
    from . import registry
    if len(argv) > 1 and argv[1] == "--batch":
        devnull = open(os.devnull, "w")
        real_out = os.fdopen(os.dup(1), "w")
        os.dup2(devnull.fileno(), 1)
        os.dup2(devnull.fileno(), 2)
        for line in sys.stdin:
            case = json.loads(line)
            h = registry.find(case["property"], case["harness"])
            r = run_one(h.fn, case["params"], case["inputs"], case.get("seconds", 10), case.get("known", ()),
                        case.get("seed"))
            real_out.write(json.dumps(r) + "\n")
            real_out.flush()
        real_out.flush()
        os._exit(0)
    case = json.load(open(argv[1]))
    h = registry.find(case["property"], case["harness"])
    r = run_one(h.fn, case["params"], case["inputs"], case.get("seconds", 10), case.get("known", ()))
    print(json.dumps({k: v for k, v in r.items() if k != "labels"}, indent=1))
    sys.stdout.flush()
    os._exit(1 if r["outcome"] == "violation" else 0)


if __name__ == "__main__":
    main(sys.argv)
