"""Harness registry: which symbolic harnesses decide which property, with which bounds."""
from __future__ import annotations

import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

PROPERTIES = {}   # id -> [Harness]


class Harness:
    def __init__(self, prop, fn, quick, thorough, bounds, assumes, path_seconds, fork_each):
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.quick = [quick] if isinstance(quick, dict) else list(quick)
        thorough = quick if thorough is None else thorough
        self.thorough = [thorough] if isinstance(thorough, dict) else list(thorough)
        self.bounds = bounds
        self.assumes = list(assumes)
        self.path_seconds = path_seconds
        self.fork_each = fork_each


def harness(prop, quick=None, thorough=None, bounds="", assumes=(), path_seconds=20.0, fork_each=False):
    def deco(fn):
        PROPERTIES.setdefault(prop, []).append(
            Harness(prop, fn, quick or {}, thorough, bounds, assumes, path_seconds, fork_each))
        return fn
    return deco


_loaded = False


def load_all():
    global _loaded
    if not _loaded:
        _loaded = True
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.startswith("h_") and f.endswith(".py"):
                importlib.import_module("harness." + f[:-3])


def find(prop, name):
    load_all()
    for h in PROPERTIES[prop]:
        if h.name == name:
            return h
    raise KeyError((prop, name))
