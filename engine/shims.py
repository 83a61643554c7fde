"""Stand-ins for standard modules that nion.utils imports.

`math` accepts symbolic numbers.  The others are proxies that forward to the real module unless a
harness installs an override (clock, threads, queue, event loop, log10 contract, ...): each override
is part of the claim of the property that installs it and is listed in its evidence.
"""
from __future__ import annotations

import importlib
import math
import types

from . import sym, symstr


class ModuleProxy(types.ModuleType):
    """Forwards to the real module; `overrides` win."""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__["_real_name"] = name
        self.__dict__["_overrides"] = {}

    def __getattr__(self, attr):
        ov = self.__dict__["_overrides"]
        if attr in ov:
            return ov[attr]
        return getattr(importlib.import_module(self.__dict__["_real_name"]), attr)


class MathProxy(ModuleProxy):
    pass


def _wrap1(fn, symfn):
    def f(x, *a):
        if isinstance(x, (sym.SymInt, sym.SymFloat)):
            return symfn(x, *a)
        return fn(x, *a)
    return f


def _m_copysign(x, y):
    if isinstance(x, (sym.SymInt, sym.SymFloat)) or isinstance(y, (sym.SymInt, sym.SymFloat)):
        ax = sym.sym_abs(sym.to_float(x)) if isinstance(x, (sym.SymInt, sym.SymFloat)) else math.fabs(x)
        if not isinstance(y, (sym.SymInt, sym.SymFloat)):
            return ax if math.copysign(1.0, y) > 0 else -ax
        return ax if y >= 0 else -ax  # -0.0 is not distinguished from 0.0
    return math.copysign(x, y)


def _m_pow(x, y):
    if isinstance(x, (sym.SymInt, sym.SymFloat)):
        return sym.to_float(x) ** y
    if isinstance(y, (sym.SymInt, sym.SymFloat)):
        if isinstance(y, sym.SymFloat):
            raise sym.Unsupported("pow with symbolic exponent")
        return math.pow(x, y.__index__())
    return math.pow(x, y)


def _m_isfinite(x):
    return True


def _m_unsupported(name):
    def f(*a):
        ov = MATH.__dict__["_hooks"].get(name)
        if ov is not None:
            return ov(*a)
        raise sym.Unsupported("math." + name)
    return f


def _any_sym(*a):
    return any(isinstance(x, (sym.SymInt, sym.SymFloat)) for x in a)


def _m_hypot(*a):
    return sym.m_sqrt(sum((x * x for x in a), 0)) if _any_sym(*a) else math.hypot(*a)


def _m_dist(p, q):
    p, q = tuple(p), tuple(q)
    return _m_hypot(*(a - b for a, b in zip(p, q))) if _any_sym(*p, *q) else math.dist(p, q)


def _m_prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def _m_fsum(xs):
    xs = list(xs)
    return sum(xs, 0.0) if _any_sym(*xs) else math.fsum(xs)


def _m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not _any_sym(a, b, rel_tol, abs_tol):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = sym.sym_abs(a - b)
    return bool(d <= abs_tol) or bool(d <= sym.sym_abs(a) * rel_tol) or bool(d <= sym.sym_abs(b) * rel_tol)


MATH = MathProxy("math")
MATH.__dict__["_hooks"] = {}
MATH._overrides.update({
    "floor": _wrap1(math.floor, sym.floor),
    "ceil": _wrap1(math.ceil, sym.ceil),
    "trunc": _wrap1(math.trunc, sym.trunc),
    "sqrt": _wrap1(math.sqrt, sym.m_sqrt),
    "fabs": _wrap1(math.fabs, sym.sym_abs),
    "isfinite": _wrap1(math.isfinite, lambda x: True),
    "isnan": _wrap1(math.isnan, lambda x: False),
    "isinf": _wrap1(math.isinf, lambda x: False),
    "copysign": _m_copysign,
    "pow": _m_pow,
    "hypot": _m_hypot,
    "dist": _m_dist,
    "prod": _m_prod,
    "fsum": _m_fsum,
    "isclose": _m_isclose,
    "log10": _wrap1(math.log10, _m_unsupported("log10")),
    "log": _wrap1(math.log, _m_unsupported("log")),
    "cos": _wrap1(math.cos, _m_unsupported("cos")),
    "sin": _wrap1(math.sin, _m_unsupported("sin")),
})

MODULE_STUBS = {"math": MATH}
for _n in ("time", "threading", "queue", "asyncio", "datetime", "re", "locale", "uuid", "pathlib", "traceback",
           "logging"):
    MODULE_STUBS[_n] = ModuleProxy(_n)
MODULE_STUBS["re"]._overrides.update(symstr.RE_OVERRIDES)


def reset_overrides():
    for n, m in MODULE_STUBS.items():
        if n not in ("math", "re"):
            m._overrides.clear()
    MATH.__dict__["_hooks"].clear()
