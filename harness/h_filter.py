"""C11: filters."""
import copy
import operator

from engine.registry import harness
from .lib import *


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def leaf(ctx, M, n, d):
    """A leaf filter and the term that says whether d matches."""
    L = M.ListModel
    kind = ctx.pick(n + "kind", ["eq", "noteq", "predicate", "default", "lt", "notlt"])
    if kind == "default":
        v = ctx.bool(n + "def")
        return L.Filter(v), v
    if kind == "predicate":
        v = ctx.int(n + "v")
        return L.PredicateFilter(lambda o: o.b > v), d.b > v
    v = ctx.int(n + "v")
    key = ctx.pick(n + "key", ["a", "b"])
    dv = getattr(d, key)
    if kind == "eq":
        return L.EqFilter(key, v), eq(dv, v)
    if kind == "noteq":
        return L.NotEqFilter(key, v), not_(eq(dv, v))
    if kind == "lt":
        return L.EqFilter(key, v, operator.lt), dv < v
    return L.NotEqFilter(key, v, cmp=operator.lt), not_(dv < v)


def tree(ctx, M, n, d, depth, width):
    L = M.ListModel
    kind = ctx.pick(n + "node", ["leaf", "and", "or", "not"]) if depth else "leaf"
    if kind == "leaf":
        return leaf(ctx, M, n, d)
    if kind == "not":
        f, t = tree(ctx, M, n + "n", d, depth - 1, width)
        return L.NotFilter(f), not_(t)
    subs = [tree(ctx, M, n + str(i), d, depth - 1, width) for i in range(ctx.choice(n + "count", width + 1))]
    fs = [f for f, t in subs]
    f = (L.AndFilter if kind == "and" else L.OrFilter)(fs)
    del fs[:]                 # the filter has its own list
    return f, (and_ if kind == "and" else or_)([t for f, t in subs])


def truth(v):
    return v if isinstance(v, (bool, sym.SymBool)) else bool(v)


def check_filter(ctx, f, d, want, what=""):
    ctx.check(iff(truth(f.matches(d)), want), "a filter matches exactly the items its definition describes" + what)
    g = copy.deepcopy(f)
    ctx.check(g is not f, "a copy is a new filter")
    ctx.check(iff(truth(g.matches(d)), want), "a copied filter matches the same items" + what)


@harness("C11", quick=[{"depth": 1, "width": 3}, {"depth": 2, "width": 1}], thorough=[{"depth": 1, "width": 4}, {"depth": 2, "width": 2}],
         bounds="any and/or/not combination of `depth` levels over up to `width` sub filters each, leaves: equality, "
                "inequality, custom comparison, predicate, constant; two integer attributes and all constants arbitrary")
def combinations(ctx, M, depth, width):
    d = Obj(a=ctx.int("a"), b=ctx.int("b"))
    f, want = tree(ctx, M, "f", d, depth, width)
    check_filter(ctx, f, d, want)


@harness("C11", quick={}, bounds="not/and/or nested two deep around two equality tests with arbitrary constants")
def nesting(ctx, M):
    L = M.ListModel
    d = Obj(a=ctx.int("a"), b=ctx.int("b"))
    x, y = ctx.int("x"), ctx.int("y")
    e, n = L.EqFilter("a", x), L.NotEqFilter("b", y)
    te, tn = eq(d.a, x), not_(eq(d.b, y))
    f, want = ctx.pick("shape", [
        (lambda: (L.NotFilter(L.AndFilter([e, n])), not_(and_([te, tn])))),
        (lambda: (L.AndFilter([L.NotFilter(e), L.OrFilter([n, e])]), and_([not_(te), or_([tn, te])]))),
        (lambda: (L.OrFilter([L.AndFilter([e, n]), L.NotFilter(L.OrFilter([e, n]))]),
                  or_([and_([te, tn]), not_(or_([te, tn]))]))),
        (lambda: (L.NotFilter(L.NotFilter(L.OrFilter([e, L.AndFilter()]))), True)),
        (lambda: (L.AndFilter([L.OrFilter(), e]), False))])()
    check_filter(ctx, f, d, want)


LETTERS = "".join(map(chr, range(32, 127)))


@harness("C11", quick={"n": 4, "m": 3}, thorough={"n": 5, "m": 4},
         bounds="texts of up to `n` printable ASCII characters against patterns of up to `m`")
def texts(ctx, M, n, m):
    L = M.ListModel
    d = Obj(a=text(ctx, "t", range(n + 1), LETTERS))
    p = text(ctx, "p", range(m + 1), LETTERS)
    t, q = codes(d.a), codes(p)
    if ctx.pick("kind", ["starts", "contains"]) == "starts":
        f = L.StartsWithFilter("a", p)
        want = len(q) <= len(t) and and_([eq(x, y) for x, y in zip(t, q)])
        check_filter(ctx, f, d, want, " (prefix)")
    else:
        f = L.TextFilter("a", p)

        def low(c):
            return ite(and_([c >= 65, c <= 90]), c + 32, c)
        want = or_([and_([eq(low(t[i + j]), low(q[j])) for j in range(len(q))]) for i in range(len(t) - len(q) + 1)])
        check_filter(ctx, f, d, want, " (substring in any case)")


@harness("C11", quick={}, bounds="any year 1..9999, month 1..12, day 1..31 of the item and of the filter, each filter part optional")
def dates(ctx, M):
    date = Obj(year=ctx.int("y", 1, 9999), month=ctx.int("m", 1, 12), day=ctx.int("d", 1, 31))
    d = Obj(a=date)
    parts = {}
    terms = []
    for name, hi in (("year", 9999), ("month", 12), ("day", 31)):
        if ctx.pick("has " + name, [True, False]):
            parts[name] = ctx.int("f" + name, 1, hi)
            terms.append(eq(getattr(date, name), parts[name]))
    check_filter(ctx, M.ListModel.PartialDateFilter("a", **parts), d, and_(terms), " (date parts)")


@harness("C11", quick=[{"n": 6}, {"n": 14}], thorough=[{"n": 20}], bounds="and/or of up to n equality tests (given as list or tuple, one of them perhaps used twice or negated) with arbitrary constants")
def many_parts(ctx, M, n):
    L = M.ListModel
    names = "abcdefghijklmnopqrstuvwxyz"[:n]
    d = Obj(**{k: ctx.int(k, 0, 3) for k in names})
    k = ctx.choice("count", n) + 1
    parts = [(L.EqFilter(c, 1), eq(getattr(d, c), 1)) for c in names[:k]]
    extra = ctx.pick("extra", ["none", "twice", "not"])
    if extra == "twice":
        parts.insert(0, parts[-1])
    elif extra == "not":
        f, t = parts[k // 2]
        parts[k // 2] = (L.NotFilter(f), not_(t))
    kind = ctx.pick("kind", ["and", "or"])
    fs = [f for f, t in parts]
    f = (L.AndFilter if kind == "and" else L.OrFilter)(tuple(fs) if ctx.bool("tuple") else fs)
    check_filter(ctx, f, d, (and_ if kind == "and" else or_)([t for f, t in parts]))
    g = copy.deepcopy(L.NotFilter(f))
    ctx.check(iff(truth(g.matches(d)), not_((and_ if kind == "and" else or_)([t for f, t in parts]))), "a copy of a combination matches the same items")


@harness("C11", quick={}, bounds="fixed longer texts (also accented, and numbers) with every part of them, in other case, and changed in any one place, as the pattern")
def long_texts(ctx, M):
    L = M.ListModel
    value = ctx.pick("value", ["The quick Brown fox, 2 Dogs", "aaaaab", "\u00c9t\u00e9 \u00d8re", 1234567])
    s = str(value)
    d = Obj(a=value)
    i = ctx.choice("from", len(s))
    n = ctx.pick("n", [1, 4, len(s)])
    p = s[i:i + n]
    how = ctx.pick("how", ["same", "upper", "lower", "longer", "other"])
    p = {"same": p, "upper": p.upper(), "lower": p.lower(), "longer": p + "x", "other": p[:-1] + "~"}[how]
    if isinstance(value, str) and ctx.bool("starts"):
        check_filter(ctx, L.StartsWithFilter("a", p), d, s.startswith(p), " (prefix)")
    else:
        check_filter(ctx, L.TextFilter("a", p), d, p.lower() in s.lower(), " (substring in any case)")
