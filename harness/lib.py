"""Shared by the harnesses.  Everything here works on symbolic and on concrete values alike."""
from engine import sym, symstr

and_ = sym.and_terms
or_ = sym.or_terms
eq = sym.eq_term


def not_(c):
    return ~c if isinstance(c, sym.SymBool) else not c


def implies(a, b):
    return or_([not_(a), b])


def iff(a, b):
    return or_([and_([a, b]), and_([not_(a), not_(b)])])


def ite(c, a, b):
    return sym.ite(c, a, b)


def in_list(x, l):
    return or_([eq(x, y) for y in l])


def same_set(got, want):
    """got: a collection without duplicates; want: a list, perhaps with duplicates."""
    got = list(got)
    return and_([in_list(g, want) for g in got] + [in_list(w, got) for w in want])


def same_list(got, want):
    got, want = list(got), list(want)
    if len(got) != len(want):
        return False
    return and_([eq(a, b) for a, b in zip(got, want)])


def same_ids(got, want):
    """Lists of the same objects (identity) in the same order."""
    got, want = list(got), list(want)
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


def a_set(ctx, xs):
    """A set of (symbolic) values to pass to the code."""
    return sym.SymSet(xs) if ctx.symbolic else set(xs)


def a_range(ctx, lo, n):
    """range(lo, lo + n) to pass to the code."""
    return sym.RangeShim(lo, lo + n) if ctx.symbolic else range(lo, lo + n)


class Twin:
    """Instances are equal to each other, but not the same."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __repr__(self):
        return "Twin(%s)" % self.n


class Item:
    """An item with identity semantics and a small deterministic hash.

    The hash fixes the iteration order of native sets holding a few items; the symbolic set iterates
    in the same order.  A harness explores both directions with `down`.
    """

    def __init__(self, n, down=False):
        self.n = n
        self._set_order = 7 - n if down else n

    def __hash__(self):
        return self._set_order

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return "Item(%s)" % self.n


class Mirror:
    """Rebuilds a list from insert / remove notifications and reports what does not fit."""

    def __init__(self, model, key, initial=()):
        self.list = list(initial)
        self.key = key
        self.bad = None
        self.count = 0
        self.model = model
        self._l1 = model.item_inserted_event.listen(self._inserted)
        self._l2 = model.item_removed_event.listen(self._removed)

    def _inserted(self, key, item, index):
        self.count += 1
        if key != self.key:
            self.bad = self.bad or "insert key"
            return
        if not (0 <= index <= len(self.list)):
            self.bad = self.bad or "insert index"
            return
        self.list.insert(index, item)
        self._shown()

    def _shown(self):
        if not same_ids(self.model.items, self.list):
            self.bad = self.bad or "the list does not show the change when it is announced"

    def _removed(self, key, item, index):
        self.count += 1
        if key != self.key:
            self.bad = self.bad or "remove key"
            return
        if not (0 <= index < len(self.list)):
            self.bad = self.bad or "remove index"
            return
        if not (self.list[index] is item):
            self.bad = self.bad or "removed item"
        del self.list[index]
        self._shown()


def text(ctx, name, lengths, alphabet):
    """A text of one of the given lengths over an alphabet of characters."""
    n = ctx.pick(name + ".len", list(lengths))
    codes = sorted(set(map(ord, alphabet)))
    runs = []
    for c in codes:
        if runs and runs[-1][1] == c - 1:
            runs[-1][1] = c
        else:
            runs.append([c, c])
    out = []
    for i in range(n):
        v = ctx.int("%s.%d" % (name, i), codes[0], codes[-1])
        ctx.assume(or_([and_([v >= a, v <= b]) for a, b in runs]))
        out.append(v)
    if ctx.symbolic:
        return symstr.SymStr(out)
    return "".join(map(chr, out))


def codes(s):
    return list(symstr.codes_of(s))
