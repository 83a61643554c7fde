"""C04, C05: indexed selection."""
from engine.registry import harness
from .lib import *


def build(ctx, M, style, n, hi):
    """An arbitrary reachable selection: n selected indexes, the first one added is the anchor."""
    s = M.Selection.IndexedSelection(style)
    ids = []
    for i in range(n):
        x = ctx.int("i%d" % i, 0, hi)
        for y in ids:
            ctx.assume(x != y)
        if i == 0:
            s.set(x)
        else:
            s.add(x)
        ids.append(x)
    return s, ids


class Fires:
    def __init__(self, s):
        self.n = 0
        self.s = s
        self.states = []
        self.l = s.changed_event.listen(self.fired)

    def fired(self):
        self.n += 1
        self.states.append((list(self.s.indexes), self.s.anchor_index))


def expected(M, style, ids, anchor, op, x, xs):
    """Reference semantics: (list of selected indexes, expected anchor or 'member')."""
    S = M.Selection.Style
    multiple = style == S.multiple
    if style == S.none:
        return [], None
    single = style in (S.single, S.single_or_none)
    if op == "clear":
        return ([0], 0) if style == S.single else ([], None)
    if op == "set":
        return [x], x
    if op == "add":
        if single:
            return [x], x
        return ids + [x], anchor if ids else x
    if op == "remove":
        if style == S.single:
            return ids, anchor
        return [y for y in ids if y != x], "member" if anchor is None or eq(anchor, x) else anchor
    if op == "toggle":
        inside = any(eq(x, y) for y in ids)
        return expected(M, style, ids, anchor, "remove" if inside else "add", x, xs)
    if op == "extend":
        if single:
            return [x], x
        if anchor is None:
            return [x], x
        lo, hi = (anchor, x) if anchor < x else (x, anchor)
        out = list(ids)
        i = lo
        while i <= hi:
            out.append(i)
            i = i + 1
        return out, anchor
    if op == "add_range":
        a = anchor
        cur = list(ids)
        for y in xs:
            cur, a = expected(M, style, cur, a, "add", y, None)
        return cur, a
    if op == "set_multiple":
        if multiple:
            return list(xs), "member"
        if len(xs) == 1:
            return [xs[0]], xs[0]
        return ([0], 0) if style == S.single else ([], None)
    raise AssertionError(op)


OPS = ["clear", "set", "add", "remove", "toggle", "extend", "add_range", "set_multiple"]


def step(ctx, M, s, fires, style, ids, anchor, tag, hi, ops):
    op = ctx.pick("op" + tag, ops)
    before = list(s.indexes)
    n0 = fires.n
    x = xs = given = None
    if op in ("set", "add", "remove", "toggle", "extend"):
        x = ctx.int("x" + tag, 0, hi)
        if op == "remove":
            ctx.assume(in_list(x, ids))
        if op == "extend" and anchor is not None and style == M.Selection.Style.multiple:
            ctx.assume(x - anchor <= 3)
            ctx.assume(anchor - x <= 3)
        getattr(s, op)(x)
    elif op == "add_range":
        lo = ctx.int("x" + tag, 0, hi)
        n = ctx.choice("n" + tag, 3)
        xs = [lo + k for k in range(n)]
        s.add_range(a_range(ctx, lo, n))
    elif op == "set_multiple":
        n = ctx.choice("n" + tag, 3)
        xs = []
        for k in range(n):
            y = ctx.int("y%d%s" % (k, tag), 0, hi)
            for z in xs:
                ctx.assume(z != y)
            xs.append(y)
        given = a_set(ctx, xs)
        s.set_multiple(given)
    else:
        s.clear()
    want, wa = expected(M, style, ids, anchor, op, x, xs)
    got = list(s.indexes)
    ctx.check(same_set(got, want), "%s: selected indexes" % op)
    a = s.anchor_index
    if not got:
        ctx.check(a is None, "%s: no anchor when nothing is selected" % op)
    else:
        ctx.check(a is not None, "%s: anchor present" % op)
        ctx.check(in_list(a, got), "%s: anchor is selected" % op)
        ctx.check(True if wa == "member" else eq(a, wa), "%s: anchor" % op)
    changed = not same_set(before, got)
    if op == "add_range":
        if changed or style == M.Selection.Style.multiple:  # a single style passes through other states
            ctx.check((fires.n > n0) == changed, "%s: change announced iff changed" % op)
    else:
        ctx.check(fires.n - n0 == (1 if changed else 0), "%s: change announced once iff changed" % op)
    if fires.n > n0:
        seen, seen_anchor = fires.states[-1]
        ctx.check(same_set(seen, got), "%s: listener sees the new selection" % op)
        ctx.check(seen_anchor is None if a is None else seen_anchor is not None and eq(seen_anchor, a), "%s: listener sees the new anchor" % op)
    if given is not None:
        other = M.Selection.IndexedSelection()
        other.set_multiple(given)
        other.toggle(hi + 1)
        ctx.check(same_set(s.indexes, want), "%s: a selection does not share the collection given" % op)
    return got, a


def observers(ctx, M, s, got, hi):
    ctx.check(s.has_selection == (len(got) > 0), "has_selection")
    p = ctx.int("probe", 0, hi)
    ctx.check(iff(s.contains(p), in_list(p, got)), "contains")
    ci = s.current_index
    ctx.check(eq(ci, got[0]) if len(got) == 1 else ci is None, "current_index")
    o = list(s.ordered_indexes)
    ctx.check(len(o) == len(got), "ordered_indexes length")
    ctx.check(same_set(o, got), "ordered_indexes is a permutation")
    if o:
        ctx.check(eq(o[0], s.anchor_index), "ordered_indexes starts at the anchor")
        for k in range(1, len(o) - 1):
            ctx.check(o[k] < o[k + 1], "ordered_indexes ascending after the anchor")


@harness("C04", quick=[{"style": st, "n": n, "steps": 2, "hi": 10 ** 6} for st in ("multiple",) for n in (0, 1, 2)] +
         [{"style": st, "n": n, "steps": 2, "hi": 10 ** 6} for st in ("single", "single_or_none", "none") for n in (0, 1)],
         thorough=[{"style": "multiple", "n": n, "steps": 2, "hi": 10 ** 6} for n in (0, 1, 2, 3)] +
         [{"style": st, "n": n, "steps": 3, "hi": 10 ** 6} for st in ("single", "single_or_none", "none") for n in (0, 1)],
         bounds="any selection of up to n indexes in 0..hi with any anchor, then `steps` operations with any "
                "arguments in 0..hi (index collections of up to 2; extend within 3 of the anchor)")
def operations(ctx, M, style, n, steps, hi):
    style = getattr(M.Selection.Style, style)
    s, ids = build(ctx, M, style, n, hi)
    if style == M.Selection.Style.none:
        ids = []
    fires = Fires(s)
    anchor = ids[0] if ids else None
    if n > 1 and ctx.bool("set_anchor"):
        anchor = ids[1]
        s.anchor_index = anchor
        ctx.check(eq(s.anchor_index, anchor), "the anchor can be moved to another selected index")
    for k in range(steps):
        ids, anchor = step(ctx, M, s, fires, style, ids, anchor, str(k), hi, OPS)
    observers(ctx, M, s, ids, hi)


SPREAD = [0, 1, 4, 7, 8, 12, 13, 20]


@harness("C04", quick={}, bounds="a multiple selection of eight indexes between 100 and 120, any of three of them the anchor, and one "
                                 "operation with any argument within it (sets and ranges of up to 12 indexes)")
def large_selection(ctx, M):
    S = M.Selection.Style
    base = 100
    s = M.Selection.IndexedSelection()
    ids = [base + d for d in SPREAD]
    first = ctx.choice("first", 3) * 3
    for x in [ids[first]] + ids[:first] + ids[first + 1:]:
        s.add(x)
    anchor = ids[first]
    fires = Fires(s)
    op = ctx.pick("op", ["add", "remove", "toggle", "extend", "add_range", "set_multiple", "clear", "set"])
    x = xs = None
    if op in ("add", "toggle", "extend", "set"):
        x = base + ctx.choice("d", 25) - 2
        getattr(s, op)(x)
    elif op == "remove":
        x = ids[ctx.choice("d", len(ids))]
        s.remove(x)
    elif op == "add_range":
        n = ctx.pick("n", [1, 5, 12])
        a = ctx.choice("d", 12)
        xs = [base + a + k for k in range(n)]
        s.add_range(range(base + a, base + a + n))
    elif op == "set_multiple":
        step = ctx.pick("n", [1, 2, 3])
        xs = [base + 40 - step * k for k in range(12)]
        s.set_multiple(set(xs))
    else:
        s.clear()
    want, wa = expected(M, S.multiple, ids, anchor, op, x, xs)
    got = list(s.indexes)
    ctx.check(same_set(got, want), "%s: selected indexes" % op)
    a = s.anchor_index
    if got:
        ctx.check(a is not None and in_list(a, got), "%s: anchor is selected" % op)
        if wa != "member":
            ctx.check(eq(a, wa), "%s: anchor" % op)
    else:
        ctx.check(a is None, "%s: no anchor when nothing is selected" % op)
    changed = not same_set(ids, got)
    ctx.check((fires.n > 0) == changed, "%s: change announced iff changed" % op)
    ctx.check(fires.n <= 1 or op == "add_range", "%s: change announced once" % op)
    o = list(s.ordered_indexes)
    ctx.check(len(o) == len(got) and same_set(o, got), "ordered_indexes is a permutation")
    ctx.check(not o or eq(o[0], a), "ordered_indexes starts at the anchor")
    ctx.check(and_([o[k] < o[k + 1] for k in range(1, len(o) - 1)]), "ordered_indexes ascending after the anchor")


@harness("C04", quick={"n": 2, "hi": 10 ** 6}, bounds="a selection of up to n indexes whose style is changed; then one operation with any arguments")
def style_changed(ctx, M, n, hi):
    """Operations follow the style the selection has now, whatever was selected under an earlier style."""
    S = M.Selection.Style
    s, ids = build(ctx, M, S.multiple, ctx.choice("k", n + 1), hi)
    style = ctx.pick("style", [S.none, S.single, S.single_or_none])
    s.selection_style = style
    fires = Fires(s)
    ops = ["set", "add", "extend", "set_multiple", "clear"] + (["toggle"] if style == S.none else [])
    step(ctx, M, s, fires, style, ids, ids[0] if ids else None, "", hi, ops)


@harness("C04", quick={"hi": 1000000}, bounds="two selections of up to 2 indexes in 0..10^6")
def equality(ctx, M, hi):
    S = M.Selection
    sels = []
    for t in "ab":
        s = S.IndexedSelection()
        n = ctx.choice("n" + t, 3)
        l = []
        for i in range(n):
            x = ctx.int("%s%d" % (t, i), 0, hi)
            s.add(x)
            l.append(x)
        sels.append((s, l))
    (a, la), (b, lb) = sels
    want = and_([same_set(a.indexes, lb), same_set(b.indexes, la),
                 eq(a.anchor_index, b.anchor_index) if la and lb else (not la and not lb)])
    ctx.check(iff(a == b, want), "equal iff same indexes and anchor")
    ctx.check(iff(a != b, not_(want)), "unequal iff not equal")
    ctx.check(not (a == 3) and a != 3, "not equal to other objects")


@harness("C05", quick=[{"n": n, "steps": 3} for n in (0, 1, 2, 3)]
         + [{"n": 4, "steps": 2}], thorough=[{"n": n, "steps": 4} for n in (0, 1, 2)] + [{"n": 3, "steps": 3}, {"n": 4, "steps": 3}],
         bounds="any selection of n indexes, each in 0..10^9, any anchor; `steps` list insertions/removals at any "
                "position")
def renumber(ctx, M, n, steps):
    hi = 10 ** 9
    s, ids = build(ctx, M, M.Selection.Style.multiple, n, hi)
    anchor = ids[0] if ids else None
    for k in range(steps):
        p = ctx.int("p%d" % k, 0, hi)
        if ctx.bool("ins%d" % k):
            s.insert_index(p)
            ids = [ite(y >= p, y + 1, y) for y in ids]
            anchor = None if anchor is None else ite(anchor >= p, anchor + 1, anchor)
            known = True
        else:
            s.remove_index(p)
            known = anchor is not None and anchor != p
            ids = [y if y < p else y - 1 for y in ids if y != p]
            if known:
                anchor = ite(anchor > p, anchor - 1, anchor)
        got = list(s.indexes)
        ctx.check(len(got) == len(ids), "number of selected items")
        ctx.check(same_set(got, ids), "selected items keep being selected")
        a = s.anchor_index
        if not ids:
            ctx.check(a is None, "no anchor when nothing is selected")
            anchor = None
        else:
            ctx.check(a is not None, "anchor present")
            ctx.check(in_list(a, ids), "anchor is selected")
            if known:
                ctx.check(eq(a, anchor), "anchor follows its item")
            anchor = a


@harness("C05", quick={"steps": 2}, bounds="a selection of eight indexes in fixed distances anywhere in 0..10^6 (or of one index, with a single style), any "
                                           "anchor; `steps` list insertions/removals at any position within or around it")
def renumber_large(ctx, M, steps):
    S = M.Selection.Style
    base = ctx.int("base", 10, 10 ** 6)
    style = ctx.pick("style", [S.multiple, S.single, S.single_or_none])
    s = M.Selection.IndexedSelection(style)
    ids = [base + d for d in SPREAD]
    first = ctx.choice("first", 3) * 3
    ids = [ids[first]] + ids[:first] + ids[first + 1:]
    if style != S.multiple:
        ids = ids[:1]
    for x in ids:
        s.add(x)
    anchor = ids[0]
    for k in range(steps):
        p = base + ctx.index("p%d" % k, 24 if k == 0 else 4) - 1
        if ctx.bool("ins%d" % k):
            s.insert_index(p)
            ids = [y + 1 if y >= p else y for y in ids]
            anchor = None if anchor is None else anchor + 1 if anchor >= p else anchor
        else:
            s.remove_index(p)
            ids = [y if y < p else y - 1 for y in ids if y != p]
            anchor = None if anchor is None or anchor == p else anchor - 1 if anchor > p else anchor
        got = list(s.indexes)
        a = s.anchor_index
        ctx.check(len(got) == len(ids) and same_set(got, ids), "selected items keep being selected")
        if not ids:
            ctx.check(a is None, "no anchor when nothing is selected")
        else:
            ctx.check(a is not None and in_list(a, ids), "anchor is selected")
            if anchor is not None:
                ctx.check(eq(a, anchor), "anchor follows its item")
        anchor = a


@harness("C05", quick={"n": 4, "hi": 7}, thorough={"n": 5, "hi": 8},
         bounds="a selection over a list of up to hi+1 items, one insertion or removal, then extend/toggle")
def renumber_then_use(ctx, M, n, hi):
    """Renumbering composes with the selection operations: the anchor used by extend is the moved one."""
    S = M.Selection.Style.multiple
    s, ids = build(ctx, M, S, n, hi)
    p = ctx.int("p", 0, hi)
    if ctx.bool("ins"):
        s.insert_index(p)
        ids = [ite(y >= p, y + 1, y) for y in ids]
    else:
        s.remove_index(p)
        ids = [y if y < p else y - 1 for y in ids if y != p]
    ctx.check(same_set(s.indexes, ids), "selected items keep being selected")
    fires = Fires(s)
    step(ctx, M, s, fires, S, list(s.indexes), s.anchor_index, "u", hi, ["extend", "toggle", "add", "clear"])
