"""C23: structured models."""
import copy

from engine.registry import harness
from .lib import *


def schema_of(S):
    point = S.define_record("P", [S.define_field("u", S.INT, default=1), S.define_field("f", S.FLOAT)])
    return S.define_record("R", [
        S.define_field("s", S.INT, default=7),
        S.define_field("a", S.define_array(S.INT)),
        S.define_field("r", S.define_record("Q", [S.define_field("t", S.INT)])),
        S.define_field("rs", S.define_array(point)),
    ])


def some_value(ctx, n, items):
    """A complete value for the schema, arrays of up to `items` elements."""
    na, nr = ctx.choice(n + "na", items + 1), ctx.choice(n + "nr", items + 1)
    return {"s": ctx.int(n + "s"), "a": [ctx.int("%sa%d" % (n, i)) for i in range(na)], "r": {"t": ctx.int(n + "t")},
            "rs": [{"u": ctx.int("%su%d" % (n, i)), "f": ctx.int("%sf%d" % (n, i))} for i in range(nr)]}


def same_value(got, want):
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return False
        return and_([same_value(got[k], want[k]) for k in want])
    if isinstance(want, list):
        got = list(got)
        return len(got) == len(want) and and_([same_value(a, b) for a, b in zip(got, want)])
    return got is not None and eq(got, want)


class Log:
    """All announcements of the root record."""

    def __init__(self, model):
        self.changed = 0
        self.props = []
        self.arrays = []
        self.ls = [model.model_changed_event.listen(self._changed),
                   model.property_changed_event.listen(self.props.append),
                   model.item_inserted_event.listen(lambda k, v, i: self.arrays.append(("insert", k, v, i))),
                   model.item_removed_event.listen(lambda k, v, i: self.arrays.append(("remove", k, v, i)))]

    def _changed(self, *a):
        self.changed += 1

    def reset(self):
        self.changed = 0
        del self.props[:]
        del self.arrays[:]


@harness("C23", quick={"items": 2, "steps": 2}, thorough={"items": 2, "steps": 3},
         bounds="a record of an integer, an integer array, a nested record and an array of records (up to `items` elements each), any history of "
                "`steps` assignments, insertions and removals at any level and position, any integers")
def history(ctx, M, items, steps):
    S = M.StructuredModel
    want = some_value(ctx, "i", items)
    m = S.build_model(schema_of(S), value=copy.deepcopy(want))
    ctx.check(same_value(m.to_dict_value(), want), "a model holds the values it was built from")
    log = Log(m)
    removed = []
    for k in range(steps):
        log.reset()
        ops = ["s", "t", "a+", "rs+"] + (["a-"] if want["a"] else []) + (["rs-", "u"] if want["rs"] else []) + (["gone"] if removed else [])
        op = ctx.pick("op%d" % k, ops)
        changed, props, arrays = True, [], None
        if op in ("s", "t", "u"):
            x = ctx.int("v%d" % k)
            if op == "s":
                changed = not_(eq(want["s"], x))
                m.s = want["s"] = x
                ctx.check(eq(m.s, x) and eq(m.s_model.value, x), "a field reads back what was assigned")
            elif op == "t":
                changed = not_(eq(want["r"]["t"], x))
                m.r.t = want["r"]["t"] = x
            else:
                i = ctx.choice("at%d" % k, len(want["rs"]))
                changed = not_(eq(want["rs"][i]["u"], x))
                m.rs[i].u = want["rs"][i]["u"] = x
            props = ["s"] if op == "s" else []
        elif op == "a+":
            i, x = ctx.choice("at%d" % k, len(want["a"]) + 1), ctx.int("v%d" % k)
            m.a.insert(i, x)
            want["a"].insert(i, x)
            arrays = ("insert", "a", i)
        elif op == "rs+":
            i = ctx.choice("at%d" % k, len(want["rs"]) + 1)
            v = {"u": ctx.int("v%d" % k), "f": 2}
            m.rs.insert(i, S.build_model(schema_of(S)["fields"][3]["type"]["items"], value=v))
            want["rs"].insert(i, dict(v))
            arrays = ("insert", "rs", i)
        elif op == "a-":
            i = ctx.choice("at%d" % k, len(want["a"]))
            how = ctx.pick("how%d" % k, ["del", "model", "negative"])
            if how == "del":
                del m.a[i]
            elif how == "model":
                m.a_model.remove_item(i)
            else:
                del m.a[i - len(want["a"])]
            del want["a"][i]
            arrays = ("remove", "a", i)
        elif op == "rs-":
            i = ctx.choice("at%d" % k, len(want["rs"]))
            removed.append(m.rs[i])
            del m.rs[i]
            del want["rs"][i]
            arrays = ("remove", "rs", i)
        else:
            removed[-1].u = ctx.int("v%d" % k)
            changed = False
        ctx.check(same_value(m.to_dict_value(), want), "the model holds the values of every change")
        ctx.check(not_(changed) if log.changed == 0 else and_([changed, log.changed == 1]), "each change at any level is announced once at the top")
        ctx.check(log.props == (props if log.changed else []), "a changed field is announced by its name")
        if arrays is None:
            ctx.check(not log.arrays, "no item is announced for a field change")
        else:
            ctx.check(len(log.arrays) == 1 and log.arrays[0][:2] == arrays[:2] and log.arrays[0][3] == arrays[2],
                      "an inserted or removed item is announced with its field and index")
        ctx.check(len(m.a) == len(want["a"]) and len(m.rs) == len(want["rs"]), "array fields have the right length")
    for i, r in enumerate(list(m.rs)):
        log.reset()
        r.u = want["rs"][i]["u"] + 1
        ctx.check(log.changed == 1, "every item of an array is observed")
    for r in removed:
        log.reset()
        r.u = r.u + 1
        ctx.check(log.changed == 0, "a removed item is no longer observed")


@harness("C23", quick={"items": 2}, thorough={"items": 3},
         bounds="any complete values with arrays of up to `items` elements")
def copies(ctx, M, items):
    S = M.StructuredModel
    v = some_value(ctx, "v", items)
    m = S.build_model(schema_of(S), value=copy.deepcopy(v))
    w = some_value(ctx, "w", items)
    how = ctx.pick("how", ["deepcopy", "from dict", "copy from", "partial"])
    if how == "partial":
        keys = ctx.pick("keys", [[], ["s"], ["r"], ["a"], ["rs"], ["s", "rs"]])
        m.from_dict_value(copy.deepcopy({k: w[k] for k in keys}))
        ctx.check(same_value(m.to_dict_value(), {k: w[k] if k in keys else v[k] for k in v}), "fields not given are left alone")
        return
    if how == "deepcopy":
        c = copy.deepcopy(m)
        ctx.check(c is not m and same_value(c.to_dict_value(), v), "a copy holds the same values")
        c.s = v["s"] + 1
        c.r.t = v["r"]["t"] + 1
        c.a.insert(0, 5)
        if v["rs"]:
            c.rs[0].u = v["rs"][0]["u"] + 1
        ctx.check(same_value(m.to_dict_value(), v), "changing a copy does not change the original")
        return
    log = Log(m)
    lists = {"a": list(m.a), "rs": list(m.rs)}
    ok = [True]

    def inserted(k, x, i):
        ok[0] = ok[0] and 0 <= i <= len(lists[k])
        lists[k].insert(i, x)

    def dropped(k, x, i):
        ok[0] = ok[0] and 0 <= i < len(lists[k])
        del lists[k][i]
    l1, l2 = m.item_inserted_event.listen(inserted), m.item_removed_event.listen(dropped)
    if how == "from dict":
        m.from_dict_value(copy.deepcopy(w))
    else:
        o = S.build_model(schema_of(S), value=copy.deepcopy(w))
        m.copy_from(o)
        ctx.check(same_value(o.to_dict_value(), w), "copying does not change the source")
    ctx.check(same_value(m.to_dict_value(), w), "a model takes over the given values")
    ctx.check(and_([ok[0], len(lists["rs"]) == len(m.rs) and all(x is y for x, y in zip(lists["rs"], m.rs)), same_list(lists["a"], m.a)]),
              "taking over values announces every item inserted or removed")
    ctx.check(same_value(v, w) if log.changed == 0 else True, "taking over different values is announced")
    for i in range(len(m.rs)):
        log.reset()
        m.rs[i].u = w["rs"][i]["u"] + 1
        ctx.check(log.changed == 1, "items taken over are observed")


@harness("C23", quick={"items": 3}, thorough={"items": 4},
         bounds="an array model on its own, of integers, of records or of arrays of integers, any values, up to `items` elements, copied or taking over those of another")
def array_copies(ctx, M, items):
    S = M.StructuredModel
    of = ctx.pick("of", ["ints", "records", "arrays"])
    item = {"ints": S.INT, "records": S.define_record("P", [S.define_field("u", S.INT)]), "arrays": S.define_array(S.INT)}[of]
    schema = S.define_array(item)

    def values(n):
        out = []
        for i in range(ctx.choice(n + "n", items + 1)):
            x = ctx.int("%s%d" % (n, i))
            out.append(x if of == "ints" else {"u": x} if of == "records" else [x] * (1 + i % 2))
        return out
    v = values("v")
    m = S.build_model(schema, value=copy.deepcopy(v))
    changed = []
    l = m.model_changed_event.listen(lambda *a: changed.append(1))

    def change(model, i):
        if of == "ints":
            model.insert_item(i, 5)
        elif of == "records":
            model.items[i].u = model.items[i].u + 1
        else:
            model.items[i].append_item(5)
    if ctx.pick("how", ["deepcopy", "copy from"]) == "deepcopy":
        c = copy.deepcopy(m)
        heard = []
        l2 = c.model_changed_event.listen(lambda *a: heard.append(1))
        ctx.check(c is not m and same_value(c.to_dict_value(), v), "a copy holds the same values")
        if v:
            i = ctx.choice("at", len(v))
            change(c, i)
            ctx.check(same_value(m.to_dict_value(), v) and not changed, "changing a copy does not change the original")
            ctx.check(len(heard) == 1, "a copy announces its changes")
            change(m, i)
            ctx.check(len(heard) == 1 and len(changed) == 1, "changing the original does not change a copy")
        return
    w = values("w")
    o = S.build_model(schema, value=copy.deepcopy(w))
    mirror = Mirror(m, "items", list(m.items))
    m.copy_from(o)
    ctx.check(same_value(m.to_dict_value(), w) and same_value(o.to_dict_value(), w), "a model takes over the given values")
    ctx.check(mirror.bad is None and same_value(mirror.list, list(m.items)) if of == "ints" else mirror.bad is None and len(mirror.list) == len(m.items) and all(a is b for a, b in zip(mirror.list, m.items)), "notifications rebuild the list")
    ctx.check(same_value(v, w) if not changed else True, "taking over different values is announced")
    if w:
        i = ctx.choice("at", len(w))
        del changed[:]
        change(m, i)
        ctx.check(len(changed) == 1, "items taken over are observed")
        ctx.check(same_value(o.to_dict_value(), w), "changing a model does not change where its values came from")


@harness("C23", quick={"items": 2}, thorough={"items": 3},
         bounds="arrays of up to `items` integers or records, the sequence operations append, extend, +=, insert (also at negative and too large positions), pop, clear, remove, index, count, in, len, reading, slices, iteration")
def sequence(ctx, M, items):
    S = M.StructuredModel
    v = some_value(ctx, "v", items)
    m = S.build_model(schema_of(S), value=copy.deepcopy(v))
    field = ctx.pick("field", ["a", "rs"])
    seq = getattr(m, field)
    model = m.a_model if field == "a" else m.rs_model
    mirror = Mirror(model, "items", list(seq))
    want = list(seq)

    def same(x, y):
        return len(x) == len(y) and and_([(p is q) if field == "rs" else eq(p, q) for p, q in zip(x, y)])
    new = ctx.int("new") if field == "a" else S.build_value(schema_of(S)["fields"][3]["type"]["items"], value={"u": ctx.int("new")})
    op = ctx.pick("op", ["append", "extend", "pop", "pop0", "clear", "in", "close", "insert", "remove", "index", "read", "+="])
    if op == "append":
        seq.append(new)
        want.append(new)
    elif op == "extend":
        seq.extend([new, new])
        want.extend([new, new])
    elif op in ("pop", "pop0") and want:
        i = -1 if op == "pop" else 0
        x = seq.pop(i)
        y = want.pop(i)
        ctx.check(x is y if field == "rs" else eq(x, y), "pop returns the removed item")
    elif op == "clear":
        seq.clear()
        want = []
    elif op == "insert":
        i = ctx.choice("at", 2 * len(want) + 5) - len(want) - 2       # also negative and too large ones
        seq.insert(i, new)
        want.insert(i, new)
    elif op == "remove" and want:
        i = ctx.choice("at", len(want))
        if field == "a":
            for x in want[:i]:
                ctx.assume(not_(eq(x, want[i])))
        seq.remove(want[i])
        del want[i]
    elif op == "index" and want:
        i = ctx.choice("at", len(want))
        if field == "a":
            for x in want[:i]:
                ctx.assume(not_(eq(x, want[i])))
        ctx.check(seq.index(want[i]) == i and seq.count(want[i]) >= 1, "the index of an item is found")
    elif op == "read":
        n = len(want)
        at = [seq[i] for i in range(n)] + [seq[i - n] for i in range(n)]
        ctx.check(same(at, want + want) and same(list(seq[1:]), want[1:]) and same(list(reversed(seq)), want[::-1]), "items are read at positive and negative positions and slices")
        for i in (n, -n - 1):
            try:
                seq[i]
                ctx.check(False, "there are no other items")
            except IndexError:
                pass
    elif op == "+=":
        seq += [new]
        want.append(new)
    elif op == "in":
        is_in = new in seq
        if field == "a":
            ctx.check(iff(is_in, in_list(new, want)), "membership")
        else:
            ctx.check(is_in is False and all(x in seq for x in want), "membership")
    elif op == "close":
        log = Log(m)
        model.close()
        if field == "rs" and v["rs"]:
            m.rs[0].u = v["rs"][0]["u"] + 1
        ctx.check(log.changed == 0, "a closed array does not announce changes of its items")
    ctx.check(and_([same(list(seq), want), len(seq) == len(want)]), "an array field behaves like a sequence")
    ctx.check(and_([mirror.bad is None or field == "a" and mirror.bad == "removed item", same(mirror.list, want)]), "the array's announcements rebuild it")


@harness("C23", quick={}, bounds="any default and value of each basic type, each given or not")
def defaults(ctx, M):
    S = M.StructuredModel
    t = ctx.pick("type", [S.STRING, S.BOOLEAN, S.INT, S.FLOAT])
    d = ctx.int("default") if ctx.pick("has default", [True, False]) else None
    v = ctx.int("value") if ctx.pick("has value", [True, False]) else None
    m = S.build_model(S.define_record("R", [S.define_field("x", t, default=d)]), value={"x": v} if v is not None else None)
    want = v if v is not None else d
    ctx.check(m.x is None if want is None else eq(m.x, want), "a field has its given value, else its default")
    d = m.to_dict_value()
    ctx.check(("x" in d) == (want is not None), "a missing value is left out of the dictionary")


@harness("C23", quick={}, thorough={},
         bounds="nested record and array fields with defaults, each given, partly given, given empty or not, two models built from one schema, any integers")
def nested_defaults(ctx, M):
    S = M.StructuredModel
    inner = S.define_record("Q", [S.define_field("t", S.INT, default=ctx.int("dt")), S.define_field("u", S.INT)])
    rd = ctx.pick("record default", [None, "t", "u"])
    ad = ctx.pick("array default", [None, 0, 2])
    d = {k: ctx.int("rd") for k in ([rd] if rd else [])}
    da = None if ad is None else [ctx.int("ad%d" % i) for i in range(ad)]
    schema = S.define_record("R", [S.define_field("r", inner, default=d if rd else None), S.define_field("a", S.define_array(S.INT), default=da)])
    before = copy.deepcopy(schema)

    def build(n):
        v = {}
        given = ctx.pick(n + "given", ["", "r", "a", "ra"])
        if "r" in given:
            v["r"] = {k: ctx.int(n + k) for k in ctx.pick(n + "parts", ["t", "u", "tu"])}
        if "a" in given:
            v["a"] = [ctx.int(n + "a0")] if ctx.bool(n + "a") else []
        m = S.build_model(schema, value=copy.deepcopy(v) if v else None)
        r = {"t": before["fields"][0]["type"]["fields"][0]["default"]}
        r.update(d)
        r.update(v.get("r", {}))
        return m, {"r": r, "a": v.get("a", da or [])}

    def holds(m, want):
        d = m.to_dict_value()
        return and_([same_value(d["r"], want["r"]), same_value(d["a"], want["a"]), same_value(list(m.a), want["a"]), eq(m.r.t, want["r"]["t"])])
    m, want = build("m")
    ctx.check(holds(m, want), "fields have the given values, else their defaults, part by part")
    op = ctx.pick("then", ["assign", "build"])
    if op == "build":
        m2, want2 = build("n")
        ctx.check(and_([holds(m, want), holds(m2, want2)]), "models of one schema are independent of each other")
    else:
        m.r.t = want["r"]["t"] = ctx.int("x")
        m.a.append(5)
        want["a"] = want["a"] + [5]
        m2 = S.build_model(schema)
        ctx.check(and_([holds(m, want), same_value(m2.to_dict_value()["a"], da or []), eq(m2.r.t, d.get("t", before["fields"][0]["type"]["fields"][0]["default"]))]),
                  "a new model has the defaults whatever happened to another")
    ctx.check(same_value(schema["fields"][1].get("default", []), before["fields"][1].get("default", []))
              and same_value(schema["fields"][0].get("default", {}), before["fields"][0].get("default", {})), "models do not change their schema")


@harness("C23", quick={}, bounds="fields of any type whose names are one another's with `_model` appended, any integers")
def field_names(ctx, M):
    S = M.StructuredModel
    kinds = {"value": S.INT, "array": S.define_array(S.INT), "record": S.define_record("Q", [S.define_field("t", S.INT)])}
    names = ["x", "x_model", "x_model_model"]
    if ctx.bool("turned"):
        names.reverse()
    kind = {n: ctx.pick(n, list(kinds)) for n in names}
    v = {n: ctx.int(n + ".v") for n in names}

    def given(n):
        return {"value": v[n], "array": [v[n]], "record": {"t": v[n]}}[kind[n]]
    m = S.build_model(S.define_record("R", [S.define_field(n, kinds[kind[n]]) for n in names]), value={n: given(n) for n in names})

    def shown(n):
        x = getattr(m, n)
        return x if kind[n] == "value" else list(x)[0] if kind[n] == "array" else x.t
    ctx.check(and_([eq(shown(n), v[n]) for n in names]), "a field is accessible by its name")
    log = []
    t = m.property_changed_event.listen(log.append)
    which = ctx.choice("set", 3)
    if kind[names[which]] == "value":
        new = ctx.int("new")
        ctx.assume(not_(eq(new, v[names[which]])))
        setattr(m, names[which], new)
        v[names[which]] = new
        ctx.check(log == [names[which]] and bool(and_([eq(shown(n), v[n]) for n in names])), "setting a field changes this field")
    ctx.check(same_value(m.to_dict_value(), {n: given(n) for n in names}), "the dictionary has each field")


def grid_schema(S):
    return S.define_record("G", [S.define_field("g", S.define_array(S.define_array(S.INT))),
                                 S.define_field("n", S.define_record("N", [S.define_field("rs", S.define_array(S.define_record("P", [S.define_field("u", S.INT)])))]))])


@harness("C23", quick={"steps": 3}, thorough={"steps": 4},
         bounds="a record of an array of integer arrays and a record of an array of records, any history of `steps` changes at any level, any integers; "
                "then deep copy or closing")
def deep(ctx, M, steps):
    S = M.StructuredModel
    want = {"g": [[ctx.int("g0")]], "n": {"rs": [{"u": ctx.int("u0")}]}}
    m = S.build_model(grid_schema(S), value=copy.deepcopy(want))
    rows = S.define_array(S.INT)
    log = Log(m)
    nested = []
    nl = m.n.model_changed_event.listen(lambda: nested.append(1))
    gone = []
    for k in range(steps):
        log.reset()
        del nested[:]
        g, rs = want["g"], want["n"]["rs"]
        op = ctx.pick("op%d" % k, ["row+", "rs+"] + (["row-", "cell+"] if g else []) + (["rs-", "u"] if rs else []) + (["cell-"] if any(g) else []) + (["gone"] if gone else []))
        changed, deep = True, op in ("rs+", "rs-", "u")
        arrays = None
        if op == "row+":
            i = ctx.choice("at%d" % k, len(g) + 1)
            x = ctx.int("v%d" % k)
            m.g.insert(i, S.build_value(rows, value=[x]))
            g.insert(i, [x])
            arrays = ("insert", "g", i)
        elif op == "row-":
            i = ctx.choice("at%d" % k, len(g))
            gone.append(m.g[i])
            del m.g[i]
            del g[i]
            arrays = ("remove", "g", i)
        elif op == "cell+":
            i = ctx.choice("at%d" % k, len(g))
            x = ctx.int("v%d" % k)
            m.g[i].append_item(x)
            g[i].append(x)
        elif op == "cell-":
            i = ctx.pick("at%d" % k, [i for i in range(len(g)) if g[i]])
            m.g[i].remove_item(0)
            del g[i][0]
        elif op == "rs+":
            i = ctx.choice("at%d" % k, len(rs) + 1)
            x = ctx.int("v%d" % k)
            m.n.rs.insert(i, S.build_value(grid_schema(S)["fields"][1]["type"]["fields"][0]["type"]["items"], value={"u": x}))
            rs.insert(i, {"u": x})
        elif op == "rs-":
            i = ctx.choice("at%d" % k, len(rs))
            gone.append(m.n.rs[i])
            del m.n.rs[i]
            del rs[i]
        elif op == "u":
            i = ctx.choice("at%d" % k, len(rs))
            x = ctx.int("v%d" % k)
            changed = not_(eq(x, rs[i]["u"]))
            m.n.rs[i].u = rs[i]["u"] = x
        else:
            x = gone[-1]
            if isinstance(x, S.RecordModel):
                x.u = x.u + 1
            else:
                x.append_item(1)
            changed = deep = False
        ctx.check(same_value(m.to_dict_value(), want), "the model holds the values of every change, at every depth")
        ctx.check(not_(changed) if log.changed == 0 else and_([changed, log.changed == 1]), "each change at any depth is announced once at the top")
        ctx.check(len(nested) == (log.changed if deep else 0), "a change is announced by every record containing it and no other")
        ctx.check([a[:2] + (a[3],) for a in log.arrays] == ([arrays] if arrays else []), "exactly the insertions and removals of a field are announced for it")
    end = ctx.pick("end", ["deepcopy", "close array", "close record"])
    if end == "deepcopy":
        c = copy.deepcopy(m)
        ctx.check(same_value(c.to_dict_value(), want), "a copy holds the same values")
        cl = Log(c)
        log.reset()
        for row in list(c.g):
            row.append_item(3)
        for r in list(c.n.rs):
            r.u = r.u + 1
        ctx.check(same_value(m.to_dict_value(), want) and log.changed == 0, "changing a copy does not change the original")
        ctx.check(cl.changed == len(want["g"]) + len(want["n"]["rs"]), "a copy observes its own items")
    elif end == "close array":
        parts = list(m.g)
        al = Log(m.g_model)
        log.reset()
        m.g_model.close()
        for row in parts:
            row.append_item(3)
        ctx.check(log.changed == 0 and al.changed == 0, "after an array was closed it announces no change of its items")
    else:
        parts = list(m.g), m.n, list(m.n.rs)
        log.reset()
        m.close()
        for row in parts[0]:
            row.append_item(3)
        m.g_model.append_item(S.build_value(rows, value=[1]))
        for r in parts[2]:
            r.u = r.u + 1
        parts[1].rs_model.append_item(S.build_value(grid_schema(S)["fields"][1]["type"]["fields"][0]["type"]["items"], value={"u": 1}))
        ctx.check(log.changed == 0 and not log.props and not log.arrays, "after a record was closed it announces nothing")


@harness("C23", quick={"items": 2}, bounds="any values; the dictionary given to or made by a model is changed afterwards at every level")
def independence(ctx, M, items):
    S = M.StructuredModel
    v = some_value(ctx, "v", items)
    given = copy.deepcopy(v)
    m = S.build_model(schema_of(S), value=given)

    def scramble(d):
        d["s"] = d["s"] + 1
        d["a"].append(1)
        d["r"]["t"] = d["r"]["t"] + 1
        for r in d["rs"]:
            r["u"] = r["u"] + 1
        d["rs"].append({"u": 5})
    how = ctx.pick("how", ["built", "made", "taken"])
    if how == "taken":
        m = S.build_model(schema_of(S), value=some_value(ctx, "w", 1))
        m.from_dict_value(given)
    scramble(given if how != "made" else m.to_dict_value())
    ctx.check(same_value(m.to_dict_value(), v), "dictionaries are independent of the model")
    if how == "built":
        ctx.check(m.s_model.to_dict_value() is not None and same_value(m.a_model.to_dict_value(), v["a"]) and same_value(m.r.to_dict_value(), v["r"])
                  and same_value(m.rs_model.to_dict_value(), v["rs"]), "each part converts to its part of the dictionary")


@harness("C23", quick={"steps": 2}, thorough={"steps": 4}, bounds="a single field or integer array model built on its own, `steps` assignments of any integers or None")
def single(ctx, M, steps):
    S = M.StructuredModel
    t = ctx.pick("type", [S.define_string(), S.define_boolean(), S.define_int(), S.define_float()])
    v = ctx.int("v") if ctx.pick("given", [True, False]) else None
    m = S.build_model({"type": t} if ctx.pick("wrapped", [False, True]) else t, value=v)
    log = []
    ls = [m.property_changed_event.listen(lambda k: log.append(("property", k))), m.field_value_changed_event.listen(lambda k: log.append(("field", k))),
          m.model_changed_event.listen(lambda: log.append(("model", m.value)))]

    def is_(a, b):
        return a is b if a is None or b is None else eq(a, b)
    ctx.check(and_([is_(m.value, v), is_(m.field_value, v), is_(m.to_dict_value(), v)]), "a field model holds its value")
    for k in range(steps):
        x = ctx.int("v%d" % k) if ctx.pick("none%d" % k, [False, True]) is False else None
        if ctx.pick("how%d" % k, ["assign", "from dict"]) == "assign":
            m.value = x
        else:
            m.from_dict_value(x)
        changed = not_(is_(x, v))
        ctx.check(not_(changed) if not log else and_([changed, sorted(e[0] for e in log) == ["field", "model", "property"],
                                                      and_([is_(e[1], x) if e[0] == "model" else e[1] == "value" for e in log])]), "each change of a field is announced once")
        del log[:]
        ctx.check(and_([is_(m.value, x), is_(m.field_value, x), is_(m.to_dict_value(), x)]), "a field model holds the value assigned")
        v = x


@harness("C23", quick=[{"items": 8, "fields": 5}, {"items": 20, "fields": 3}], thorough={"items": 16, "fields": 10},
         bounds="an array of `items` records and a record of `fields` fields, one insertion and one removal at any positions, one assignment to any of them, any integers")
def large(ctx, M, items, fields):
    S = M.StructuredModel
    point = S.define_record("P", [S.define_field("f%d" % i, S.INT, default=i) for i in range(fields)])
    m = S.build_model(S.define_record("R", [S.define_field("ps", S.define_array(point)), S.define_field("n", S.INT)]),
                      value={"ps": [{"f0": 100 + i} for i in range(items)]})
    c = copy.deepcopy(m)
    ctx.check(c.to_dict_value() == m.to_dict_value() and len(c.ps) == items and copy.deepcopy(m.ps_model).to_dict_value() == m.ps_model.to_dict_value(), "a deep copy is equal")
    model = m.ps_model
    mirror = Mirror(model, "items", list(m.ps))
    at0, at1 = ctx.choice("at0", items + 1), ctx.choice("at1", items + 1)
    want = [100 + i for i in range(items)]
    extra = ctx.int("extra")
    m.ps.insert(at0, S.build_value(point, value={"f0": extra}))
    want.insert(at0, extra)
    gone = m.ps[at1]
    del m.ps[at1]
    del want[at1]
    ctx.check(and_([eq(p.f0, x) for p, x in zip(m.ps, want)]) and len(m.ps) == items, "the array is the list of its items")
    ctx.check(mirror.bad is None and all(x is y for x, y in zip(mirror.list, m.ps)) and len(mirror.list) == items, "the array's announcements rebuild it")
    log = Log(m)
    gone.f0 = gone.f0 + 1
    ctx.check(log.changed == 0, "a removed item is no longer observed")
    for p in m.ps:
        log.reset()
        p.f0 = p.f0 + 1
        ctx.check(log.changed == 1, "every item of an array is observed")
    p = m.ps[items // 2]
    plog = Log(p)
    log.reset()
    i = ctx.choice("field", fields)
    name = "f%d" % i
    x = ctx.int("x")
    changed = not_(eq(x, getattr(p, name)))
    before = {k: v for k, v in p.to_dict_value().items() if k != name}
    setattr(p, name, x)
    ctx.check(not_(changed) if not plog.changed else and_([changed, plog.changed == 1, plog.props == [name], log.changed == 1, not log.props]), "a field change is announced once at every level")
    ctx.check(eq(getattr(p, name), x) and same_value({k: v for k, v in p.to_dict_value().items() if k != name}, before), "only the assigned field changes")


@harness("C23", quick={"steps": 2}, thorough={"steps": 3},
         bounds="a record of fields of each basic type and an array, `steps` assignments (to the record's attribute, the field's model, or from a dictionary) of values of every kind, "
                "None and false values included")
def kinds(ctx, M, steps):
    S = M.StructuredModel
    names = ["s", "b", "i", "f"]
    start = {"s": "t", "b": True, "i": 3, "f": 1.5}
    m = S.build_model(S.define_record("R", [S.define_field(n, t, default=start[n]) for n, t in zip(names, (S.STRING, S.BOOLEAN, S.INT, S.FLOAT))]
                                      + [S.define_field("a", S.define_array(S.STRING))]), value={"a": ["x", "y"]})
    want = dict(start)
    array = ["x", "y"]
    log = Log(m)
    for k in range(steps):
        log.reset()
        n = ctx.pick("field%d" % k, names + ["a"])
        if n == "a":
            v = ctx.pick("value%d" % k, [["x", None], [None, None], [], ["", "y"], ["x", "y"], [None], ["x", "y", None, ""]])
            changed = v != array
            m.from_dict_value({"a": list(v)})
            array = list(v)
            ctx.check(bool(log.changed) == changed and bool(log.arrays) == changed, "taking over different items is announced")
        else:
            v = ctx.pick("value%d" % k, [None, "", "t", 0, 3, False, True, 1.5, 0.0])
            how = ctx.pick("how%d" % k, ["attribute", "model", "dict"])
            if how == "attribute":
                setattr(m, n, v)
            elif how == "model":
                getattr(m, n + "_model").value = v
            else:
                m.from_dict_value({n: v})
            changed = v != want[n]
            want[n] = v if changed else want[n]
            ctx.check(log.changed == (1 if changed else 0) and log.props == ([n] if changed else []) and not log.arrays, "a field announces exactly its changes, by its name")
        ctx.check(all(getattr(m, x) == want[x] and type(getattr(m, x)) is type(want[x]) and getattr(m, x + "_model").value == want[x] for x in names), "a field has the value last assigned")
        ctx.check(list(m.a) == array, "an array has the items last given")
        d = {x: want[x] for x in names if want[x] is not None}
        d["a"] = array
        ctx.check(m.to_dict_value() == d, "exactly the values that are not missing are written")
    c = copy.deepcopy(m)
    ctx.check(list(c.a) == array and all(getattr(c, x) == want[x] for x in names if want[x] is not None), "a copy holds the same values")
