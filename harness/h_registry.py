"""C27: component registry."""
from engine.registry import harness
from .lib import *

TYPES = ["a", "b"]


class Component(Item):
    pass


@harness("C27", quick=[{"components": 3, "steps": 3}, {"components": 2, "steps": 3}], thorough=[{"components": 3, "steps": 4}, {"components": 2, "steps": 5}],
         bounds="`components` components with any integer priority or none, both set orders, any history of `steps` registrations for any types and "
                "unregistrations from any or all of them; a listener that comes and goes")
def registry(ctx, M, components, steps):
    R = M.Registry
    R.ComponentManager.instance = None
    down = ctx.pick("order", [False, True])
    comps = []
    for i in range(components):
        c = Component(i, down)
        c.rank = 50
        if ctx.pick("has priority %d" % i, [True, False]):
            c.priority = c.rank = ctx.int("priority%d" % i)
        comps.append(c)
    events = []
    in_effect = []
    l1 = R.listen_component_registered_event(lambda c, t: (
        events.append(("registered", c, set(t))), in_effect.extend(any(x is c for x in R.get_components_by_type(y)) for y in t)))
    l2 = R.listen_component_unregistered_event(lambda c, t: (
        events.append(("unregistered", c, set(t))), in_effect.extend(not any(x is c for x in R.get_components_by_type(y)) for y in t)))
    have = {i: set() for i in range(components)}
    for s in range(steps):
        i = ctx.choice("component%d" % s, components)
        c = comps[i]
        free = [t for t in TYPES if t not in have[i]]
        ops = (["register"] if free else []) + (["unregister"] if have[i] else [])
        op = ctx.pick("op%d" % s, ops)
        del events[:]
        pool = free if op == "register" else sorted(have[i])
        types = {t for k, t in enumerate(pool) if ctx.pick("type%d.%d" % (s, k), [True, False])}
        given = set(types)
        if op == "register":
            R.register_component(c, given)
            have[i] |= types
            want = [("registered", c, types)]
        else:
            if not types:
                types = set(have[i])
                R.unregister_component(c)
            else:
                R.unregister_component(c, given)
            have[i] -= types
            want = [("unregistered", c, types)]
        for t in TYPES:                 # (the caller's set is the caller's)
            given ^= {t}
        if op == "register" and not types and not have[i]:
            return   # registered without any type: nothing to say about it
        ctx.check(len(events) == 1 and events[0][0] == want[0][0] and events[0][1] is c and events[0][2] == types,
                  "each registration and unregistration is announced once with its component and types")
        for t in TYPES:
            members = [comps[j] for j in range(components) if t in have[j]]
            got = list(R.get_components_by_type(t))
            ctx.check(len(got) == len(members) and all(any(g is m for g in got) for m in members), "the components of a type are exactly those registered for it")
            best = R.get_component(t)
            if not members:
                ctx.check(best is None, "there is no component of a type nobody registered for")
            else:
                ctx.check(any(best is m for m in members) and and_([best.rank >= m.rank for m in members]), "the component of a type has the highest priority of its type")
            del events[:]
            R.fire_existing_component_registered_events(t)
            ctx.check(len(events) == len(members) and all(any(e[0] == "registered" and e[1] is m and e[2] == {t} for e in events) for m in members),
                      "existing components can be announced again, each once")
    ctx.check(all(in_effect), "a registration or unregistration is announced when it is in effect")
    l1.close()
    del events[:]
    extra = Component(7, down)
    R.register_component(extra, {"a"})
    ctx.check(not events, "a closed listener hears nothing")


@harness("C27", quick={}, bounds="any combination of types already registered and registered again; unregistering what is not registered")
def misuse(ctx, M):
    R = M.Registry
    R.ComponentManager.instance = None
    c = Component(0)
    have = {t for t in TYPES if ctx.pick("have " + t, [True, False])}
    if not have:
        return
    R.register_component(c, set(have))
    events = []
    l1 = R.listen_component_registered_event(lambda c, t: events.append(1))
    l2 = R.listen_component_unregistered_event(lambda c, t: events.append(1))
    again = {t for t in TYPES if ctx.pick("again " + t, [True, False])}
    op = ctx.pick("op", ["register", "unregister"])
    bad = bool(again & have) if op == "register" else bool(again - have)
    if not bad:
        if op == "unregister" and not again:
            R.unregister_component(c, again)
            ctx.check(all((c in R.get_components_by_type(t)) == (t in have) for t in TYPES), "unregistering from no type leaves every type")
        return
    try:
        if op == "register":
            R.register_component(c, again)
        else:
            R.unregister_component(c, again)
        failed = False
    except AssertionError:
        failed = True
    ctx.check(failed, "registering twice, or unregistering what is not registered, is refused")
    ctx.check(not events and all((c in R.get_components_by_type(t)) == (t in have) for t in TYPES), "a refused call changes nothing")


@harness("C27", quick={"n": 3}, thorough={"n": 4}, bounds="n components of a type; a listener (or a loop over the components) registers or unregisters one")
def reentrant(ctx, M, n):
    R = M.Registry
    R.ComponentManager.instance = None
    down = ctx.pick("order", [False, True])
    comps = [Component(i, down) for i in range(n)]
    for c in comps:
        R.register_component(c, {"a"})
    extra = Component(7)
    how = ctx.pick("how", ["register", "unregister", "loop", "alias"])
    heard = []

    def hear(c, types):
        heard.append(c)
        if len(heard) == 1:
            if how == "register":
                R.register_component(extra, {"a"})
            else:
                R.unregister_component(comps[victim])

    victim = ctx.choice("victim", n)
    if how in ("register", "unregister"):
        l = R.listen_component_registered_event(hear)
        R.fire_existing_component_registered_events("a")
        for i, c in enumerate(comps):
            k = len([x for x in heard if x is c])
            ctx.check(k == 1 or (how == "unregister" and i == victim and k == 0), "existing components are announced once each, also if one is registered or unregistered meanwhile")
        left = comps + [extra] if how == "register" else [c for i, c in enumerate(comps) if i != victim]
    elif how == "loop":
        for c in R.get_components_by_type("a"):
            R.unregister_component(c)
        left = []
    else:
        got = R.get_components_by_type("a")
        if isinstance(got, set):
            got.clear()
        left = comps
    now = list(R.get_components_by_type("a"))
    ctx.check(len(now) == len(left) and all(any(x is c for x in now) for c in left), "and the registry holds exactly the registered components")


@harness("C27", quick={}, bounds="a component registered for one or two types and unregistered, in one or two calls")
def released(ctx, M):
    import weakref
    R = M.Registry
    R.ComponentManager.instance = None
    c = Component(0)
    R.register_component(c, {"a", "b"})
    how = ctx.pick("how", ["all", "both", "each"])
    if how == "all":
        R.unregister_component(c)
    elif how == "both":
        R.unregister_component(c, {"a", "b"})
    else:
        R.unregister_component(c, {"a"})
        R.unregister_component(c, {"b"})
    w = weakref.ref(c)
    del c
    ctx.check(w() is None, "an unregistered component is not kept alive")


@harness("C27", quick={"components": 5}, thorough={"components": 7},
         bounds="`components` components with any integer priorities registered for overlapping sets of five types in any rotation, one of them unregistered from one or all of its types; both set orders")
def many(ctx, M, components):
    R = M.Registry
    R.ComponentManager.instance = None
    types = ["t%d" % i for i in range(5)]
    down = ctx.pick("order", [False, True])
    comps = [Component(i, down) for i in range(components)]
    have = {}
    for k in range(components):
        i = k
        c = comps[i]
        if i != 1:
            c.priority = ctx.int("priority%d" % i)
        c.rank = c.priority if i != 1 else 50
        have[i] = {types[i % 5], types[(i + 1) % 5], "t0"}
        R.register_component(c, set(have[i]))
    victim = ctx.choice("victim", components)
    what = ctx.pick("what", ["nothing", "all", "t0"])
    if what == "all":
        R.unregister_component(comps[victim])
        have[victim] = set()
    elif what == "t0":
        R.unregister_component(comps[victim], {"t0"})
        have[victim].discard("t0")
    for t in types + ["t9"]:
        members = [comps[j] for j in range(components) if t in have[j]]
        got = list(R.get_components_by_type(t))
        ctx.check(len(got) == len(members) and all(any(g is m for g in got) for m in members), "the components of a type are exactly those registered for it")
    members = [comps[j] for j in range(components) if "t0" in have[j]]
    best = R.get_component("t0")
    ctx.check(any(best is m for m in members) and and_([best.rank >= m.rank for m in members]), "the component of a type has the highest priority of its type")


@harness("C27", quick={"components": 20}, thorough={"components": 60},
         bounds="`components` components, two of them (one of three places, and the middle) with any integer priority, the others with fixed different ones or none, registered for one type (and one each for another) in either "
                "direction; then any one unregistered")
def crowd(ctx, M, components):
    R = M.Registry
    R.ComponentManager.instance = None
    down = ctx.pick("order", [False, True])
    comps = [Component(i, down) for i in range(components)]
    free = ctx.pick("free", [0, 7, components - 1]), components // 2
    for i, c in enumerate(comps):
        c.rank = 50
        if i in free:
            c.rank = c.priority = ctx.int("priority%d" % i)
        elif i % 5:
            c.rank = c.priority = 10 + (i * 7) % components
    heard = []
    l = R.listen_component_registered_event(lambda c, t: heard.append((c, set(t))))
    for c in comps:
        R.register_component(c, {"t", "own%d" % c.n})
    ctx.check(len(heard) == components and all(h[0] is c and h[1] == {"t", "own%d" % c.n} for h, c in zip(heard, comps)), "each registration is announced once")
    victim = ctx.pick("victim", [None, 0, components // 2, components - 1])
    left = comps
    if victim is not None:
        R.unregister_component(comps[victim])
        left = [c for c in comps if c is not comps[victim]]
    got = list(R.get_components_by_type("t"))
    ctx.check(len(got) == len(left) and all(any(g is c for g in got) for c in left), "the components of a type are exactly those registered for it")
    ctx.check(all(list(R.get_components_by_type("own%d" % c.n)) == ([c] if any(c is x for x in left) else []) for c in comps), "the components of a type are exactly those registered for it")
    best = R.get_component("t")
    ctx.check(any(best is m for m in left) and and_([best.rank >= m.rank for m in left]), "the component of a type has the highest priority of its type")
    del heard[:]
    R.fire_existing_component_registered_events("t")
    ctx.check(len(heard) == len(left) and all(sum(1 for h in heard if h[0] is c and h[1] == {"t"}) == 1 for c in left), "existing components are announced again, each once")
