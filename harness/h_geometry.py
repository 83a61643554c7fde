"""C12-C15: integer and float geometry, coordinate mapping, axis ticks."""
import math
from fractions import Fraction

from engine import shims, sym
from engine.registry import harness
from .lib import *

BIG = 10 ** 6
HUGE = 10 ** 18


class Kind:
    """The classes and input domain of one family (integer or float geometry)."""

    def __init__(self, ctx, M, name):
        G = M.Geometry
        self.ctx, self.name, self.G = ctx, name, G
        self.Point, self.Size, self.Rect = ((G.IntPoint, G.IntSize, G.IntRect) if name == "int" else
                                            (G.FloatPoint, G.FloatSize, G.FloatRect))

    def num(self, name, lo=-BIG, hi=BIG):
        if self.name == "int":
            return self.ctx.int(name, -HUGE if lo == -BIG else lo, HUGE if hi == BIG else hi)
        return self.ctx.flt(name, 8, lo, hi)

    def point(self, n):
        y, x = self.num(n + "y"), self.num(n + "x")
        return self.Point(y=y, x=x), (y, x)

    def size(self, n):
        h, w = self.num(n + "h"), self.num(n + "w")
        return self.Size(height=h, width=w), (h, w)

    def rect(self, n):
        t, l, h, w = self.num(n + "t"), self.num(n + "l"), self.num(n + "h"), self.num(n + "w")
        how = self.ctx.pick(n + "how", ["ctor", "tlhw", "tlbr", "make", "objects"])
        if how == "ctor":
            r = self.Rect((t, l), (h, w))
        elif how == "tlhw":
            r = self.Rect.from_tlhw(t, l, h, w)
        elif how == "tlbr":
            r = self.Rect.from_tlbr(t, l, t + h, l + w)
        elif how == "make":
            r = self.Rect.make(((t, l), (h, w)))
        else:
            r = self.Rect(self.Point(y=t, x=l), self.Size(h=h, w=w))
        return r, (t, l, h, w)

    def plain_rect(self, n, lo=-BIG):
        t, l, h, w = self.num(n + "t"), self.num(n + "l"), self.num(n + "h", lo), self.num(n + "w", lo)
        return self.Rect.from_tlhw(t, l, h, w), (t, l, h, w)


def isp(p, y, x):
    return and_([eq(p.y, y), eq(p.x, x)])


def iss(s, h, w):
    return and_([eq(s.height, h), eq(s.width, w)])


def isr(r, t, l, h, w):
    return and_([eq(r.top, t), eq(r.left, l), eq(r.height, h), eq(r.width, w)])


def mn(a, b):
    return ite(a <= b, a, b)


def mx(a, b):
    return ite(a >= b, a, b)


def is_a(v, cls):
    return isinstance(v, cls)


def check_pair(ctx, v, a, b, what):
    ctx.check(and_([eq(v[0], a), eq(v[1], b)]), what + " indexes as (vertical, horizontal)")
    l = list(v)
    ctx.check(len(l) == 2 and and_([eq(l[0], a), eq(l[1], b)]), what + " iterates as (vertical, horizontal)")
    ctx.check(and_([eq(v[-2], a), eq(v[-1], b)]), what + " indexes from the end as a pair does")
    check_no_index(ctx, v, what)


def check_no_index(ctx, v, what):
    for i in (2, -3):
        try:
            v[i]
        except IndexError:
            continue
        ctx.check(False, what + " has nothing beyond its two items")


def points_and_sizes(ctx, M, kind):
    K = Kind(ctx, M, kind)
    p, (py, px) = K.point("p")
    s, (sh, sw) = K.size("s")
    q, (qy, qx) = K.point("q")
    ctx.check(isp(p, py, px), "a point keeps its coordinates")
    ctx.check(iss(s, sh, sw), "a size keeps its extents")
    check_pair(ctx, p, py, px, "a point")
    check_pair(ctx, s, sh, sw, "a size")
    ctx.check(isp(K.Point.make((py, px)), py, px), "a point made of a pair")
    ctx.check(isp(K.Point.make(p), py, px), "a point made of a point")
    ctx.check(iss(K.Size.make((sh, sw)), sh, sw), "a size made of a pair")
    ctx.check(iss(K.Size(h=sh, w=sw), sh, sw), "a size made with h and w")
    ctx.check(and_([iss(K.Size(), 0, 0), isp(K.Point(), 0, 0)]), "defaults are zero")
    ctx.check(isp(p + q, py + qy, px + qx), "point + point")
    ctx.check(isp(p - q, py - qy, px - qx), "point - point")
    ctx.check(isp(p + s, py + sh, px + sw), "point + size")
    ctx.check(isp(p - s, py - sh, px - sw), "point - size")
    ctx.check(isp(-p, -py, -px), "negated point")
    ctx.check(iss(-s, -sh, -sw), "negated size")
    t, (th, tw) = K.size("u")
    ctx.check(iss(s + t, sh + th, sw + tw), "size + size")
    ctx.check(iss(s - t, sh - th, sw - tw), "size - size")
    ctx.check(iss(s + (th, tw), sh + th, sw + tw), "size + pair")
    ctx.check(is_a(p + q, K.Point) and is_a(p + s, K.Point) and is_a(s + t, K.Size) and is_a(-p, K.Point),
              "results are of the same family")


def equality(ctx, M, kind):
    K = Kind(ctx, M, kind)
    which = ctx.pick("which", ["point", "size", "rect"])
    if which == "point":
        a, va = K.point("a")
        b, vb = K.point("b")
        pair = (vb[0], vb[1])
    elif which == "size":
        a, va = K.size("a")
        b, vb = K.size("b")
        pair = (vb[0], vb[1])
    else:
        a, va = K.plain_rect("a")
        b, vb = K.plain_rect("b")
        pair = ((vb[0], vb[1]), (vb[2], vb[3]))
    same = and_([eq(x, y) for x, y in zip(va, vb)])
    for other, what in ((b, ""), (pair, " with a tuple")):
        ctx.check(iff(a == other, same), "== holds exactly for equal coordinates" + what)
        ctx.check(iff(a != other, not_(same)), "!= is the opposite of ==" + what)
    ctx.check((a == None) is False and (a != None) is True, "nothing equals None")
    if kind == "int":
        # a pair of other numbers: whatever == answers, != answers the opposite
        f = [ctx.flt("f%d" % i, 2, -100, 100) for i in range(len(vb))]
        other = (f[0], f[1]) if len(f) == 2 else ((f[0], f[1]), (f[2], f[3]))
        ctx.check(iff(a == other, not_(a != other)), "!= is the opposite of == for fractional coordinates")


def rect_accessors(ctx, M, kind):
    K = Kind(ctx, M, kind)
    r, (t, l, h, w) = K.rect("r")
    ctx.check(isr(r, t, l, h, w), "top, left, height, width")
    ctx.check(and_([eq(r.bottom, t + h), eq(r.right, l + w)]), "bottom and right")
    ctx.check(and_([isp(r.origin, t, l), iss(r.size, h, w)]), "origin and size")
    ctx.check(and_([isp(r.top_left, t, l), isp(r.top_right, t, l + w), isp(r.bottom_left, t + h, l),
                    isp(r.bottom_right, t + h, l + w)]), "the corners")
    c = r.center
    for v, o, n in ((c.y, t, h), (c.x, l, w)):
        if kind == "int":
            ctx.check(or_([eq(v * 2, o * 2 + n), eq(v * 2 + 1, o * 2 + n)]), "the centre is in the middle, rounded down")
        else:
            ctx.check(eq(v * 2, o * 2 + n), "the centre is in the middle")
    ctx.check(and_([eq(r[0][0], t), eq(r[0][1], l), eq(r[1][0], h), eq(r[1][1], w)]), "indexes as ((top, left), (height, width))")
    ctx.check(and_([eq(r[-2][0], t), eq(r[-2][1], l), eq(r[-1][0], h), eq(r[-1][1], w)]), "indexes from the end as a pair does")
    check_no_index(ctx, r, "a rectangle")
    o, s = tuple(r)
    ctx.check(and_([eq(o[0], t), eq(o[1], l), eq(s[0], h), eq(s[1], w)]), "iterates as ((top, left), (height, width))")
    if kind == "int":
        sl = r.slice
        ctx.check(and_([eq(sl[0].start, t), eq(sl[0].stop, t + h), eq(sl[1].start, l), eq(sl[1].stop, l + w)]),
                  "the slice covers rows top..bottom and columns left..right")
    else:
        ctx.check(isr(K.Rect.unit_rect(), 0, 0, 1, 1), "the unit rectangle")


def rect_moves(ctx, M, kind):
    K = Kind(ctx, M, kind)
    r, (t, l, h, w) = K.plain_rect("r")
    p, (py, px) = K.point("p")
    ctx.check(isr(r.translated(p), t + py, l + px, h, w), "translating moves the origin and keeps the size")
    ctx.check(isr(r.translated((py, px)), t + py, l + px, h, w), "translating by a pair")
    ctx.check(isr(r + p, t + py, l + px, h, w), "rect + point translates")
    ctx.check(isr(r - p, t - py, l - px, h, w), "rect - point translates back")
    ctx.check(isr(p + r, t + py, l + px, h, w), "point + rect translates")
    n = p - r
    ctx.check(and_([eq(n.height, h), eq(n.width, w)]), "point - rect keeps the size")
    c = r.center
    ctx.check(isp(n.center, py - c.y, px - c.x), "point - rect puts the centre at the difference")
    ctx.check(isr(r, t, l, h, w), "the rectangle itself does not change")
    d = K.num("d")
    e = K.num("e")
    ctx.check(isr(r.inset(d), t + d, l + d, h - d - d, w - d - d), "inset by one amount on all sides")
    ctx.check(isr(r.inset(d, e), t + e, l + d, h - e - e, w - d - d), "inset by horizontal and vertical amounts")
    g = K.Rect.from_center_and_size(p, (h, w))
    ctx.check(and_([eq(g.height, h), eq(g.width, w)]), "from_center_and_size keeps the size")
    ctx.check(isp(g.center, py, px), "from_center_and_size puts the centre where asked")
    k = M.Geometry.inset_rect(((t, l), (h, w)), d)
    ctx.check(and_([eq(k[0][0], t + d), eq(k[0][1], l + d), eq(k[1][0], h - d - d), eq(k[1][1], w - d - d)]),
              "inset_rect insets on all sides")


def rect_sets(ctx, M, kind):
    K = Kind(ctx, M, kind)
    a, (at, al, ah, aw) = K.plain_rect("a", 0)
    b, (bt, bl, bh, bw) = K.plain_rect("b", 0)
    p, (py, px) = K.point("p")

    def inside(t, l, h, w):
        return and_([py >= t, py < t + h, px >= l, px < l + w])

    ina, inb = inside(at, al, ah, aw), inside(bt, bl, bh, bw)
    ctx.check(iff(a.contains_point(p), ina), "contains_point: top/left inclusive, bottom/right exclusive")
    ctx.check(iff(a.contains_point((py, px)), ina), "contains_point of a pair")
    i = a.intersect(b)
    it = mx(at, bt)
    il = mx(al, bl)
    ib = mn(at + ah, bt + bh)
    ir = mn(al + aw, bl + bw)
    ctx.check(iff(i.contains_point(p), and_([ina, inb])), "a point is in the intersection iff it is in both")
    overlap = and_([it <= ib, il <= ir])
    ctx.check(implies(overlap, isr(i, it, il, ib - it, ir - il)), "the intersection of meeting rectangles")
    ctx.check(iff(a.intersects_rect(b), overlap), "intersects_rect: the rectangles overlap or touch")
    ctx.check(iff(b.intersects_rect(a), overlap), "intersects_rect is symmetric")
    u = a.union(b)
    ut, ul = mn(at, bt), mn(al, bl)
    ctx.check(isr(u, ut, ul, mx(at + ah, bt + bh) - ut, mx(al + aw, bl + bw) - ul),
              "the union is the smallest rectangle around both")


for _fn in (points_and_sizes, equality, rect_accessors, rect_moves, rect_sets):
    for _p, _k in (("C12", "int"), ("C13", "float")):
        harness(_p, quick={"kind": _k}, bounds=(
            "any %s%s" % ("integer coordinates and extents of magnitude up to 10^18" if _k == "int" else
                          "multiples of 2^-8 of magnitude up to 10^6 as coordinates and extents",
                          " (extents not negative)" if _fn is rect_sets else "")))(_fn)


@harness("C12", quick={}, bounds="integers of magnitude up to 10^6, scale factors 0, 1/2, 1, 2, 3, 5")
def int_scaling(ctx, M):
    G = M.Geometry
    h, w = ctx.int("h", 0, BIG), ctx.int("w", 0, BIG)
    s = G.IntSize(h, w)
    m = ctx.pick("m", [0, 0.5, 1, 2, 3, 5])
    want = (h // 2, w // 2) if m == 0.5 else (h * m, w * m)
    ctx.check(iss(s * m, *want), "size * factor, rounded down to integers")
    ctx.check(iss(m * s, *want), "factor * size")
    if m >= 1:
        q = s // m
        ctx.check(iss(q, h // m, w // m), "size // divisor rounds down")
    f = s.to_float_size()
    ctx.check(and_([is_a(f, G.FloatSize), iss(f, h, w)]), "conversion to a float size")
    t, l = ctx.int("t", -BIG, BIG), ctx.int("l", -BIG, BIG)
    f = G.IntPoint(y=t, x=l).to_float_point()
    ctx.check(and_([is_a(f, G.FloatPoint), isp(f, t, l)]), "conversion to a float point")
    f = G.IntRect.from_tlhw(t, l, h, w).to_float_rect()
    ctx.check(and_([is_a(f, G.FloatRect), isr(f, t, l, h, w)]), "conversion to a float rect")


@harness("C12", quick={}, bounds="extents of either sign up to 10^6, the ratio compared by cross-multiplication with tolerance 1e-9")
def int_aspect(ctx, M):
    aspect(ctx, M, "int")


@harness("C13", quick={}, bounds="extents of either sign, multiples of 2^-8 up to 10^6, ratio with tolerance 1e-9")
def float_aspect(ctx, M):
    aspect(ctx, M, "float")


def aspect(ctx, M, kind):
    K = Kind(ctx, M, kind)
    # the sign is chosen apart from the magnitude: the solver sees products of numbers of known sign
    h, w = K.num("h", 0, BIG - 1), K.num("w", 0, BIG - 1)
    sh, sw = ctx.pick("sign", [(1, 1), (-1, 1), (1, -1), (-1, -1)])
    which = ctx.pick("of", ["size", "rect"])
    v = K.Size(h * sh, w * sw) if which == "size" else K.Rect.from_tlhw(0, 0, h * sh, w * sw)
    a = v.aspect_ratio
    what = "aspect ratio is width over height, 1 if the height is 0"
    if ctx.symbolic and isinstance(a, sym.SymFloat):
        # width / height, up to the rounding of the division
        ctx.check(or_([and_([h == 0, a == 1]), and_([h > 0, near(a * (sh * sw), w, 0, scale=h)])]), what)
    else:
        ctx.check(bool(a == 1 if h == 0 else abs(Fraction(a) * Fraction(h) * sh * sw - Fraction(w)) <= Fraction(w) / 10 ** 9), what)


def near(a, w, _unused, scale):
    """|a * scale - w| <= w * 1e-9, exactly, over reals (w, scale >= 0)."""
    import z3
    ra, rw, rs = sym.to_float(a).real(), sym.to_float(w).real(), sym.to_float(scale).real()
    tol = rw / z3.RealVal(10 ** 9)
    return sym.SymBool(z3.And(ra * rs - rw <= tol, rw - ra * rs <= tol))


@harness("C13", quick={}, bounds="multiples of 2^-8 up to 10^6; factors 0, 1/4, -1, 2, 3, 10; divisors 1/4, 2, -4 (exact), 3, 10 (1e-9)")
def float_scaling(ctx, M):
    K = Kind(ctx, M, "float")
    G = M.Geometry
    p, (py, px) = K.point("p")
    sh, sw = K.num("sh", 0), K.num("sw", 0)
    s = K.Size(height=sh, width=sw)
    m = ctx.pick("m", [0, 0.25, -1.0, 2, 3, 10])
    ctx.check(and_([isp(p * m, py * m, px * m), isp(m * p, py * m, px * m)]), "point * factor")
    ctx.check(and_([iss(s * m, sh * m, sw * m), iss(m * s, sh * m, sw * m)]), "size * factor")
    d = ctx.pick("d", [0.25, 2, -4, 3, 10])
    q, z = p / d, s / d
    ctx.check(and_([close(q.y * d, py), close(q.x * d, px)]), "point / divisor")
    ctx.check(and_([close(z.height * d, sh), close(z.width * d, sw)]), "size / divisor")


def math_trunc(ctx, v):
    return sym.trunc(v) if ctx.symbolic else int(v)


def close(a, b, tol=1e-9):
    """Equal up to rounding, tolerance relative to the magnitude domain."""
    d = exact_sub(a, b)
    lim = BIG * tol
    return and_([d <= lim, d >= -lim])


def exact_sub(a, b):
    if isinstance(a, sym.SymFloat) or isinstance(b, sym.SymFloat):
        return sym.SymFloat(sym.to_float(a).real() - sym.to_float(b).real())
    return a - b


@harness("C13", quick={}, bounds="integers and multiples of 2^-8 of magnitude up to 10^6; points, sizes and rectangles made of those of the other family")
def families(ctx, M):
    G = M.Geometry
    t, l, h, w = [ctx.int(n, -BIG, BIG) for n in "tlhw"]
    fp, fs, fr = G.FloatPoint.make(G.IntPoint(y=t, x=l)), G.FloatSize.make(G.IntSize(h, w)), G.FloatRect.make(G.IntRect.from_tlhw(t, l, h, w))
    ctx.check(and_([is_a(fp, G.FloatPoint), isp(fp, t, l), is_a(fs, G.FloatSize), iss(fs, h, w), is_a(fr, G.FloatRect), isr(fr, t, l, h, w)]),
              "floats made of integers keep the coordinates")
    ctx.check(and_([fp == G.IntPoint(y=t, x=l), fs == (h, w), fr == ((t, l), (h, w)), not_(fp != (t, l)), not_(fr != ((t, l), (h, w)))]),
              "equality of floats with integer coordinates")
    a, b, c, d = [ctx.flt("f" + n, 8, -BIG, BIG) for n in "tlhw"]
    ip, iz, ir = G.IntPoint.make((a, b)), G.IntSize.make((c, d)), G.IntRect.make(((a, b), (c, d)))
    ta, tb, tc, td = [math_trunc(ctx, v) for v in (a, b, c, d)]
    ctx.check(and_([isp(ip, ta, tb), iss(iz, tc, td), isr(ir, ta, tb, tc, td)]), "integers made of floats drop the fraction")


# ---------------------------------------------------------------- C14 mapping and fitting

SIZES = [0.5, 1.0, -4.0, 256.0]
ODD = [3.0, -10.0, 0.1]


@harness("C14", quick=[{"sizes": "pow2"}, {"sizes": "odd"}],
         bounds="source extents 1/2, 1, -4, 256 (exact) and 3, -10, 0.1 (within 1e-9), any target extents "
                "multiples of 2^-2 up to 1024 for powers of two (fixed 2, 3, 7.5 otherwise), any positions multiples of 2^-4 up to 1024")
def mapping(ctx, M, sizes):
    G = M.Geometry
    exact = sizes == "pow2"
    ctx.round_abs = True
    table = SIZES if exact else ODD
    fh, fw = ctx.pick("fh", table), ctx.pick("fw", table)
    ft, fl, tt, tl, py, px = [ctx.flt(n, 4, -1024, 1024) for n in ("ft", "fl", "tt", "tl", "py", "px")]
    if exact:
        th, tw = ctx.flt("th", 2, -1024, 1024), ctx.flt("tw", 2, -1024, 1024)
    else:
        th, tw = ctx.pick("th", [2.0, 3.0, -7.5]), ctx.pick("tw", [2.0, -3.0, 7.5])
    same = eq if exact else close
    f = G.FloatRect.from_tlhw(ft, fl, fh, fw)
    t = G.FloatRect.from_tlhw(tt, tl, th, tw)
    what = ctx.pick("what", ["point", "size", "rect"])
    if what == "point":
        q = G.map_point(G.FloatPoint(y=py, x=px), f, t)
        ctx.check(and_([same((q.y - tt) * fh, (py - ft) * th), same((q.x - tl) * fw, (px - fl) * tw)]),
                  "map_point keeps the relative position in each axis")
    elif what == "size":
        sh, sw = ctx.flt("sh", 4, -1024, 1024), ctx.flt("sw", 4, -1024, 1024)
        z = G.map_size(G.FloatSize(h=sh, w=sw), f, t)
        ctx.check(and_([same(z.height * fh, sh * th), same(z.width * fw, sw * tw)]), "map_size keeps the relative size")
    else:
        sh, sw = ctx.flt("sh", 4, -1024, 1024), ctx.flt("sw", 4, -1024, 1024)
        r = G.map_rect(G.FloatRect.from_tlhw(py, px, sh, sw), f, t)
        ctx.check(and_([same((r.top - tt) * fh, (py - ft) * th), same((r.left - tl) * fw, (px - fl) * tw),
                        same(r.height * fh, sh * th), same(r.width * fw, sw * tw)]), "map_rect maps every corner")


@harness("C14", quick={}, bounds="rect positions and extents multiples of 2^-4 up to 1024, target ratios 1/4, 1/2, 1, 2, 1.5, 3, "
                                 "by ratio and by size, sizes below one included; tolerance 1e-9 of the domain")
def fitting(ctx, M):
    G = M.Geometry
    ctx.round_abs = True
    t, l = ctx.flt("t", 4, -1024, 1024), ctx.flt("l", 4, -1024, 1024)
    h, w = ctx.flt("h", 4, Fraction(1, 16), 1024), ctx.flt("w", 4, Fraction(1, 16), 1024)
    n, d = ctx.pick("ratio", [(1, 4), (1, 2), (1, 1), (2, 1), (3, 2), (3, 1)])
    rect = ctx.pick("form", ["rect", "tuple"])
    arg = G.FloatRect.from_tlhw(t, l, h, w) if rect == "rect" else ((t, l), (h, w))
    by = ctx.pick("by", ["ratio", "size", "fraction", "sizeobject"])
    if by == "ratio":
        r = G.fit_to_aspect_ratio(arg, n / d)
    elif by == "size":
        r = G.fit_to_size(arg, (d, n))
    elif by == "fraction":
        r = G.fit_to_size(arg, (d * 0.125, n * 0.125))
    else:
        r = G.fit_to_size(arg, G.FloatSize(height=d * 8.0, width=n * 8.0))
    tol = 1e-6
    ctx.check(close(r.width * d, r.height * n, 1e-11), "the result has the requested aspect ratio")
    ctx.check(and_([r.top >= t - tol, r.left >= l - tol, r.bottom <= t + h + tol, r.right <= l + w + tol]),
              "the result lies inside the rectangle")
    ctx.check(and_([close(r.center.y * 2, t * 2 + h, 1e-11), close(r.center.x * 2, l * 2 + w, 1e-11)]), "the result is centred")
    ctx.check(or_([close(r.height, h, 1e-11), close(r.width, w, 1e-11)]), "the result fills one direction")


@harness("C14", quick={}, bounds="points with multiples of 2^-4 up to 1024; rotation by 0, quarter, half, three quarter and 1 radian, "
                                 "around the default origin or any other, tolerance 1e-9 of the domain")
def rotation(ctx, M):
    G = M.Geometry
    ctx.round_abs = True
    py, px, oy, ox = [ctx.flt(n, 4, -1024, 1024) for n in ("py", "px", "oy", "ox")]
    a = ctx.pick("angle", [0.0, math.pi / 2, math.pi, -math.pi / 2, 1.0])
    c, s = math.cos(a), math.sin(a)
    what = ctx.pick("what", ["origin", "default", "size"])
    if what == "origin":
        q = G.FloatPoint(y=py, x=px).rotate(a, G.FloatPoint(y=oy, x=ox))
        dx, dy = px - ox, py - oy
        ctx.check(and_([close(q.x - ox, dx * c - dy * s, 1e-11), close(q.y - oy, dx * s + dy * c, 1e-11)]),
                  "rotation about an origin")
    elif what == "default":
        q = G.FloatPoint(y=py, x=px).rotate(a)
        ctx.check(and_([close(q.x, px * c - py * s, 1e-11), close(q.y, px * s + py * c, 1e-11)]), "rotation about (0, 0)")
    else:
        q = G.FloatSize(h=py, w=px).rotate(a)
        ctx.check(and_([close(q.width, px * c - py * s, 1e-11), close(q.height, px * s + py * c, 1e-11)]), "rotation of a size")


@harness("C14", quick={}, bounds="points with multiples of 2^-2 up to 1024; square root contract |s*s - t| <= 2^-51 t")
def measure(ctx, M):
    G = M.Geometry
    ay, ax, by, bx = [ctx.flt(n, 2, -1024, 1024) for n in ("ay", "ax", "by", "bx")]
    wrap = ctx.pick("form", ["tuple", "point"])
    a, b = ((ay, ax), (by, bx)) if wrap == "tuple" else (G.FloatPoint(y=ay, x=ax), G.FloatPoint(y=by, x=bx))
    m = G.midpoint(a, b)
    ctx.check(and_([eq(m[0] * 2, ay + by), eq(m[1] * 2, ax + bx)]), "the midpoint is half way in each direction")
    d = G.distance(a, b)
    dy, dx = by - ay, bx - ax
    sq = dy * dy + dx * dx
    ctx.check(d >= 0, "a distance is not negative")
    ctx.check(close(d * d, sq, 1e-12), "the distance is Euclidean")
    n = abs(G.FloatPoint(y=ay, x=ax))
    ctx.check(close(n * n, ay * ay + ax * ax, 1e-12), "abs of a point is its distance from the origin")
    iy, ix = ctx.int("iy", -1000, 1000), ctx.int("ix", -1000, 1000)
    for v in (G.IntPoint(y=iy, x=ix), G.IntSize(h=iy, w=ix)):
        n = abs(v)
        ctx.check(and_([n >= 0, close(n * n, iy * iy + ix * ix, 1e-12)]), "abs of an integer point or size is Euclidean")
    z = abs(G.FloatSize(h=ay, w=ax))
    ctx.check(close(z * z, ay * ay + ax * ax, 1e-12), "abs of a size is its diagonal")


# ---------------------------------------------------------------- C15 axis ticks

def log10_contract(ctx, lo_exp, hi_exp):
    """math.log10 as a contract: for 10**k <= x < 10**(k+1) the result r has k <= r < k+1, except that
    within 1e-15 (relative) below 10**(k+1) the result may already be k+1; exact at powers of ten."""
    import z3

    def log10(x):
        r = sym.to_float(x).real()
        ctx.assume(sym.SymBool(r > 0))
        k = sym.SymInt(z3.Int("exp10!%d" % ctx.fresh))
        ctx.fresh += 1
        ctx.add(z3.And(k.e >= lo_exp, k.e <= hi_exp))
        cases = []
        for j in range(lo_exp, hi_exp + 1):
            p, n = z3.RealVal(str(Fraction(10) ** j)), z3.RealVal(str(Fraction(10) ** (j + 1)))
            slack = p * z3.RealVal("1/%d" % 10 ** 15)
            cases.append(z3.Implies(k.e == j, z3.And(r >= p - slack, r < n)))
        ctx.add(z3.And(cases))
        e = k.__index__()
        v = ctx.fresh_real("log10")
        p = z3.RealVal(str(Fraction(10) ** e))
        ctx.add(z3.And(v >= e, v < e + 1, z3.Implies(r == p, v == e), z3.Implies(r > p * z3.RealVal("1000001/1000000"), v > e)))
        return sym.SymFloat(v, Fraction(e), Fraction(e + 1))
    return log10


TICK_TOL = 1e-9


def label_reads(ctx, label, tick, d, lo_exp, hi_exp):
    """The text of a label denotes the value of its tick to within half the spacing d (so that labels of
    different ticks differ).  A label of a symbolic value is a token that records the value and the format
    it was given: it shows the value rounded to a unit of its last digit."""
    tok = ctx.tokens.get(label) if ctx.symbolic else None
    if tok is None:
        return close_abs(float(label), tick, d * 0.500001)
    import re
    import z3
    v, spec = tok
    spec = re.sub("\u27e6[0-9]+\u27e7", lambda k: str(ctx.tokens[k.group(0)][0].__index__()), spec)
    m = re.fullmatch(r"0?\.?([0-9]*)([fe])", spec)
    if m is None:
        raise sym.Unsupported("label format %r" % spec)
    p = int(m.group(1) or 6)
    vr, dr = sym.to_float(v).real(), sym.to_float(d).real() * z3.RealVal("1000001/1000000")
    same = True if v is tick else close_abs(v, tick, d * TICK_TOL)
    if m.group(2) == "f":
        return and_([same, sym.SymBool(z3.RealVal(str(Fraction(10) ** -p)) <= dr)])
    av = z3.If(vr < 0, -vr, vr)
    return and_([same, sym.SymBool(z3.And([
        z3.Implies(av >= z3.RealVal(str(Fraction(10) ** j)), z3.Or(av >= z3.RealVal(str(Fraction(10) ** (j + 1))),
                                                                   z3.RealVal(str(Fraction(10) ** (j - p))) <= dr))
        for j in range(lo_exp, hi_exp + 1)]))])


TICKS_Q = [{"k": 0, "top": 200, "ticks": [5], "exp": 0}, {"k": 3, "top": 8, "ticks": [5], "exp": 0},
           {"k": 2, "top": 16, "ticks": [3], "exp": 0},
           {"k": 0, "top": 40, "ticks": [5], "exp": 7}, {"k": 0, "top": 12, "ticks": [5], "exp": 0, "per": 10},
           {"k": 0, "top": 10000, "ticks": [5], "exp": 7, "span": 6}, {"k": 0, "top": 6, "ticks": [4], "exp": -8, "span": 2},
           {"k": 0, "top": 10, "ticks": [2, 10, 21], "exp": 0}]
TICKS_T = [{"k": 0, "top": 2000, "ticks": [2, 3, 5, 10], "exp": 0}, {"k": 4, "top": 64, "ticks": [2, 3, 5, 10], "exp": 0},
           {"k": 8, "top": 4, "ticks": [2, 5], "exp": 0}, {"k": 0, "top": 200, "ticks": [3, 5, 10], "exp": 7},
           {"k": 0, "top": 60, "ticks": [3, 5], "exp": 0, "per": 10}, {"k": 0, "top": 60, "ticks": [5], "exp": -1, "per": 1000},
           {"k": 4, "top": 16, "ticks": [3, 5], "exp": 0}, {"k": 0, "top": 20, "ticks": [5], "exp": 0, "per": 10},
           {"k": 0, "top": 2000, "ticks": [4], "exp": -8, "span": 6}]


@harness("C15", quick=TICKS_Q, thorough=TICKS_T,
         bounds="any two distinct limits that are multiples of 2^-k (times 10^exp) with magnitude up to `top` (times 10^exp) "
                "(either order; with `per`: multiples of 1/per with numerator up to `top`), the listed approximate tick counts; tolerance 1e-9 of the division",
         assumes=["math.log10 returns floor(log10 x) up to 1e-15 relative below a power of ten"], path_seconds=60)
def linear_ticks(ctx, M, k, top, ticks, exp, per=1, span=None):
    G = M.Geometry
    if ctx.symbolic:
        shims.MATH.__dict__["_hooks"]["log10"] = log10_contract(ctx, exp - 4, exp + 5)
    ctx.round_abs = True
    if per > 1:
        i, j = ctx.int("a", -top, top), ctx.int("b", -top, top)
        ctx.assume(i < j)
        a, b = i / per, j / per
    elif exp:
        i, j = ctx.int("a", -top, top), ctx.int("b", -top, top)
        ctx.assume(i < j)
        if span:
            ctx.assume(j - i <= span)
        a, b = (i * 10 ** exp, j * 10 ** exp) if exp > 0 else (i / 10 ** -exp, j / 10 ** -exp)
    else:
        a, b = ctx.flt("a", k, -top, top), ctx.flt("b", k, -top, top)
    ctx.assume(a < b)
    n = ctx.pick("ticks", ticks)
    swap = ctx.pick("swap", [False, True])
    T = G.LinearTicker(b, a, ticks=n) if swap else G.LinearTicker(a, b, ticks=n)
    d = T.division
    ctx.check(d > 0, "the spacing of ticks is positive")
    ctx.check(or_([or_([close_abs(d, m * Fraction(10) ** e, Fraction(10) ** e * Fraction(1, 10 ** 9)) for m in (1, 2, 5)])
                   for e in range(exp - 5, exp + 6)]), "the spacing is 1, 2 or 5 times a power of ten")
    tol = d * TICK_TOL
    lo, hi = T.minimum, T.maximum
    ctx.check(and_([lo <= a + tol, hi >= b - tol]), "the axis covers the range")
    ctx.check(and_([lo + d > a - tol, hi - d < b + tol]), "the axis extends less than one division beyond the range")
    if per == 1:
        ctx.check(implies(d >= 1, and_([lo <= a, hi >= b, lo + d > a, hi - d < b])),
                  "with whole-number spacing the axis is exactly the tightest one around the range")
    v = list(T.values)
    ctx.check(len(v) >= 2 and and_([close_abs(v[0], lo, tol), close_abs(v[-1], hi, tol)]), "ticks go from minimum to maximum")
    ctx.check(and_([close_abs(v[i + 1] - v[i], d, tol) for i in range(len(v) - 1)]), "ticks are equally spaced, ascending")
    ctx.check(len(T.labels) == len(v), "one label per tick")
    p = T.precision
    ctx.check(and_([p >= 0, or_([and_([d * 10 ** j >= 1 - TICK_TOL, p == j, or_([j == 0, d * 10 ** j < 10])]) for j in range(0, max(6, 6 - exp))])]),
              "the precision shows the leading digit of the spacing")
    ctx.check(and_([T.ticks == n, 2 * len(v) <= 3 * n + 4, 4 * len(v) >= n]), "the number of ticks is near the requested number")
    ctx.check(and_([label_reads(ctx, T.labels[i], v[i], d, exp - 4, exp + 5) for i in range(len(v))]),
              "each label denotes the value of its tick")


def close_abs(x, y, tol):
    if any(isinstance(z, sym.SymFloat) for z in (x, y, tol)):
        r = [z if isinstance(z, sym.SymFloat) else None for z in (x, y, tol)]
        import z3
        q = [sym.to_float(z).real() if isinstance(z, (sym.SymFloat, sym.SymInt)) else z3.RealVal(str(Fraction(z))) for z in (x, y, tol)]
        d = q[0] - q[1]
        return sym.SymBool(z3.And(d <= q[2], -d <= q[2]))
    return abs(Fraction(x) - Fraction(y)) <= Fraction(tol)


@harness("C15", quick=[{"k": 6, "top": 40}, {"k": 0, "top": 3000}], thorough=[{"k": 12, "top": 100}, {"k": 0, "top": 200000}],
         bounds="any value that is a multiple of 2^-k with magnitude up to `top`, zero included; rounding to the nearest or up",
         assumes=["math.log10 returns floor(log10 x) up to 1e-15 relative below a power of ten"])
def pretty_number(ctx, M, k, top):
    G = M.Geometry
    if ctx.symbolic:
        shims.MATH.__dict__["_hooks"]["log10"] = log10_contract(ctx, -5, 6)
    ctx.round_abs = True
    v = ctx.flt("v", k, -top, top)
    rounding = ctx.pick("rounding", [False, True])
    p = G.make_pretty2(v, rounding)
    ctx.check(implies(v == 0, eq(p, 0)), "zero stays zero")
    ctx.check(or_([v == 0] + [or_([close_abs(p, s * m * Fraction(10) ** e, Fraction(10) ** e * Fraction(1, 10 ** 9)) for m in (1, 2, 5) for s in (1, -1)])
                             for e in range(-5, 7)]), "a pretty number is 1, 2 or 5 times a power of ten")
    ctx.check(or_([and_([v > 0, p > 0]), and_([v < 0, p < 0]), v == 0]), "a pretty number has the sign of the value")
    av, ap = abs(v), abs(p)
    t = av * 1e-9
    if rounding:
        ctx.check(or_([v == 0, and_([ap * 3 >= av * 2 - t, ap * 3 <= av * 5 + t])]), "rounded to the nearest it is within a factor 5/3 of the value")
    else:
        ctx.check(or_([v == 0, and_([ap >= av - t, ap * 2 < av * 5 + t])]), "rounded up it is not below the value, nor 2.5 times it")


@harness("C15", quick={}, bounds="any single value, a multiple of 2^-4 up to 10^6")
def degenerate_ticks(ctx, M):
    a = ctx.flt("a", 4, -BIG, BIG)
    T = M.Geometry.LinearTicker(a, a)
    ctx.check(len(T.values) == 1 and and_([eq(T.values[0], a), eq(T.minimum, a), eq(T.maximum, a)]), "a single value has a single tick at the value")
    ctx.check(len(T.labels) == 1, "one label per tick")
    R = M.Geometry.make_pretty_range(a, a)
    ctx.check(len(R) == 5 and and_([eq(R[0], a), eq(R[1], a), len(R[2]) == 1 and eq(R[2][0], a)]), "the pretty range of a single value is the value")


@harness("C15", quick={}, bounds="limits out of infinity, minus infinity, not a number and 1, not both finite")
def ticks_not_finite(ctx, M):
    vals = [math.inf, -math.inf, math.nan, 1.0]
    a, b = ctx.pick("a", vals), ctx.pick("b", vals)
    ctx.assume(not (math.isfinite(a) and math.isfinite(b)))
    T = M.Geometry.LinearTicker(a, b)
    ctx.check(len(T.values) == 1, "limits that are not finite give a single tick")
    ctx.check(len(T.labels) == 1, "one label per tick")


@harness("C15", quick={}, bounds="two limits up to 40 in either order, 5 and 3 ticks")
def plain_range(ctx, M):
    G = M.Geometry
    if ctx.symbolic:
        shims.MATH.__dict__["_hooks"]["log10"] = log10_contract(ctx, -4, 5)
    ctx.round_abs = True
    a, b = ctx.flt("a", 0, -40, 40), ctx.flt("b", 0, -40, 40)
    ctx.assume(a != b)
    n = ctx.pick("n", [5, 3])
    lo, hi, v, d, p = G.make_pretty_range(a, b, ticks=n)
    a, b = mn(a, b), mx(a, b)
    tol = d * TICK_TOL
    ctx.check(d > 0, "the spacing of ticks is positive")
    ctx.check(and_([lo <= a + tol, hi >= b - tol, lo + d > a - tol, hi - d < b + tol]), "the pretty range is the tightest one around the limits")
    ctx.check(len(v) >= 2 and and_([close_abs(v[0], lo, tol), close_abs(v[-1], hi, tol)]), "ticks go from minimum to maximum")
    ctx.check(and_([close_abs(v[i + 1] - v[i], d, tol) for i in range(len(v) - 1)]), "ticks are equally spaced, ascending")
    ctx.check(and_([2 * len(v) <= 3 * n + 4, 4 * len(v) >= n]), "the number of ticks is near the requested number")


# ---------------------------------------------------------------- C34 logarithmic axis ticks

class Pow:
    """base ** y for a symbolic y: only what taking logarithms, scaling and labelling need."""

    def __init__(self, ctx, base, y):
        self.ctx, self.base, self.y = ctx, base, y

    def __mul__(self, k):
        if not isinstance(k, (int, float)) or k <= 0:
            raise sym.Unsupported("product of a symbolic power")
        return Pow(self.ctx, self.base, self.y + math.log(k, self.base))

    __rmul__ = __mul__

    def __floor__(self):
        # floor of base ** y, by comparing y with the logarithms of the integers
        n = 1
        if self.y < 0:
            raise sym.Unsupported("floor of a power below one")
        while n < self.base ** 3:
            # at an integer power of the base pow is exact; elsewhere the boundary itself may round either way
            t = math.log(n + 1, self.base)
            if self.y < (round(t) if abs(t - round(t)) < 1e-12 else t):
                return n
            n += 1
        raise sym.Unsupported("floor of a large power")

    def __format__(self, spec):
        return self.ctx.token(self, spec)


def log_hooks(ctx, lo_exp, hi_exp):
    import z3

    def log(x, base=None):
        if isinstance(x, Pow):
            if base != x.base:
                raise sym.Unsupported("logarithm to another base")
            return x.y
        r = sym.to_float(x).real()
        ctx.assume(sym.SymBool(r > 0))
        k = sym.SymInt(z3.Int("explog!%d" % ctx.fresh))
        ctx.fresh += 1
        ctx.add(z3.And(k.e >= lo_exp, k.e <= hi_exp))
        b = Fraction(base)
        ctx.add(z3.And([z3.Implies(k.e == j, z3.And(r >= z3.RealVal(str(b ** j * (1 - Fraction(1, 10 ** 14)))), r < z3.RealVal(str(b ** (j + 1)))))
                        for j in range(lo_exp, hi_exp + 1)]))
        e = k.__index__()
        v = ctx.fresh_real("log")
        ctx.add(z3.And(v >= e, v < e + 1))
        return sym.SymFloat(v, Fraction(e), Fraction(e + 1))

    def pow_(x, y):
        if isinstance(y, (sym.SymFloat, sym.SymInt)) and isinstance(x, (int, float)):
            if isinstance(y, sym.SymInt):
                return math.pow(x, y.__index__())
            return Pow(ctx, x, y)
        return shims._m_pow(x, y)

    def floor(x):
        return x.__floor__() if isinstance(x, Pow) else sym.floor(x) if isinstance(x, (sym.SymInt, sym.SymFloat)) else math.floor(x)

    def log_any(x, *a):
        return log(x, *a) if isinstance(x, (Pow, sym.SymFloat, sym.SymInt)) else math.log(x, *a)
    return {"log": log_any, "pow": pow_, "floor": floor}


def power_label_reads(ctx, label, y, base, e):
    """A label denotes base ** y with relative error below e."""
    tok = ctx.tokens.get(label) if ctx.symbolic else None
    if tok is None:
        return close_abs(math.log(float(label), base), y, e)
    import re
    v, spec = tok
    spec = re.sub("\u27e6[0-9]+\u27e7", lambda k: str(ctx.tokens[k.group(0)][0].__index__()), spec)
    m = re.fullmatch(r"0?\.?([0-9]*)([fe])", spec)
    if m is None or m.group(2) != "e" or not isinstance(v, Pow):
        raise sym.Unsupported("label format %r" % spec)
    return and_([close_abs(v.y, y, 1e-9), v.base == base, math.log(1 + 0.5 * 10.0 ** -int(m.group(1) or 6), base) <= e])


LOG_Q = [{"k": 2, "top": 6, "ticks": [2, 3, 5], "base": [10, 2, 4], "span": 6}, {"k": 5, "top": 2, "ticks": [5, 10], "base": [10], "span": 1}]
LOG_T = [{"k": 3, "top": 12, "ticks": [2, 3, 5, 8], "base": [10, 2, 4], "span": 12}, {"k": 7, "top": 2, "ticks": [3, 5, 10], "base": [10], "span": 1}]


@harness("C34", quick=LOG_Q, thorough=LOG_T,
         bounds="any two limits (exponents) low <= high that are multiples of 2^-k with magnitude up to `top` and at most `span` apart, the listed "
                "bases and approximate tick counts; tolerance 1e-9",
         assumes=["math.log(x, b) is within [k, k+1) for b**k <= x < b**(k+1) (1e-14 relative slack at powers)",
                  "math.pow(b, y) and math.log(., b) are inverse to each other up to 1e-9"], path_seconds=60)
def log_ticks(ctx, M, k, top, ticks, base, span):
    G = M.Geometry
    saved = dict(shims.MATH._overrides)
    if ctx.symbolic:
        shims.MATH._overrides.update(log_hooks(ctx, -12, 5))
    try:
        ctx.round_abs = True
        a, b = ctx.flt("a", k, -top, top), ctx.flt("b", k, -top, top)
        ctx.assume(and_([a <= b, b - a <= span]))
        n = ctx.pick("ticks", ticks)
        bs = ctx.pick("base", base)
        T = G.LogTicker(a, b, ticks=n, base=bs)
        v = list(T.values)
        ctx.check(len(T.labels) == len(v), "one label per tick")
        ctx.check(T.ticks == n and T.base == bs, "the ticker reports what it was asked for")
        ctx.check(and_([v[i] < v[i + 1] for i in range(len(v) - 1)]), "ticks ascend")
        ctx.check(and_([v[0] <= a + TICK_TOL, v[-1] >= b - TICK_TOL]), "the ticks cover the range")
        minor = list(T.minor_tick_indices)
        ctx.check(all(0 <= i < len(v) for i in minor) and len(set(minor)) == len(minor), "minor ticks are ticks")
        major = [i for i in range(len(v)) if i not in minor]
        ctx.check(len(major) >= 2 and major[0] == 0, "there is a major tick at the start and another one")
        d = v[major[1]] - v[major[0]]
        ctx.check(and_([close_abs(v[major[i + 1]] - v[major[i]], d, TICK_TOL) for i in range(len(major) - 1)]),
                  "major ticks are equally spaced")
        ctx.check(and_([v[0] + d > a - TICK_TOL, v[major[-1]] - 2 * d < b + TICK_TOL]), "major ticks extend less than two spacings beyond the range")
        step = [x - y for x, y in zip(major[1:], major)]
        ctx.check(len(set(step)) <= 1, "each decade has the same minor ticks")
        if minor:
            logs = {m: math.log(m, bs) for m in range(2, bs)}
            ctx.check(and_([or_([close_abs(v[i] - v[max(j for j in major if j < i)], logs[m], TICK_TOL) for m in logs]) for i in minor]),
                      "minor ticks lie at whole multiples of their major tick")
        else:
            ctx.check(len(v) <= 2 * n + 3, "the number of ticks is near the requested number")
        if bs == 10:
            ctx.check(and_([power_label_reads(ctx, T.labels[i], v[i], bs, d / 2 if not minor else 0.25) for i in range(len(v))]),
                      "each label denotes the value of its tick")
    finally:
        shims.MATH._overrides.clear()
        shims.MATH._overrides.update(saved)


@harness("C34", quick={}, bounds="limits that are not finite")
def log_ticks_not_finite(ctx, M):
    vals = [math.inf, -math.inf, math.nan, 1.0]
    a, b = ctx.pick("a", vals), ctx.pick("b", vals)
    ctx.assume(not (a == 1.0 and b == 1.0))
    T = M.Geometry.LogTicker(a, b)
    ctx.check(len(T.values) == 1 and len(T.labels) == 1, "a range that is not finite has one labelled tick")
    ctx.check(len(T.minor_tick_indices) == 0, "and no minor ticks")
