"""C16, C17: converters."""
import datetime
import pathlib
import uuid
from fractions import Fraction

from engine import shims, sym
from engine.registry import harness
from .h_geometry import close_abs
from .lib import *


@harness("C16", quick={}, bounds="n in 1, 10, 100, 1000, 128; ranges 0..1, -100..100, 0.5..2, 10..13, -3..-1, -4..0; values multiples of 2^-10 in the "
                                 "range, every integer -n..2n (also outside the range); tolerance 1e-9 of the step")
def scaled_integer(ctx, M):
    n = ctx.pick("n", [1, 10, 100, 1000, 128])
    lo, hi = ctx.pick("range", [(0, 1), (-100, 100), (0.5, 2.0), (10, 13), (-3, -1), (-4, 0)])
    ctx.round_abs = True
    c = M.Converter.FloatToScaledIntegerConverter(n, lo, hi)
    step = Fraction(hi - lo) / n
    tol = step / 10 ** 9
    what = ctx.pick("what", ["integer", "float", "order"])
    if what == "integer":
        k = ctx.int("k", -n, 2 * n)
        v = c.convert_back(k)
        ctx.check(close_abs(v * n, k * Fraction(hi - lo).numerator / Fraction(hi - lo).denominator + lo * n if not ctx.symbolic else sym.to_float(k) * float(hi - lo) + float(lo * n), tol * n),
                  "an integer converts back to its share of the range")
        ctx.check(eq(c.convert(v), k), "an integer survives conversion back and forth")
        ctx.check(eq(c.convert(lo), 0) and eq(c.convert(hi), n), "the ends of the range are 0 and n")
    elif what == "float":
        v = ctx.flt("v", 10, lo, hi)
        k = c.convert(v)
        ctx.check(isinstance(k, (int, sym.SymInt)), "the result is an integer")
        ctx.check(and_([k >= 0, k <= n]), "values in the range give integers from 0 to n")
        ctx.check(close_abs(c.convert_back(k), v, step * (1 + Fraction(1, 10 ** 6))), "a value survives conversion within one step")
    else:
        v, w = ctx.flt("v", 10, lo, hi), ctx.flt("w", 10, lo, hi)
        ctx.assume(v < w)
        ctx.check(c.convert(v) <= c.convert(w), "conversion keeps the order of values")


@harness("C16", quick={}, bounds="every percentage -1000..1000, every text of up to 3 digits and minus sign, and values multiples of 2^-12 in -4..4")
def percent(ctx, M):
    c = M.Converter.FloatToPercentStringConverter()
    ctx.round_abs = True
    what = ctx.pick("what", ["text", "value", "digits"])
    if what == "digits":
        s = text(ctx, "s", [1, 2, 3], "-0123456789")
        ref, whole = parse(s)
        ctx.assume(ref is not None and whole)
        ctx.check(close_abs(c.convert_back(s + "%") * 100, sym.to_float(ref[0]) if ctx.symbolic else ref[0], Fraction(1, 10 ** 9)), "n% means n/100")
    elif what == "text":
        k = ctx.int("k", -1000, 1000)
        s = str(k) + "%"
        v = c.convert_back(s)
        ctx.check(close_abs(v * 100, sym.to_float(k) if ctx.symbolic else k, Fraction(1, 10 ** 9)), "n% means n/100")
        ctx.check(same_text(ctx, c.convert(v), k), "a percentage survives conversion back and forth")
    else:
        v = ctx.flt("v", 12, -4, 4)
        ctx.check(close_abs(c.convert_back(c.convert(v)), v, Fraction(1, 100) + Fraction(1, 10 ** 9)),
                  "a value survives conversion within one percent")


def same_text(ctx, s, k):
    """The text s is the integer k followed by %."""
    if not s.endswith("%"):
        return False
    if ctx.symbolic:
        v = ctx.untoken(s[:-1])
        return eq(v if v is not None else int(s[:-1]), k)
    return s == "%d%%" % k


@harness("C16", quick={}, bounds="any integer, formats default, zero padded, padded and signed")
def integer_text(ctx, M):
    f = ctx.pick("format", [None, "{:d}", "{:05d}", "{:8d}", "{:+d}"])
    c = M.Converter.IntegerToStringConverter(f) if f else M.Converter.IntegerToStringConverter()
    i = ctx.int("i")
    s = c.convert(i)
    ctx.check(isinstance(s, str), "the result is a text")
    ctx.check(eq(c.convert_back(s), i), "an integer survives conversion to text and back")


EDGES = [0, 9, 10, -10, 99999, 100000, -123456, 2 ** 31, 2 ** 53 - 1, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63, 10 ** 20 + 1, -10 ** 24 - 7]


@harness("C16", quick={"n": 40}, thorough={"n": 80},
         bounds="every decimal text of up to `n` digits with or without sign; integers around the powers of ten and two up to 10^24")
def integer_digits(ctx, M, n):
    c = M.Converter.IntegerToStringConverter()
    if ctx.pick("edge", [False, True]):
        i = ctx.pick("i", EDGES)
        ctx.check(c.convert(i) == str(i) and c.convert_back(c.convert(i)) == i, "an integer survives conversion to text and back")
        return
    sign = ctx.pick("sign", ["", "-"])
    s = text(ctx, "s", range(1, n + 1), "0123456789")
    d = [x - 48 for x in codes(s)]
    if len(d) > 1:
        ctx.assume(d[0] > 0)
    want = 0
    for x in d:
        want = want * 10 + x
    ctx.check(eq(c.convert_back(sign + s), -want if sign else want), "the text of an integer converts back to it")


@harness("C16", quick={}, bounds="both truth values and other truthy/falsy integers")
def checked(ctx, M):
    c = M.Converter.CheckedToCheckStateConverter()
    b = ctx.bool("b")
    s = c.convert(b)
    ctx.check(s in ("checked", "unchecked"), "the check state is one of two texts")
    ctx.check(iff(c.convert_back(s), b), "a truth value survives conversion")


# ---------------------------------------------------------------- C17 text

def use_locale(ctx, point, sep=""):
    """locale.localeconv / locale.atof by contract: `point` is the decimal point, `sep` the thousands separator."""
    def atof(s, func=None):
        s = s.replace(sep, "") if sep else s
        s = s.replace(point, ".") if point != "." else s
        if ctx.symbolic:
            return sym.FloatShim(s)
        return float(s)
    ctx.patch("locale", "localeconv", lambda: {"decimal_point": point, "thousands_sep": sep})
    ctx.patch("locale", "atof", atof)
    ctx.note("locale.atof removes the thousands separator, replaces the decimal point and converts with float()")
    return ctx.fresh_modules()


def parse(s):
    """Reference: the longest numeric prefix of the stripped text as (n, exponent) = n * 10**exponent, or None."""
    c = [x for x in codes(s)]
    while c and bool(eq(c[0], 32)):
        c = c[1:]
    while c and bool(eq(c[-1], 32)):
        c = c[:-1]

    def is_digit(i):
        return i < len(c) and bool(and_([c[i] >= 48, c[i] <= 57]))

    def is_ch(i, chars):
        return i < len(c) and bool(or_([eq(c[i], ord(x)) for x in chars]))
    i, sign = 0, 1
    if is_ch(i, "-"):
        i, sign = 1, -1
    elif is_ch(i, "+"):
        i = 1
    n, e, digits = 0, 0, 0
    while is_digit(i):
        n, digits, i = n * 10 + (c[i] - 48), digits + 1, i + 1
    if is_ch(i, ".,") and (digits or is_digit(i + 1)):
        i += 1
        while is_digit(i):
            n, digits, i, e = n * 10 + (c[i] - 48), digits + 1, i + 1, e - 1
    if not digits:
        return None, False
    if is_ch(i, "eE"):
        j, esign = i + 1, 1
        if is_ch(j, "-"):
            j, esign = j + 1, -1
        elif is_ch(j, "+"):
            j += 1
        if is_digit(j):
            x = 0
            while is_digit(j):
                d = c[j] - 48
                x, j = x * 10 + (d if isinstance(d, int) else d.__index__()), j + 1
            i, e = j, e + esign * x
    return (n * sign, e), i == len(c)


def is_number(ctx, v, ref, tol=None):
    """v is the double nearest to n * 10**e (up to 1e-9 relative to the size of the domain)."""
    if v is None:
        return False
    n, e = ref if ref is not None else (0, 0)
    scale = Fraction(10) ** e
    if ctx.symbolic and isinstance(n, sym.SymInt):
        f = sym.to_float(n)
        t = f * float(scale) if scale >= 1 else f / float(1 / scale)
    else:
        t = Fraction(n) * scale
    tol = tol or Fraction(10) ** max(e, -6) * Fraction(1, 10 ** 6)
    return close_abs(v, t, tol)


NUM = "0123456789+-., x"


@harness("C17", quick=[{"n": 4, "alphabet": NUM}, {"n": 3, "alphabet": "123.,- "}, {"n": 5, "alphabet": "1e0"}, {"n": 4, "alphabet": "12eE-+."}],
         thorough=[{"n": 5, "alphabet": NUM}, {"n": 5, "alphabet": "123eE-+., "}],
         bounds="every text of up to `n` characters of the given alphabet, decimal point period or comma, with or without thousands separator, strict and tolerant parsing",
         path_seconds=40)
def float_text(ctx, M, n, alphabet):
    M = use_locale(ctx, *ctx.pick("locale", [(".", ""), (",", "."), (".", ","), (",", "")] if n < 4 else [(".", ""), (",", ".")]))
    ctx.round_abs = True
    fuzzy = ctx.pick("fuzzy", [True, False])
    s = text(ctx, "s", range(n + 1), alphabet)
    ref, whole = parse(s)
    ctx.assume(ref is None or abs(ref[1]) <= 290)     # no overflow
    c = M.Converter.FloatToStringConverter(fuzzy=fuzzy)
    if fuzzy:
        v = c.convert_back(s)
        ctx.check(is_number(ctx, v, ref), "tolerant parsing takes the leading number, or 0 if there is none")
        if len(s) and n < 4:
            v = M.Converter.FloatToStringConverter(pass_none=True).convert_back(s)
            ctx.check(v is not None and is_number(ctx, v, ref), "letting None pass changes nothing for a text that is not empty")
    else:
        ctx.assume(ref is not None and whole)
        if not isinstance(s, str):
            ctx.assume(not_(or_([eq(x, 44) for x in codes(s)])))
        elif "," in s:
            return
        v = c.convert_back(s)
        ctx.check(is_number(ctx, v, ref), "strict parsing gives the number")


SHAPES = [(12, None, None, 0), (24, None, None, 0), (3, 22, None, 0), (1, 7, None, 0), (6, 5, None, 0), (0, 4, None, 0), (3, 0, "e", 1), (1, 2, "E-", 2), (2, None, "e+", 2), (1, None, "e", 3), (1, None, "E-", 3)]


@harness("C17", quick={}, bounds="number texts of several shapes with up to 25 digits, sign, either decimal point, exponents of up to 3 digits, spaces around it and text after it")
def long_numbers(ctx, M):
    M = use_locale(ctx, *ctx.pick("locale", [(".", ""), (",", ".")]))
    ctx.round_abs = True
    fuzzy = ctx.pick("fuzzy", [True, False])
    before, frac, mark, exp = ctx.pick("shape", SHAPES)
    s = ctx.pick("sign", ["", "-", "+"])
    sign = -1 if s == "-" else 1
    digits = []

    def more(name, n):
        t = text(ctx, name, [n], "0123456789") if n else ""
        digits.extend(x - 48 for x in codes(t))
        return t
    s = s + more("a", before)
    if frac is not None:
        s = s + ctx.pick("point", [".", ","] if fuzzy else ["."]) + more("f", frac)
    n = 0
    for d in digits:
        n = n * 10 + d
    e = -(frac or 0)
    if mark:
        x = ctx.pick("exponent", [0, 7, 10, 38, 100, 120])
        ctx.assume(len(str(x)) == exp)
        s = s + mark + str(x)
        e += -x if "-" in mark else x
    if fuzzy:
        s = ctx.pick("lead", ["", "  ", "\t"]) + s + ctx.pick("tail", ["", " ", " nm", "x", " 5", "-", "e"] if not mark else ["", " nm", "."])
    v = M.Converter.FloatToStringConverter(fuzzy=fuzzy).convert_back(s)
    ctx.check(is_number(ctx, v, (n * sign, e), Fraction(10) ** (len(digits) + e) * Fraction(1, 10 ** 14)), "the number of a text is read completely")


@harness("C17", quick={"n": 3}, thorough={"n": 4},
         bounds="every number text of up to `n` characters followed by a unit, multipliers 1, 2, 1000, -4")
def physical_text(ctx, M, n):
    M = use_locale(ctx, ".")
    ctx.round_abs = True
    m = ctx.pick("multiplier", [1.0, 2.0, 1000.0, -4.0])
    pn = ctx.pick("pass_none", [False, True])
    c = M.Converter.PhysicalValueToStringConverter("nm", m, pass_none=pn)
    s = text(ctx, "s", range(1, n + 1), "0123456789-.,")
    ref, _ = parse(s)
    v = c.convert_back(s + " nm")
    ctx.check(v is not None and is_number(ctx, v * m, ref), "the text means number / multiplier")


@harness("C17", quick={}, bounds="None and the empty text, with and without pass_none")
def missing(ctx, M):
    M = use_locale(ctx, ".")
    C = M.Converter
    if ctx.pick("which", ["float", "physical"]) == "float":
        c = C.FloatToStringConverter(pass_none=True, fuzzy=ctx.pick("fuzzy", [True, False]))
    else:
        c = C.PhysicalValueToStringConverter("nm", pass_none=True)
    ctx.check(c.convert(None) is None, "None converts to None")
    ctx.check(isinstance(c.convert(0.0), str) and c.convert_back("0") == 0 and c.convert_back("0") is not None, "zero is not missing")
    ctx.check(c.convert_back(None) is None and c.convert_back("") is None, "None and empty text convert back to None")
    u = C.UuidToStringConverter()
    ctx.check(u.convert(None) is None, "no uuid converts to None")
    p = C.PathToStringConverter()
    ctx.check(p.convert(None) is None and p.convert_back(None) is None and p.convert_back("") is None, "no path converts to None")
    d = C.DatetimeToStringConverter()
    ctx.check(d.convert(None) is None, "no date converts to None")


class UuidStub:
    def __init__(self, hex=None):
        self.hex = hex


@harness("C17", quick={"pad": 1}, thorough={"pad": 2},
         bounds="every text of 35..37 characters over hexadecimal digits, g/G, dash and space, with up to `pad` more spaces (before it also line ends or tabs) at each side",
         path_seconds=60)
def uuid_text(ctx, M, pad):
    if ctx.symbolic:
        ctx.patch("uuid", "UUID", UuidStub)
        ctx.note("uuid.UUID(text) denotes the uuid with that text")
    M = ctx.fresh_modules()
    c = M.Converter.UuidToStringConverter()
    before, after = ctx.choice("before", pad + 1), ctx.choice("after", pad + 1)
    core = text(ctx, "s", [35, 36, 37], "0123456789abcdefgABCDEFG-")
    s = ctx.pick("blank", [" ", "\n", "\t"]) * before + core + " " * after
    v = c.convert_back(s)
    t = codes(core)

    def hexd(x):
        return or_([and_([x >= 48, x <= 57]), and_([x >= 65, x <= 70]), and_([x >= 97, x <= 102])])
    if len(t) == 36:
        valid = and_([eq(t[i], 45) if i in (8, 13, 18, 23) else eq(t[i], ord("4")) if i == 14 else
                      in_list(t[i], [ord(x) for x in "89abAB"]) if i == 19 else hexd(t[i]) for i in range(36)])
    else:
        valid = False
    ctx.check(iff(v is not None, valid), "exactly the text of a random uuid is accepted, in any case, with spaces around")
    if v is not None:
        if ctx.symbolic:
            ctx.check(v.hex == core, "the text becomes the uuid it denotes")
        else:
            ctx.check(v == uuid.UUID(core), "the text becomes the uuid it denotes")


class IsoText:
    """The text of isoformat(): its length and its parts."""

    def __init__(self, dt):
        self.dt = dt
        self.frac = bool(dt.microsecond != 0)

    def __len__(self):
        return 26 if self.frac else 19


class DateStub:
    def __init__(self, us):
        self.microsecond = us

    def isoformat(self, *args, **kw):
        if args or kw:
            raise sym.Unsupported("isoformat with arguments")
        return IsoText(self)

    @staticmethod
    def fromisoformat(s):
        return s.dt

    @staticmethod
    def strptime(s, fmt):
        if fmt not in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S"):
            raise sym.Unsupported("date format %r" % fmt)
        if s.frac == fmt.endswith("f"):
            return s.dt
        raise ValueError("time data does not match format")


@harness("C17", quick={}, bounds="any moment (year 1..9999, day 1..28) without timezone",
         assumes=["datetime by contract: isoformat() has 26 characters with microseconds and 19 without; strptime inverts it for the matching format"])
def date_text(ctx, M):
    us = ctx.int("us", 0, 999999)
    parts = [ctx.int(n, lo, hi) for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59))]
    if ctx.symbolic:
        ctx.patch("datetime", "datetime", DateStub)
        M = ctx.fresh_modules()
        d = DateStub(us)
    else:
        d = datetime.datetime(*parts, us)
    c = M.Converter.DatetimeToStringConverter()
    r = c.convert_back(c.convert(d))
    ctx.check(r is d if ctx.symbolic else r == d, "a moment survives conversion to text and back")


def shows(ctx, s, v, spec, suffix):
    """The text s is the value v formatted with spec, followed by suffix."""
    if not isinstance(s, str) or not s.endswith(suffix):
        return False
    s = s[:len(s) - len(suffix)]
    if not ctx.symbolic:
        return s == format(v, spec)
    tok = ctx.tokens.get(s)
    if tok is None:
        return False
    return and_([tok[1] == spec, eq(tok[0], v)])


@harness("C17", quick={}, bounds="any value that is a multiple of 2^-8 up to 1000, default and given formats, units nm and none, multipliers 1, 2, 1000, -4 or not given, with and without pass_none")
def value_text(ctx, M):
    M = use_locale(ctx, ".")
    C = M.Converter
    v = ctx.flt("v", 8, -1000, 1000)
    f, spec = ctx.pick("format", [(None, "g"), ("{:.3f}", ".3f"), ("{0:.1e}", ".1e")])
    kw = {"pass_none": True} if ctx.pick("pass_none", [False, True]) else {}
    if f:
        kw["format"] = f
    if ctx.pick("which", ["float", "physical"]) == "float":
        c = C.FloatToStringConverter(**kw)
        ctx.check(shows(ctx, c.convert(v), v, spec, ""), "a number converts to its text in the given format")
    elif spec != ".1e":      # with a numbered field the format cannot be extended by the units
        m = ctx.pick("multiplier", [None, 1.0, 2.0, 1000.0, -4.0])
        if m is not None:
            kw["multiplier"] = m
        units = ctx.pick("units", ["nm", ""])
        c = C.PhysicalValueToStringConverter(units, **kw)
        ctx.check(shows(ctx, c.convert(v), v * m if m is not None else v * 1.0, spec, " " + units), "a physical value converts to its multiplied text with units")
        if m is None:
            ctx.check(eq(c.convert_back("12 nm"), 12), "and back without multiplier")


@harness("C17", quick={}, bounds="constructor defaults and ready-made values")
def converter_defaults(ctx, M):
    M = use_locale(ctx, ".")
    C = M.Converter
    c = C.FloatToScaledIntegerConverter(100)
    ctx.check(c.convert(0) == 0 and c.convert(1) == 100 and c.convert_back(50) == 0.5, "the range is 0 to 1 by default")
    c = C.FloatToStringConverter()
    ctx.check(c.convert_back("3.5 mm") == 3.5, "parsing is tolerant by default")
    for conv in (lambda: c.convert(None), lambda: C.PhysicalValueToStringConverter("nm").convert(None)):
        try:
            r = conv()
        except Exception:
            r = 0
        ctx.check(r is not None, "None is not passed on by default")
    c = C.PhysicalValueToStringConverter("nm")
    ctx.check(c.convert_back("") == 0, "an empty text is zero by default")
    u = uuid.UUID("12345678-1234-4234-9234-123456789abc")
    ctx.check(C.UuidToStringConverter().convert(u) == str(u), "a uuid converts to its text")
    p = C.PathToStringConverter()
    ctx.check(p.convert(pathlib.PurePosixPath("a/b")) == "a/b", "a path converts to its text")
    ctx.check(str(p.convert_back("a/b")) == "a/b", "the text of a path converts back to it")
    d = C.DatetimeToStringConverter()
    ctx.check(all(d.convert_back(x) is None for x in ("", "x" * 19, "y" * 26, "2020-13-01T00:00:00")), "a text that is no date converts to None")
