"""Strings of known length whose characters are symbolic code points, and regular expressions on them.

A SymStr is a tuple of code points (int or SymInt).  Operations compare characters with the solver
(each comparison that is not decided forks the path); the matcher follows the backtracking semantics
of `re` on the parsed pattern, so a match on a symbolic text is explored for every text.
Characters are restricted by the harness to an ASCII alphabet, for which case mapping is exact.
"""
from __future__ import annotations

import fractions
import re as _re
try:
    import re._parser as _sre
    import re._constants as _c
except ImportError:  # pragma: no cover
    import sre_parse as _sre
    import sre_constants as _c

from . import sym


def _b(x):
    return bool(x)


def code(ch):
    return ord(ch)


def _between(c, a, b):
    return sym.and_terms([c >= a, c <= b])


def _lower(c):
    if isinstance(c, int):
        return ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c
    return sym.ite(_between(c, 65, 90), c + 32, c)


def _upper(c):
    if isinstance(c, int):
        return ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c
    return sym.ite(_between(c, 97, 122), c - 32, c)


def _is_space(c):
    if isinstance(c, int):
        return chr(c).isspace()
    return sym.or_terms([c == 32, _between(c, 9, 13), _between(c, 28, 31)])


def codes_of(s):
    """The code points of a str (with tokens expanded when possible) or SymStr; None if not a string."""
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    return None


class SymStr:
    _is_symstr = True

    def __init__(self, codes):
        self.c = tuple(codes)

    # ---- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def eq_term(self, o):
        oc = codes_of(o)
        if oc is None:
            return False
        if len(oc) != len(self.c):
            return False
        return sym.and_terms([sym.eq_term(a, b) for a, b in zip(self.c, oc)])

    def __eq__(self, o):
        return self.eq_term(o)

    def __ne__(self, o):
        r = self.eq_term(o)
        return ~r if isinstance(r, sym.SymBool) else not r

    def _cmp_lt(self, o):
        oc = codes_of(o)
        for a, b in zip(self.c, oc):
            if _b(a != b):
                return _b(a < b)
        return len(self.c) < len(oc)

    def __lt__(self, o): return self._cmp_lt(o)
    def __gt__(self, o): return SymStr(codes_of(o))._cmp_lt(self)
    def __le__(self, o): return not self > o
    def __ge__(self, o): return not self < o

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return "".join(chr(c if isinstance(c, int) else c.__index__()) for c in self.c)

    def __iter__(self):
        return iter([SymStr((c,)) for c in self.c])

    def __getitem__(self, i):
        return SymStr(self.c[i]) if isinstance(i, slice) else SymStr((self.c[i],))

    def __add__(self, o):
        oc = codes_of(o)
        return NotImplemented if oc is None else SymStr(self.c + oc)

    def __radd__(self, o):
        oc = codes_of(o)
        return NotImplemented if oc is None else SymStr(oc + self.c)

    def __mul__(self, n):
        return SymStr(self.c * n)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return "<symstr %d>" % len(self.c)

    def __format__(self, spec):
        return self.concrete()

    def _sym_int(self):
        return to_int(self)

    def _sym_float(self):
        return to_number(self)

    # ---- searching
    def _at(self, sub, i):
        return sym.and_terms([sym.eq_term(a, b) for a, b in zip(self.c[i:i + len(sub)], sub)])

    def find(self, sub, start=0, end=None):
        sc = codes_of(sub)
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, n - len(sc) + 1):
            if _b(self._at(sc, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sc = codes_of(sub)
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(n - len(sc), start - 1, -1):
            if _b(self._at(sc, i)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        sc = codes_of(sub)
        n = i = 0
        while i + len(sc) <= len(self.c):
            if _b(self._at(sc, i)):
                n += 1
                i += max(1, len(sc))
            else:
                i += 1
        return n

    def startswith(self, prefix, start=0):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start) for p in prefix)
        pc = codes_of(prefix)
        if len(pc) > len(self.c) - start:
            return False
        return self._at(pc, start)

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        pc = codes_of(suffix)
        if len(pc) > len(self.c):
            return False
        return self._at(pc, len(self.c) - len(pc))

    # ---- transformations
    def lower(self):
        return SymStr(map(_lower, self.c))

    casefold = lower

    def upper(self):
        return SymStr(map(_upper, self.c))

    def _strippable(self, chars):
        if chars is None:
            return _is_space
        cc = codes_of(chars)
        return lambda c: sym.or_terms([sym.eq_term(c, x) for x in cc])

    def lstrip(self, chars=None):
        f = self._strippable(chars)
        i = 0
        while i < len(self.c) and _b(f(self.c[i])):
            i += 1
        return SymStr(self.c[i:])

    def rstrip(self, chars=None):
        f = self._strippable(chars)
        i = len(self.c)
        while i > 0 and _b(f(self.c[i - 1])):
            i -= 1
        return SymStr(self.c[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def replace(self, old, new, n=-1):
        oc, nc = codes_of(old), codes_of(new)
        assert len(oc) > 0
        out, i = [], 0
        while i < len(self.c):
            if n != 0 and i + len(oc) <= len(self.c) and _b(self._at(oc, i)):
                out.extend(nc)
                i += len(oc)
                n -= 1
            else:
                out.append(self.c[i])
                i += 1
        return SymStr(out)

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if sep is None:
            while i < len(self.c):
                if _b(_is_space(self.c[i])):
                    if cur:
                        out.append(SymStr(cur))
                        cur = []
                        maxsplit -= 1
                        if maxsplit == 0:
                            rest = SymStr(self.c[i:]).lstrip()
                            return out + ([rest] if len(rest) else [])
                else:
                    cur.append(self.c[i])
                i += 1
            return out + ([SymStr(cur)] if cur else [])
        sc = codes_of(sep)
        while i < len(self.c):
            if maxsplit != 0 and i + len(sc) <= len(self.c) and _b(self._at(sc, i)):
                out.append(SymStr(cur))
                cur = []
                i += len(sc)
                maxsplit -= 1
            else:
                cur.append(self.c[i])
                i += 1
        out.append(SymStr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = len(codes_of(sep))
        return (self, SymStr(()), SymStr(())) if i < 0 else (self[:i], self[i:i + n], self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(codes_of(sep))
        return (SymStr(()), SymStr(()), self) if i < 0 else (self[:i], self[i:i + n], self[i + n:])

    def translate(self, table):
        out = []
        for c in self.c:
            for k, v in table.items():
                if _b(c == k):
                    out.extend(() if v is None else (v,) if isinstance(v, int) else codes_of(v))
                    break
            else:
                out.append(c)
        return SymStr(out)

    def isdigit(self):
        return len(self.c) > 0 and sym.and_terms([_between(c, 48, 57) for c in self.c])

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return len(self.c) > 0 and sym.and_terms([_is_space(c) for c in self.c])

    def isupper(self):
        raise sym.Unsupported("str.isupper")

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.c)
            out.extend(codes_of(p))
        return SymStr(out)

    def encode(self, *a):
        return self.concrete().encode(*a)


# ------------------------------------------------------------------ numbers from text

def _number(s, allow_fraction):
    """Parse per Python's int()/float() grammar over the characters the harness allows.
    Returns (negative, mantissa, fraction digits, exponent)."""
    c = list(s.strip().c)
    i = 0
    neg = False
    if i < len(c) and _b(c[i] == code("-")):
        neg, i = True, i + 1
    elif i < len(c) and _b(c[i] == code("+")):
        i += 1
    n, digits, frac, exp = 0, 0, 0, 0

    def digit(j):
        return j < len(c) and _b(_between(c[j], 48, 57))
    while digit(i):
        n = n * 10 + (c[i] - 48)
        digits += 1
        i += 1
    if allow_fraction and i < len(c) and _b(c[i] == code(".")):
        i += 1
        while digit(i):
            n = n * 10 + (c[i] - 48)
            digits += 1
            frac += 1
            i += 1
    if digits == 0:
        raise ValueError("could not convert string to number")
    if allow_fraction and i < len(c) and _b(sym.or_terms([c[i] == code("e"), c[i] == code("E")])):
        i += 1
        eneg = False
        if i < len(c) and _b(c[i] == code("-")):
            eneg, i = True, i + 1
        elif i < len(c) and _b(c[i] == code("+")):
            i += 1
        if not digit(i):
            raise ValueError("could not convert string to number")
        while digit(i):
            d = c[i] - 48
            exp = exp * 10 + (d if isinstance(d, int) else d.__index__())
            i += 1
        exp = -exp if eneg else exp
    if i != len(c):
        raise ValueError("could not convert string to number")
    return neg, n, frac, exp


def to_int(s):
    neg, n, _, _ = _number(s, False)
    return -n if neg else n


def to_number(s):
    neg, n, frac, exp = _number(s, True)
    n = -n if neg else n
    e = exp - frac
    if abs(e) > 300:
        raise sym.Unsupported("exponent of a symbolic number text")
    if isinstance(n, int):
        return float(fractions.Fraction(n) * fractions.Fraction(10) ** e)
    f = sym.to_float(n)
    return f * float(10 ** e) if e > 0 else f / float(10 ** -e) if e < 0 else f


# ------------------------------------------------------------------ regular expressions

class SymMatch:
    def __init__(self, text, spans, pattern):
        self._t, self._s, self._p = text, spans, pattern

    def group(self, *ks):
        if not ks:
            ks = (0,)
        out = []
        for k in ks:
            k = self._p.groupindex[k] if isinstance(k, str) else k
            sp = self._s.get(k)
            out.append(None if sp is None else self._t[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._s.get(k) is None else self.group(k) for k in range(1, self._p.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._s.get(k) is None else self.group(k)) for n, k in self._p.groupindex.items()}

    def span(self, k=0):
        k = self._p.groupindex[k] if isinstance(k, str) else k
        return self._s.get(k, (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    @property
    def string(self):
        return self._t


class SymPattern:
    """A compiled pattern that accepts symbolic texts too."""

    def __init__(self, pattern, flags=0):
        self.native = _re.compile(pattern, flags)
        self.pattern = self.native.pattern
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)
        self.flags = self.native.flags
        self.tree = None

    def _parse(self):
        if self.tree is None:
            self.tree = list(_sre.parse(self.pattern, self.native.flags & ~_re.UNICODE & ~_re.DEBUG))
        return self.tree

    # the matcher: generators of (position, groups) in backtracking order
    def _char(self, c, op, av):
        ic = self.flags & _re.IGNORECASE
        if op is _c.LITERAL or op is _c.NOT_LITERAL:
            r = sym.eq_term(_lower(c), _lower(av)) if ic else sym.eq_term(c, av)
            return r if op is _c.LITERAL else _not(r)
        if op is _c.ANY:
            return True if self.flags & _re.DOTALL else _not(sym.eq_term(c, 10))
        if op is _c.IN:
            neg = False
            terms = []
            for o, a in av:
                if o is _c.NEGATE:
                    neg = True
                elif o is _c.LITERAL:
                    terms.append(self._char(c, o, a))
                elif o is _c.RANGE:
                    terms.append(_between(c, a[0], a[1]))
                    if ic:
                        terms += [_between(_lower(c), a[0], a[1]), _between(_upper(c), a[0], a[1])]
                elif o is _c.CATEGORY:
                    terms.append(self._category(c, a))
                else:
                    raise sym.Unsupported("regex class %s" % o)
            r = sym.or_terms(terms)
            return _not(r) if neg else r
        raise sym.Unsupported("regex op %s" % op)

    @staticmethod
    def _category(c, a):
        name = str(a)
        digit = _between(c, 48, 57)
        if name.endswith("NOT_DIGIT"):
            return _not(digit)
        if name.endswith("DIGIT"):
            return digit
        if name.endswith("NOT_SPACE"):
            return _not(_is_space(c))
        if name.endswith("SPACE"):
            return _is_space(c)
        word = sym.or_terms([digit, _between(c, 65, 90), _between(c, 97, 122), sym.eq_term(c, 95)])
        if name.endswith("NOT_WORD"):
            return _not(word)
        if name.endswith("WORD"):
            return word
        raise sym.Unsupported("regex category %s" % name)

    def _seq(self, ops, k, t, i, g):
        if k == len(ops):
            yield i, g
            return
        for j, h in self._one(ops[k], t, i, g):
            yield from self._seq(ops, k + 1, t, j, h)

    def _one(self, node, t, i, g):
        op, av = node
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
            if i < len(t) and _b(self._char(t[i], op, av)):
                yield i + 1, g
        elif op is _c.SUBPATTERN:
            group, add, dele, p = av
            for j, h in self._seq(list(p), 0, t, i, g):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                yield j, h
        elif op is _c.BRANCH:
            for p in av[1]:
                yield from self._seq(list(p), 0, t, i, g)
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is _c.MAX_REPEAT

            def rep(n, i, g):
                more = hi is _c.MAXREPEAT or n < hi
                if not greedy and n >= lo:
                    yield i, g
                if more:
                    for j, h in self._seq(p, 0, t, i, g):
                        if j == i and n >= lo:
                            continue
                        yield from rep(n + 1, j, h)
                if greedy and n >= lo:
                    yield i, g
            yield from rep(0, i, g)
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                raise sym.Unsupported("regex lookbehind")
            hit = next(self._seq(list(p), 0, t, i, g), None)
            if op is _c.ASSERT:
                if hit is not None:
                    yield i, hit[1]
            elif hit is None:
                yield i, g
        elif op is _c.AT:
            name = str(av)
            if name.endswith("AT_BEGINNING") or name.endswith("AT_BEGINNING_STRING"):
                if i == 0:
                    yield i, g
            elif name.endswith("AT_END_STRING"):
                if i == len(t):
                    yield i, g
            elif name.endswith("AT_END"):
                if i == len(t) or (i == len(t) - 1 and _b(sym.eq_term(t[i], 10))):
                    yield i, g
            elif name.endswith("AT_BOUNDARY") or name.endswith("AT_NON_BOUNDARY"):
                def word(k):
                    if not 0 <= k < len(t):
                        return False
                    return _b(sym.or_terms([_between(t[k], a, b) for a, b in ((48, 57), (65, 90), (97, 122), (95, 95))]))
                if (word(i - 1) != word(i)) != name.endswith("AT_NON_BOUNDARY"):
                    yield i, g
            else:
                raise sym.Unsupported("regex anchor %s" % name)
        elif op is _c.GROUPREF:
            sp = g.get(av)
            if sp is not None:
                n = sp[1] - sp[0]
                if i + n <= len(t) and all(_b(sym.eq_term(t[sp[0] + k], t[i + k])) for k in range(n)):
                    yield i + n, g
        elif op is _c.GROUPREF_EXISTS:
            group, yes, no = av
            p = yes if g.get(group) is not None else no
            if p is None:
                yield i, g
            else:
                yield from self._seq(list(p), 0, t, i, g)
        else:
            raise sym.Unsupported("regex op %s" % op)

    def _run(self, text, start, full):
        t = text.c
        for j, g in self._seq(self._parse(), 0, t, start, {}):
            if full and j != len(t):
                continue
            g = dict(g)
            g[0] = (start, j)
            return SymMatch(text, g, self)
        return None

    @staticmethod
    def _plain(s):
        if isinstance(s, str) and "\u27e6" in s:
            raise sym.Unsupported("regular expression on the text of a symbolic number")
        return s

    def match(self, s, *a):
        return self._run(s, 0, False) if isinstance(s, SymStr) else self.native.match(self._plain(s), *a)

    def fullmatch(self, s, *a):
        return self._run(s, 0, True) if isinstance(s, SymStr) else self.native.fullmatch(self._plain(s), *a)

    def search(self, s, *a):
        if not isinstance(s, SymStr):
            return self.native.search(self._plain(s), *a)
        for i in range(len(s) + 1):
            m = self._run(s, i, False)
            if m is not None:
                return m
        return None

    def finditer(self, s, *a):
        if not isinstance(s, SymStr):
            yield from self.native.finditer(s, *a)
            return
        i, last = 0, -1
        while i <= len(s):
            m = self._run(s, i, False)
            if m is None or (m.end() == m.start() == last):
                i += 1
                continue
            yield m
            last = m.end()
            i = m.end() if m.end() > m.start() else i + 1

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.native.sub(repl, s, count)
        if isinstance(repl, str) and "\\" in repl:
            raise sym.Unsupported("re.sub with a template on symbolic text")
        out, at = [], 0
        for n, m in enumerate(self.finditer(s)):
            if count and n >= count:
                break
            out.extend(s.c[at:m.start()])
            out.extend(codes_of(repl(m) if callable(repl) else repl))
            at = m.end()
        return SymStr(out + list(s.c[at:]))

    def findall(self, s):
        if not isinstance(s, SymStr):
            return self.native.findall(s)
        out = []
        for m in self.finditer(s):
            g = m.groups(SymStr(()))
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.native.split(s, maxsplit)
        out, at = [], 0
        for n, m in enumerate(self.finditer(s)):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[at:m.start()])
            out.extend(m.groups())
            at = m.end()
        return out + [s[at:]]


def _not(r):
    return ~r if isinstance(r, sym.SymBool) else not r


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, SymPattern) else SymPattern(pattern, flags)


RE_OVERRIDES = {
    "compile": compile,
    "match": lambda p, s, flags=0: compile(p, flags).match(s),
    "fullmatch": lambda p, s, flags=0: compile(p, flags).fullmatch(s),
    "search": lambda p, s, flags=0: compile(p, flags).search(s),
    "sub": lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count),
    "findall": lambda p, s, flags=0: compile(p, flags).findall(s),
    "finditer": lambda p, s, flags=0: compile(p, flags).finditer(s),
    "split": lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit),
}
