"""
Strings of symbolic characters, and regular expressions applied to them.

A SymStr is a str whose characters are character codes (solver variables) or plain characters.  SymRe
executes a compiled regular expression symbolically: the tree Python's own regex compiler builds is
walked with the backtracking order of the `re` module, and every character test is a branch of the path.
"""
import builtins
import re._constants as sc
import re._parser as sp

import z3

from .core import SIMPLE, engine
from .values import SymBool, SymInt, wrap, SymReal
from .core import Unsupported


def code(c):
    """z3 term of the code of a character"""
    return z3.IntVal(ord(c)) if isinstance(c, str) else c.term


_MEMO = {}


def char_in(c, key, make):
    """branch on a condition on one character; the condition is built once per character and key"""
    if type(c) is str:
        return bool(z3.is_true(z3.simplify(make(code(c)))))
    k = (c.term.get_id(), key)
    hit = _MEMO.get(k)
    if hit is None:
        t = z3.simplify(make(c.term))
        hit = _MEMO[k] = (c.term, t, SymBool(t))
        SIMPLE[id(t)] = t
    return bool(hit[2])


def in_ranges(c, ranges):
    """ranges: tuple of pairs of characters"""
    if type(c) is str:
        return any(lo <= c <= hi for lo, hi in ranges)
    return char_in(c, ranges, lambda t: z3.Or([z3.And(t >= ord(a), t <= ord(b)) if a != b else t == ord(a) for a, b in ranges]))


def same(a, b):
    """z3 condition: two characters are equal"""
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    return code(a) == code(b)


class SymStr(str):
    def __new__(cls, chars):
        chars = [c for c in chars]
        if all(type(c) is str for c in chars):
            return "".join(chars)
        self = str.__new__(cls, "\x00" * len(chars))
        self.chars = chars
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.chars[i])
        return SymStr([self.chars[i]])

    def __iter__(self):
        return iter([SymStr([c]) for c in self.chars])

    def __len__(self):
        return len(self.chars)

    def equals(self, o):
        o = chars(o)
        if len(o) != len(self.chars):
            return False
        return SymBool(z3.And([same(a, b) for a, b in zip(self.chars, o)] or [z3.BoolVal(True)]))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if len(o) == len(self.chars) == 1 and type(o) is not SymStr:
            return in_ranges(self.chars[0], ((str(o), str(o)),))
        return bool(self.equals(o))

    def __ne__(self, o):
        return not self == o

    def plain(self):
        """the string, every character decided"""
        return "".join(c if type(c) is str else chr(engine().concretize_int(c.term)) for c in self.chars)

    def __hash__(self):
        return hash(self.plain())

    def __str__(self):
        return self.plain()

    def __repr__(self):
        return repr(self.plain())

    def __format__(self, spec):
        return format(self.plain(), spec)

    def __add__(self, o):
        return SymStr(self.chars + chars(o))

    def __radd__(self, o):
        return SymStr(chars(o) + self.chars)

    def __contains__(self, o):
        return str(o) in self.plain()

    def __deepcopy__(self, memo):
        return self


def _decided(name):
    def f(self, *args, **kw):
        args = [a.plain() if type(a) is SymStr else a for a in args]
        return getattr(str, name)(self.plain(), *args, **kw)
    return f


for _n in ("split", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "find", "rfind", "index",
           "count", "lower", "upper", "title", "join", "encode", "isdigit", "isalpha", "isalnum", "isspace",
           "isidentifier", "partition", "rpartition", "rsplit", "splitlines", "format", "zfill", "isnumeric",
           "isdecimal", "__lt__", "__le__", "__gt__", "__ge__", "__mul__", "__rmul__", "__mod__", "capitalize",
           "swapcase", "translate", "casefold", "center", "ljust", "rjust", "expandtabs"):
    setattr(SymStr, _n, _decided(_n))


def chars(s):
    return s.chars if type(s) is SymStr else [c for c in s]


# ------------------------------------------------------------------------------------- numbers
DIGIT = (("0", "9"),)


def _digits(cs):
    t = z3.IntVal(0)
    for c in cs:
        t = t * 10 + (code(c) - 48)
    return z3.simplify(t)


def to_int(s, *args):
    if type(s) is not SymStr or args:
        return builtins.int(s, *args)
    for c in s.chars:
        if not in_ranges(c, DIGIT):
            return builtins.int(s.plain())
    return wrap(_digits(s.chars))


def to_float(s):
    if type(s) is not SymStr:
        return builtins.float(s)
    isdig = lambda c: in_ranges(c, DIGIT)       # noqa
    k, cs = 0, s.chars
    while k < len(cs) and isdig(cs[k]):
        k += 1
    whole, frac = cs[:k], []
    if k < len(cs) and in_ranges(cs[k], ((".", "."),)):
        j = k + 1
        while j < len(cs) and isdig(cs[j]):
            j += 1
        frac, k = cs[k + 1:j], j
    if not whole and not frac:
        return builtins.float(s.plain())
    e = 0
    if k < len(cs):
        e = builtins.float("1" + SymStr(cs[k:]).__str__())     # raises unless it is an exponent
        e = builtins.int(str(SymStr(cs[k + 1:])))
    return SymReal(z3.simplify(z3.ToReal(_digits(whole + frac)) * _pow10(e - len(frac))))


def _pow10(e):
    return z3.RealVal(10 ** e) if e >= 0 else z3.Q(1, 10 ** -e)


def shim(base, fn, also=()):
    """a stand-in for the builtin type `base` (isinstance and subclass tests keep working)"""
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (base,) + tuple(also))

        def __subclasscheck__(cls, c):
            return issubclass(c, (base,) + tuple(also))

        def __call__(cls, *a, **kw):
            return fn(*a, **kw)
    return Meta(base.__name__, (), {})


INT, FLOAT = shim(int, to_int), shim(float, to_float)


# ------------------------------------------------------------------------------------- regexes
class Match(object):
    def __init__(self, s, start, end, groups, last):
        self.s, self._start, self._end, self.groups_, self.lastindex = s, start, end, groups, last
        self.string, self.pos = s, start

    def group(self, *ks):
        ks = ks or (0,)
        r = []
        for k in ks:
            if k == 0:
                r.append(self.s[self._start:self._end])
            else:
                sp_ = self.groups_.get(k)
                r.append(self.s[sp_[0]:sp_[1]] if sp_ else None)
        return r[0] if len(r) == 1 else tuple(r)

    def start(self, k=0):
        return self._start if k == 0 else self.groups_[k][0]

    def end(self, k=0):
        return self._end if k == 0 else self.groups_[k][1]

    def span(self, k=0):
        return self.start(k), self.end(k)

    def __bool__(self):
        return True


_CAT = {sc.CATEGORY_DIGIT: lambda c: z3.And(c >= 48, c <= 57),
        sc.CATEGORY_SPACE: lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13)),
        sc.CATEGORY_WORD: lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)}
_NCAT = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
         sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


def _cat(k, c):
    return _CAT[k](c) if k in _CAT else z3.Not(_CAT[_NCAT[k]](c))


def _in(items, c):
    neg, conds = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            conds.append(c == av)
        elif op is sc.RANGE:
            conds.append(z3.And(c >= av[0], c <= av[1]))
        elif op is sc.CATEGORY:
            conds.append(_cat(av, c))
        else:
            raise Unsupported("regex set item %s" % op)
    t = z3.Or(conds) if conds else z3.BoolVal(False)
    return z3.Not(t) if neg else t


class SymRe(object):
    """the `match` of a compiled regex on (symbolic ASCII) strings"""

    def __init__(self, compiled):
        self.real = compiled
        self.pattern, self.flags = compiled.pattern, compiled.flags
        self.tree = sp.parse(compiled.pattern, compiled.flags)

    def match(self, s, pos=0):
        if type(s) is not SymStr:
            return self.real.match(s, pos)
        cs = chars(s)
        for end, groups, last in self._seq(list(self.tree), cs, pos, {}, None):
            return Match(s, pos, end, groups, last)
        return None

    def _test(self, cs, i, key, cond):
        return i < len(cs) and char_in(cs[i], key, cond)

    def _seq(self, items, cs, i, groups, last):
        if not items:
            yield i, groups, last
            return
        for j, g, l in self._one(items[0], cs, i, groups, last):
            for r in self._seq(items[1:], cs, j, g, l):
                yield r

    def _one(self, item, cs, i, groups, last):
        op, av = item
        if op is sc.LITERAL:
            if self._test(cs, i, ('eq', av), lambda c: c == av):
                yield i + 1, groups, last
        elif op is sc.NOT_LITERAL:
            if self._test(cs, i, ('ne', av), lambda c: c != av):
                yield i + 1, groups, last
        elif op is sc.ANY:
            if self._test(cs, i, 'any', lambda c: c != 10):
                yield i + 1, groups, last
        elif op is sc.IN:
            if self._test(cs, i, repr(av), lambda c: _in(av, c)):
                yield i + 1, groups, last
        elif op is sc.BRANCH:
            for alt in av[1]:
                for r in self._seq(list(alt), cs, i, groups, last):
                    yield r
        elif op is sc.SUBPATTERN:
            k = av[0]
            for j, g, l in self._seq(list(av[3]), cs, i, groups, last):
                if k is None:
                    yield j, g, l
                else:
                    g = dict(g)
                    g[k] = (i, j)
                    yield j, g, k
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for r in self._repeat(op is sc.MAX_REPEAT, lo, hi, list(sub), cs, i, groups, last, 0):
                yield r
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is sc.AT_END_STRING:
                ok = i == len(cs)
            elif av is sc.AT_END:
                ok = i == len(cs) or (i == len(cs) - 1 and self._test(cs, i, 'nl', lambda c: c == 10))
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and self._test(cs, i - 1, 'w', _CAT[sc.CATEGORY_WORD])
                b = self._test(cs, i, 'w', _CAT[sc.CATEGORY_WORD])
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else:
                raise Unsupported("regex position %s" % av)
            if ok:
                yield i, groups, last
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction != 1:
                raise Unsupported("look-behind")
            hit = next(self._seq(list(sub), cs, i, groups, last), None)
            if (hit is not None) == (op is sc.ASSERT):
                yield i, (hit[1] if hit else groups), last
        else:
            raise Unsupported("regex item %s" % op)

    def _repeat(self, greedy, lo, hi, sub, cs, i, groups, last, n):
        if n < lo:
            for j, g, l in self._seq(sub, cs, i, groups, last):
                for r in self._repeat(greedy, lo, hi, sub, cs, j, g, l, n + 1):
                    yield r
            return
        if not greedy:
            yield i, groups, last
        if hi is sc.MAXREPEAT or n < hi:
            for j, g, l in self._seq(sub, cs, i, groups, last):
                if j == i:
                    continue
                for r in self._repeat(greedy, lo, hi, sub, cs, j, g, l, n + 1):
                    yield r
        if greedy:
            yield i, groups, last
