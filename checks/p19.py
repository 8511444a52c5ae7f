"""P19: definitions mean what the expression language says."""
import z3

from checks.lib import *    # noqa
from ply import lex as plylex
from pyconform import parsing
from pyconform.parsing import FuncType, OpType, VarType, parse_definition
from pysym import symstr
from pysym.symstr import SymRe, SymStr

PROPERTY = dict(
    id="P19",
    title="Definitions are parsed by the usual rules of precedence, numbers and names",
    statement="A definition is read as the expression language defines: powers bind tighter than signs, these tighter than products and quotients, then sums and "
              "differences, then comparisons, then equality, operators of one rank group from the left and parentheses override; subexpressions of numbers only "
              "are evaluated; integers, decimals and exponents have their written value and kind; quoted strings keep their text; names may be functions with "
              "arguments and keywords or variables with any number of indices and slices, in the order written. Blanks do not matter, and text outside the language is refused.",
    quantifier=dict(over=["inputs"], text="all character strings within the bounds of each template"),
    why_tests_cant="The tests parse fixed strings; grouping and number forms depend on every combination of neighbouring tokens.",
    anchors=dict(files=["pyconform/parsing.py"], mechanism=[
        dict(name="tokens", where="pyconform/parsing.py: t_UFLOAT, t_UINT, t_STRING, t_NAME, literals"),
        dict(name="grouping", where="pyconform/parsing.py: precedence, p_expression_unary, p_expression_binary"),
        dict(name="calls, indices", where="pyconform/parsing.py: p_function_*, p_variable, p_index*, p_slice*, p_keyword_dict_*")]),
)
META = dict(
    how="The characters of the definition are solver variables: the real lexer and parser run on a string of symbolic characters (the regular expressions of the tokens, "
        "taken from the live lexer, are executed symbolically) and the resulting structure is compared with that of a hand-written parser on the same symbolic string.",
    bounds=dict(quick="templates with 1-4 free characters (any printable character, or any of a set relevant to the template); expressions of 4 operands with free operators, "
                      "signs and digits",
                thorough="as quick with one more free character or operator"),
    outside="characters other than tabs and those from 32 to 126; arguments left out (f(,x)); how a refused text is reported; values of constant powers beyond small exponents",
    assumptions=["ply's table driven parser runs as is; its regex calls are replaced by the symbolic execution of the same regexes"],
)


# ------------------------------------------------------------------------------- reference parser
class Bad(Exception):
    pass


class Quirk(Exception):
    """text whose treatment is not specified"""


def tokens(s):
    cs = [s[i] for i in range(len(s))]
    out, i = [], 0
    isin = lambda k, alpha: k < len(cs) and one_of(cs[k], alpha)         # noqa
    D, A = [("0", "9")], [("a", "z"), ("A", "Z"), ("_", "_")]
    while i < len(cs):
        if isin(i, [(" ", " "), ("\t", "\t")]):
            i += 1
            continue
        if isin(i, A):
            j = i + 1
            while isin(j, A + D):
                j += 1
            out.append(("name", s[i:j]))
            i = j
            continue
        if isin(i, D) or (isin(i, [(".", ".")]) and isin(i + 1, D)):
            j, real = i, False
            while isin(j, D):
                j += 1
            whole = cs[i:j]
            frac = []
            if isin(j, [(".", ".")]):
                real = True
                k = j + 1
                while isin(k, D):
                    k += 1
                frac = cs[j + 1:k]
                j = k
            e = 0
            if isin(j, [("e", "e"), ("E", "E")]):
                k = j + 1
                neg = isin(k, [("-", "-")])
                if neg or isin(k, [("+", "+")]):
                    k += 1
                if isin(k, D):
                    real = True
                    j = k
                    while isin(k, D):
                        e = e * 10 + int(value(cs[k]))
                        k += 1
                    j, e = k, -e if neg else e
            v = 0
            for c in whole + frac:
                v = v * 10 + value(c)
            out.append(("num", scaled(v, e - len(frac)) if real else v))
            i = j
            continue
        done = False
        for q in ('"', "'"):
            if isin(i, [(q, q)]):
                j = i + 1
                while j < len(cs) and not isin(j, [(q, q)]):
                    j += 2 if isin(j, [("\\", "\\")]) else 1
                if j < len(cs):
                    out.append(("str", s[i + 1:j]))
                    i, done = j + 1, True
        if done:
            continue
        for op in ("**", "<=", ">=", "==", "*", "/", "+", "-", "<", ">", "=", ",", ":", "(", ")", "[", "]"):
            if all(isin(i + k, [(op[k], op[k])]) for k in range(len(op))):
                out.append(("op", op))
                i, done = i + len(op), True
                break
        if not done:
            raise Bad("character %d" % i)
    return out


def codeof(c):
    return symstr.code(c.chars[0] if type(c) is SymStr else c)


def one_of(c, ranges):
    return symstr.in_ranges(c.chars[0] if type(c) is SymStr else c, tuple(ranges))


def value(c):
    return int(c) if type(c) is str else symstr.wrap(z3.simplify(codeof(c) - 48))


def scaled(v, k):
    if type(v) is int:
        return float("%de%d" % (v, k))
    return symstr.SymReal(z3.simplify(z3.ToReal(v.term) * symstr._pow10(k)))


RANK = {"==": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "**": 6}


class Ref(object):
    def __init__(self, s):
        self.t, self.i = tokens(s), 0

    def peek(self, *ops):
        return self.i < len(self.t) and self.t[self.i][0] == "op" and self.t[self.i][1] in ops

    def take(self, op):
        if not self.peek(op):
            raise Bad("expected %s" % op)
        self.i += 1

    def whole(self):
        r = self.expr(0)
        if self.i != len(self.t):
            raise Bad("text after the expression")
        return r

    def expr(self, rank):
        left = self.unary()
        while self.i < len(self.t) and self.t[self.i][0] == "op" and RANK.get(self.t[self.i][1], -1) > rank:
            op = self.t[self.i][1]
            self.i += 1
            left = binary(op, left, self.expr(RANK[op]))
        return left

    def unary(self):
        for op in ("-", "+"):
            if self.peek(op):
                self.i += 1
                x = self.expr(5)
                return x if op == "+" else (OpType("-", [x]) if struct(x) else -x)
        return self.primary()

    def primary(self):
        if self.i >= len(self.t):
            raise Bad("end")
        kind, v = self.t[self.i]
        self.i += 1
        if kind == "num":
            return v
        if kind == "op" and v == "(":
            x = self.expr(0)
            self.take(")")
            return x
        if kind != "name":
            raise Bad("token")
        if self.peek("("):
            return self.func(v)
        if self.peek("["):
            self.i += 1
            ind = [self.index()]
            while self.peek(","):
                self.i += 1
                ind.append(self.index())
            self.take("]")
            return VarType(v, ind)
        return VarType(v, [])

    def index(self):
        parts = [None]
        while True:
            if self.peek(":"):
                self.i += 1
                parts.append(None)
            elif self.peek(",", "]"):
                break
            elif parts[-1] is None:
                parts[-1] = (self.expr(0),)
            else:
                raise Bad("index")
        if len(parts) > 3 or (len(parts) == 1 and parts[0] is None):
            raise Bad("index")
        vals = [p if p is None else p[0] for p in parts]
        return vals[0] if len(vals) == 1 else slice(*vals)

    def func(self, name):
        self.take("(")
        args, kwds = [], OrderedDict()
        if self.peek(")"):
            self.i += 1
            return FuncType(name, [], {})
        if self.peek(","):
            raise Quirk()
        while True:
            if (self.i + 1 < len(self.t) and self.t[self.i][0] == "name" and self.t[self.i + 1] == ("op", "=")):
                k = self.t[self.i][1]
                self.i += 2
                kwds[k] = self.arg()
            elif kwds:
                raise Bad("argument after keywords")
            else:
                args.append(self.arg())
            if not self.peek(","):
                break
            self.i += 1
        self.take(")")
        return FuncType(name, args, kwds)

    def arg(self):
        if self.i < len(self.t) and self.t[self.i][0] == "str":
            self.i += 1
            return self.t[self.i - 1][1]
        return self.expr(0)


def struct(x):
    return isinstance(x, (OpType, FuncType, VarType))


def binary(op, a, b):
    if struct(a) or struct(b):
        return OpType(op, [a, b])
    return {"**": lambda: a ** b, "*": lambda: a * b, "/": lambda: a / b, "+": lambda: a + b, "-": lambda: a - b, "<": lambda: a < b, ">": lambda: a > b,
            "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b}[op]()


def same(ctx, got, want, at="the expression"):
    if struct(want):
        ctx.check(type(got) is type(want), "%s is a %s (%s)" % (at, type(want).__name__, type(got).__name__))
        text(ctx, got.key, want.key, "name or operator of " + at)
        if isinstance(want, VarType):
            seq(ctx, got.ind, want.ind, "index of " + at)
            return
        seq(ctx, got.args, want.args, "argument of " + at)
        if isinstance(want, FuncType):
            gk, wk = list(got.kwds.items()), list(want.kwds.items())
            ctx.check(len(gk) == len(wk), "%d keywords in %s" % (len(wk), at))
            for w, v in wk:
                g = [x for k, x in gk if k == w]
                ctx.check(len(g) == 1, "keyword of %s" % at)
                same(ctx, g[0], v, "keyword of " + at)
    elif want is None:
        ctx.check(got is None, "%s is left out" % at)
    elif isinstance(want, slice):
        ctx.check(isinstance(got, slice), "%s is a slice" % at)
        for k in ("start", "stop", "step"):
            same(ctx, getattr(got, k), getattr(want, k), "%s of %s" % (k, at))
    elif isinstance(want, str):
        ctx.check(isinstance(got, str) and not struct(got), "%s is a string" % at)
        text(ctx, got, want, at)
    else:
        if isinstance(want, complex) or (isinstance(want, float) and want != want):
            return
        ctx.check(not struct(got) and not isinstance(got, (str, slice, type(None))), "%s is a number" % at)
        for t in (bool, int):
            ctx.check(isinstance(got, t) == isinstance(want, t), "kind of number of %s: %s" % (at, got.__class__.__name__))
        ctx.check_eq(got, want, "value of " + at) if not isinstance(want, bool) else ctx.check(bool(got) == bool(want), "value of " + at)


def seq(ctx, got, want, at):
    ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), "number of elements: " + at)
    for k, (g, w) in enumerate(zip(got, want)):
        same(ctx, g, w, "%s #%d" % (at, k))


def text(ctx, got, want, at):
    if type(got) is SymStr or type(want) is SymStr:
        a, b = (got, want) if type(got) is SymStr else (want, got)
        ctx.check(a.equals(b), at)
    else:
        ctx.check(got == want, "%s: %r" % (at, got))


# ------------------------------------------------------------------------------------- harness
def string(ctx, template, sets):
    """template: characters; {} marks a free character, whose set (string of characters, or None for any printable) comes from sets"""
    out, k = [], 0
    parts = template.split("@")
    for n, p in enumerate(parts):
        out.extend(p)
        if n < len(parts) - 1:
            st = sets[k]
            c = ctx.int("c%d" % k, 9, 126)
            if st is None:
                ctx.assume((c == 9) | (c >= 32))
            else:
                cond = False
                for ch in st:
                    cond = (c == ord(ch)) | cond if ctx.symbolic else (cond or int(c) == ord(ch))
                ctx.assume(cond)
            out.append(c if ctx.symbolic else chr(int(c)))
            k += 1
    return SymStr(out) if ctx.symbolic else "".join(out)


def hook(ctx):
    """the lexer matches symbolically"""
    if not ctx.symbolic:
        return
    ctx.inject(parsing, "int", symstr.INT)
    ctx.inject(parsing, "float", symstr.FLOAT)
    lx = plylex.lexer
    old = dict(lexre=lx.lexre, lexignore=lx.lexignore, lexliterals=lx.lexliterals)
    if old["lexre"] not in RES:
        RES.append(old["lexre"])
        RES.append([(SymRe(r), f) for r, f in old["lexre"]])
    lx.lexre = RES[RES.index(old["lexre"]) + 1]
    lx.lexignore, lx.lexliterals = list(old["lexignore"]), [c for c in old["lexliterals"]]

    def undo():
        for k, v in old.items():
            setattr(lx, k, v)
    ctx._cleanup.append(undo)


RES = []


def parse(ctx, template, sets):
    s = string(ctx, template, sets)
    hook(ctx)
    try:
        want, werr = Ref(s).whole(), None
    except Quirk:
        return
    except (Bad, ArithmeticError, TypeError) as e:
        want, werr = None, e
    got, err = ctx.call(parse_definition, s)
    if isinstance(werr, ArithmeticError) or isinstance(werr, TypeError):
        ctx.check(err is not None, "a constant that cannot be evaluated is refused")
        return
    ctx.check((err is not None) == (werr is not None), "%s (%s)" % ("refused" if werr else "accepted", type(err).__name__ if err else "no error"))
    if err is None:
        same(ctx, got, want)


OPS = "*/+-<>"
DIG = "0123456789"


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, template, *sets):
        assert template.count("@") == len(sets), name
        out.append((name, parse, dict(template=template, sets=sets)))
    # any printable character in every position of small contexts
    for n, t in enumerate(["@", "x@", "@x", "x@y", "1@2", "@1", "1@", "f(@)", "f(x@y)", "x[@]", "x[1@2]", "'@'", '"a@"', "x@2", "(x@y)", "1.@", "1e@", "x**@", "x@@y",
                           "1@@2", "f(@=@)", "'a@@'", "-@x", "x [ @ ] @ y"]):
        if q and t in ("f(@=@)", "'a@@'"):
            continue
        add("any:%s" % t, t, *[None] * t.count("@"))
    NUM = "05.eE+-"
    for t in (["@@@@", "x@@@@", "1.@@@", "@@@@2"] + ([] if q else ["@@@@@", "x@@@@@"])):
        add("number:%s" % t, t, *[NUM] * t.count("@"))
    add("digits", "@@.@@e1@", *[DIG] * 5)
    add("digits-int", "@@@@", *[DIG] * 4)
    # operators and signs among variables and constants
    for a, b, c, d in (("x", "y", "z", "w"), ("x", "2", "3", "y"), ("x", "f(1)", "2", "z[0]"), ("@", "@", "x", "y"), ("2", "x", "@", "@")):
        for t in (["%s@%s@%s@%s", "(%s@%s)@%s@%s", "%s@(%s@%s)@%s", "%s@%s@-%s@%s", "-%s@%s@(%s@%s)"] if q else
                  ["%s@%s@%s@%s", "(%s@%s)@%s@%s", "%s@(%s@%s)@%s", "%s@%s@(%s@%s)", "(%s@%s@%s)@%s", "%s@(%s@%s@%s)", "((%s@%s)@%s)@%s", "-%s@%s@%s@%s", "%s@-%s@%s@%s",
                   "%s@%s@-%s@%s", "-%s@%s@(%s@%s)", "+%s@%s@-%s@%s"]):
            tt = t % (a, b, c, d)
            sets, k = [], 0
            ops = t.replace("%s", "#")
            # walk the template: free operands are digits, other marks are operators
            marks = []
            it = iter((a, b, c, d))
            for ch in ops:
                if ch == "#":
                    marks += [DIG[1:4]] * next(it).count("@")
                elif ch == "@":
                    marks.append("*+-<" if q else OPS)
            add("ops:%s" % tt, tt, *marks)
    two = ["**", "<=", ">=", "=="]
    for o1 in two:
        for t in ("x%s@@y" % o1, "x@y%sz@w" % o1, "-x%sy@z" % o1, "2@3%sx@y" % o1, "@%s2@x" % o1, "x@2%s@" % o1, "-@%s2@x" % o1, "2%s-@@x" % o1, "-(@%s2)" % o1):
            mk = []
            for i, ch in enumerate(t):
                if ch == "@":
                    mk.append(OPS + "=" if "@@" in t else None)
            if "@@" not in t:
                mk = []
                for i, ch in enumerate(t):
                    if ch == "@":
                        operand = i == 0 or t[i - 1] in "-(" or i == len(t) - 1 or (t[i - 1] == o1[-1])
                        mk.append(DIG[1:4] if operand else OPS)
            elif t.startswith("2"):
                mk = [DIG[1:4], OPS]
            add("two:%s" % t, t, *mk)
        for o2 in two:
            for t in ("x%sy%sz" % (o1, o2), "2%s3%sx" % (o1, o2), "x%s2%s3" % (o1, o2), "-x%s-y%s-z" % (o1, o2), "x%s-y%sz" % (o1, o2), "(x%sy)%sz@w" % (o1, o2), "x@y%sz%sw" % (o1, o2)):
                add("two:%s" % t, t, *[OPS] * t.count("@"))
    # calls, keywords, indices
    for t in ["f(@,@)", "f(x,@@)", "f(@@,k=1)", "f(a,k=@@)", "f(a,b,k=@,l=@)", "f(k=@@,k=2)", "x[@@]", "x[1@@]", "x[@,@]", "x[@:@:@]", "x[1,@@]", "x[:@@:]", "f(g(@@),x[@])", "f('@@',@)",
              "f(x,'a')@@", "x[@@@]", "f(@@@)"]:
        add("call:%s" % t, t, *["x1,:=)]('" if t.count("@") < 3 or not q else "x1,:)"] * t.count("@"))
    for t in [" x@@y ", "f@(x)", "x@[@1@]", "1@.5", "x @ @ y", "@f(@x@,@'a@'@)@" if not q else "f(@x@,'a@')"]:
        add("blank:%s" % t, t, *[" \t*="] * t.count("@"))
    # every digit (zero among them) in every place of a number
    for t in ["x[@:@:@]", "x[@:@]", "x[-@:@]", "f(@,k=@)", "x**@", "@**x", "x*@", "@*x", "x+@", "x-@", "@-x", "x/@", "@/x", "-@", "-(@)*x", "x==@", "x<@", "@**@", "@*@", "@-@", "@/@", "@<@", "f(@,'@',@)"]:
        add("digit:%s" % t, t, *["0123" if t.count("@") > 2 or not q else DIG] * t.count("@"))
    for t in ["'@@@'", '"@@@"', "f('a@@'@)", 'f("@@",\'@\')', "f(@a@)"]:
        add("quote:%s" % t, t, *["\"'\\a"] * t.count("@"))
    return out
