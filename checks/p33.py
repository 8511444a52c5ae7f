"""vardeps."""
import contextlib
import io
import json

from checks.lib import *    # noqa

PROPERTY = dict(
    id="P33",
    title="vardeps lists exactly the input variables that definitions need",
    statement="For each output variable asked for (or every one), in alphabetical order, vardeps prints (after frequency and realm, if the file gives a frequency) the names of exactly the variables its definition uses, wherever they stand: operands of operators, arguments, "
              "keyword arguments, indexed or nested; then the union of these names. It reads definitions files (name = definition per line, also where the definition has equals signs, # starting a comment) and standardization "
              "files, whatever attributes the variables have; variables given by data or by numbers only have no dependencies, and names without a definition are reported as such, without an error.",
    quantifier=dict(over=["inputs", "configurations"], text="all definitions built from the templates with any variable, number or string in each place, both file kinds, all lists of variables asked for"),
    why_tests_cant="No test runs vardeps.",
    anchors=dict(files=["pyconform/cli/vardeps.py"], mechanism=[
        dict(name="search", where="pyconform/cli/vardeps.py: variable_search"),
        dict(name="files and report", where="pyconform/cli/vardeps.py: main, print_columnar")]),
)
META = dict(
    how="What stands in each place of a definition, which definitions a file has, its attributes and which are asked for are solver variables; the printed report is compared with the names put in.",
    bounds=dict(quick="13 templates of up to 4 places with 6 contents, files of up to 4 definitions", thorough="up to 5 contents more"),
    outside="definitions that cannot be parsed, layout of the report in columns",
    assumptions=[],
)
VARS = ["a", "b", "T_1", "e", "a2"]
LEAVES = VARS[:4] + ["2", "1.5e-3", "a[0]", "b[1:2,0]"]
NAMES_OF = {"a[0]": "a", "b[1:2,0]": "b", "c[0]": "c"}
TEMPLATES = ["{}", "-{}", "{} * -{}", "{} + {}", "({} - {}) * {}", "f({})", "f({}, {})", "f({}, k={})", "f(k={}, m={})", "f(g({}), k=h({}, n={}))", "{} ** 2 / {} == {}", 'chunits({}, units="days since {}")',
             "mean({}, 'x') + f(-{}, -{})", "f(x={} - {}) > g({})"]


def leaf_names(leaf):
    if leaf in VARS or leaf == "c":
        return {leaf}
    return {NAMES_OF[leaf]} if leaf in NAMES_OF else set()


def run(ctx, argv):
    from pyconform.cli import vardeps
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            vardeps.main(argv)
    ctx.run("vardeps " + " ".join(argv[1:]), go)
    return out.getvalue()


def report(text):
    """[(name, names or 'none' or 'undefined')], names of the summary"""
    lines = text.split("\n")
    ctx_lines, total, where = [], [], None
    for ln in lines:
        if ln.startswith("Output Variable Dependencies"):
            where = ctx_lines
        elif ln.startswith("Complete Specification"):
            where = total
        elif ln.strip() and where is ctx_lines:
            if ":" not in ln:     # a further row of names
                where[-1][1].update(ln.split())
                continue
            head, _, tail = ln.partition(":")
            name = head.split()[0]
            rest = ln[ln.rindex(":") + 1:] if "[" in head else tail
            s = rest.strip()
            where.append([name, set() if s.startswith("No dep") else None if s.startswith("Not defined") else set(s.split())])
        elif ln.strip() and where is total:
            total.extend(ln.split())
    return ctx_lines, set(total)


def expect(ctx, text, want):
    got, total = report(text)
    ctx.check([n for n, _ in got] == sorted(n for n in want), "variables reported: %s" % [n for n, _ in got])
    for n, deps in got:
        ctx.check(deps == want[n], "%s needs %s, reported %s" % (n, want[n] if want[n] is None else sorted(want[n]), deps if deps is None else sorted(deps)))
    everything = set().union(*[d for d in want.values() if d])
    ctx.check(total == everything, "input variables %s, expected %s" % (sorted(total), sorted(everything)))


def write(ctx, defs, kind, attrs=None):
    p = path(ctx, "defs")
    remark = ctx.choice("remark", ["", "   # in K", "# y = K", " #", "# m # of y = K"]) if kind == "def" else ""
    with open(p, "w") as f:
        if kind == "def":
            f.write("# definitions\n\n")
            for k, (n, d) in enumerate(defs):
                f.write("%s%s%s%s\n" % (n, (" = ", "=", "  =  ")[k % 3], d, remark))
        else:
            json.dump(OrderedDict((n, dict({"definition": d, "dimensions": []}, **({"attributes": attrs[k]} if attrs else {}))) for k, (n, d) in enumerate(defs)), f)
    return ["-d", "-n", p] if kind == "def" else ["-n", p]


def template(ctx, t, kind, leaves):
    n = t.count("{}")
    vals = [ctx.choice("v%d" % k, leaves) for k in range(n)]
    if t.startswith("chunits"):
        vals[1] = "2000-01-01"
    want = set().union(*[leaf_names(v) for v in vals])
    argv = write(ctx, [("out", t.format(*vals))], kind)
    expect(ctx, run(ctx, argv), {"out": want})


def files(ctx, kind, asked):
    """several definitions; some absent, with or without attributes"""
    pool = [("zz", "a + b", {"a", "b"}), ("aa", "up(T_1)", {"T_1"}), ("Mid", "2 * 3", set()), ("b", 'chunits(b, units="m")', {"b"})]
    here = [k for k in range(len(pool)) if bool(ctx.bool("has%d" % k))]
    if not here and asked is None:
        return
    attrs = None
    if kind == "json":
        at = ctx.choice("attributes", [{}, {"frequency": "mon", "realm": "atmos"}, {"frequency": "mon"}, {"realm": "ocean"}])
        attrs = [at for _ in here]
    argv = write(ctx, [pool[k][:2] for k in here], kind, attrs)
    names = {pool[k][0]: pool[k][2] for k in here}
    if asked is not None:
        argv += asked
        names = {n: names.get(n) for n in asked}
    text = run(ctx, argv)
    expect(ctx, text, names)
    at = (attrs or [{}])[0]
    for n, deps in names.items():
        if deps:
            heads = [ln.split(":")[0].split(None, 1) for ln in text.split("\n") if ":" in ln and ln.split(":")[0].split()[:1] == [n]]
            ctx.check(["".join(h[1:]) for h in heads] == (["[%s,%s]" % (at["frequency"], at.get("realm", ""))] if "frequency" in at else [""]), "%s is listed as %s" % (n, heads))


def given(ctx):
    """variables given by data"""
    p = path(ctx, "std.json")
    with open(p, "w") as f:
        json.dump(OrderedDict(x={"definition": [1.0, 2.0]}, y={"definition": "a - 1"}, z={"attributes": {"units": "m"}}), f)
    got, total = report(run(ctx, ["-n", p]))
    ctx.check([n for n, _ in got if n != "x" and n != "z"] == ["y"] and total == {"a"}, "report %s %s" % (got, total))
    for n, d in got:
        ctx.check(d == {"a"} if n == "y" else not d, "%s: %s" % (n, d))


def cases(tier):
    q = tier == "quick"
    out = []
    for t in TEMPLATES:
        n = t.count("{}")
        for kind in ("def", "json"):
            leaves = LEAVES if n < 3 else LEAVES[:2] + ["2", "b[1:2,0]"] if n < 4 else ["a", "e", "2"]
            if not q:
                leaves = LEAVES + ["c[0]", "c", "7"] if n < 3 else LEAVES
            out.append(("template:%s:%s" % (kind, t), template, dict(t=t, kind=kind, leaves=leaves)))
    for kind in ("def", "json"):
        for asked in (None, ["zz"], ["b", "aa"], ["nosuch"], ["zz", "nosuch", "Mid"], ["Mid"]):
            out.append(("files:%s:%s" % (kind, asked), files, dict(kind=kind, asked=asked)))
    out.append(("given", given, {}))
    return out
