"""P16: graph traversal."""
from checks.lib import *    # noqa
from pyconform.flownodes import FlowNode, iter_bfs, iter_dfs

PROPERTY = dict(
    id="P16",
    title="Graph traversal visits everything a result depends on exactly once",
    statement="Iterating over a data-flow graph from a node visits that node first and then every node it directly or indirectly "
              "depends on exactly once, each after a node that uses it, however inputs are shared; the breadth-first order never "
              "goes back to a smaller distance. So every dimension that some step combines along is found. "
              "Starting from anything but a node is refused.",
    quantifier=dict(over=["inputs"], text="all acyclic graphs within bounds, with shared and repeated inputs, constant arguments and equal labels"),
    why_tests_cant="Tests walk one small tree; revisits and misses appear only with particular sharing.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/dataflow.py"], mechanism=[
        dict(name="traversal", where="pyconform/flownodes.py: iter_dfs/iter_bfs"),
        dict(name="use", where="pyconform/dataflow.py: DataFlow._find_sumlike_dimensions_")]),
)
META = dict(
    how="Every edge of the graph is a symbolic boolean and the order of inputs is solver-chosen; the traversal runs on each feasible "
        "graph and reachability and distance come from boolean formulas over the edges.",
    bounds=dict(quick="all graphs of 2-5 nodes (edges from earlier to later nodes), either order of inputs, repeated inputs, constants, several nodes of the same label",
                thorough="all graphs of up to 6 nodes"),
    outside="larger graphs",
    assumptions=[],
)


def make(ctx, n, rev, const, distinct=True):
    nodes = [None] * n
    edge = {}
    for i in range(n):
        for j in range(i + 1, n):
            edge[i, j] = bool(ctx.bool("e%d_%d" % (i, j)))
    for i in reversed(range(n)):
        ins = [nodes[j] for j in range(i + 1, n) if edge[i, j]]
        if rev:
            ins = ins[::-1]
        if const == "twice":
            ins = ins + ins
        elif const == "const":
            ins = [1.5] + ins + ["y"]
        nodes[i] = FlowNode("n%d" % (i if distinct else i % 2), *ins)
    return nodes, edge


def walk(ctx, n, how, rev, const, distinct=True):
    nodes, edge = make(ctx, n, rev, const, distinct)
    it = iter_dfs if how == "dfs" else iter_bfs
    got = ctx.run(how, lambda: list(it(nodes[0])))
    dist = {0: 0}
    for i in range(n):              # topological order
        if i in dist:
            for j in range(i + 1, n):
                if edge[i, j]:
                    dist[j] = min(dist.get(j, n), dist[i] + 1)
    seen = [k for g in got for k in range(n) if g is nodes[k]]
    ctx.check(sorted(seen) == sorted(dist), "visits %s, expected each of %s once" % (seen, sorted(dist)))
    ctx.check(seen[0] == 0, "starts at the start")
    for p, k in enumerate(seen[1:], 1):
        ctx.check(any(edge.get((i, k)) for i in seen[:p]), "node %d is visited after one that uses it (%s)" % (k, seen))
    if how == "bfs":
        ds = [dist[k] for k in seen]
        ctx.check(ds == sorted(ds), "breadth first: distances %s" % ds)
    if const == "const":
        ctx.check(sum(1 for g in got if not isinstance(g, FlowNode)) == 2, "constants once each")


def wide(ctx, n, how, as_eval):
    """a node of many inputs, some the same, some with inputs of their own"""
    leaf = [FlowNode("l%d" % k) for k in range(2)]
    ins = []
    for k in range(n):
        ins.append([FlowNode("i%d" % k), FlowNode("j%d" % k, leaf[k % 2]), ins[0] if ins else leaf[0]][ctx.choice("i%d" % k, [0, 1, 2])])
    if as_eval:
        root = EvalNode("root", lambda *a, **k: None, *ins[:n // 2], **{"k%d" % k: ins[k] for k in range(n // 2, n)})
    else:
        root = FlowNode("root", *ins)
    want = [root] + ins + [i for x in ins for i in x.inputs]
    got = ctx.run(how, lambda: list((iter_dfs if how == "dfs" else iter_bfs)(root)))
    ctx.check(len(got) == len(set(map(id, got))) and set(map(id, got)) == set(map(id, want)), "visits %s" % [g.label for g in got])
    ctx.check(got[0] is root, "starts at the start")


def sumlike(ctx, n):
    """a reduction anywhere below an output is found"""
    from pyconform import functions as F
    a = phys(ctx, "a", (2, 2), ("t", "y"), units="m")
    nodes, edge = [DataNode(a)], {}
    red = [bool(ctx.bool("r%d" % k)) for k in range(n)]
    use = []
    for k in range(n):
        s = ctx.choice("s%d" % k, list(range(k + 1)))
        src = nodes[s]
        use.append(s)
        if red[k]:
            nodes.append(EvalNode("max", F.find_function("max"), src, "t"))
        else:
            nodes.append(EvalNode("-", F.find_operator("-", 1), src))
    want = False
    k = n
    while k > 0:
        want = want or red[k - 1]
        k = use[k - 1]
    found = set()
    for nd in iter_dfs(nodes[n]):
        if isinstance(nd, EvalNode):
            found |= nd.sumlike_dimensions
    ctx.check((found == {"t"}) == want and found <= {"t"}, "combined dimensions %s" % found)


def refuse(ctx):
    for it in (iter_dfs, iter_bfs):
        for x in (1, "a", None, [FlowNode("a")]):
            _, err = ctx.call(lambda: list(it(x)))
            ctx.check(isinstance(err, TypeError), "%r refused" % (x,))


def cases(tier):
    out = []
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        for how in ("dfs", "bfs"):
            for rev in (False, True):
                for c in ("", "twice", "const"):
                    if n == 6 and c:
                        continue
                    if tier == "quick" and n == 5 and (c or rev):
                        continue
                    out.append(("%s:%d:%d:%s" % (how, n, rev, c), walk, dict(n=n, how=how, rev=rev, const=c)))
    for n in (3, 4, 5):
        for how in ("dfs", "bfs"):
            for rev in (False, True):
                if n < 5 or not rev or tier != "quick":
                    out.append(("labels:%s:%d:%d" % (how, n, rev), walk, dict(n=n, how=how, rev=rev, const="", distinct=False)))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(("sumlike:%d" % n, sumlike, dict(n=n)))
    for how in ("dfs", "bfs"):
        for e in (False, True):
            out.append(("wide:%s:%d" % (how, e), wide, dict(n=6 if tier == "quick" else 7, how=how, as_eval=e)))
    out.append(("refuse", refuse, {}))
    return out
