import math, operator
import numpy as np
from .. import gen, obs
from ..core import same
from .c05 import variant
RULE = ("random pairs of graphframes (identical, copied, edited twin, overlapping, disjoint, subset; trees, forests, equal DAGs) x index layouts (equal level names, possibly different ranks) "
        "x +,-,*,/ as method, operator and in-place form x NaN, zero; oracle = per-call-path ledger arithmetic; non-trivial = common and differing call paths")
REQUIRED = {"ops": 600, "common_rows": 2000, "self_only": 500, "other_only": 500, "multi_index": 150, "inplace": 150, "same_graph": 40, "div_by_zero": 40, "nan_operands": 200, "dag": 40, "merged_rows": 30, "lists_differ": 60}

def pair(rng, levels=None, columns_differ=False):
    """Two models with the same metric columns and index levels, sibling frames distinct."""
    style = rng.choice(["identical", "twin", "twin", "twin", "overlap", "overlap", "disjoint", "subset", "superset", "dag"])
    names = rng.sample(gen.NAMES, rng.choice([3, 5, 8]))
    kind = rng.choice(["tree", "tree", "forest"])
    if style == "dag":
        a = gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest"]), max_n=rng.choice([4, 8]), max_paths=60)
        for i, f in enumerate(a.frames):
            f["name"] = "n%d" % i
    else:
        a = gen.gen_graph(rng, kind=kind, unique=True, names=names, max_n=rng.choice([3, 7, 14]))
    if style in ("identical", "dag"):
        b = copy_graph(a)
        for x in b.children:
            rng.shuffle(x)
        rng.shuffle(b.roots)
    elif style == "twin":
        b = variant(a, rng)
    elif style in ("subset", "superset"):
        b = prune(a, rng)
        if style == "superset":
            a, b = b, a
    elif style == "disjoint":
        b = gen.gen_graph(rng, kind=kind, unique=True, names=["Q" + n for n in names], max_n=8)
    else:
        b = gen.gen_graph(rng, kind=kind, unique=True, names=names, max_n=rng.choice([3, 7, 14]))
        b.frames[b.roots[0]] = dict(a.frames[a.roots[0]])
        ks = [b.key(r) for r in b.roots]
        if len(set(ks)) < len(ks):
            b = copy_graph(a)
    levels = levels if levels is not None else rng.choice([(), (), ("rank",), ("rank", "thread")])
    exc = rng.choice([["time"], ["time", "bytes"]]); inc = rng.choice([["time (inc)"], []])
    nanp = rng.choice([0, 0.15, 0.5])
    for m in (a, b):
        gen.gen_rows(rng, m, levels=levels, exc=exc, inc=inc, nanp=nanp, ragged=rng.random() < 0.2)
    return style, a, b

def copy_graph(a):
    m = gen.Model()
    m.frames = [dict(f) for f in a.frames]; m.children = [list(c) for c in a.children]; m.roots = list(a.roots)
    return m

def prune(a, rng):
    """Some subtrees removed."""
    par = a.parents()
    dead = set()
    for i in range(len(a.frames)):
        if par[i] and (par[i][0] in dead or rng.random() < 0.25):
            dead.add(i)
    live = [i for i in range(len(a.frames)) if i not in dead]
    mp = {x: k for k, x in enumerate(live)}
    m = gen.Model()
    m.frames = [dict(a.frames[x]) for x in live]
    m.children = [[mp[c] for c in a.children[x] if c in mp] for x in live]
    m.roots = [mp[r] for r in a.roots]
    return m

OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
       "div": lambda x, y: float(np.float64(x) / np.float64(y))}

def expected(a, b, op, mets):
    """Row ledger {(path set, idx): {col: value}} of a op b."""
    ra, rb = obs.model_rows_by_path(a), obs.model_rows_by_path(b)
    pa = {k[0] for k in ra}
    out = {}
    for k, r in ra.items():
        row = dict(r)
        if k in rb:
            for c in mets:
                with np.errstate(all="ignore"):
                    v = OPS[op](r[c], rb[k][c])
                if v == v:              # an undefined result leaves the left value
                    row[c] = v
        out[k] = row
    for k, r in rb.items():
        if k[0] not in pa:
            row = dict(r)
            for c in mets:
                row[c] = gen.NAN
            out[k] = row
    return out, ra, rb

def apply(rng, op, form, g1, g2):
    if form == "method":
        return getattr(g1, op)(g2)
    if form == "operator":
        return {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}[op](g1, g2)
    return {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "div": operator.itruediv}[op](g1, g2)

def check_rows(ctx, res, want, cols, what):
    rows = obs.rows_by_path(res)
    ctx.equal(set(rows), set(want), "arith-rows", what + ": rows of the result")
    for k, w in want.items():
        for c in cols:
            ctx.equal(rows[k].get(c, gen.NAN), w.get(c, gen.NAN), "arith-value", "%s: %s at %s %s" % (what, c, sorted(k[0])[:1], k[1]))
    return rows

def case(ctx, rng):
    style, a, b = pair(rng)
    g1, n1 = gen.build(a)
    g2, n2 = gen.build(b)
    op = rng.choice(list(OPS)); form = rng.choice(["method", "operator", "inplace"])
    mets = a.exc + a.inc
    if len(mets) > 1 and rng.random() < 0.3:             # a metric only one operand lists as such, both have the column
        g = rng.choice([g1, g2])
        drop = rng.choice(mets)
        g.exc_metrics = [x for x in g.exc_metrics if x != drop]
        g.inc_metrics = [x for x in g.inc_metrics if x != drop]
        ctx.hit("lists_differ")
    lists = (sorted(g1.exc_metrics), sorted(g1.inc_metrics))
    want, ra, rb = expected(a, b, op, mets)
    s1, s2 = obs.snap(g1), obs.snap(g2)
    what = "%s %s (%s)" % (op, form, style)
    res = apply(rng, op, form, g1, g2)
    ctx.hit("ops")
    if form == "inplace":
        ctx.hit("inplace")
        ctx.expect(res is g1, "arith-inplace", what + ": in-place form returned another object")
        obs.expect_unchanged(ctx, s2, g2, "arith-mutates-other", what)
    else:
        ctx.expect(res is not g1 and res is not g2, "arith-new", what + ": returned an operand")
        obs.expect_unchanged(ctx, s1, g1, "arith-mutates-self", what)
        obs.expect_unchanged(ctx, s2, g2, "arith-mutates-other", what)
    ctx.equal(obs.all_paths(res.graph), {p for k in list(ra) + list(rb) for p in k[0]}, "arith-graph", what + ": call paths of the result")
    obs.check_graph(ctx, res.graph, "result")
    ctx.equal(list(res.dataframe.index.names), ["node"] + list(a.levels), "arith-index", what + ": index levels")
    check_rows(ctx, res, want, sorted(set(a.columns) | set(b.columns)), what)
    ctx.equal((sorted(res.exc_metrics), sorted(res.inc_metrics)), lists, "arith-lists", what)
    ctx.equal((res.default_metric, res.metadata), (a.default_metric, a.metadata), "arith-metadata", what)
    both = set(ra) & set(rb)
    pa, pb = {k[0] for k in ra}, {k[0] for k in rb}
    ctx.hit("common_rows", len(both)); ctx.hit("self_only", len(pa - pb)); ctx.hit("other_only", len(pb - pa))
    if a.levels:
        ctx.hit("multi_index")
    if style == "dag":
        ctx.hit("dag")
    for k in both:
        for c in mets:
            if op == "div" and rb[k][c] == 0:
                ctx.hit("div_by_zero")
            if ra[k][c] != ra[k][c] or rb[k][c] != rb[k][c]:
                ctx.hit("nan_operands")
    if pa & pb and pa ^ pb:
        ctx.nontrivial(a.shape_sig(), b.shape_sig(), op, form)
    ctx.sample({"op": op, "form": form, "style": style, "levels": a.levels, "common": len(pa & pb), "only_left": len(pa - pb), "only_right": len(pb - pa)})

def shared_graph(ctx, rng):
    """Operands that share one Graph object: the frame itself, shallow copies, unsquashed filters."""
    style, a, b = pair(rng)
    g1, n1 = gen.build(a)
    op = rng.choice(list(OPS)); form = rng.choice(["method", "operator", "inplace"])
    how = rng.choice(["self", "copy", "deepcopy"])
    g2 = {"self": lambda: g1, "copy": g1.copy, "deepcopy": g1.deepcopy}[how]()
    mets = a.exc + a.inc
    want, _, _ = expected(a, a, op, mets)
    s1, s2 = obs.snap(g1), obs.snap(g2)
    what = "%s %s (%s)" % (op, form, how)
    res = apply(rng, op, form, g1, g2)
    ctx.hit("ops"); ctx.hit("same_graph")
    if form != "inplace":
        obs.expect_unchanged(ctx, s1, g1, "arith-mutates-self", what)
    if g2 is not g1:
        obs.expect_unchanged(ctx, s2, g2, "arith-mutates-other", what)
    check_rows(ctx, res, want, a.columns, what)
    ctx.expect("_missing_node" not in res.dataframe.columns, "arith-marks", what + ": missing-node marks between equal graphs")

def merged(rows, mp, nodes, mets):
    """Rows of a model by (union node, idx); rows of nodes that become one are summed up."""
    out = {}
    n = 0
    for (i, idx), r in rows.items():
        k = (id(mp[id(nodes[i])]), idx)
        if k not in out:
            out[k] = dict(r)
            continue
        n += 1
        for c in mets:
            x, y = out[k][c], r[c]
            out[k][c] = y if x != x else x if y != y else x + y
    return out, n

def merge_pair(rng):
    """DAGs whose shared nodes may make several nodes of the other graph become one."""
    from .c05 import dag_pair
    for _ in range(20):
        a, b = dag_pair(rng)
        if rng.random() < 0.6:              # against the same call paths as a tree: every context has its own node
            b = unshare(a)
            if rng.random() < 0.5:
                a, b = b, a
        if len(a.frames) < 40 and len(b.frames) < 40:
            break
    levels = rng.choice([(), (), ("rank",), ("rank", "thread")])
    exc = rng.choice([["time"], ["time", "bytes"]]); inc = rng.choice([["time (inc)"], []])
    nanp = rng.choice([0, 0.15, 0.5]); extra = rng.random() < 0.5
    for m in (a, b):
        gen.gen_rows(rng, m, levels=levels, exc=exc, inc=inc, nanp=nanp, ragged=rng.random() < 0.2, extra=extra)
    return a, b

def unshare(a):
    m = gen.Model()
    def go(i):
        j = len(m.frames)
        m.frames.append(dict(a.frames[i])); m.children.append([])
        for c in a.children[i]:
            k = go(c)
            m.children[j].append(k)
        return j
    m.roots = [go(r) for r in a.roots]
    return m

def twins(g):
    """Does the graph have siblings (or roots) of equal frames?  Their order is arbitrary."""
    return any(len({repr(sorted(c.frame.attrs.items())) for c in cs}) < len(cs) for cs in [g.roots] + [n.children for n in obs.nodes_of(g)])

def merging(ctx, rng):
    """Nodes of one operand become one node in the union; expected rows follow the union's own node map."""
    a, b = merge_pair(rng)
    g1, n1 = gen.build(a); g2, n2 = gen.build(b)
    mets = a.exc + a.inc
    mp = {}
    u = g1.graph.union(g2.graph, mp)
    un = list(u.traverse())
    if twins(u):
        ctx.hit("twins")
        return
    ra, ka = merged(a.rows, mp, n1, mets); rb, kb = merged(b.rows, mp, n2, mets)
    op = rng.choice(list(OPS)); form = rng.choice(["method", "operator", "inplace"])
    s1, s2 = obs.snap(g1), obs.snap(g2)
    what = "%s %s (merging)" % (op, form)
    res = apply(rng, op, form, g1, g2)
    ctx.hit("ops"); ctx.hit("merged_rows", ka + kb)
    if form != "inplace":
        obs.expect_unchanged(ctx, s1, g1, "arith-mutates-self", what)
    obs.expect_unchanged(ctx, s2, g2, "arith-mutates-other", what)
    rn = list(res.graph.traverse())
    ctx.equal([n.frame.attrs for n in rn], [n.frame.attrs for n in un], "arith-graph", what + ": nodes of the result")
    ctx.equal(obs.canon(res.graph), obs.canon(u), "arith-graph", what + ": graph of the result")
    at = {id(x): id(y) for x, y in zip(rn, un)}
    pa = {k[0] for k in ra}
    want = {k: dict(r) for k, r in ra.items()}
    for k, r in want.items():
        if k in rb:
            for c in mets:
                with np.errstate(all="ignore"):
                    v = OPS[op](r[c], rb[k][c])
                if v == v:
                    r[c] = v
    for k, r in rb.items():
        if k[0] not in pa:
            want[k] = dict(r, **{c: gen.NAN for c in mets})
    rows = obs.rows_by(res, lambda n: at.get(id(n)))
    ctx.equal(set(rows), set(want), "arith-rows", what + ": rows of the result")
    for k, w in want.items():
        for c in mets:
            x, y = rows[k][c], w[c]
            ctx.expect(same(x, y) or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)), "arith-value", "%s: %s is %r, not %r" % (what, c, x, y))
    if ka + kb:
        ctx.nontrivial("merge", a.shape_sig(), b.shape_sig(), op, form)

def chain(ctx, rng):
    """(g1 op g2) op g3 where the operands have the same call paths or not: ledger composed."""
    style, a, b = pair(rng, levels=())
    c = copy_graph(a)
    gen.gen_rows(rng, c, levels=(), exc=a.exc, inc=a.inc, nanp=0.1)
    g = [gen.build(x)[0] for x in (a, b, c)]
    mets = a.exc + a.inc
    o1, o2 = rng.choice(list(OPS)), rng.choice(list(OPS))
    want, ra, rb = expected(a, b, o1, mets)
    rc = obs.model_rows_by_path(c)
    for k, r in want.items():
        if k in rc:
            for m in mets:
                with np.errstate(all="ignore"):
                    v = OPS[o2](r[m], rc[k][m])
                if v == v:
                    r[m] = v
    for k, r in rc.items():
        if k not in want:
            want[k] = dict(r, **{m: gen.NAN for m in mets})
    res = apply(rng, o2, "method", apply(rng, o1, rng.choice(["method", "inplace"]), g[0], g[1]), g[2])
    ctx.hit("ops", 2)
    check_rows(ctx, res, want, mets + ["name"], "(%s) %s" % (o1, o2))

SCENARIOS = [("pairs", case, 2700, 15000), ("shared_graph", shared_graph, 360, 2000), ("chain", chain, 450, 3000), ("merging", merging, 1200, 6000)]
