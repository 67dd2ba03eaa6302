import math
from .. import gen, obs
from ..core import Skip
RULE = ("random trees, forests and DAGs x index layouts (none, rank, thread, rank+thread, ragged) x NaN patterns x metric names, through update_inclusive_columns, "
        "subgraph_sum/subtree_sum (in place, new or existing output columns; sum, max, min) and squash; oracle = per-node aggregate over distinct descendants; "
        "non-trivial = some node aggregates >=3 rows")
REQUIRED = {"permuted": 20, "values": 5000, "shared_nodes": 60, "multi_index": 150, "ragged": 40, "all_nan": 20, "in_place": 50, "max_min": 50, "via_squash": 40, "via_lists": 20}

def agg(vs, how="sum"):
    vs = [v for v in vs if v == v]
    if not vs:
        return gen.NAN
    return {"sum": sum, "max": max, "min": min}[how](vs)

def model(rng):
    kind = rng.choice(["tree", "tree", "forest", "dag", "dag", "dagforest"])
    m = gen.gen_graph(rng, kind=kind, unique=True, max_n=rng.choice([1, 4, 8, 12]))
    exc = rng.choice([["time"], ["time", "bytes"], ["time (exc)"], ["a (exc)", "b"], ["x", "y", "z"], ["misc(exc)", "(exc) b"], ["exec (exc)", "cache  (exc)"], ["index(exc)"]])
    inc = rng.choice([[], ["time (inc)"], ["time"] if "time" not in exc else ["total"], ["total"]])
    gen.gen_rows(rng, m, exc=exc, inc=inc, nanp=rng.choice([0, 0.2, 0.8]), ragged=rng.random() < 0.35)
    return m

def inc_name(e):
    return e[:-len("(exc)")].strip() if e.endswith("(exc)") else e + " (inc)"

def note(ctx, m, i, js, vals):
    if len(js) > 2:
        ctx.nontrivial(m.shape_sig(), m.levels, i)
    if vals and all(v != v for v in vals):
        ctx.hit("all_nan")

def check(ctx, m, nodes, gf, src, dst, how="sum", multiply=False, label=""):
    """dst column of every row of gf = aggregate of the model's src column."""
    nid = {id(n): i for i, n in enumerate(nodes)}
    rows = obs.rows_by(gf, lambda n: nid.get(id(n), "foreign"))
    ctx.equal(set(rows), set(m.rows), "inc-rows", "rows changed by " + label)
    shared = any(len(p) > 1 for p in m.parents())
    if shared:
        ctx.hit("shared_nodes")
    if m.levels:
        ctx.hit("multi_index")
        if len({c for _, c in m.rows}) * len(nodes) != len(m.rows):
            ctx.hit("ragged")
    for (i, c), r in rows.items():
        js = set(m.desc(i)) | {i}
        vals = [m.rows[(j, c)][src] for j in js if (j, c) in m.rows]
        note(ctx, m, i, js, vals)
        ctx.hit("values")
        ctx.equal(r[dst], agg(vals, how), "inc-value", "%s: %s of %s over the %d nodes below %d at %s" % (label, how, src, len(js), i, c),
                  shape=m.shape_sig(), values=vals, levels=m.levels)
    return rows

def others_unchanged(ctx, m, rows, written, label):
    for k, r in rows.items():
        for col in m.columns:
            if col not in written:
                ctx.equal(r[col], m.rows[k][col], "inc-other-column", "%s changed column %s" % (label, col))

def update(ctx, rng):
    m = model(rng)
    gf, nodes = gen.build(m)
    g0 = obs.snap_graph(gf.graph)
    gf.update_inclusive_columns()
    for e in m.exc:
        rows = check(ctx, m, nodes, gf, e, inc_name(e), label="update_inclusive_columns")
    others_unchanged(ctx, m, rows, {inc_name(e) for e in m.exc}, "update_inclusive_columns")
    ctx.equal(sorted(gf.inc_metrics), sorted(set(m.inc) | {inc_name(e) for e in m.exc}), "inc-lists", "inclusive metric list")
    ctx.equal(list(gf.exc_metrics), list(m.exc), "inc-lists", "exclusive metric list")
    ctx.expect(obs.diff(g0, obs.snap_graph(gf.graph)) is None, "inc-graph", "graph changed by update_inclusive_columns")
    b = obs.snap_df(gf.dataframe)
    gf.update_inclusive_columns()
    d = obs.diff(b, obs.snap_df(gf.dataframe))
    ctx.expect(d is None, "inc-repeat", "a second update changes the frame: %s" % d)
    ctx.sample({"shape": m.shape_sig(), "levels": m.levels, "exc": m.exc, "rows": len(m.rows)})

def none(ctx, rng):
    """Without exclusive metrics nothing is recomputed."""
    m = model(rng)
    gf, nodes = gen.build(m)
    gf.exc_metrics = []
    b = obs.snap(gf)
    gf.update_inclusive_columns()
    obs.expect_unchanged(ctx, b, gf, "inc-no-exc", "update without exclusive metrics")

def sums(ctx, rng):
    m = model(rng)
    gf, nodes = gen.build(m)
    cols = rng.sample(m.exc + m.inc, rng.randint(1, len(m.exc + m.inc)))
    how = rng.choice(["sum", "sum", "max", "min"])
    tree = len(m.roots) == 1 and all(len(p) <= 1 for p in m.parents())
    treeish = all(len(p) <= 1 for p in m.parents())
    fn = gf.subtree_sum if treeish and rng.random() < 0.5 else gf.subgraph_sum
    kw = {}
    if how != "sum":
        ctx.hit("max_min")
        kw["function"] = {"max": lambda x: x.max(), "min": lambda x: x.min()}[how]
    style = rng.choice(["in place", "new", "existing", "permuted"])
    if style == "in place":
        dst = cols; ctx.hit("in_place")
        if rng.random() < 0.5:
            kw["out_columns"] = cols
    elif style == "permuted":               # output columns that are input columns of others
        dst = rng.sample(cols, len(cols)); kw["out_columns"] = dst
        ctx.hit("permuted", dst != cols)
    elif style == "new":
        dst = ["out %s" % c for c in cols]; kw["out_columns"] = dst
    else:
        free = [c for c in m.exc + m.inc if c not in cols]
        if len(free) < len(cols):
            free = ["out %s" % c for c in cols]
        dst = free[:len(cols)]; kw["out_columns"] = dst
    label = "%s %s (%s)" % (fn.__name__, how, style)
    fn(cols, **kw)
    for s, d in zip(cols, dst):
        rows = check(ctx, m, nodes, gf, s, d, how, label=label)
    others_unchanged(ctx, m, rows, set(dst), label)

def squashed(ctx, rng):
    """Inclusive metrics after a squash: sums over the squashed graph's own structure."""
    m = model(rng)
    if any(len(p) > 1 for p in m.parents()):    # merging repeated frames of a DAG may close a cycle: distinct frames only
        for i, f in enumerate(m.frames):
            f["name"] = "n%d" % i
        for (i, c), r in m.rows.items():
            r["name"] = "n%d" % i
    gf, nodes = gen.build(m)
    nid = {id(n): i for i, n in enumerate(nodes)}
    keep = {i for i in range(len(nodes)) if rng.random() < 0.6} or {0}
    f = gf.filter(lambda r: nid[id(r["node"])] in keep, num_procs=1)
    ctx.hit("via_squash")
    new = obs.nodes_of(f.graph)
    ids = {id(n): n for n in new}
    def below(n):
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if id(x) not in seen:
                seen.add(id(x)); st.extend(x.children)
        return seen
    rows = obs.rows_by(f, lambda n: id(n))
    for (k, c), r in rows.items():
        js = below(ids[k])
        for e in m.exc:
            vals = [rows[(j, c)][e] for j in js if (j, c) in rows]
            ctx.hit("values")
            ctx.equal(r[inc_name(e)], agg(vals), "inc-squash", "%s after squash, over %d nodes at %s" % (inc_name(e), len(js), c), values=vals)
            if len(js) > 2:
                ctx.nontrivial("sq", m.shape_sig(), sorted(keep))

def lists(ctx, rng):
    """from_lists: unit exclusive time, inclusive = number of distinct nodes below."""
    import hatchet as ht
    from hatchet.node import Node
    names = rng.sample(gen.NAMES, 8)
    shared = None
    def lst(d):
        out = [names[d]]
        kids = rng.sample(names[d + 1:], min(len(names) - d - 1, rng.randint(0, 2)))
        for k in kids:
            out.append(lst(names.index(k)))
        return out
    ls = [lst(0)] + ([lst(1)] if rng.random() < 0.4 else [])
    gf = ht.GraphFrame.from_lists(*ls)
    ctx.hit("via_lists")
    def count(l):
        return 1 + sum(count(x) for x in l[1:])
    def walk(l, n):
        ctx.equal(gf.dataframe.loc[n, "time (inc)"], float(count(l)), "inc-lists", "inclusive time of %s" % l[0])
        for x, c in zip(l[1:], n.children):
            walk(x, c)
    for l in ls:
        walk(l, [r for r in gf.graph.roots if r.frame["name"] == l[0]][0])

SCENARIOS = [("update", update, 800, 6000), ("sums", sums, 800, 6000), ("squashed", squashed, 300, 3000), ("lists", lists, 80, 400), ("none", none, 20, 50)]
