import numpy as np
from .. import gen, obs
from .c14 import pair, merge_pair, merged, twins
from ..core import same
RULE = ("random pairs of graphframes (identical, edited twin, overlapping, disjoint, subset, superset; trees, forests, equal DAGs; single and multi-index, ragged) unified; "
        "oracle = set difference of call paths; non-trivial = paths missing on at least one side")
REQUIRED = {"unifies": 600, "none_missing": 40, "only_left": 300, "only_right": 300, "both_sides": 80, "multi_index": 150, "stale_marks": 200, "rows_dropped": 250, "empty_frame": 50, "merged_rows": 30}

def case(ctx, rng):
    style, a, b = pair(rng)
    if rng.random() < 0.2:                     # a user dropped the rows of some or all nodes
        for m in rng.choice([(a,), (b,), (a, b)]):
            gone = {i for i in range(len(m.frames)) if rng.random() < rng.choice([0.3, 1])}
            m.rows = {k: v for k, v in m.rows.items() if k[0] not in gone}
            ctx.hit("rows_dropped", len(gone)); ctx.hit("empty_frame", not m.rows)
    g1, n1 = gen.build(a)
    g2, n2 = gen.build(b)
    for g in (g1, g2):                         # marks of an earlier operation
        if rng.random() < 0.25:
            g.dataframe["_missing_node"] = np.array([rng.choice([0, 1, 2]) for _ in range(len(g.dataframe))], dtype=rng.choice([np.short, np.int64, float]))
            ctx.hit("stale_marks")
    stale = g2.dataframe["_missing_node"].tolist() if "_missing_node" in g2.dataframe.columns else None
    ra, rb = obs.model_rows_by_path(a), obs.model_rows_by_path(b)
    sg1, sg2, og1, og2 = obs.snap_graph(g1.graph), obs.snap_graph(g2.graph), g1.graph, g2.graph
    r = g1.unify(g2)
    ctx.hit("unifies")
    ctx.expect(g1.graph is g2.graph, "unify-graph", "the two frames are not on one graph")
    ctx.expect(obs.diff(sg1, obs.snap_graph(og1)) is None and obs.diff(sg2, obs.snap_graph(og2)) is None, "unify-mutates-graph", "an old graph was changed")
    ctx.equal(obs.all_paths(g1.graph), {p for m in (a, b) for v in m.paths().values() for p in v}, "unify-paths", "call paths of the union graph")
    obs.check_graph(ctx, g1.graph, "union")
    mets = a.exc + a.inc
    pa, pb = {k[0] for k in ra}, {k[0] for k in rb}
    # second frame: same rows, re-indexed
    rows2 = obs.rows_by_path(g2)
    ctx.equal(sorted(g2.dataframe["_missing_node"].tolist()) if "_missing_node" in g2.dataframe.columns else None, stale and sorted(stale) if stale is not None else None, "marks-other", "marks of the second frame")
    for v in rows2.values():
        v.pop("_missing_node", None)
    ctx.equal(rows2, {k: {c: v[c] for c in b.columns} for k, v in rb.items()}, "unify-other-rows", "rows of the second frame (%s)" % style)
    # first frame: own rows unaltered, plus a row without metrics for each missing one
    rows1 = obs.rows_by_path(g1)
    add = {k for k in rb if k[0] not in pa}
    ctx.equal(set(rows1), set(ra) | add, "unify-self-rows", "row keys of the first frame (%s)" % style)
    for k, v in ra.items():
        for c in a.columns:
            ctx.equal(rows1[k][c], v[c], "unify-self-value", "%s of an own row (%s)" % (c, style))
    for k in add:
        for c in mets:
            ctx.equal(rows1[k][c], gen.NAN, "unify-added-metric", "metric %s of an added row" % c)
        for c in b.columns:
            if c not in mets:
                ctx.equal(rows1[k][c], rb[k][c], "unify-added-value", "column %s of an added row" % c)
    # marks
    if pa == pb:
        ctx.hit("none_missing")
        ctx.expect("_missing_node" not in g1.dataframe.columns, "marks-none", "marks although no call path differs (%s)" % style)
    else:
        ctx.nontrivial(a.shape_sig(), b.shape_sig(), a.levels)
        ctx.expect("_missing_node" in g1.dataframe.columns, "marks-absent", "no marks although call paths differ (%s)" % style)
        if pa - pb and pb - pa:
            ctx.hit("both_sides")
        for k, row in rows1.items():
            w = 0 if (k[0] in pa and k[0] in pb) else (1 if k[0] in pa else 2)
            ctx.hit("only_left", w == 1); ctx.hit("only_right", w == 2)
            ctx.equal(row["_missing_node"], w, "marks-value", "mark of %s %s (%s)" % (sorted(k[0])[:1], k[1], style))
    for g, m in ((g1, a), (g2, b)):
        ctx.equal((g.exc_metrics, g.inc_metrics, g.default_metric, g.metadata), (m.exc, m.inc, m.default_metric, m.metadata), "unify-lists", "metric lists")
        ctx.equal(list(g.dataframe.index.names), ["node"] + list(m.levels), "unify-index", "index levels")
    if a.levels:
        ctx.hit("multi_index")
    # unifying again is a no-op: both are on the same graph
    s = obs.snap(g1)
    g1.unify(g2)
    obs.expect_unchanged(ctx, s, g1, "unify-again", "second unify")
    # the marked frame selects rows: missing rows really are the other's
    ctx.sample({"style": style, "levels": a.levels, "common": len(pa & pb), "only_left": len(pa - pb), "only_right": len(pb - pa)})

def merging(ctx, rng):
    """Several nodes of one frame become one node of the union: one row, metrics summed up."""
    a, b = merge_pair(rng)
    g1, n1 = gen.build(a); g2, n2 = gen.build(b)
    mets = a.exc + a.inc
    mp = {}
    u = g1.graph.union(g2.graph, mp)
    un = list(u.traverse())
    if twins(u):
        ctx.hit("twins")
        return
    ra, ka = merged(a.rows, mp, n1, mets); rb, kb = merged(b.rows, mp, n2, mets)
    g1.unify(g2)
    ctx.hit("unifies"); ctx.hit("merged_rows", ka + kb)
    ctx.expect(g1.graph is g2.graph, "unify-graph", "the two frames are not on one graph")
    ctx.equal(obs.canon(g1.graph), obs.canon(u), "unify-paths", "union graph")
    at = {id(x): id(y) for x, y in zip(g1.graph.traverse(), un)}
    pa, pb = {k[0] for k in ra}, {k[0] for k in rb}
    add = {k for k in rb if k[0] not in pa}
    for g, w, m, extra in ((g1, ra, a, add), (g2, rb, b, set())):
        rows = obs.rows_by(g, lambda n: at.get(id(n)))
        ctx.equal(set(rows), set(w) | extra, "unify-merged-rows", "row keys after nodes have been merged")
        for k, r in w.items():
            for c in mets + ["name"]:
                x, y = rows[k][c], r[c]
                ctx.expect(same(x, y) or c in mets and abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)), "unify-merged-value", "%s is %r, not %r" % (c, x, y))
        ctx.equal((g.exc_metrics, g.inc_metrics, list(g.dataframe.index.names)), (m.exc, m.inc, ["node"] + list(m.levels)), "unify-lists", "metric lists and index")
    rows = obs.rows_by(g1, lambda n: at.get(id(n)))
    for k in add:
        for c in mets:
            ctx.equal(rows[k][c], gen.NAN, "unify-added-metric", "metric %s of an added row" % c)
    ctx.equal("_missing_node" in g1.dataframe.columns, pa != pb, "marks-none", "marks iff some node is missing on a side")
    if pa != pb:
        for k, row in rows.items():
            ctx.equal(row["_missing_node"], 0 if (k[0] in pa and k[0] in pb) else (1 if k[0] in pa else 2), "marks-value", "mark after merging")
    if ka + kb:
        ctx.nontrivial("merge", a.shape_sig(), b.shape_sig(), a.levels)

SCENARIOS = [("unify", case, 4500, 15000), ("merging", merging, 2000, 6000)]
