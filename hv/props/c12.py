import numpy as np
from .. import gen, obs
RULE = ("random graphframes with rank, thread or both index levels (regular or ragged, levels in any order, shuffled rows) x aggregation functions x NaN patterns; "
        "oracle = aggregate over each node's own rows; non-trivial = a node has >=2 rows")
REQUIRED = {"drops": 300, "ragged": 60, "multi_rows": 500, "custom_function": 100, "no_levels": 10}

def mean(v):
    v = [x for x in v if x == x]
    return sum(v) / len(v) if v else gen.NAN
FUNCS = [("mean", None, mean), ("mean", np.mean, mean), ("max", np.max, lambda v: max([x for x in v if x == x], default=gen.NAN)),
         ("min", np.min, lambda v: min([x for x in v if x == x], default=gen.NAN)), ("sum", np.sum, lambda v: sum([x for x in v if x == x])),
         ("lambda-max", lambda x: x.max(), lambda v: max([x for x in v if x == x], default=gen.NAN)), ("count", "count", lambda v: float(len([x for x in v if x == x])))]

def case(ctx, rng):
    lv = rng.choice([("rank",), ("thread",), ("rank", "thread"), ("thread", "rank"), ("rank",), ()])
    exc = rng.choice([["time"], ["time", "bytes"]]); inc = rng.choice([["time (inc)"], ["time (inc)", "total"], []])
    m, gf, nodes = gen.gen_gf(rng, levels=lv, exc=exc, inc=inc, nanp=rng.choice([0, 0.3, 0.8]), ragged=rng.random() < 0.4, max_n=rng.choice([3, 8, 14]))
    for c in rng.sample(["tag", "weight"], rng.randint(0, 2)):      # columns that differ between a node's rows
        gf.dataframe[c] = [x if c == "tag" else gen.val(rng, 0.1) for x in range(len(gf.dataframe))]
    if rng.random() < 0.4:
        order = list(range(len(gf.dataframe))); rng.shuffle(order)
        gf.dataframe = gf.dataframe.iloc[order]
    if lv and rng.random() < 0.3:
        perm = ["node"] + list(lv); rng.shuffle(perm)
        if len(perm) > 1:
            gf.dataframe = gf.dataframe.reorder_levels(perm)
    nid = {id(n): i for i, n in enumerate(nodes)}
    names = list(gf.dataframe.index.names); pos = names.index("node")
    src = {}
    cols = list(gf.dataframe.columns)
    for t, vals in zip(gf.dataframe.index.tolist(), gf.dataframe.itertuples(index=False, name=None)):
        n = t[pos] if len(names) > 1 else t
        src.setdefault(nid[id(n)], []).append(dict(zip(cols, vals)))
    g = obs.snap_graph(gf.graph); G = gf.graph
    exc0, inc0, dm, md = list(gf.exc_metrics), list(gf.inc_metrics), gf.default_metric, dict(gf.metadata)
    name, fn, ref = rng.choice(FUNCS)
    held, hs = gf.dataframe, obs.snap_df(gf.dataframe)
    r = gf.drop_index_levels() if fn is None else gf.drop_index_levels(function=fn)
    ctx.hit("drops")
    if fn is not None:
        ctx.hit("custom_function")
    if not lv:
        ctx.hit("no_levels")
    elif len({len(v) for v in src.values()}) > 1:
        ctx.hit("ragged")
    ctx.equal(list(gf.dataframe.index.names), ["node"], "drop-index", "index levels left")
    rows = obs.rows_by(gf, lambda n: nid.get(id(n), "foreign"))
    ctx.equal({k[0] for k in rows}, set(src), "drop-nodes", "nodes with rows")
    for i, rs in src.items():
        got = rows[(i, ())]
        if len(rs) > 1:
            ctx.hit("multi_rows"); ctx.nontrivial(m.shape_sig(), names, name, len(rs))
        for c in exc + inc:
            ctx.equal(got[c], ref([x[c] for x in rs]), "drop-value", "%s of %s at node %d" % (name, c, i), rows=rs)
        for c in cols:
            if c not in exc + inc:
                ctx.equal(got[c], rs[0][c], "drop-first", "column %s keeps the first row's value" % c, rows=rs)
    ctx.equal(sorted(gf.dataframe.columns), sorted(cols), "drop-columns", "columns")
    ctx.expect(gf.graph is G and obs.diff(g, obs.snap_graph(gf.graph)) is None, "drop-graph", "graph changed")
    ctx.equal((gf.exc_metrics, gf.inc_metrics, gf.default_metric, gf.metadata), (exc0, inc0, dm, md), "drop-lists", "metric lists")
    ctx.sample({"levels": names, "function": name, "rows_before": sum(len(v) for v in src.values()), "nodes": len(src)})

SCENARIOS = [("drop", case, 3000, 12000)]
