from .. import gen, obs
RULE = "random graphframes (all shapes, single/multi-index, ragged, NaN) x random row predicates (metric thresholds, names, index levels, node properties, constants) in 1-3 worker processes; non-trivial = predicate keeps some but not all rows"
REQUIRED = {"filters": 400, "partial": 200, "empty": 30, "multi_index": 100, "parallel": 30}

def gen_pred(rng, m):
    """(description, predicate on a real row, predicate on (node, idx, model row))"""
    k = rng.randrange(8)
    col = rng.choice(m.exc + m.inc)
    t = rng.randint(-100, 200) * 0.25
    if k == 0:
        return "%s > %g" % (col, t), lambda r: r[col] > t, lambda i, c, r: r[col] > t
    if k == 1:
        return "%s <= %g" % (col, t), lambda r: r[col] <= t, lambda i, c, r: r[col] <= t
    if k == 2:
        names = set(rng.sample(sorted({f["name"] for f in m.frames}), rng.randint(1, len({f["name"] for f in m.frames}))))
        return "name in %s" % sorted(names), lambda r: r["name"] in names, lambda i, c, r: r["name"] in names
    if k == 3 and m.levels:
        lv = rng.choice(m.levels); j = m.levels.index(lv); v = rng.randint(0, 2)
        return "%s == %d" % (lv, v), lambda r: r[lv] == v, lambda i, c, r: c[j] == v
    if k == 4:
        pool = {i for i in range(len(m.frames)) if rng.random() < 0.5}
        return "nid in %s" % sorted(pool), lambda r: r["nid"] in pool, lambda i, c, r: i in pool
    if k == 5:
        b = rng.random() < 0.7
        return "constant %s" % b, lambda r: b, lambda i, c, r: b
    if k == 6:
        return "leaf", lambda r: len(r["node"].children) == 0, lambda i, c, r: not m.children[i]
    return "%s present and name != main" % col, lambda r: r[col] == r[col] and r["name"] != "main", \
        lambda i, c, r: r[col] == r[col] and r["name"] != "main"

def case(ctx, rng, procs=(1,)):
    from hatchet.graphframe import EmptyFilter
    m, gf, nodes = gen.gen_gf(rng, unique=rng.random() < 0.8, max_n=12)
    desc, pred, mp = gen_pred(rng, m)
    before = obs.snap(gf)
    nid = {id(n): i for i, n in enumerate(nodes)}
    want = {k: r for k, r in m.rows.items() if mp(k[0], k[1], r)}
    p = rng.choice(procs)
    ctx.hit("filters")
    if p > 1:
        ctx.hit("parallel")
    if m.levels:
        ctx.hit("multi_index")
    if not want:
        ctx.hit("empty")
        ctx.raises(EmptyFilter, lambda: gf.filter(pred, squash=rng.random() < 0.5, num_procs=p), "empty-filter", desc)
        obs.expect_unchanged(ctx, before, gf, "filter-mutates", desc)
        return
    if len(want) < len(m.rows):
        ctx.hit("partial"); ctx.nontrivial(m.shape_sig(), m.levels, desc)
    f = gf.filter(pred, squash=False, num_procs=p)
    obs.expect_unchanged(ctx, before, gf, "filter-mutates", desc)
    got = obs.rows_by(f, lambda n: nid.get(id(n)))
    ctx.equal(got, want, "filter-rows", desc, model=m.spec())
    ctx.expect(f is not gf and f.dataframe is not gf.dataframe, "filter-shares", "filter returned its input")
    ctx.equal(list(f.dataframe.index.names), ["node"] + list(m.levels), "filter-index", desc)
    ctx.equal(list(f.dataframe.columns), list(gf.dataframe.columns), "filter-columns", desc)
    ctx.expect(f.graph is gf.graph, "filter-graph", "unsquashed filter keeps the graph")
    ctx.equal((sorted(f.exc_metrics), sorted(f.inc_metrics), f.default_metric, f.metadata),
              (sorted(m.exc), sorted(m.inc), m.default_metric, m.metadata), "filter-meta", desc)
    # filtering again with the same predicate changes nothing; complementary filters partition the rows
    f2 = f.filter(pred, squash=False, num_procs=1)
    ctx.equal(obs.rows_by(f2, lambda n: nid.get(id(n))), want, "filter-idempotent", desc)
    if len(want) < len(m.rows):
        h = gf.filter(lambda r: not pred(r), squash=False, num_procs=1)
        ctx.equal(obs.rows_by(h, lambda n: nid.get(id(n))), {k: r for k, r in m.rows.items() if k not in want}, "filter-complement", desc)
    ctx.sample({"predicate": desc, "rows": len(m.rows), "kept": len(want), "levels": m.levels})

def seq(ctx, rng):
    case(ctx, rng)

def par(ctx, rng):
    case(ctx, rng, (2, 3))

def invalid(ctx, rng):
    from hatchet.graphframe import InvalidFilter
    m, gf, nodes = gen.gen_gf(rng, max_n=5)
    before = obs.snap(gf)
    for bad in (5, None, 3.5, {"name": "x"}, object(), (1, 2), {"a"}):
        ctx.raises(InvalidFilter, lambda: gf.filter(bad, squash=rng.random() < 0.5, num_procs=1), "invalid-filter", repr(bad))
        obs.expect_unchanged(ctx, before, gf, "filter-mutates", "invalid filter")
    ctx.nontrivial("inv", m.shape_sig())

SCENARIOS = [("sequential", seq, 6000, 20000), ("parallel", par, 600, 2000), ("invalid", invalid, 100, 200)]
