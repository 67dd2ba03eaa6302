import math
from .. import gen, obs
RULE = ("random graphframes x inclusive metric names (with and without '(inc)', with or without an exclusive partner, non-numeric) x requested subsets x index layouts x NaN; "
        "oracle = own inclusive minus children's inclusive; non-trivial = a column was generated for a graph with an inner node")
REQUIRED = {"generated": 300, "values": 3000, "multi_index": 100, "nothing_to_generate": 20, "requested": 80, "non_numeric": 20, "round_trips": 80, "ragged": 20, "name_in_use": 8}

def case(ctx, rng, roundtrip=False):
    kind = rng.choice(["tree", "tree", "forest", "dag"]) if not roundtrip else rng.choice(["tree", "forest"])
    m = gen.gen_graph(rng, kind=kind, max_n=rng.choice([2, 6, 12]), unique=rng.random() < 0.7)
    pool = ["time (inc)", "total", "bytes (inc)", "cycles(inc)", "walltime", "join(inc)", "sync (inc)", "(inc) n"]
    inc = rng.sample(pool, rng.randint(1, 3))
    exc = rng.sample(["time", "bytes", "count"], rng.randint(0, 2)) if not roundtrip else []
    gen.gen_rows(rng, m, exc=exc, inc=inc, nanp=0 if roundtrip else rng.choice([0, 0.2]), ragged=False if roundtrip else rng.random() < 0.2)
    gf, nodes = gen.build(m)
    if rng.random() < 0.1 and not roundtrip:
        gf.dataframe["label"] = "x"; gf.inc_metrics.append("label"); ctx.hit("non_numeric")
    if rng.random() < 0.15 and not roundtrip and "bytes (inc)" in inc and "bytes" not in exc:
        gf.dataframe["bytes"] = 77.0; m.columns.append("bytes"); ctx.hit("name_in_use")       # a column that is no metric
        for r in m.rows.values():
            r["bytes"] = 77.0
    req = None
    if rng.random() < 0.35 and not roundtrip:
        req = rng.sample(inc, rng.randint(1, len(inc))); ctx.hit("requested")
        if len(req) == 1 and rng.random() < 0.3:
            req = [req[0]]
    nid = {id(n): i for i, n in enumerate(nodes)}
    before_df = gf.dataframe
    g0 = obs.snap_graph(gf.graph); inc0 = list(gf.inc_metrics)
    held = obs.snap_df(gf.dataframe)
    gf.generate_exclusive_columns() if req is None and rng.random() < 0.5 else gf.generate_exclusive_columns(req)
    pairs = {}
    for c in inc:
        if req and c not in req:
            continue
        if c.endswith("(inc)"):
            e = c[:-len("(inc)")].strip()
            if e not in exc:
                pairs[e] = c
        else:
            pairs[c + " (exc)"] = c
    ctx.hit("generated" if pairs else "nothing_to_generate")
    rows = obs.rows_by(gf, lambda n: nid.get(id(n), "foreign"))
    ctx.equal(set(rows), set(m.rows), "genexc-rows", "rows changed")
    if m.levels:
        ctx.hit("multi_index")
        if len({c for _, c in m.rows}) * len(nodes) != len(m.rows):
            ctx.hit("ragged")
    extra = ["label"] if "label" in gf.inc_metrics else []
    ctx.equal(sorted(gf.dataframe.columns), sorted(set(m.columns) | set(pairs) | set(extra)), "genexc-columns", "columns", inc=inc, exc=exc, req=req)
    ctx.equal(sorted(gf.exc_metrics), sorted(set(exc) | set(pairs)), "genexc-lists", "exclusive metric list", inc=inc, exc=exc, req=req)
    ctx.equal(gf.inc_metrics, inc0, "genexc-lists", "inclusive metric list")
    for e, c in pairs.items():
        for (i, ix), r in rows.items():
            kids = sum(m.rows[(j, ix)][c] for j in m.children[i] if (j, ix) in m.rows and m.rows[(j, ix)][c] == m.rows[(j, ix)][c])
            ctx.hit("values")
            ctx.equal(r[e], m.rows[(i, ix)][c] - kids, "genexc-value", "%s from %s at node %d %s" % (e, c, i, ix), shape=m.shape_sig())
            if m.children[i]:
                ctx.nontrivial(m.shape_sig(), tuple(inc), tuple(exc), m.levels)
    for k, r in rows.items():
        for c in m.columns:
            if c not in pairs:
                ctx.equal(r[c], m.rows[k][c], "genexc-other", "column %s changed" % c)
    ctx.expect(obs.diff(g0, obs.snap_graph(gf.graph)) is None, "genexc-graph", "graph changed")
    b = obs.snap_df(gf.dataframe)
    if roundtrip and pairs:
        ctx.hit("round_trips")
        gf.update_inclusive_columns()
        rows = obs.rows_by(gf, lambda n: nid[id(n)])
        for e, c in pairs.items():
            name = e[:-len("(exc)")].strip() if e.endswith("(exc)") else e + " (inc)"
            for k, r in rows.items():
                ctx.equal(r[name], m.rows[k][c], "genexc-roundtrip", "inclusive %s recomputed from generated %s at %s" % (name, e, k))
    ctx.sample({"inc": inc, "exc": exc, "requested": req, "pairs": pairs, "levels": m.levels})

def trip(ctx, rng):
    case(ctx, rng, True)

SCENARIOS = [("generate", case, 1500, 8000), ("roundtrip", trip, 600, 4000)]
