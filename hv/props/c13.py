import numpy as np
from .. import gen, obs
RULE = ("random single-index trees, forests and DAGs whose 'module', 'grp', 'name' or 'nid' column or a function of the nodes partitions the nodes (few, many, one group; groups that call each other both ways), "
        "several aggregations; oracle = quotient graph and per-group aggregate; non-trivial = >=2 groups and a group of >=2 nodes")
REQUIRED = {"groupbys": 300, "by_name": 60, "by_function": 60, "name_aggregated": 40, "cyclic_quotients": 15, "self_edges": 60, "multi_member_groups": 150, "multi_root": 40}

AGGS = {"sum": lambda vs: sum(v for v in vs if v == v), "max": lambda vs: max([v for v in vs if v == v], default=gen.NAN),
        "min": lambda vs: min([v for v in vs if v == v], default=gen.NAN)}

def case(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest", "dag", "dagforest"]), max_n=rng.choice([2, 6, 10, 20]))
    gen.gen_rows(rng, m, levels=(), exc=("time",), inc=("time (inc)",), nanp=rng.choice([0, 0.2]))
    col = rng.choice(["module", "grp", "grp", "name", "nid"])
    k = rng.choice([1, 2, 3, 5, 30])
    ints = rng.random() < 0.2
    if col == "name":
        grp = [m.rows[(i, ())]["name"] for i in range(len(m.frames))]
        ctx.hit("by_name")
    else:
        ints = ints or col == "nid"
        grp = [rng.randrange(k) if ints else "lib%c%d" % (rng.choice("zxa"), rng.randrange(k)) for _ in m.frames]
        if col not in m.columns:
            m.columns.append(col)
        for (i, c), r in m.rows.items():
            r[col] = grp[i]
    gf, nodes = gen.build(m)
    how = {c: rng.choice(list(AGGS)) for c in ("time", "time (inc)")}
    before = obs.snap(gf)
    key = rng.choice([[col], col])
    func = rng.random() < 0.2
    if func:
        # a function of the nodes that puts them in the same groups
        of = {id(n): grp[i] for i, n in enumerate(nodes)}
        key = lambda n: of[id(n)]
        ctx.hit("by_function")
    if rng.random() < 0.5:
        how["time (inc)"] = how["time"]
    extra = {}
    if rng.random() < 0.25 and (func or col != "name"):
        extra["name"] = rng.choice(["min", "max", "first"])
        ctx.hit("name_aggregated")
    out = gf.groupby_aggregate(key, dict(how, **extra))
    ctx.hit("groupbys")
    obs.expect_unchanged(ctx, before, gf, "groupby-mutates", "groupby_aggregate")
    groups = {}
    for i, g in enumerate(grp):
        groups.setdefault(g, []).append(i)
    # nodes
    ns = obs.nodes_of(out.graph)
    lab = {id(n): n.frame["name"] for n in ns}
    ctx.equal(sorted(lab.values()), sorted(groups), "groupby-nodes", "one node per group")
    for n in ns:
        if not func:
            ctx.equal(n.frame["type"], col, "groupby-frame", "type attribute of the group node")
    # edges
    want = {(grp[i], grp[c]) for i, cs in enumerate(m.children) for c in cs if grp[i] != grp[c]}
    if any(grp[i] == grp[c] for i, cs in enumerate(m.children) for c in cs):
        ctx.hit("self_edges")
    if any((b, a) in want for a, b in want):
        ctx.hit("cyclic_quotients")
    got = [(lab[id(n)], lab[id(c)]) for n in ns for c in n.children]
    ctx.equal(sorted(got), sorted(want), "groupby-edges", "call relation between groups", shape=m.shape_sig(), groups=grp)
    gotp = [(lab.get(id(p), "foreign"), lab[id(n)]) for n in ns for p in n.parents]
    ctx.equal(sorted(gotp), sorted(want), "groupby-edges", "parent links between groups", shape=m.shape_sig(), groups=grp)
    ctx.equal(sorted(lab[id(r)] for r in out.graph.roots), sorted({grp[r] for r in m.roots}), "groupby-roots", "roots", shape=m.shape_sig(), groups=grp)
    if len(m.roots) > 1:
        ctx.hit("multi_root")
    ctx.equal(sorted(n._hatchet_nid for n in ns), list(range(len(ns))), "groupby-numbering", "node ids")
    # rows
    rows = obs.rows_by(out, lambda n: lab.get(id(n), "foreign"))
    ctx.equal(sorted(rows, key=str), sorted(((g, ()) for g in groups), key=str), "groupby-rows", "one row per group")
    for g, mem in groups.items():
        if len(mem) > 1:
            ctx.hit("multi_member_groups")
        r = rows[(g, ())]
        for c in how:
            vals = [m.rows[(i, ())][c] for i in mem]
            ctx.equal(r[c], AGGS[how[c]](vals), "groupby-value", "%s(%s) of group %s" % (how[c], c, g), values=vals)
        ctx.equal(r["name"], g, "groupby-name", "name column")
    ctx.equal((list(out.exc_metrics), list(out.inc_metrics), out.default_metric, out.metadata), (m.exc, m.inc, m.default_metric, m.metadata),
              "groupby-metadata", "metric lists and metadata")
    if len(groups) > 1 and any(len(v) > 1 for v in groups.values()):
        ctx.nontrivial(m.shape_sig(), tuple(grp))
    ctx.sample({"groups": {str(k): len(v) for k, v in groups.items()}, "edges": len(want)})

SCENARIOS = [("quotient", case, 3000, 10000)]
