import os
from collections import Counter
from .. import gen, obs
from ..core import same
from . import c24
RULE = ("random graphframes (trees, forests, DAGs, equal-frame siblings; single and multi-index, ragged; NaN, infinities, None, odd texts; ids permuted; derived frames) saved to HDF5 "
        "under one or several keys, overwritten, and loaded in any order; oracle = multiset of nodes by call paths, edges and rows; non-trivial = >=3 nodes")
REQUIRED = {"roundtrips": 200, "multi_index": 60, "dags": 60, "several_keys": 40, "overwrites": 10, "missing": 80, "forests": 60, "default_key": 30, "chained": 20}

def norm(v):
    if v is None or (isinstance(v, float) and v != v):
        return "missing"
    if hasattr(v, "item"):
        v = v.item()
    return ("%r" % float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else repr(v)

def content(ctx, gf, what):
    ps = obs.paths_by_id(gf.graph)
    ns = obs.nodes_of(gf.graph)
    lab = {id(n): tuple(sorted(map(repr, ps[id(n)]))) for n in ns}
    nodes = Counter(lab[id(n)] for n in ns)
    edges = Counter((lab[id(n)], lab[id(c)]) for n in ns for c in n.children)
    roots = Counter(lab[id(r)] for r in gf.graph.roots)
    names = list(gf.dataframe.index.names)
    cols = list(gf.dataframe.columns)
    data = [gf.dataframe.iloc[:, j].tolist() for j in range(len(cols))]
    rows = Counter()
    for i, t in enumerate(gf.dataframe.index.tolist()):
        t = t if len(names) > 1 else (t,)
        k = []
        for nm, x in zip(names, t):
            if nm == "node":
                ctx.expect(id(x) in lab, what + "-foreign", "row node %r is not in the graph" % (x,))
                k.append(lab[id(x)])
            else:
                k.append(int(x))
        rows[(tuple(k), tuple((c, norm(data[j][i])) for j, c in sorted(enumerate(cols), key=lambda z: z[1])))] += 1
    return {"nodes": nodes, "edges": edges, "roots": roots, "rows": rows, "index": names, "columns": sorted(cols), "exc": list(gf.exc_metrics),
            "inc": list(gf.inc_metrics), "default": gf.default_metric}

def compare(ctx, want, gf, what):
    got = content(ctx, gf, what)
    for k in want:
        if isinstance(want[k], Counter):
            ctx.expect(got[k] == want[k], what + "-" + k, "%s differ: lost %s, gained %s" % (k, list((want[k] - got[k]).items())[:2], list((got[k] - want[k]).items())[:2]))
        else:
            ctx.equal(got[k], want[k], what + "-" + k, k)
    obs.check_graph(ctx, gf.graph, what)

def case(ctx, rng):
    from hatchet import GraphFrame
    d = ctx.tmpdir()
    f = os.path.join(d, "a.h5")
    nk = rng.choice([1, 1, 2, 3])
    keys = rng.sample(["k1", "k2", "k3", "other"], nk)
    if nk > 1:
        ctx.hit("several_keys")
    want = {}
    usedef = nk == 1 and rng.random() < 0.6
    for step in range(nk + (1 if rng.random() < 0.2 else 0)):
        k = keys[step] if step < nk else rng.choice(keys)
        if step >= nk:
            ctx.hit("overwrites")
        while True:
            m, gf, nodes = c24.make(ctx, rng)
            if all(any(x[0] == i for x in m.rows) for i in range(len(nodes))):
                break
        gf = c24.derive(ctx, rng, m, gf, nodes)
        ctx.hit("dags", any(len(p) > 1 for p in m.parents())); ctx.hit("multi_index", bool(m.levels)); ctx.hit("forests", len(m.roots) > 1)
        ctx.hit("missing", any(v is None or v != v for r in m.rows.values() for v in r.values()))
        if len(nodes) >= 3:
            ctx.nontrivial(m.shape_sig(), m.levels)
        w = content(ctx, gf, "source")
        before = obs.snap(gf)
        if usedef:
            ctx.hit("default_key")
            gf.to_hdf(f)
        else:
            gf.to_hdf(f, key=k)
        obs.expect_unchanged(ctx, before, gf, "hdf-input", "to_hdf")
        want[k] = w
    order = list(want); rng.shuffle(order)
    for k in order:
        g2 = GraphFrame.from_hdf(f) if usedef else GraphFrame.from_hdf(f, key=k)
        ctx.hit("roundtrips")
        compare(ctx, want[k], g2, "hdf")
        if rng.random() < 0.15:                 # save what was loaded, load it again
            f2 = os.path.join(d, "b.h5")
            g2.to_hdf(f2, key="again")
            compare(ctx, want[k], GraphFrame.from_hdf(f2, key="again"), "hdf-again")
            ctx.hit("chained")
        ctx.sample({"nodes": sum(want[k]["nodes"].values()), "rows": sum(want[k]["rows"].values()), "index": want[k]["index"], "keys": nk})

SCENARIOS = [("hdf", case, 900, 5000)]
