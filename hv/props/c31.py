import io, json, os, stat, sys
from .. import gen, obs, readers
RULE = ("Caliper JSON-split profiles synthesised from random region trees and forests: columns in random order, ranks, missing records, null paths and null text values, extra text columns, unlabelled "
        "nodes, node order, sampled call paths with source locations and a secondary path hierarchy; given as file name, binary or text stream or through a stand-in cali-query; "
        "oracle = the synthesised records; non-trivial = >=4 nodes")
REQUIRED = {"profiles": 300, "ranked": 100, "missing_records": 300, "null_paths": 60, "text_columns": 60, "null_text": 40, "unlabelled": 30, "ordered": 40, "callpath": 80, "split_nodes": 80,
            "both_hierarchies": 40, "aggregated": 60, "streams": 80, "text_streams": 20, "cali_query": 5, "read_values": 5000, "forests": 40, "metadata": 60, "errors": 4, "same_line_two_files": 5}
ALIAS = {"sum#time.duration": "time", "sum#avg#sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)", "sum#avg#inclusive#sum#time.duration": "time (inc)"}
PATH, CALL = "path", "source.function#callpath.address"

class Table:
    """nodes section: entries in creation order, parents first"""
    def __init__(self):
        self.nodes, self.at = [], {}
    def add(self, column, label, parent=None):
        k = (column, label, parent)
        if k not in self.at:
            self.at[k] = len(self.nodes)
            e = {"label": label, "column": column}
            if parent is not None:
                e["parent"] = parent
            self.nodes.append(e)
        return self.at[k]

def tree_nodes(ctx, rng, m, t, column, blank=0.0):
    """Enter the model's nodes into the table (parents first, other entries in between)."""
    idx, todo = {}, [(r, None) for r in m.roots]
    names = {}
    while todo:
        i, p = todo.pop(rng.randrange(len(todo)))
        if rng.random() < 0.2:
            t.add("other.attr", "noise%d" % rng.randint(0, 5))
        if rng.random() < blank:
            t.nodes.append(dict({"label": "", "column": column}, **({} if p is None else {"parent": p})))
            idx[i] = len(t.nodes) - 1
            names[i] = None
            ctx.hit("unlabelled")
        else:
            t.nodes.append(dict({"label": m.frames[i]["name"], "column": column}, **({} if p is None else {"parent": p})))
            idx[i] = len(t.nodes) - 1
        todo += [(c, idx[i]) for c in m.children[i]]
    return idx, names

def read(ctx, rng, doc):
    from hatchet import GraphFrame
    text = json.dumps(doc)
    p = os.path.join(ctx.tmpdir(), "p%d.json" % rng.randint(0, 9999))
    with open(p, "w") as f:
        f.write(text)
    how = rng.choice(["path", "path", "bytes", "rb", "text"])
    if how == "path":
        return GraphFrame.from_caliper(p)
    ctx.hit("streams")
    if how == "bytes":
        return GraphFrame.from_caliper(io.BytesIO(text.encode()))
    ctx.hit("text_streams", how == "text")
    with open(p, "rb" if how == "rb" else "r") as f:
        return GraphFrame.from_caliper(f)

def finish(ctx, rng, doc, keep):
    meta = rng.choice([{}, {"cali.channel": "c", "problem_size": 30, "libraries": ["a", "b"], "nested": {"x": 1.5}}])
    doc.update(meta)
    if meta:
        ctx.hit("metadata")
    keys = list(doc)
    rng.shuffle(keys)
    return {k: doc[k] for k in keys}, meta

def fix_names(ctx, gf, m, idx, blank):
    nm = dict(zip(gf.dataframe["nid"].tolist(), gf.dataframe["name"].tolist()))
    seen = set()
    for i in blank:
        n = nm.get(idx[i])
        ctx.expect(isinstance(n, str) and n.startswith("UNKNOWN ") and n not in seen, "caliper-unknown", "name of an unlabelled node: %r" % n)
        seen.add(n)
        m.frames[i] = dict(m.frames[i], name=n)

def regions(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest"]), max_n=rng.choice([1, 5, 12, 25]))
    n = len(m.frames)
    t = Table()
    blank = 0.15 if rng.random() < 0.2 else 0
    idx, names = tree_nodes(ctx, rng, m, t, PATH, blank)
    mets = rng.choice([["sum#time.duration"], ["inclusive#sum#time.duration", "sum#time.duration"], ["sum#avg#sum#time.duration", "sum#avg#inclusive#sum#time.duration", "count"],
                       ["avg#x", "time (inc)", "time"]])
    ranked = rng.random() < 0.6
    nr = rng.choice([1, 2, 3, 4] * 4 + [12]) if ranked else 1
    text = rng.choice([[], [], ["mpi.function"], ["loop", "annotation"]])
    ordered = rng.random() < 0.2
    m.frames = [{"type": "region", "name": f["name"]} for f in m.frames]
    order = {}
    if ordered:
        ctx.hit("ordered")
        pool = rng.sample(range(1, 3 * n + 1), n) if rng.random() < 0.7 else list(range(n))
        order = dict(enumerate(pool))
    recs, want = [], {}
    miss = rng.choice([0, 0.2, 0.5]) if not ordered else 0
    for i in range(n):
        for r in range(nr):
            if rng.random() < miss:
                ctx.hit("missing_records")
                continue
            v = {c: rng.choice([gen.frac(rng, 0, 9999), 0.0]) for c in mets}
            if rng.random() < 0.05:
                v[rng.choice(mets)] = None
            tx = {c: (None if rng.random() < 0.3 else "v%d" % rng.randint(0, 3)) for c in text}
            ctx.hit("null_text", sum(x is None for x in tx.values())); ctx.hit("text_columns", len(tx))
            e = dict(v, **{PATH: idx[i], "mpi.rank": r}, **{c: (None if x is None else t.add(c, x)) for c, x in tx.items()})
            if ordered:
                e["Node order"] = order[i]
            recs.append(e)
            want[(i, (r,) if ranked else ())] = dict({ALIAS.get(c, c): x for c, x in v.items()}, **tx)
    for _ in range(rng.choice([0, 0, 1, 3])):
        ctx.hit("null_paths")
        recs.append(dict({c: 7.0 for c in mets}, **{PATH: None, "mpi.rank": rng.randrange(nr)}, **{c: None for c in text}, **({"Node order": 0} if ordered else {})))
    if not want:
        return
    if ranked:
        nr = 1 + max(k[1][0] for k in want)
    if not ordered or rng.random() < 0.7:
        rng.shuffle(recs)
    cols = mets + text + [PATH] + (["mpi.rank"] if ranked else []) + (["Node order"] if ordered else [])
    rng.shuffle(cols)
    value = lambda c: c in mets or c in ("mpi.rank", "Node order")
    doc, meta = finish(ctx, rng, {"data": [[e[c] for c in cols] for e in recs], "columns": list(cols), "column_metadata": [{"is_value": value(c)} for c in cols], "nodes": t.nodes}, None)
    gf = read(ctx, rng, doc)
    ctx.hit("profiles"); ctx.hit("ranked", ranked); ctx.hit("forests", len(m.roots) > 1)
    out = [ALIAS.get(c, c) for c in mets]
    for i in range(n):
        for k in ([(r,) for r in range(nr)] if ranked else [()]):
            row = want.setdefault((i, k), dict({c: 0 for c in out}, **{c: None for c in text}))
            row["nid"] = idx[i]
    fix_names(ctx, gf, m, idx, names)
    for (i, k), row in want.items():
        row["name"] = m.frames[i]["name"]
    if ordered:
        obs.check_graph(ctx, gf.graph, "caliper", numbering=True)
    obs.check_gf(ctx, gf, "caliper", every_node_has_rows=True)
    to = readers.match(ctx, gf, m)
    readers.rows(ctx, gf, to, ["rank"] if ranked else [], want, out + text + ["nid", "name"])
    inc = [c for c in out if "(inc)" in c]
    readers.metrics(ctx, gf, [c for c in out if c not in inc], inc)
    ctx.equal(gf.metadata, meta, "caliper-metadata", "metadata")
    if ordered:                     # children are numbered in the recorded order
        for i in range(n):
            seq = sorted(m.children[i], key=lambda c: to[c]._hatchet_nid)
            ctx.equal([order[c] for c in seq], sorted(order[c] for c in seq), "caliper-order", "order of the children of node %d" % i)
    if n >= 4:
        ctx.nontrivial(m.shape_sig(), sorted(want))
    ctx.sample({"nodes": n, "records": len(recs), "columns": cols})

def callpaths(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest"]), max_n=rng.choice([3, 8, 15]))
    n = len(m.frames)
    t = Table()
    idx, names = tree_nodes(ctx, rng, m, t, CALL, 0.1 if rng.random() < 0.2 else 0)
    m.frames = [{"type": "function", "name": f["name"]} for f in m.frames]
    both = rng.random() < 0.5
    ctx.hit("both_hierarchies", both)
    locs = rng.random() < 0.75
    ranked = rng.random() < 0.6
    nr = rng.randint(1, 3) if ranked else 1
    mets = ["count", "sum#time.duration"]
    files = ["/src/a.c", "b.cpp", "<??>"]
    recs, acc, first = [], {}, {}
    for i in range(n):
        if rng.random() < 0.25:
            ctx.hit("missing_records")
            continue
        f = rng.choice(files)
        pool = [(f, l) for l in rng.sample(range(1, 40), rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.15:
            pool.append((rng.choice([x for x in files if x != f]), pool[0][1]))
            ctx.hit("same_line_two_files")
        mod = rng.choice(["libA.so", "prog", None])
        for r in range(nr):
            for loc in (pool if locs else [None]):
                if rng.random() < 0.25:
                    continue
                for _ in range(rng.choice([1, 2, 3]) if both else 1):
                    v = {"count": rng.randint(1, 9), "sum#time.duration": gen.frac(rng, 0, 999)}
                    e = dict(v, **{CALL: idx[i], "mpi.rank": r, "module#cali.sampler.pc": None if mod is None else t.add("module#cali.sampler.pc", mod)})
                    if loc:
                        e["sourceloc#cali.sampler.pc"] = t.add("sourceloc#cali.sampler.pc", "%s:%d" % loc)
                    if both:
                        e[PATH] = rng.choice([None, t.add(PATH, "region")])
                    recs.append(e)
                    a = acc.setdefault((i, r, loc), {"count": 0, "time": 0.0, "module": mod})
                    ctx.hit("aggregated", a["count"] > 0)
                    a["count"] += v["count"]; a["time"] += v["sum#time.duration"]
    if not acc:
        return
    if ranked:
        nr = 1 + max(r for _, r, _ in acc)
    for _ in range(rng.choice([0, 0, 2])):
        ctx.hit("null_paths")
        recs.append(dict(recs[0], **{CALL: None}))
    rng.shuffle(recs)
    cols = mets + [CALL, "module#cali.sampler.pc"] + (["sourceloc#cali.sampler.pc"] if locs else []) + ([PATH] if both else []) + (["mpi.rank"] if ranked else [])
    rng.shuffle(cols)
    doc, meta = finish(ctx, rng, {"data": [[e[c] for c in cols] for e in recs], "columns": list(cols), "column_metadata": [{"is_value": c in mets or c == "mpi.rank"} for c in cols], "nodes": t.nodes}, None)
    gf = read(ctx, rng, doc)
    ctx.hit("profiles"); ctx.hit("callpath"); ctx.hit("ranked", ranked); ctx.hit("forests", len(m.roots) > 1)
    fix_names(ctx, gf, m, idx, names)
    want = {}
    keys = [(r,) for r in range(nr)] if ranked else [()]
    zero = {"count": 0, "time": 0}
    for i in range(n):
        ls = sorted({l for (j, _, l) in acc if j == i}, key=str)
        if len(ls) > 1:                             # one statement child per source location
            ctx.hit("split_nodes")
            for k in keys:
                want[(i, k)] = dict(zero, name=m.frames[i]["name"])
            for l in ls:
                c = len(m.frames)
                m.frames.append({"type": "statement", "file": l[0], "line": str(l[1])}); m.children.append([]); m.children[i].append(c)
                for k in keys:
                    a = acc.get((i, k[0] if k else 0, l))
                    want[(c, k)] = dict(a, file=l[0], line=str(l[1])) if a else dict(zero)
                    want[(c, k)]["name"] = "%s:%d" % (os.path.basename(l[0]), l[1])
        else:
            for k in keys:
                a = acc.get((i, k[0] if k else 0, ls[0])) if ls else None
                want[(i, k)] = dict(a, **({"file": ls[0][0], "line": str(ls[0][1])} if ls[0] else {})) if a else dict(zero)
                want[(i, k)]["name"] = m.frames[i]["name"]
    obs.check_gf(ctx, gf, "caliper", every_node_has_rows=True)
    to = readers.match(ctx, gf, m)
    readers.rows(ctx, gf, to, ["rank"] if ranked else [], want, ["count", "time", "module", "nid", "name"] + (["file", "line"] if locs else []) + ([PATH] if both else []))
    readers.metrics(ctx, gf, ["count", "time"], [])
    ctx.equal(gf.metadata, meta, "caliper-metadata", "metadata")
    if n >= 4:
        ctx.nontrivial("callpath", m.shape_sig(), sorted(want))

def query(ctx, rng):
    """A .cali name goes through the cali-query program found on PATH, with the given query."""
    from hatchet import GraphFrame
    d, b = os.path.join(ctx.tmpdir(), "src"), os.path.join(ctx.tmpdir(), "bin")
    os.makedirs(d); os.makedirs(b)
    m = gen.gen_graph(rng, kind="tree", max_n=8)
    t = Table()
    idx, _ = tree_nodes(ctx, rng, m, t, PATH)
    m.frames = [{"type": "region", "name": f["name"]} for f in m.frames]
    doc = {"data": [[idx[i], i * 0.5] for i in range(len(m.frames))], "columns": [PATH, "sum#time.duration"], "column_metadata": [{"is_value": False}, {"is_value": True}], "nodes": t.nodes}
    with open(os.path.join(d, "out.json"), "w") as f:
        json.dump(doc, f)
    with open(os.path.join(b, "cali-query"), "w") as f:
        f.write('#!/bin/sh\nfor a in "$@"; do echo "$a"; done > %s/args\ncat %s/out.json\n' % (b, d))
    os.chmod(f.name, 0o755)
    old = os.environ["PATH"]
    name = os.path.join(d, "x.cali")
    open(name, "w").close()
    q = "select *,sum(x) group by path format json-split"
    try:
        os.environ["PATH"] = b + os.pathsep + old
        gf = GraphFrame.from_caliper(name, q)
        os.environ["PATH"] = os.path.join(d, "nothing")
        ctx.raises(ValueError, lambda: GraphFrame.from_caliper(name, q), "caliper-error", "no cali-query on PATH")
    finally:
        os.environ["PATH"] = old
    ctx.equal(open(os.path.join(b, "args")).read().split("\n")[:-1], ["-q", q, name], "caliper-query", "arguments of cali-query")
    to = readers.match(ctx, gf, m)
    readers.rows(ctx, gf, to, [], {(i, ()): {"time": i * 0.5, "nid": idx[i], "name": m.frames[i]["name"]} for i in range(len(m.frames))})
    ctx.hit("cali_query")
    bad = dict(doc, columns=["nopath", "sum#time.duration"])
    ctx.raises(SystemExit, lambda: GraphFrame.from_caliper(io.BytesIO(json.dumps(bad).encode())), "caliper-error", "no hierarchy column")
    ctx.hit("errors")

SCENARIOS = [("regions", regions, 1750, 6000), ("callpaths", callpaths, 1000, 4000), ("query", query, 30, 60)]
