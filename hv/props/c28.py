import warnings
from .. import gen, obs
RULE = ("random trees and forests (single and multi-index, equal-frame siblings, odd names) x metric, name column, rank, thread; oracle = list of root-to-node name stacks of the model, "
        "in child order, with the metric rounded to an integer; non-trivial = >=3 nodes")
REQUIRED = {"exports": 500, "multi_index": 200, "forests": 150, "lines": 4000, "label_column": 80, "equal_siblings": 60, "ragged": 60, "large": 40}

def case(ctx, rng):
    kind = rng.choice(["tree", "forest"])
    uniq = rng.random() < 0.7
    m = gen.gen_graph(rng, kind=kind, unique=uniq, max_n=rng.choice([1, 6, 14, 40]), max_paths=300)
    if rng.random() < 0.2:
        for f in m.frames:
            if rng.random() < 0.4:
                f["name"] = rng.choice(["operator()", "a b", "x::y<int, 3>", "é☃", "12", "f 7"])
    lv = rng.choice([(), (), ("rank",), ("thread",), ("rank", "thread")])
    gen.gen_rows(rng, m, levels=lv, exc=("time", "bytes"), inc=("time (inc)",), nanp=0, ragged=False)
    if rng.random() < 0.15:
        for r in m.rows.values():
            r["bytes"] = float(rng.randint(2 ** 40, 2 ** 52))
        ctx.hit("large")
    kw = {}
    metric = rng.choice(["time", "bytes", "time (inc)"])
    if rng.random() < 0.6:
        kw["metric"] = metric
    else:
        m.default_metric = metric
    namecol = "name"
    if rng.random() < 0.25:
        namecol = kw["name"] = "label"
        m.columns.append("label")
        for k, r in m.rows.items():
            r["label"] = "lab%d@%s" % (k[0], k[1])
        ctx.hit("label_column")
    at = rng.choice(sorted({k[1] for k in m.rows}))
    for l, v in zip(lv, at):
        if v or rng.random() < 0.5:
            kw[l] = v
    if lv and rng.random() < 0.3:                       # rows of other ranks may be missing
        for k in list(m.rows):
            if k[1] != at and rng.random() < 0.4:
                del m.rows[k]
                ctx.hit("ragged")
    gf, nodes = gen.build(m)
    before = obs.snap(gf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = gf.to_flamegraph(**kw)
    obs.expect_unchanged(ctx, before, gf, "flame-mutates", "to_flamegraph")
    ctx.hit("exports"); ctx.hit("multi_index", bool(lv)); ctx.hit("forests", len(m.roots) > 1)
    want = []
    def go(i, stack):
        r = m.rows[(i, at)]
        stack = stack + [r[namecol]]
        want.append(("; ".join(stack), int(round(r[metric]))))
        for c in m.children[i]:
            go(c, stack)
    for r in m.roots:
        go(r, [])
    ctx.expect(text.endswith("\n"), "flame-form", "no newline at the end")
    got = []
    for line in text[:-1].split("\n"):
        st, _, v = line.rpartition(" ")
        ctx.expect(v.lstrip("-").isdigit(), "flame-form", "line does not end in an integer: %r" % line)
        got.append((st, int(v)))
    ctx.hit("lines", len(got))
    ctx.hit("equal_siblings", any(len({m.key(c) for c in cs}) < len(cs) for cs in m.children))
    ctx.equal(sorted(got), sorted(want), "flame-lines", "folded stacks", text=text[:1200])
    if uniq:                                            # every caller is listed before its callees
        first = {}
        for j, (s, _) in enumerate(got):
            first.setdefault(s, j)
        for s, j in first.items():
            ctx.expect("; " not in s or namecol == "label" or first.get(s.rpartition("; ")[0], 10 ** 9) < j, "flame-order", "%r is listed before its caller" % s)
    if len(nodes) >= 3:
        ctx.nontrivial(m.shape_sig(), sorted(map(str, kw.items())))
    ctx.sample({"nodes": len(nodes), "options": {k: str(v) for k, v in kw.items()}, "first": text.split("\n")[0]})

SCENARIOS = [("flame", case, 4500, 15000)]
