import re, warnings
from .. import gen, obs
RULE = ("random graphframes (trees, forests, DAGs, graphs with cycles; single and multi-index; odd names) x metric, name column, rank, thread, threshold (0, or cutting some nodes); "
        "output parsed by a strict DOT statement parser (and pydot on a sample); oracle = edge structure of the model; non-trivial = >=3 nodes")
REQUIRED = {"exports": 500, "multi_index": 150, "dags": 120, "forests": 80, "cycles": 30, "thresholds": 100, "cut_nodes": 60, "quoted_names": 60, "pydot": 15}
STR = r'"((?:[^"\\]|\\.)*)"'
NODE = re.compile("^" + STR + r' \[color="(#[0-9a-f]{6})", ?label=' + STR + r",? shape=oval\];$", re.S)
TOK = re.compile(r'\s*(?:(?P<str>"(?:[^"\\]|\\.)*")|(?P<sym>->|[\[\]{};,=])|(?P<id>[A-Za-z0-9_.#]+))', re.S)

def parse(ctx, text):
    """Statements of `strict digraph { ... }` -> (nodes [(id, attrs)], edges [(a, b)])."""
    toks, pos = [], 0
    while pos < len(text.rstrip()):
        m = TOK.match(text, pos)
        ctx.expect(m is not None, "dot-lex", "not a DOT token: %r" % text[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "str":
            v = re.sub(r"\\(.)", r"\1", v[1:-1], flags=re.S)
        toks.append((k, v))
    p = [0]
    def peek():
        return toks[p[0]] if p[0] < len(toks) else (None, None)
    def take(v=None, kinds=None):
        t = peek()
        ctx.expect(t[0] is not None and (v is None or (t[0] != "str" and t[1] == v)) and (kinds is None or t[0] in kinds), "dot-syntax", "expected %s, found %r after %r" % (v or kinds, t, toks[max(0, p[0] - 6):p[0]]))
        p[0] += 1
        return t[1]
    take("strict"); take("digraph"); take("{")
    nodes, edges = [], []
    while peek()[1] != "}" or peek()[0] == "str":
        kind = peek()[0]
        a = take(kinds=("str", "id"))
        if peek() == ("sym", "->"):
            take("->"); edges.append((a, take(kinds=("str", "id")))); take(";")
            continue
        attrs = {}
        if peek() == ("sym", "["):
            take("[")
            while peek() != ("sym", "]"):
                k = take(kinds=("id", "str")); take("="); attrs[k] = take(kinds=("id", "str"))
                if peek() == ("sym", ","):
                    take(",")
            take("]")
        take(";")
        if not (kind == "id" and a in ("graph", "node", "edge")):
            nodes.append((a, attrs))
    take("}")
    ctx.expect(p[0] == len(toks), "dot-syntax", "text after the graph")
    return nodes, edges

def case(ctx, rng):
    kind = rng.choice(["tree", "forest", "dag", "dagforest"])
    m = gen.gen_graph(rng, kind=kind, unique=rng.random() < 0.8, max_n=rng.choice([1, 5, 12, 20]), max_paths=200)
    if rng.random() < 0.2:
        for f in m.frames:
            if rng.random() < 0.4:
                f["name"] = rng.choice(['operator "" _x', 'a"b', 'c:\\dir\\f', "semi;colon", "br]ack[et", "{x}->y", "new\nline", "é☃", "", '\\"'])
                ctx.hit("quoted_names")
    if kind.startswith("dag") and rng.random() < 0.25:
        ctx.hit("cycles", gen.add_back_edge(rng, m))
    lv = rng.choice([(), (), ("rank",), ("thread",), ("rank", "thread")])
    gen.gen_rows(rng, m, levels=lv, exc=("time", "bytes"), inc=("time (inc)",), nanp=0, ragged=False, nonneg=True)
    kw = {}
    metric = rng.choice(["time", "bytes", "time (inc)"])
    if rng.random() < 0.6:
        kw["metric"] = metric
    else:
        m.default_metric = metric
    namecol = "name"
    if rng.random() < 0.25:
        namecol = kw["name"] = "label"
        m.columns.append("label")
        for k, r in m.rows.items():
            r["label"] = "lab %d %s" % (k[0], k[1])
    at = rng.choice(sorted({k[1] for k in m.rows}))
    for l, v in zip(lv, at):
        if v or rng.random() < 0.5:
            kw[l] = v
    thr = 0.0
    if rng.random() < 0.3:
        thr = kw["threshold"] = rng.choice([0.125, 0.25, 0.5, 0.75])
        ctx.hit("thresholds")
    gf, nodes = gen.build(m)
    before = obs.snap(gf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = gf.to_dot(**kw)
    obs.expect_unchanged(ctx, before, gf, "dot-mutates", "to_dot")
    ctx.hit("exports")
    top = max(r[metric] for r in m.rows.values())
    ok = {i for i in range(len(nodes)) if m.rows[(i, at)][metric] >= thr * top}
    shown, st = set(), [r for r in m.roots if r in ok]
    while st:
        i = st.pop()
        if i not in shown:
            shown.add(i); st.extend(c for c in m.children[i] if c in ok)
    ctx.hit("cut_nodes", len(nodes) - len(shown))
    dn, de = parse(ctx, text)
    by = {n._hatchet_nid: i for i, n in enumerate(nodes)}
    got = [(by.get(int(a)) if a.lstrip("-").isdigit() else None, at_.get("label")) for a, at_ in dn]
    ctx.equal(sorted(got, key=str), sorted([(i, m.rows[(i, at)][namecol]) for i in shown], key=str), "dot-nodes", "declared nodes", text=text[:1500])
    for a, at_ in dn:
        ctx.expect(re.fullmatch("#[0-9a-f]{6}", at_.get("color", "")) is not None, "dot-colour", "colour %r" % at_.get("color"))
    col = {}
    for a, at_ in dn:                       # the colour is a function of the metric
        v = m.rows[(by[int(a)], at)][metric]
        ctx.equal(col.setdefault(v, at_["color"]), at_["color"], "dot-colour", "two colours for one value")
    ge = [(by.get(int(a)), by.get(int(b))) for a, b in de]
    want = [(i, c) for i in shown for c in m.children[i] if c in ok]
    ctx.equal(sorted(ge), sorted(want), "dot-edges", "edges", text=text[:1500])
    if len(nodes) >= 3:
        ctx.nontrivial(m.shape_sig(), sorted(map(str, kw.items())))
    if rng.random() < 0.06 and "\n" not in "".join(f["name"] for f in m.frames) and len(nodes) < 14:
        import pydot
        g = pydot.graph_from_dot_data(text)
        ctx.expect(g is not None and len(g) == 1, "dot-pydot", "pydot cannot parse the output")
        ctx.equal(len(g[0].get_edges()), len(want), "dot-pydot", "edges seen by pydot")
        ctx.hit("pydot")
    ctx.hit("multi_index", bool(lv)); ctx.hit("dags", kind.startswith("dag")); ctx.hit("forests", len(m.roots) > 1)
    ctx.sample({"nodes": len(nodes), "shown": len(shown), "edges": len(want), "options": {k: str(v) for k, v in kw.items()}})

SCENARIOS = [("dot", case, 4500, 15000)]
