from .. import gen, obs, qmodel
RULE = ("random trees, forests, DAGs (<=14 nodes, single and multi-index) x random patterns of 1-6 quantified positions (. * + n) with random node-set predicates, plus exhaustive: all patterns of "
        "<=4 quantifiers over always-true/one-name predicates on all trees of <=4 nodes; oracle = product of the graph with the pattern automaton; non-trivial = some but not all nodes match")
REQUIRED = {"queries": 1500, "mid_star": 400, "leading_star": 300, "consecutive_star": 150, "dag": 150, "multi_index": 100, "no_match": 100, "partial": 200, "focused": 1500, "deep": 60}

def pattern(rng, m):
    n = len(m.frames)
    pat = []
    for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6])):
        p = rng.choice([0.2, 0.5, 0.8, 1, 1])
        pat.append((rng.choice([".", ".", "*", "*", "+", 1, 2, 3, rng.randint(1, 9)]), frozenset(i for i in range(n) if rng.random() < p)))
    if len(pat) > 1 and rng.random() < 0.1:
        k = rng.randrange(1, len(pat)); pat[k] = (0, pat[k][1])
    return pat

def pred(rng, m, s):
    """Low-level predicate for membership of the node in s."""
    if m.levels:
        return lambda df: int(df["nid"].iloc[0]) in s
    if rng.random() < 0.5:
        return lambda row: row["nid"] in s
    return lambda row: int(row["nid"]) in s and row["name"] == m.frames[int(row["nid"])]["name"]

def build(rng, m, pat):
    from hatchet.query import Query
    q = Query()
    for k, (w, s) in enumerate(pat):
        if len(s) == len(m.frames) and rng.random() < 0.5:
            (q.match if k == 0 else q.rel)(w)
        else:
            (q.match if k == 0 else rng.choice([q.rel, q.relation]))(w, pred(rng, m, s))
    return q

def run(gf, nid, q):
    """Node numbers selected, None for the empty-filter error."""
    from hatchet.graphframe import EmptyFilter
    try:
        f = gf.filter(q, squash=False)
    except EmptyFilter:
        return set(), None
    return {nid[id(n)] for n in f.dataframe.index.get_level_values("node")}, f

def note(ctx, m, pat, want):
    el = qmodel.expand(pat)
    st = [x == 0 for x, _ in el]
    if any(st[1:-1]):
        ctx.hit("mid_star")
    if st[0]:
        ctx.hit("leading_star")
    if any(a and b for a, b in zip(st, st[1:])):
        ctx.hit("consecutive_star")
    if any(len(p) > 1 for p in m.parents()):
        ctx.hit("dag")
    if m.levels:
        ctx.hit("multi_index")
    if not want:
        ctx.hit("no_match")
    elif len(want) < len(m.frames):
        ctx.hit("partial"); ctx.nontrivial(m.shape_sig(), tuple((q, tuple(sorted(s))) for q, s in pat))

def case(ctx, rng):
    m, gf, nodes = gen.gen_gf(rng, kind=rng.choice(["tree", "tree", "forest", "dag", "dagforest"]), unique=rng.random() < 0.7,
                              max_n=rng.choice([1, 3, 6, 10, 14]), levels=rng.choice([(), (), (), ("rank",), ("rank", "thread")]), ragged=False)
    nid = {id(n): i for i, n in enumerate(nodes)}
    before = obs.snap(gf)
    for _ in range(3):          # several queries on one frame: the engine is reused
        pat = pattern(rng, m)
        q = build(rng, m, pat)
        want = qmodel.match_nodes(m.children, pat)
        got, f = run(gf, nid, q)
        ctx.hit("queries")
        note(ctx, m, pat, want)
        ctx.equal(got, want, "query-nodes", "nodes selected", children=m.children, roots=m.roots, pattern=[(a, sorted(b)) for a, b in pat])
        if f is not None:
            ctx.equal(obs.rows_by(f, lambda n: nid[id(n)]), {k: r for k, r in m.rows.items() if k[0] in want}, "query-rows", "rows of the filtered frame")
            ctx.expect(f.graph is gf.graph, "query-graph", "graph replaced")
        eng = gf.query_engine.apply(q, gf.graph, gf.dataframe)
        ctx.equal(sorted(nid[id(n)] for n in eng), sorted(want), "query-engine", "QueryEngine.apply")
    obs.expect_unchanged(ctx, before, gf, "query-mutates", "filter(query)")
    ctx.sample({"children": m.children, "pattern": [(a, sorted(b)) for a, b in pat], "selected": sorted(want)})

SH = []
def shapes():
    if not SH:
        for n in (1, 2, 3, 4):
            SH.extend(gen.all_trees(n))
    return SH

def exhaustive(ctx, rng):
    """One small tree with a/b names: all patterns of up to 3 positions over {., *, +, 2} x {any, is a}."""
    import itertools
    sh = shapes(); idx = ctx.case["index"]
    par = sh[idx % len(sh)]
    n = len(par) + 1
    names = [rng.choice("ab") for _ in range(n)]
    m = gen.tree_from_parents(par, [{"name": "%s%d" % (x, i), "type": "function"} for i, x in enumerate(names)])
    gen.gen_rows(rng, m, levels=(), nanp=0)
    gf, nodes = gen.build(m)
    nid = {id(x): i for i, x in enumerate(nodes)}
    A = frozenset(range(n)); B = frozenset(i for i in range(n) if names[i] == "a")
    elems = [(q, s) for q in (".", "*", "+", 2) for s in (A, B)]
    from hatchet.query import Query
    for L in (1, 2, 3):
        pats = list(itertools.product(elems, repeat=L))
        if L == 3:
            pats = rng.sample(pats, 120)
        for pat in pats:
            q = Query()
            for k, (w, s) in enumerate(pat):
                (q.match if k == 0 else q.rel)(w, lambda r, s=s: r["nid"] in s)
            got = {nid[id(x)] for x in gf.query_engine.apply(q, gf.graph, gf.dataframe)}
            ctx.equal(got, qmodel.match_nodes(m.children, pat), "query-nodes", "nodes selected", children=m.children, pattern=[(a, sorted(b)) for a, b in pat])
            ctx.hit("queries"); ctx.hit("exhaustive")

def deep(ctx, rng):
    """Long chains and large numbers of nodes in a quantifier."""
    n = rng.randint(8, 30)
    m = gen.Model()
    for i in range(n):
        m.frames.append({"name": "d%d" % i, "type": "function"}); m.children.append([])
        if i:
            m.children[i - 1 if rng.random() < 0.85 else rng.randrange(i)].append(i)
    m.roots = [0]
    gen.gen_rows(rng, m, levels=(), nanp=0)
    gf, nodes = gen.build(m)
    nid = {id(x): i for i, x in enumerate(nodes)}
    A = frozenset(range(n))
    for _ in range(6):
        pat = [(".", frozenset({rng.randrange(max(1, n // 2))})), (rng.randint(1, 20), A if rng.random() < 0.7 else frozenset(i for i in A if rng.random() < 0.95))]
        if rng.random() < 0.5:
            pat.append((rng.choice([".", "+", 2, 5]), A))
        want = qmodel.match_nodes(m.children, pat)
        got = {nid[id(x)] for x in gf.query_engine.apply(build(rng, m, pat), gf.graph, gf.dataframe)}
        ctx.hit("queries"); ctx.hit("deep", bool(want))
        note(ctx, m, pat, want)
        ctx.equal(got, want, "query-nodes", "nodes selected", children=m.children, roots=m.roots, pattern=[(a, sorted(b)) for a, b in pat])

def focused(ctx, rng):
    """Queries that start at one certain node, so that every way into a shared part of the graph is judged by itself."""
    from hatchet.query import Query
    m, gf, nodes = gen.gen_gf(rng, kind=rng.choice(["dag", "dag", "dagforest", "tree"]), max_n=rng.choice([5, 8, 12]), levels=rng.choice([(), (), (), ("rank",)]), ragged=False)
    nid = {id(n): i for i, n in enumerate(nodes)}
    n = len(m.frames)
    A = frozenset(range(n))
    tails = [[("*", A)], [("+", A)], [(rng.choice("*+"), frozenset(i for i in A if rng.random() < 0.7))], [("*", A), (".", frozenset({rng.randrange(n)}))],
             [(".", A), ("*", A)], [(2, A), (rng.choice("*+"), A)], [("*", frozenset(i for i in A if rng.random() < 0.7)), (".", frozenset(i for i in A if rng.random() < 0.5)), ("*", A)]]
    for i in rng.sample(range(n), min(n, 6)):
        for tail in rng.sample(tails, 4):
            pat = [(".", frozenset({i}))] + tail
            want = qmodel.match_nodes(m.children, pat)
            got = {nid[id(x)] for x in gf.query_engine.apply(build(rng, m, pat), gf.graph, gf.dataframe)}
            ctx.hit("queries"); ctx.hit("focused")
            note(ctx, m, pat, want)
            ctx.equal(got, want, "query-nodes", "nodes selected", children=m.children, roots=m.roots, pattern=[(a, sorted(b)) for a, b in pat])

SCENARIOS = [("focused", focused, 375, 4000), ("deep", deep, 90, 1000), ("patterns", case, 1200, 12000), ("exhaustive", exhaustive, 32, 400)]
