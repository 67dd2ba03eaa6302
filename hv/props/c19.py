from .. import gen, obs, cond
RULE = ("single-index frames with text (quotes, backslashes, braces, regex characters), float (NaN, +-inf), integer and None columns x random conditions: object dialect conjunctions over several attributes and list "
        "values, string dialect AND/OR/NOT chains, every operator; oracle evaluates the relation per node; non-trivial = some but not all nodes satisfy the filter")
REQUIRED = {"object": 2000, "string": 2000, "partial": 1500, "or": 300, "not": 300, "nan_value": 500, "inf_value": 100, "negative_constant": 200, "leaf": 100, "absent": 100, "list_value": 200, "op:re": 300,
            "op:match": 100, "op:contains": 100, "op:isnan": 50, "op:notinf": 20, "op:none": 20, "op:cmpinf": 30}
ASSUMPTIONS = ["text columns hold text for every node (a missing value in a text column is a documented type error)"]

def note(ctx, c):
    ctx.hit("op:" + c[1])
    if c[1] in ("<", ">", "=", "<=", ">=", "!=", "real") and c[2] < 0:
        ctx.hit("negative_constant")
    if c[1] in ("leaf", "notleaf"):
        ctx.hit("leaf")
    if c[0] == "ghost":
        ctx.hit("absent")

def selected(gf, nid, q):
    from hatchet.graphframe import EmptyFilter
    try:
        f = gf.filter(q, squash=False)
    except EmptyFilter:
        return set()
    return {nid[id(n)] for n in f.dataframe.index.get_level_values("node")}

def make(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest", "dag"]), unique=False, names=rng.sample(cond.TEXTS, 8), max_n=12)
    gen.gen_rows(rng, m, levels=(), extra=False)
    cond.rows(rng, m)
    gf, nodes = gen.build(m)
    for r in m.rows.values():
        if r["x"] != r["x"]: ctx.hit("nan_value")
        elif abs(r["x"]) == float("inf"): ctx.hit("inf_value")
    return m, gf, nodes, {id(n): i for i, n in enumerate(nodes)}, cond.envs(m, nodes)

def check(ctx, m, got, want, what):
    ctx.equal(got, want, "condition", "nodes satisfying %s" % (what,), rows={k[0]: {c: r[c] for c in ("x", "calls", "tag", "opt", "name")} for k, r in m.rows.items()})
    if 0 < len(want) < len(m.frames):
        ctx.hit("partial"); ctx.nontrivial(what, sorted(want))

def case_object(ctx, rng):
    from hatchet.query import ObjectQuery
    m, gf, nodes, nid, env = make(ctx, rng)
    row = {k[0]: r for k, r in m.rows.items()}
    for _ in range(6):
        cs = [cond.gen_cond(rng, m, "object") for _ in range(rng.choice([1, 1, 2, 3]))]
        d = cond.to_object(rng, cs)
        want = {i for i in row if all(cond.holds(c, env[i], row[i]) for c in cs)}
        q = rng.choice([[d], [(".", d)], [(1, d)]])
        got = selected(gf, nid, q if rng.random() < 0.6 else ObjectQuery(q))
        ctx.hit("object")
        for c in cs: note(ctx, c)
        if any(isinstance(v, (list, tuple)) for v in d.values()):
            ctx.hit("list_value")
        check(ctx, m, got, want, repr(d))
    ctx.sample({"filter": repr(d), "selected": sorted(want)})

def chain(rng, m, name, dialect="string", maxlen=4):
    """AND/OR chain with NOTs on one query node: (text, evaluator over a per-condition truth function)."""
    n = rng.choice([1, 1, 2, 2, 3, maxlen])
    parts = []
    for i in range(n):
        op = None if i == 0 else rng.choice(["AND", "OR"])
        neg = rng.random() < 0.25
        parts.append((op, neg, cond.gen_cond(rng, m, dialect, absent=False)))
    if rng.random() < 0.1:          # attributes the nodes lack: conjunctions only
        g = ("ghost", rng.choice(["=", "<"]), 1)
        parts = [(("AND" if i else None), ng, c) for i, (_, ng, c) in enumerate(parts)]
        parts.insert(rng.randint(0, n), (None, False, g))
        parts = [(("AND" if i else None), ng, c) for i, (_, ng, c) in enumerate(parts)]
    txt = " ".join(("%s " % op if op else "") + ("NOT " if ng else "") + cond.to_string(rng, name, c) for op, ng, c in parts)
    def ev(truth):
        terms, cur = [], True
        for op, ng, c in parts:
            v = truth(c) != ng
            if op == "OR":
                terms.append(cur); cur = v
            else:
                cur = cur and v
        terms.append(cur)
        return any(terms)
    return txt, ev, parts

def case_string(ctx, rng):
    from hatchet.query import StringQuery, parse_string_dialect
    m, gf, nodes, nid, env = make(ctx, rng)
    row = {k[0]: r for k, r in m.rows.items()}
    for _ in range(4):
        txt, ev, parts = chain(rng, m, "p")
        s = "MATCH (%s) WHERE %s" % (rng.choice(["p", '".", p', "1, p"]), txt)
        want = {i for i in row if ev(lambda c: bool(cond.holds_string(c, env[i], row[i])))}
        q = rng.choice([lambda: s, lambda: StringQuery(s), lambda: parse_string_dialect(s)])()
        got = selected(gf, nid, q)
        ctx.hit("string")
        for op, ng, c in parts:
            note(ctx, c)
            if op == "OR": ctx.hit("or")
            if ng: ctx.hit("not")
        check(ctx, m, got, want, s)
    ctx.sample({"query": s, "selected": sorted(want)})

SCENARIOS = [("object", case_object, 2500, 8000), ("string", case_string, 3000, 8000)]
