import functools, warnings
from .. import gen, obs, cond, qmodel
from . import c21
RULE = ("random expression trees (depth <= 3; and/or/xor of 2-3 operands, not) over random path queries in any dialect, rendered as classes, operators, compatibility classes and brace strings (nested and WHERE-group "
        "form), single and multi-index; oracle = set algebra over the automaton's result for each leaf; non-trivial = result neither empty nor all nodes and different from every leaf's")
REQUIRED = {"class": 700, "operator": 700, "compat": 400, "braces": 300, "where_braces": 200, "nontrivial": 150, "op:and": 500, "op:or": 500, "op:xor": 500, "op:not": 500, "nary3": 300, "multi_index": 200, "arity_errors": 20}
OPS = {"and": lambda rs: functools.reduce(lambda a, b: a & b, rs), "or": lambda rs: functools.reduce(lambda a, b: a | b, rs), "xor": lambda rs: functools.reduce(lambda a, b: a ^ b, rs)}

def expr(rng, d, allow_not=True):
    """('leaf', k) | (op, [args]) with leaves numbered later."""
    r = rng.random()
    if d == 0 or r < 0.15:
        return ["leaf", None]
    if allow_not and r < 0.35:
        return ["not", [expr(rng, d - 1)]]
    return [rng.choice(["and", "or", "xor"]), [expr(rng, d - 1, allow_not) for _ in range(rng.choice([2, 2, 3]))]]

def leaves(e):
    return [e] if e[0] == "leaf" else [x for a in e[1] for x in leaves(a)]

def value(e, allset):
    if e[0] == "leaf": return e[1]["want"]
    if e[0] == "not": return allset - value(e[1][0], allset)
    return OPS[e[0]]([value(a, allset) for a in e[1]])

def case(ctx, rng):
    from hatchet import query as Q
    from hatchet.graphframe import EmptyFilter
    m, gf, nid, env, per, mode = c21.setup(ctx, rng)
    multi = bool(m.levels)
    kw = {"multi_index_mode": mode} if multi else {}
    e = expr(rng, rng.choice([1, 2, 2, 3]))
    while e[0] == "leaf":
        e = expr(rng, 2)
    for lf in leaves(e):
        if rng.random() < 0.5:
            pat = [(rng.choice([".", ".", "*", "+", 1]), []) for _ in range(rng.choice([1, 1, 2]))]
            sets = [frozenset(i for i in per if rng.random() < 0.7) for _ in pat]
            lf[1] = {"pat": pat, "sets": sets, "only_base": True}
        else:
            pat = c21.pattern(rng, m, env, per, mode)[:2]
            lf[1] = {"pat": pat, "sets": c21.sets_of(pat, env, per, mode), "only_base": False}
        lf[1]["want"] = qmodel.match_nodes(m.children, [(w, s) for (w, _), s in zip(lf[1]["pat"], lf[1]["sets"])])
    allset = set(range(len(m.frames)))
    want = value(e, allset)
    def leaf(l, flavour):
        if l["only_base"]:
            return c21.base(Q.QueryMatcher if flavour == "compat" and rng.random() < 0.5 else Q.Query, l["pat"], l["sets"], nid, multi)
        lst = c21.to_list(rng, l["pat"]); txt = c21.to_text(ctx, rng, l["pat"])
        opts = [lambda: Q.ObjectQuery(lst, **kw), lambda: Q.StringQuery(txt, **kw), lambda: Q.parse_string_dialect(txt, **kw)]
        if not multi:
            if flavour != "operator":
                opts += [lambda: lst, lambda: txt]
            if flavour in ("compat", "compat-op"):
                opts += [lambda: Q.QueryMatcher(lst), lambda: Q.CypherQuery(txt), lambda: Q.parse_cypher_query(txt)]
        if flavour == "compat-op":
            opts = [lambda: Q.QueryMatcher(lst), lambda: Q.CypherQuery(txt), lambda: Q.parse_cypher_query(txt)]
        return rng.choice(opts)()
    NEW = {"and": Q.ConjunctionQuery, "or": Q.DisjunctionQuery, "xor": Q.ExclusiveDisjunctionQuery, "not": Q.NegationQuery}
    OLD = {"and": [Q.AndQuery, Q.IntersectionQuery], "or": [Q.OrQuery, Q.UnionQuery], "xor": [Q.XorQuery, Q.SymDifferenceQuery], "not": [Q.NotQuery]}
    def render(e, flavour):
        if e[0] == "leaf":
            return leaf(e[1], flavour)
        args = [render(a, flavour) for a in e[1]]
        if flavour == "class":
            return NEW[e[0]](*args) if rng.random() < 0.8 or len(args) < 2 else NEW[e[0]](tuple(args))
        if flavour == "compat":
            return rng.choice(OLD[e[0]])(*args)
        if e[0] == "not":
            return ~args[0]
        return functools.reduce({"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}[e[0]], args)
    def observe(q, what, use_apply=False):
        try:
            if use_apply:
                got = {nid[id(n)] for n in q.apply(gf)}
            else:
                got = {nid[id(n)] for n in gf.filter(q, squash=False).dataframe.index.get_level_values("node")}
        except EmptyFilter:
            got = set()
        ctx.hit(what)
        ctx.equal(got, want, "compound:" + what, "nodes of compound query", expression=sketch(e), leaves=[(l[1]["pat"], sorted(l[1]["want"])) for l in leaves(e)], all=len(allset))
    def tally(e):
        if e[0] != "leaf":
            ctx.hit("op:" + e[0])
            if len(e[1]) > 2: ctx.hit("nary3")
            for a in e[1]: tally(a)
    tally(e)
    if multi: ctx.hit("multi_index")
    observe(render(e, "class"), "class")
    observe(render(e, "operator"), "operator")
    q = render(e, "compat")
    observe(q, "compat", use_apply=rng.random() < 0.4)
    if not multi and not any(l[1]["only_base"] for l in leaves(e)):
        observe(render(e, "compat-op"), "compat-op", use_apply=rng.random() < 0.4)
    if want and want != allset and all(want != l[1]["want"] for l in leaves(e)):
        ctx.hit("nontrivial"); ctx.nontrivial(sketch(e), sorted(want), [sorted(l[1]["want"]) for l in leaves(e)])
    ctx.sample({"expression": sketch(e), "selected": sorted(want), "leaves": [sorted(l[1]["want"]) for l in leaves(e)]})

def sketch(e):
    return "leaf" if e[0] == "leaf" else "%s(%s)" % (e[0], ", ".join(sketch(a) for a in e[1]))

def braces(ctx, rng):
    """Brace strings: chains of regions (left-associative), nested, over whole queries or WHERE groups."""
    from hatchet import query as Q
    from hatchet.graphframe import EmptyFilter
    m, gf, nid, env, per, mode = c21.setup(ctx, rng)
    kw = {"multi_index_mode": mode} if m.levels else {}
    sp = lambda: rng.choice(["", " ", "\n "])
    def fold(rs, ops):
        r = rs[0]
        for o, x in zip(ops, rs[1:]):
            r = OPS[o]([r, x])
        return r
    def whole(d):
        """(text, set) of a query text without outer braces."""
        r = rng.random()
        if d == 0 or r < 0.25:
            pat = c21.pattern(rng, m, env, per, mode)[:2]
            s = c21.sets_of(pat, env, per, mode)
            return c21.to_text(ctx, rng, pat), qmodel.match_nodes(m.children, [(w, x) for (w, _), x in zip(pat, s)])
        if r < 0.55:
            return where_group()
        n = rng.choice([1, 2, 2, 3]); ops = [rng.choice(["and", "or", "xor"]) for _ in range(n - 1)]
        parts = [whole(d - 1) for _ in range(n)]
        txt = "{%s%s%s}" % (sp(), parts[0][0], sp())
        for o, p in zip(ops, parts[1:]):
            txt += "%s%s%s{%s%s%s}" % (rng.choice([" ", "\n"]), o.upper(), sp(), sp(), p[0], sp())
        ctx.hit("braces")
        return txt, fold([p[1] for p in parts], ops)
    def where_group():
        q = [rng.choice([".", ".", "*", "+", 1]) for _ in range(rng.choice([1, 2, 3]))]
        names = ["p%d" % k for k in range(len(q))]
        path = "->".join("(%s, %s)" % (w if isinstance(w, int) else '"%s"' % w, nm) for w, nm in zip(q, names))
        n = rng.choice([1, 2, 2, 3]); ops = [rng.choice(["and", "or", "xor"]) for _ in range(n - 1)]
        txts, res = [], []
        for _ in range(n):
            k = rng.randrange(len(q))
            from . import c19
            t, ev, parts = c19.chain(rng, m, names[k], maxlen=2)
            sets = [frozenset(per)] * len(q)
            sets[k] = frozenset(i for i in per if ev(lambda c: cond.over_rows(cond.holds_string, c, env[i], per[i], mode)))
            txts.append("{%s%s%s}" % (sp(), t, sp()))
            res.append(qmodel.match_nodes(m.children, list(zip(q, sets))))
        txt = "MATCH %s WHERE %s" % (path, txts[0])
        for o, t in zip(ops, txts[1:]):
            txt += " %s %s" % (o.upper(), t)
        ctx.hit("where_braces")
        return txt, fold(res, ops)
    txt, want = whole(rng.choice([1, 2, 3]))
    forms = [lambda: gf.filter(txt, squash=False, **kw), lambda: gf.filter(Q.parse_string_dialect(txt, **kw), squash=False)]
    if not m.levels:
        forms += [lambda: gf.filter(Q.CypherQuery(txt), squash=False), lambda: gf.filter(Q.parse_cypher_query(txt), squash=False)]
    for fn in rng.sample(forms, 2):
        try:
            got = {nid[id(n)] for n in fn().dataframe.index.get_level_values("node")}
        except EmptyFilter:
            got = set()
        ctx.equal(got, want, "compound:braces", "nodes of brace query", text=txt, children=m.children)
    if 0 < len(want) < len(m.frames):
        ctx.nontrivial(txt, sorted(want)); ctx.hit("braces_partial")
    ctx.sample({"text": txt, "selected": sorted(want)})

def arity(ctx, rng):
    from hatchet import query as Q
    for c in (Q.ConjunctionQuery, Q.DisjunctionQuery, Q.ExclusiveDisjunctionQuery, Q.AndQuery, Q.OrQuery, Q.XorQuery):
        ctx.raises(Q.BadNumberNaryQueryArgs, lambda: c(["*"]), "arity", "%s with one operand" % c.__name__)
    ctx.raises(Q.BadNumberNaryQueryArgs, lambda: Q.NegationQuery(["*"], ["."]), "arity", "NegationQuery with two operands")
    ctx.raises(TypeError, lambda: Q.ConjunctionQuery(["*"], 5), "arity", "operand that is no query")
    ctx.hit("arity_errors", 8)

SCENARIOS = [("expressions", case, 1125, 10000), ("braces", braces, 750, 6000), ("arity", arity, 8, 16)]
