import warnings
from .. import gen, obs, cond, qmodel
from . import c19
RULE = ("random patterns (1-4 positions, every quantifier, 0-2 conditions each) written as object-dialect list, string, base query built with match/rel and compatibility classes, raw and constructed, on single and "
        "multi-index frames; all forms compared with each other and with the automaton oracle; non-trivial = some but not all nodes selected")
REQUIRED = {"patterns": 800, "forms": 6000, "partial": 150, "multi_index": 250, "rejected_form": 50, "unnamed_position": 150, "int_quantifier": 150, "shuffled": 200}

def pattern(rng, m, env, per, mode):
    """Conditions most nodes satisfy are preferred: otherwise longer patterns match nothing."""
    def one():
        best = None
        for _ in range(rng.choice([1, 3, 6])):
            c = cond.gen_cond(rng, m, "both", absent=False)
            if c[:2] == ("depth", "=") and c[2] == -1:
                continue        # means "leaf" in the string dialect only
            k = sum(cond.over_rows(cond.holds, c, env[i], per[i], mode) for i in per)
            if best is None or k > best[0]:
                best = (k, c)
        return best[1] if best else ("depth", "leaf", None)
    pat = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        q = rng.choice([".", ".", "*", "*", "+", 1, 2])
        n = rng.choice([0, 1, 1, 1, 2])
        pat.append((q, [one() for _ in range(n)]))
    return pat

def to_list(rng, pat):
    out = []
    for q, cs in pat:
        if not cs and rng.random() < 0.7:
            out.append(q)
        elif q in (".", 1) and cs and rng.random() < 0.5:
            out.append(cond.to_object(rng, cs))
        else:
            out.append((q, cond.to_object(rng, cs)))
    return out

def to_text(ctx, rng, pat):
    pos, conds = [], []
    for k, (q, cs) in enumerate(pat):
        w = q if isinstance(q, int) else rng.choice(['"%s"', "'%s'"]) % q
        if isinstance(q, int):
            ctx.hit("int_quantifier")
        name = "p%d" % k
        if not cs and rng.random() < 0.6:
            pos.append("(%s)" % w); ctx.hit("unnamed_position")
        elif q == "." and rng.random() < 0.5:
            pos.append("(%s)" % name)
        else:
            pos.append("(%s, %s)" % (w, name))
        conds += [(k, cond.to_string(rng, name, c)) for c in cs]
    if rng.random() < 0.5:              # conditions may come in any order
        rng.shuffle(conds)
        ctx.hit("shuffled", [k for k, c in conds] != sorted(k for k, c in conds))
    conds = [c for k, c in conds]
    return "MATCH " + rng.choice(["->", " -> "]).join(pos) + ((" WHERE " + " AND ".join(conds)) if conds else "")

def base(cls, pat, sets, nid, multi):
    q = cls()
    for k, (w, _) in enumerate(pat):
        def pred(r, s=sets[k]):
            n = r.index.get_level_values("node")[0] if multi else r.name
            return nid[id(n)] in s
        (q.match if k == 0 else q.rel)(w, pred)
    return q

def setup(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "tree", "forest", "dag"]), unique=False, names=rng.sample(cond.TEXTS, 6), max_n=10)
    gen.gen_rows(rng, m, levels=rng.choice([(), (), ("rank",), ("rank", "thread")]), extra=False)
    cond.rows(rng, m)
    gf, nodes = gen.build(m)
    per = {}
    for (i, c), r in m.rows.items():
        per.setdefault(i, []).append(r)
    return m, gf, {id(n): i for i, n in enumerate(nodes)}, cond.envs(m, nodes), per, rng.choice(["any", "all"])

def sets_of(pat, env, per, mode):
    return [frozenset(i for i in per if all(cond.over_rows(cond.holds, c, env[i], per[i], mode) for c in cs)) for _, cs in pat]

def case(ctx, rng):
    from hatchet.query import ObjectQuery, StringQuery, parse_string_dialect, Query, QueryMatcher, CypherQuery, parse_cypher_query
    m, gf, nid, env, per, mode = setup(ctx, rng)
    multi = bool(m.levels)
    kw = {"multi_index_mode": mode} if multi else {}
    for _ in range(2):
        pat = pattern(rng, m, env, per, mode)
        sets = sets_of(pat, env, per, mode)
        lst, txt = to_list(rng, pat), to_text(ctx, rng, pat)
        forms = {
            "list": lambda: gf.filter(lst, squash=False, **kw),
            "ObjectQuery": lambda: gf.filter(ObjectQuery(lst, **kw), squash=False),
            "base": lambda: gf.filter(base(Query, pat, sets, nid, multi), squash=False),
            "matcher": lambda: gf.filter(base(QueryMatcher, pat, sets, nid, multi), squash=False),
            "matcher.apply": lambda: base(QueryMatcher, pat, sets, nid, multi).apply(gf),
            "string": lambda: gf.filter(txt, squash=False, **kw),
            "StringQuery": lambda: gf.filter(StringQuery(txt, **kw), squash=False),
            "parse": lambda: gf.filter(parse_string_dialect(txt, **kw), squash=False),
        }
        if not multi:
            forms.update({
                "QueryMatcher(list)": lambda: gf.filter(QueryMatcher(lst), squash=False),
                "QueryMatcher(list).apply": lambda: QueryMatcher(lst).apply(gf),
                "CypherQuery": lambda: gf.filter(CypherQuery(txt), squash=False),
                "parse_cypher": lambda: parse_cypher_query(txt).apply(gf),
            })
        want = qmodel.match_nodes(m.children, [(w, s) for (w, _), s in zip(pat, sets)])
        for name, fn in forms.items():
            from hatchet.graphframe import EmptyFilter
            try:
                r = fn()
                got = {nid[id(n)] for n in (r if isinstance(r, list) else r.dataframe.index.get_level_values("node"))}
            except EmptyFilter:
                got = set()
            ctx.hit("forms")
            ctx.equal(got, want, "dialect:" + name.split(".")[0], "nodes selected by form %s" % name, list=repr(lst), text=txt, mode=mode if multi else None, children=m.children)
        ctx.hit("patterns")
        if multi: ctx.hit("multi_index")
        if 0 < len(want) < len(m.frames):
            ctx.hit("partial"); ctx.nontrivial(txt, sorted(want))
    ctx.sample({"list": repr(lst), "string": txt, "selected": sorted(want)})

def rejected(ctx, rng):
    """Malformed queries are rejected with the documented errors, in every dialect."""
    from hatchet.query import ObjectQuery, StringQuery, Query, QueryMatcher, InvalidQueryPath, InvalidQueryFilter
    m, gf, nid, env, per, mode = setup(ctx, rng)
    ctx.raises(InvalidQueryPath, lambda: Query().rel("."), "reject:rel-first", "rel before match")
    ctx.raises(InvalidQueryPath, lambda: ObjectQuery([rng.choice([["name", "a"], 3.5, None])]), "reject:element", "bad list element")
    ctx.raises(InvalidQueryPath, lambda: ObjectQuery([({"a": 1}, {"x": 1})]), "reject:wildcard", "bad wildcard")
    ctx.raises(InvalidQueryPath, lambda: StringQuery(rng.choice(["MATCH", "MATCH (p) WHERE", 'MATCH (p) WHERE p."x"', 'WHERE p."x" = 1', 'MATCH (p) p."x" = 1'])), "reject:syntax", "bad syntax")
    kw = {"multi_index_mode": mode} if m.levels else {}
    for d in ({"tag": 5}, {"x": "foo"}, {"depth": "foo"}, {"node_id": "bar"}):
        ctx.raises(InvalidQueryFilter, lambda: gf.filter([d], squash=False, **kw), "reject:type", "filter %r" % d)
    ctx.raises(AssertionError, lambda: ObjectQuery(["."], multi_index_mode="foo"), "reject:mode", "bad mode")
    q = Query().match("*").rel(2); n = len(q)
    ctx.equal(n, 3, "query-length", "len(query)")
    ctx.equal(len(q.match("+")), 2, "query-reset", "match resets the pattern")
    ctx.hit("rejected_form", 9)

SCENARIOS = [("forms", case, 675, 6000), ("rejected", rejected, 36, 200)]
