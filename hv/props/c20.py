from .. import gen, obs, cond
from . import c19
RULE = ("multi-index frames (rank, thread, both; regular and ragged; one or several rows per node) whose rows differ within a node x random conditions x mode any/all x dialect; oracle evaluates the condition per row and "
        "quantifies, connectives combining quantified conditions; non-trivial = any and all differ for the query")
REQUIRED = {"object": 1500, "string": 1500, "any_all_differ": 600, "mode:any": 800, "mode:all": 800, "off_rejected": 150, "compound_text": 100, "op:re": 200, "op:real": 100, "op:isnan": 50, "op:notnan": 15, "op:notinf": 15, "leaf": 100}
ASSUMPTIONS = c19.ASSUMPTIONS

def make(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest", "dag"]), unique=False, names=rng.sample(cond.TEXTS, 8), max_n=10)
    gen.gen_rows(rng, m, levels=rng.choice([("rank",), ("thread",), ("rank", "thread")]), extra=False)
    cond.rows(rng, m)
    gf, nodes = gen.build(m)
    per = {}
    for (i, c), r in m.rows.items():
        per.setdefault(i, []).append(r)
    return m, gf, nodes, {id(n): i for i, n in enumerate(nodes)}, cond.envs(m, nodes), per

def note(ctx, per, pick, mode, txt):
    w = {md: {i for i in per if pick(i, md)} for md in ("any", "all")}
    ctx.hit("mode:" + mode)
    if w["any"] != w["all"]:
        ctx.hit("any_all_differ"); ctx.nontrivial(txt, sorted(w["any"]), sorted(w["all"]))
    return w[mode]

def selected(gf, nid, q, **kw):
    from hatchet.graphframe import EmptyFilter
    try:
        f = gf.filter(q, squash=False, **kw)
    except EmptyFilter:
        return set()
    return {nid[id(n)] for n in f.dataframe.index.get_level_values("node")}

def case_object(ctx, rng):
    from hatchet.query import ObjectQuery
    from hatchet.query.errors import MultiIndexModeMismatch
    m, gf, nodes, nid, env, per = make(ctx, rng)
    for _ in range(5):
        cs = [cond.gen_cond(rng, m, "object") for _ in range(rng.choice([1, 1, 2]))]
        d = cond.to_object(rng, cs)
        mode = rng.choice(["any", "all"])
        want = note(ctx, per, lambda i, md: all(cond.over_rows(cond.holds, c, env[i], per[i], md) for c in cs), mode, repr(d))
        got = selected(gf, nid, [d], multi_index_mode=mode) if rng.random() < 0.5 else selected(gf, nid, ObjectQuery([d], multi_index_mode=mode))
        ctx.hit("object")
        for c in cs: c19.note(ctx, c)
        ctx.equal(got, want, "quantification-object", "nodes with %s rows satisfying %r" % (mode, d), rows={k: {c: r[c] for c in ("x", "calls", "tag", "name")} for k, r in m.rows.items()})
        if rng.random() < 0.2:
            q = rng.choice([lambda: gf.filter([d], squash=False), lambda: gf.filter(ObjectQuery([d]), squash=False), lambda: gf.filter([d], multi_index_mode="off")])
            ctx.raises(MultiIndexModeMismatch, q, "mode-off", "mode off on multi-index data")
            ctx.hit("off_rejected")
    ctx.sample({"filter": repr(d), "mode": mode, "selected": sorted(want)})

def case_string(ctx, rng):
    from hatchet.query import StringQuery, parse_string_dialect
    from hatchet.query.errors import MultiIndexModeMismatch, InvalidQueryFilter
    m, gf, nodes, nid, env, per = make(ctx, rng)
    for _ in range(4):
        txt, ev, parts = c19.chain(rng, m, "p", maxlen=3)
        s = "MATCH (p) WHERE " + txt
        mode = rng.choice(["any", "all"])
        pick = lambda i, md: ev(lambda c: cond.over_rows(cond.holds_string, c, env[i], per[i], md))
        if rng.random() < 0.25:
            txt2, ev2, _ = c19.chain(rng, m, "p", maxlen=2)
            s = "MATCH (p) WHERE {%s} OR {%s}" % (txt, txt2) if rng.random() < 0.5 else "{MATCH (p) WHERE %s} OR {MATCH (p) WHERE %s}" % (txt, txt2)
            pick = lambda i, md: ev(lambda c: cond.over_rows(cond.holds_string, c, env[i], per[i], md)) or ev2(lambda c: cond.over_rows(cond.holds_string, c, env[i], per[i], md))
            ctx.hit("compound_text")
        want = note(ctx, per, pick, mode, s)
        q = rng.choice([lambda: selected(gf, nid, s, multi_index_mode=mode), lambda: selected(gf, nid, parse_string_dialect(s, multi_index_mode=mode))]
                       + ([lambda: selected(gf, nid, StringQuery(s, mode))] if "OR {" not in s else []))
        got = q()
        ctx.hit("string")
        for op, ng, c in parts: c19.note(ctx, c)
        ctx.equal(got, want, "quantification-string", "nodes with %s rows satisfying %s" % (mode, s), rows={k: {c: r[c] for c in ("x", "calls", "tag", "opt", "name")} for k, r in m.rows.items()})
        if rng.random() < 0.2:
            ctx.raises((MultiIndexModeMismatch, InvalidQueryFilter), lambda: gf.filter('MATCH (p) WHERE p."tag" = "a"', squash=False), "mode-off-string", "mode off on multi-index data")
            ctx.hit("off_rejected")
    ctx.sample({"query": s, "mode": mode, "selected": sorted(want)})

SCENARIOS = [("object", case_object, 800, 6000), ("string", case_string, 800, 6000)]
