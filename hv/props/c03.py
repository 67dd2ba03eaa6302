import random
from .. import gen, obs
RULE = "random graphs with distinct sibling frames vs (a) re-built shuffled twins, (b) every kind of single-point edit, (c) unrelated graphs; oracle = canonical form (set of per-node path sets); non-trivial = >=3 nodes"
REQUIRED = {"twins": 300, "edits": 1000, "unequal": 500, "sharing_edits": 20, "retargets": 100}

def clone(m, rng=None):
    c = gen.Model()
    c.frames = [dict(f) for f in m.frames]
    c.children = [list(x) for x in m.children]
    c.roots = list(m.roots)
    if rng:
        for x in c.children:
            rng.shuffle(x)
        rng.shuffle(c.roots)
    return c

def permuted(m, rng):
    n = len(m.frames); p = list(range(n)); rng.shuffle(p)
    c = gen.Model()
    c.frames = [None] * n; c.children = [None] * n
    for i in range(n):
        c.frames[p[i]] = dict(m.frames[i])
        c.children[p[i]] = [p[x] for x in m.children[i]]
        rng.shuffle(c.children[p[i]])
    c.roots = [p[r] for r in m.roots]; rng.shuffle(c.roots)
    return c

def valid(m):
    def uniq(xs):
        ks = [m.key(x) for x in xs]
        return len(set(ks)) == len(ks)
    return uniq(m.roots) and all(uniq(c) for c in m.children) and bool(m.roots)

def reachable(m):
    s = set()
    for r in m.roots:
        s |= m.desc(r)
    return s

def edits(m, rng):
    n = len(m.frames)
    i = rng.randrange(n)
    c = clone(m); c.frames[i] = dict(c.frames[i], name="edited"); yield "rename", c
    c = clone(m); c.frames[i] = dict(c.frames[i], type="loop2"); yield "retype", c
    c = clone(m); c.frames[i] = dict(c.frames[i], extra=1); yield "extra-attr", c
    c = clone(m); c.frames.append({"name": "added", "type": "function"}); c.children.append([]); c.children[i].append(n); yield "add-leaf", c
    c = clone(m); c.frames.append({"name": "added", "type": "function"}); c.children.append([]); c.roots.append(n); yield "add-root", c
    withkids = [x for x in range(n) if m.children[x]]
    if withkids:
        c = clone(m); p = rng.choice(withkids); c.children[p].pop(rng.randrange(len(c.children[p]))); yield "drop-edge", c
        c = clone(m); p = rng.choice(withkids); k = c.children[p].pop(rng.randrange(len(c.children[p])))
        q = rng.randrange(n)
        if q != p and q not in m.desc(k) and k not in c.children[q]:
            c.children[q].append(k); yield "move-edge", c
        p = rng.choice(withkids); k = rng.choice(m.children[p])
        if len(m.parents()[k]) > 1:       # split sharing: give p its own copy of k
            c = clone(m)
            mp = {}
            for d in m.desc(k):
                mp[d] = len(c.frames); c.frames.append(dict(m.frames[d])); c.children.append(None)
            for d, e in mp.items():
                c.children[e] = [mp[x] for x in m.children[d]]
            c.children[p][c.children[p].index(k)] = mp[k]
            yield "split-sharing", c
    # retarget an edge to another node of equal frame (changes only which node is shared)
    opts = [(p, k, k2) for p in range(n) for k in m.children[p] for k2 in range(n)
            if k2 != k and m.key(k2) == m.key(k) and k2 not in m.children[p] and p not in m.desc(k2) and k2 not in m.roots]
    if opts:
        p, k, k2 = rng.choice(opts)
        c = clone(m); c.children[p][c.children[p].index(k)] = k2; yield "retarget", c
    if len(m.roots) > 1:
        c = clone(m); c.roots.pop(); yield "drop-root", c
    # swap two frames
    j = rng.randrange(n)
    if m.key(i) != m.key(j):
        c = clone(m); c.frames[i], c.frames[j] = c.frames[j], c.frames[i]; yield "swap", c

def cmp(ctx, ga, gb, want, key, what):
    for x, y in ((ga, gb), (gb, ga)):
        ctx.equal(bool(x == y), want, key, "%s: expected equal=%s" % (what, want))
        ctx.equal(bool(x != y), not want, key, "%s: != inconsistent with ==" % what)

def case(ctx, rng):
    m = gen.gen_graph(rng, rich=rng.random() < 0.5, max_n=rng.choice([4, 8, 16]))
    ca = obs.model_canon(m)
    g, _ = gen.build_graph(m)
    if len(m.frames) >= 3:
        ctx.nontrivial(m.shape_sig())
    cmp(ctx, g, g, True, "reflexive", "self")
    for _ in range(2):
        t, _n = gen.build_graph(permuted(m, rng))
        ctx.hit("twins")
        cmp(ctx, g, t, True, "twin", "same structure built in another order")
    for kind, c in edits(m, rng):
        live = reachable(c)
        if not valid(c):
            continue
        h, _n = gen.build_graph(prune(c))
        want = obs.model_canon(prune(c)) == ca
        ctx.hit("edits")
        if not want:
            ctx.hit("unequal")
        if kind == "split-sharing":
            ctx.hit("sharing_edits")
        cmp(ctx, g, h, want, "edit:" + kind, "edit %s of %s" % (kind, m.shape_sig()))
    o = gen.gen_graph(rng, max_n=6, names=["a", "b"])
    p = gen.gen_graph(rng, max_n=6, names=["a", "b"])
    ho, _ = gen.build_graph(o); hp, _ = gen.build_graph(p)
    cmp(ctx, ho, hp, obs.model_canon(o) == obs.model_canon(p), "pair", "unrelated pair %s / %s" % (o.shape_sig(), p.shape_sig()))
    ctx.sample({"shape": m.shape_sig()})

def prune(m):
    live = sorted(reachable(m)); mp = {x: i for i, x in enumerate(live)}
    c = gen.Model()
    c.frames = [m.frames[x] for x in live]
    c.children = [[mp[y] for y in m.children[x]] for x in live]
    c.roots = [mp[r] for r in m.roots]
    return c

def retarget(ctx, rng):
    """DAGs in which an edge is moved between two equal-looking shared nodes."""
    m = gen.Model()
    def add(name, parents):
        m.frames.append({"name": name, "type": "function"}); m.children.append([])
        for p in parents:
            m.children[p].append(len(m.frames) - 1)
        return len(m.frames) - 1
    root = add("r", []); m.roots = [root]
    k = rng.randint(3, 6)
    mids = [add("m%d" % i, [root]) for i in range(k)]
    tw = rng.randint(2, 3)
    groups = [[] for _ in range(tw)]
    for i, x in enumerate(mids):
        groups[i if i < tw else rng.randrange(tw)].append(x)
    twins = [add("x", gr) for gr in groups]
    for t in twins:
        if rng.random() < 0.5:
            add("leaf", [t])
    c = clone(m)
    movable = [(p, t) for t, gr in zip(twins, groups) for p in gr]
    p, t = rng.choice(movable)
    t2 = rng.choice([x for x in twins if x != t])
    c.children[p][c.children[p].index(t)] = t2
    c = prune(c)
    a, _ = gen.build_graph(m); b, _ = gen.build_graph(permuted(c, rng)); b2, _ = gen.build_graph(permuted(m, rng))
    want = obs.model_canon(m) == obs.model_canon(c)
    ctx.hit("retargets"); ctx.nontrivial(m.shape_sig(), c.shape_sig())
    cmp(ctx, a, b2, True, "twin", "same DAG")
    cmp(ctx, a, b, want, "edit:retarget", "shared node swapped for an equal-looking one: %s / %s" % (m.shape_sig(), c.shape_sig()))

def small(ctx, rng):
    """All pairs from a pool of tiny graphs over two names."""
    pool = [gen.gen_graph(rng, n=rng.randint(1, 4), names=["a", "b", "c"]) for _ in range(8)]
    built = [gen.build_graph(m)[0] for m in pool]
    cs = [obs.model_canon(m) for m in pool]
    for i in range(8):
        for j in range(8):
            want = cs[i] == cs[j]
            ctx.hit("twins" if want else "unequal")
            ctx.equal(bool(built[i] == built[j]), want, "pair", "%s / %s" % (pool[i].shape_sig(), pool[j].shape_sig()))
    ctx.nontrivial("s", tuple(m.shape_sig() for m in pool))

SCENARIOS = [("edits", case, 5000, 15000), ("retarget", retarget, 1000, 4000), ("small", small, 1000, 4000)]
