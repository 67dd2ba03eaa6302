from .. import gen
RULE = "pools of 6-9 random frames/nodes (equal-by-construction twins, near-twins, typed attributes); all pairs and triples; non-trivial = pool with both equal and unequal pairs"
REQUIRED = {"pairs": 2000, "triples": 5000, "equal_pairs": 200}

def rand_attrs(rng):
    a = {"name": rng.choice(["a", "b", "main", "A", "", "é", "a "])}
    if rng.random() < 0.5:
        a["type"] = rng.choice(["function", "None", "loop"])
    if rng.random() < 0.4:
        a["line"] = rng.choice([-1, 0, 1, 2, 10])
    if rng.random() < 0.3:
        a["file"] = rng.choice(["x.c", "y.c", "None"])
    if rng.random() < 0.2:
        a["zz"] = rng.choice([0.5, 1.5, 2])
    return a

def norm(a):
    a = dict(a); a.setdefault("type", "None")
    return a

def make(rng, a):
    from hatchet.frame import Frame
    items = list(a.items()); rng.shuffle(items)
    a = dict(items)
    how = rng.randrange(4)
    if how == 0:
        return Frame(a)
    if how == 1:
        return Frame(**a)
    if how == 2:
        k = rng.choice(list(a))
        rest = {x: y for x, y in a.items() if x != k}
        return Frame(rest, **{k: a[k]})
    k = rng.choice(list(a))
    return Frame(dict(a, **{k: "overridden"}), **{k: a[k]})

def frames(ctx, rng):
    attrs = [rand_attrs(rng) for _ in range(rng.randint(3, 5))]
    pool = [norm(x) for x in attrs] + [norm(rng.choice(attrs)) for _ in range(3)]
    # attrs used to construct: sometimes without the default type
    fs = []
    for a in pool:
        c = dict(a)
        if c["type"] == "None" and rng.random() < 0.5:
            del c["type"]
        fs.append(make(rng, c))
    n = len(fs)
    eqs = 0
    for i in range(n):
        ctx.equal(fs[i].attrs, pool[i], "construct", "attributes stored")
        for j in range(n):
            a, b = fs[i], fs[j]
            want = pool[i] == pool[j]
            eqs += want and i != j
            ctx.hit("pairs")
            ctx.equal(bool(a == b), want, "eq", "%r == %r" % (a, b))
            ctx.equal(bool(a != b), not want, "ne", "%r != %r" % (a, b))
            if want:
                ctx.equal(hash(a), hash(b), "hash", "%r %r" % (a, b))
            lt, gt = bool(a < b), bool(b < a)
            ctx.equal((lt, gt, want).count(True), 1, "trichotomy", "%r %r: <:%s >:%s ==:%s" % (a, b, lt, gt, want))
            ctx.equal(bool(a > b), gt, "gt", "%r > %r" % (a, b))
            ctx.equal(bool(a <= b), lt or want, "le", "%r <= %r" % (a, b))
            ctx.equal(bool(a >= b), gt or want, "ge", "%r >= %r" % (a, b))
            ta, tb = tuple(sorted(pool[i].items())), tuple(sorted(pool[j].items()))
            ctx.equal(lt, ta < tb, "sorted-attribute order", "%r < %r" % (a, b))
    for i in range(n):
        for j in range(n):
            for k in range(n):
                ctx.counters["triples"] += 1
                if fs[i] < fs[j] and fs[j] < fs[k]:
                    ctx.expect(fs[i] < fs[k], "transitive", "%r %r %r" % (fs[i], fs[j], fs[k]))
    ctx.hit("equal_pairs", eqs)
    if eqs and eqs < n * (n - 1):
        ctx.nontrivial(tuple(tuple(sorted(p.items())) for p in pool))
    ctx.equal(len(set(fs)), len({tuple(sorted(p.items())) for p in pool}), "set", "hash-set size")
    # lookups and copies
    for f, p in zip(fs, pool):
        for nm in list(p) + ["missing"]:
            ctx.equal(f.get(nm), p.get(nm), "get", nm)
            ctx.equal(f.get(nm, 7), p.get(nm, 7), "get", nm)
            ctx.equal(f.values(nm), p.get(nm), "values", nm)
            if nm in p:
                ctx.equal(f[nm], p[nm], "getitem", nm)
            else:
                ctx.raises(KeyError, lambda: f[nm], "getitem", "missing attribute")
        names = rng.sample(list(p) + ["missing"], rng.randint(1, len(p)))
        ctx.equal(f.values(names), tuple(p.get(x) for x in names), "values", str(names))
        ctx.equal(f.values(tuple(names)), tuple(p.get(x) for x in names), "values", str(names))
        c = f.copy()
        ctx.expect(c == f and hash(c) == hash(f) and c is not f, "copy", "copy differs: %r" % f)
        c.attrs["extra"] = 1
        ctx.equal(f.attrs, p, "copy-independent", "changing a copy's attributes changed the original")
        s = str(f)
        for k, v in p.items():
            ctx.expect("'%s': '%s'" % (k, v) in s, "str", "attribute %s missing from %s" % (k, s))
    from hatchet.frame import Frame
    ctx.raises(ValueError, lambda: Frame({}), "empty", "frame without attributes")
    ctx.raises(ValueError, lambda: Frame(), "empty", "frame without attributes")
    ctx.sample({"pool": pool[:3]})

def nodes(ctx, rng):
    from hatchet.node import Node
    from hatchet.frame import Frame
    ids = [rng.randint(0, 6) for _ in range(rng.randint(3, 7))]
    ns = [Node(Frame(rand_attrs(rng)), hnid=i) for i in ids]
    for a, i in zip(ns, ids):
        for b, j in zip(ns, ids):
            ctx.hit("pairs")
            ctx.equal((bool(a < b), bool(a > b), bool(a == b)), (i < j, i > j, i == j), "node-order", "%d %d" % (i, j))
            ctx.equal((bool(a <= b), bool(a >= b), bool(a != b)), (i <= j, i >= j, i != j), "node-order", "%d %d" % (i, j))
            if i == j:
                ctx.equal(hash(a), hash(b), "node-hash", "")
    ctx.equal([n._hatchet_nid for n in sorted(ns)], sorted(ids), "node-sort", "")
    p = rng.choice(ns)
    c = p.copy()
    ctx.expect(c is not p and c.frame == p.frame and c.frame is not p.frame and c.children == [] and c.parents == [], "node-copy", "")
    c.frame.attrs["x"] = 1
    ctx.expect("x" not in p.frame.attrs, "copy-independent", "node copy shares frame attributes")
    ch = Node(Frame(name="k"), parent=p)
    ctx.expect(ch.parents == [p] and ch.parents[0] is p, "node-parent", "")
    p.add_child(ch)
    ctx.expect(p.children[-1] is ch and c.children == [], "node-child", "")
    ctx.raises(AssertionError, lambda: p.add_child("x"), "node-type", "non-node child")
    ctx.equal(str(p), str(p.frame), "node-str", "")
    ctx.nontrivial("n", tuple(ids))

SCENARIOS = [("frames", frames, 6000, 20000), ("nodes", nodes, 6000, 20000)]
