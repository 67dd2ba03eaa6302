from .. import gen, obs
from ..core import Violation
RULE = "random trees, forests, DAGs (<=40 nodes, distinct or repeated sibling frames, shuffled child order); non-trivial = >=3 nodes with at least one branching or shared node"
REQUIRED = {"traversals": 500, "shared_nodes": 100, "forests": 50, "node_order": 30}

def ref_dfs(roots, key, order):
    seen, out = set(), []
    def go(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        if order == "pre":
            out.append(n)
        for c in sorted(n.children, key=key):
            go(c)
        if order == "post":
            out.append(n)
    for r in sorted(roots, key=key):
        go(r)
    return out

def fk(n):
    return obs.attrs_key(n)

def ids(xs):
    return [id(x) for x in xs]

def one(ctx, rng, unique):
    m = gen.gen_graph(rng, unique=unique, rich=True, max_n=rng.choice([3, 8, 20, 40]))
    g, nodes = gen.build_graph(m)
    ns = obs.check_graph(ctx, g)
    par = m.parents()
    shared = [i for i in range(len(nodes)) if len(par[i]) > 1]
    ctx.hit("shared_nodes", len(shared))
    if len(m.roots) > 1:
        ctx.hit("forests")
    if len(nodes) >= 3 and (shared or any(len(c) > 1 for c in m.children)):
        ctx.nontrivial(m.shape_sig())
    ctx.equal(len(g), len(nodes), "len", "len(graph)", spec=m.shape_sig())
    is_tree = len(m.roots) == 1 and not shared
    ctx.equal(bool(g.is_tree()), is_tree, "is_tree", "is_tree", spec=m.shape_sig())
    snap = obs.snap_graph(g)
    for order in ("pre", "post"):
        got = list(g.traverse(order=order))
        check_order(ctx, got, g.roots, ns, order, unique, "graph", m)
        # in-degree bookkeeping
        visited = {}
        list(g.traverse(order=order, visited=visited))
        indeg = sorted([len(par[i]) + (1 if i in m.roots else 0) for i in range(len(nodes))])
        ctx.equal(sorted(visited.values()), indeg, "visited", "in-degrees stored while traversing")
        v2 = {}
        for r in g.roots[:1]:
            a = list(r.traverse(order=order, visited=v2))
            b = list(g.traverse(order=order, visited=v2))
            ctx.equal(sorted(ids(a + b)), sorted(ids(ns)), "visited-shared", "a shared visited dict suppresses repeats")
        sub = nodes[rng.randrange(len(nodes))]
        subgot = list(sub.traverse(order=order))
        subns = ref_dfs([sub], fk, order)
        check_order(ctx, subgot, [sub], subns, order, unique, "node", m)
        ctx.hit("traversals", 3)
        # attribute extraction follows the same order
        if unique:
            attr = rng.choice(["name", "type", "file", "nope"])
            ctx.equal(list(g.traverse(order=order, attrs=attr)), [n.frame.attrs.get(attr) for n in got], "attrs", "single attribute")
            al = rng.sample(["name", "type", "file", "line", "nope"], 2)
            ctx.equal(list(g.traverse(order=order, attrs=al)), [tuple(n.frame.attrs.get(x) for x in al) for n in got], "attrs", "attribute list")
    ctx.expect(obs.diff(snap, obs.snap_graph(g)) is None, "traverse-mutates", "traversal changed the graph")
    got = list(g.traverse())
    if unique:
        ctx.equal([n._hatchet_nid for n in got], list(range(len(got))), "numbering", "ids follow preorder")
        g.enumerate_traverse()
        ctx.equal([n._hatchet_nid for n in got], list(range(len(got))), "numbering", "renumbering is idempotent")
    # paths
    want = {}
    def go(i, p):
        p = p + (id(nodes[i]),)
        want.setdefault(i, []).append(p)
        for c in m.children[i]:
            go(c, p)
    for r in m.roots:
        go(r, ())
    from hatchet.node import MultiplePathError
    for i, nd in enumerate(nodes):
        gotp = sorted(tuple(id(x) for x in p) for p in nd.paths())
        ctx.equal(gotp, sorted(want[i]), "paths", "paths() of %r" % nd)
        if len(want[i]) == 1:
            ctx.equal(tuple(id(x) for x in nd.path()), want[i][0], "path", "path()")
        else:
            ctx.raises(MultiplePathError, nd.path, "path-multi", "path() of a node with several paths")
        if is_tree or not shared:
            ctx.equal(nd._depth, len(want[i][0]) - 1, "depth", "depth of %r" % nd)
    for o in ("in", "", "PRE"):
        ctx.raises(ValueError, lambda: list(g.traverse(order=o)), "order-arg", "bad order")
        ctx.raises(ValueError, lambda: list(g.node_order_traverse(order=o)), "order-arg", "bad order")
    ctx.sample({"frames": m.frames[:4], "children": m.children, "roots": m.roots})

def check_order(ctx, got, roots, ns, order, unique, what, m):
    ctx.equal(sorted(ids(got)), sorted(ids(ns)), "once", "%s %s traversal must yield each node exactly once" % (what, order), spec=m.shape_sig())
    if unique:
        ctx.equal(ids(got), ids(ref_dfs(roots, fk, order)), "order", "%s %s order" % (what, order), spec=m.shape_sig())
        return
    pos = {id(n): i for i, n in enumerate(got)}
    inside = set(pos)
    for n in got:
        if order == "pre" and not any(n is r for r in roots):
            ctx.expect(any(pos[id(p)] < pos[id(n)] for p in n.parents if id(p) in inside), "order", "pre: no parent before node")
        if order == "post":
            for c in n.children:
                ctx.expect(pos[id(c)] < pos[id(n)], "order", "post: child after parent")
        if all(len(c.parents) == 1 for c in n.children):
            ks = [fk(c) for c in sorted(n.children, key=lambda c: pos[id(c)])]
            ctx.equal(ks, sorted(ks), "sibling-order", "siblings in sorted frame order")

def unique_case(ctx, rng):
    one(ctx, rng, True)

def dup_case(ctx, rng):
    one(ctx, rng, False)

def node_order_case(ctx, rng):
    from hatchet.graph import Graph
    m = gen.gen_graph(rng, rich=True, max_n=25, unique=rng.random() < 0.7)
    N = len(m.frames)
    order = rng.sample(range(3 * N), N)
    m.node_order = order
    from hatchet.node import Node
    from hatchet.frame import Frame
    nodes = [Node(Frame(dict(f)), hnid=order[i]) for i, f in enumerate(m.frames)]
    for i, cs in enumerate(m.children):
        for c in cs:
            nodes[i].add_child(nodes[c]); nodes[c].add_parent(nodes[i])
    g = Graph([nodes[r] for r in m.roots])
    g.node_ordering = True
    num = {id(nodes[i]): order[i] for i in range(N)}
    key = lambda n: num[id(n)]
    pre = ref_dfs(g.roots, key, "pre"); post = ref_dfs(g.roots, key, "post")
    ctx.equal(ids(g.node_order_traverse()), ids(pre), "node-order", "node-order preorder", order=order)
    ctx.equal(ids(g.node_order_traverse(order="post")), ids(post), "node-order", "node-order postorder", order=order)
    sub = nodes[rng.randrange(N)]
    ctx.equal(ids(sub.node_order_traverse()), ids(ref_dfs([sub], key, "pre")), "node-order", "node-order of a subgraph")
    ctx.equal(list(g.node_order_traverse(attrs="name")), [n.frame.attrs.get("name") for n in pre], "node-order", "attrs")
    v = {}
    list(g.node_order_traverse(visited=v))
    par = m.parents()
    ctx.equal(sorted(v.values()), sorted(len(par[i]) + (i in m.roots) for i in range(N)), "visited", "in-degrees (node order)")
    g.enumerate_traverse()
    ctx.equal([n._hatchet_nid for n in pre], list(range(N)), "node-order-numbering", "numbering follows the node-order column")
    ctx.equal(ids(g.node_order_traverse()), ids(pre), "node-order", "same order after renumbering")
    ctx.equal(sorted(ids(g.traverse())), sorted(ids(pre)), "once", "frame-order traversal of a node-order graph")
    obs.check_graph(ctx, g)
    ctx.hit("node_order"); ctx.hit("traversals", 4)
    if N >= 3:
        ctx.nontrivial("no", m.shape_sig(), order)

SCENARIOS = [("distinct", unique_case, 7500, 30000), ("repeated", dup_case, 4000, 15000), ("node_order", node_order_case, 3000, 12000)]
