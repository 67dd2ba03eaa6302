import os
from .. import gen, obs
RULE = ("gprof2dot DOT files written from random call graphs: several roots, shared callees, recursion (direct and through others), labels with and without module and call count, names with templates, spaces and "
        "escaped quotes, both quoting styles; oracle = the written call graph; non-trivial = >=4 functions")
REQUIRED = {"files": 200, "several_roots": 30, "shared_callees": 40, "recursive": 40, "self_recursive_root": 10, "cycles": 12, "no_module": 60, "no_calls": 60, "quoted_names": 40, "read_values": 900, "single_function": 5}
NAMES = ["main", "(below main)", "0x0000000000000ff0", "std::vector<int, std::allocator<int> >::push_back(int&&)", "operator new[](unsigned long)", "_dl_start", "foo'2", "a b", "dlopen@@GLIBC_2.2.5", "x=y", "[heap]",
         'operator"" _s(char const*)', 'f("x")', "main()", "MPI_Init", "f;g", "f -> g", "a{b}", "100%", "ünï", "it's", "a|b", "<cycle 1>", "f,g", "#1", "//c", "a.b.c", "3d"]

def esc(s):
    return s.replace('"', '\\"')

def graph(ctx, rng, max_n):
    """Random call graph with a root above everything: (functions, {caller: [callees]}, roots)."""
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "dag", "dag", "forest"]), max_n=max_n)
    n = len(m.frames)
    kids = [list(dict.fromkeys(k)) for k in m.children]
    par = {c for k in kids for c in k}
    roots = [i for i in range(n) if i not in par]
    ctx.hit("several_roots", len(roots) > 1); ctx.hit("shared_callees", any(sum(c in k for k in kids) > 1 for c in range(n)))
    if rng.random() < 0.35:
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(n)
            if i not in kids[i]:
                kids[i].append(i)
                ctx.hit("recursive"); ctx.hit("self_recursive_root", i in roots)
    if rng.random() < 0.3:                       # recursion through other functions, below some root
        inner = [i for i in range(n) if i not in roots]
        for _ in range(2):
            if len(inner) > 1:
                a, b = rng.sample(inner, 2)
                if b not in kids[a] and a in reach(kids, b):
                    kids[a].append(b)
                    ctx.hit("cycles")
    return n, kids, roots

def reach(kids, i):
    seen, todo = {i}, [i]
    while todo:
        for c in kids[todo.pop()]:
            if c not in seen:
                seen.add(c); todo.append(c)
    return seen

def compare(ctx, gf, n, kids, roots, key_of, ident):
    """Nodes, edges, roots and rows of a call graph against the written one; ident(node, row) -> key."""
    selfroot = any(r in kids[r] for r in roots)
    ns = obs.nodes_of(gf.graph)
    df = gf.dataframe
    ctx.equal(list(df.index.names), ["node"], "call-index", "index levels")
    ctx.expect(not df.index.has_duplicates, "call-rows", "duplicate rows")
    by = {}
    for nd, row in zip(df.index, df.to_dict("records")):
        k = ident(nd, row)
        ctx.expect(k not in by, "call-rows", "two rows for function %r" % (k,))
        by[k] = (nd, row)
    ctx.equal(set(by), {key_of(i) for i in range(n)}, "call-functions", "functions with a row")
    node = [by[key_of(i)][0] for i in range(n)]
    ids = {id(x): i for i, x in enumerate(node)}
    ctx.equal({id(x) for x in ns}, set(ids), "call-nodes", "nodes of the graph")
    for i in range(n):
        ctx.equal(sorted(ids.get(id(c), -1) for c in node[i].children), sorted(kids[i]), "call-edges", "callees of %r" % (key_of(i),))
        ctx.equal(sorted(ids.get(id(p), -1) for p in node[i].parents), sorted(j for j in range(n) if i in kids[j]), "call-edges", "callers of %r" % (key_of(i),))
    ctx.equal(sorted(ids[id(r)] for r in gf.graph.roots), sorted(roots), "call-roots", "roots")
    if not selfroot:
        obs.check_gf(ctx, gf, "call graph", every_node_has_rows=True)
    ctx.hit("read_values", n)
    return [by[key_of(i)] for i in range(n)]

def case(ctx, rng):
    from hatchet import GraphFrame
    n, kids, roots = graph(ctx, rng, rng.choice([1, 4, 9, 16]))
    ctx.hit("single_function", n == 1)
    names = rng.sample(NAMES, min(n, rng.randint(1, len(NAMES))))
    while len(names) < n:
        x = "fn_%d" % len(names)
        names.append(x)
    rng.shuffle(names)
    ctx.hit("quoted_names", any('"' in x for x in names))
    modules, calls = rng.random() < 0.6, rng.random() < 0.6
    ctx.hit("no_module", not modules); ctx.hit("no_calls", not calls)
    def ident(x):
        if x.isalnum() and x.isascii() and not x[0].isdigit() and x not in ("graph", "node", "edge") and rng.random() < 0.7:
            return x
        return '"%s"' % esc(x)
    want, stm = {}, []
    for i, x in enumerate(names):
        inc = rng.choice([rng.randint(0, 10000) / 100, 100.0, 0.0])
        exc = rng.choice([inc, rng.randint(0, int(inc * 100)) / 100, 0.0])
        mod = rng.choice(["libc-2.17.so", "a.out", "lib psm.so"]) if modules and rng.random() < 0.9 else None
        lab = ([mod] if mod else []) + [esc(x), "%.2f%%" % inc, "(%.2f%%)" % exc] + (["%d\u00d7" % rng.randint(0, 400)] if calls and rng.random() < 0.9 else [])
        want[x] = (mod, round(inc, 2), round(exc, 2))
        decl = '\t%s [color="#0d1074", fontcolor="#ffffff", fontsize="10.00", label="%s"];' % (ident(x), "\\n".join(lab))
        stm.append((i, decl))
    edges = [(None, '\t%s -> %s [arrowsize="0.35", color="#0d1074", label="0.79%%\\n1\u00d7", penwidth="0.50"];' % (ident(names[a]), ident(names[b]))) for a in range(n) for b in kids[a]]
    order = stm + edges
    if rng.random() < 0.5:
        rng.shuffle(order)
    head = ['digraph {', '\tgraph [fontname=Arial, nodesep=0.125, ranksep=0.25];', '\tnode [fontcolor=white, fontname=Arial, height=0, shape=box, style=filled, width=0];', '\tedge [fontname=Arial];']
    f = os.path.join(ctx.tmpdir(), rng.choice(["g.dot", "callgrind.dot.1.0"]))
    with open(f, "w", encoding="utf-8") as fh:
        fh.write("\n".join(head + [s for _, s in order] + ["}"]) + "\n")
    gf = GraphFrame.from_gprof_dot(f)
    ctx.hit("files")
    rows = compare(ctx, gf, n, kids, roots, lambda i: names[i], lambda nd, row: row["name"])
    for (nd, row), x in zip(rows, names):
        ctx.equal(nd.frame.attrs, {"type": "function", "name": x}, "gprof-frame", "frame of %r" % x)
        mod = row.get("module")
        ctx.equal((None if mod != mod else mod, row["time (inc)"], row["time"]), want[x], "gprof-value", "module, inclusive and exclusive time of %r" % x)
    ctx.equal((gf.exc_metrics, gf.inc_metrics), (["time"], ["time (inc)"]), "gprof-metrics", "metrics")
    if n >= 4:
        ctx.nontrivial(n, kids, names)
    ctx.sample({"functions": names, "calls": kids, "roots": roots})

SCENARIOS = [("callgraphs", case, 1200, 6000)]
