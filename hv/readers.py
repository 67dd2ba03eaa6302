"""Comparison of a graphframe produced by a reader with the profile it was synthesised from."""
from . import obs
from .core import Violation

def match(ctx, gf, m, frames=None, ident=None):
    """Bijection model node -> Node by walking both trees from the roots.  frames[i]: expected frame
    attributes.  Siblings are matched by frame; siblings with equal frames by
    `ident(i) == ident_of(node)` where ident = (model ident fn, node ident fn)."""
    frames = frames or m.frames
    key = lambda a: tuple(sorted({**{"type": "None"}, **a}.items(), key=lambda kv: kv[0]))
    to = {}
    def pair(ids, nodes, where):
        ctx.equal(sorted(map(str, (key(frames[i]) for i in ids))), sorted(map(str, (obs.attrs_key(n) for n in nodes))), "reader-tree", "frames below %s" % where)
        left = list(nodes)
        for i in ids:
            cands = [n for n in left if obs.attrs_key(n) == key(frames[i])]
            if len(cands) > 1 and ident:
                c2 = [n for n in cands if ident[1](n) == ident[0](i)]
                ctx.expect(len(c2) == 1, "reader-tree", "%d nodes of %d equal-frame siblings below %s match %r" % (len(c2), len(cands), where, ident[0](i)))
                cands = c2
            n = cands[0]
            left.pop([id(x) for x in left].index(id(n)))
            if i in to:
                ctx.expect(to[i] is n, "reader-share", "node %d was read as two nodes" % i)
                continue
            ctx.expect(id(n) not in {id(x) for x in to.values()}, "reader-split", "two recorded nodes became one: %r" % n)
            to[i] = n
            pair(m.children[i], n.children, "%s/%s" % (where, n.frame.attrs.get("name", n)))
    pair(m.roots, gf.graph.roots, "")
    ctx.hit("read_nodes", len(to))
    return to

def rows(ctx, gf, to, levels, want, columns=None, key="reader-value"):
    """want: {(model node, index tuple): {column: value}}; exactly these rows, these values."""
    ctx.equal(list(gf.dataframe.index.names), ["node"] + list(levels), "reader-index", "index levels")
    back = {id(n): i for i, n in to.items()}
    got = obs.rows_by(gf, lambda n: back.get(id(n), "foreign"))
    ctx.equal(set(got), set(want), "reader-rows", "rows")
    for k, r in want.items():
        for c, v in r.items():
            ctx.expect(c in got[k], "reader-columns", "no column %r in %s" % (c, list(got[k])))
            ctx.equal(got[k][c], v, key, "%s of %s" % (c, k))
            ctx.hit("read_values")
    if columns is not None:
        ctx.equal(set(gf.dataframe.columns), set(columns), "reader-columns", "columns")
    return got

def metrics(ctx, gf, exc, inc):
    ctx.equal((sorted(gf.exc_metrics), sorted(gf.inc_metrics)), (sorted(exc), sorted(inc)), "reader-metrics", "exclusive and inclusive metrics")
