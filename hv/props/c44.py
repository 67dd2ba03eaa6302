"""Failing and interrupted calls leave what they were given as it was."""
import os, sys, threading, types
from .. import core, det, gen, obs
from ..core import Skip
RULE = ("every operation that returns something new (filters, squash, copies, union, arithmetic, group-by, queries, exporters) runs once undisturbed on random graphframes, then again with an exception (KeyboardInterrupt or MemoryError) raised "
        "at a random line event inside the library, then undisturbed again; in-place operations get invalid arguments; oracle = deep snapshots of all operands before and after, and equality of the first and the last result; "
        "non-trivial = an interruption that reached the caller")
REQUIRED = {"interruptions": 1500, "lines_hit": 300, "repeated": 300, "refusals": 400, "snapshots": 2000}

class Boom:
    """Raises an exception at the n-th line event in the library."""
    def __init__(self, n, exc):
        self.n, self.exc, self.seen, self.at = n, exc, 0, None
    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "/hatchet/" not in f or "/tests/" in f:
            return None
        return self.line
    def line(self, frame, event, arg):
        if event == "line":
            self.seen += 1
            if self.seen == self.n:
                self.at = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc("injected")
        return self.line

def run(f, boom):
    sys.settrace(boom.trace)
    try:
        return f()
    finally:
        sys.settrace(None)

def operations(ctx, rng, gf, gf2, names):
    from hatchet import query as Q
    from hatchet.graph import Graph
    t = sorted(x for x in gf.dataframe["time"].tolist() if x == x) or [0.0]
    cut = rng.choice(t)
    name = rng.choice(names)
    sq = rng.random() < 0.6
    def pred(r):
        return r["time"] >= cut
    mode = {"multi_index_mode": rng.choice(["all", "any"])} if gf.dataframe.index.nlevels > 1 else {}
    q1, q2 = [("*", {"name": name})], ["*", {"time": ">= %r" % cut}]
    st = 'MATCH ("*")->(".", p) WHERE p."name" = "%s" OR p."time" > %r' % (name, cut)
    d = ctx.tmpdir()
    ops = {
        "filter": lambda: gf.filter(pred, num_procs=1, squash=sq), "filter-object": lambda: gf.filter(q1, num_procs=1, squash=sq, **mode), "filter-string": lambda: gf.filter(st, num_procs=1, squash=sq, **mode),
        "compound": lambda: gf.filter(Q.ObjectQuery(q1, **mode) | ~Q.ObjectQuery(q2, **mode), num_procs=1, squash=False), "squash": lambda: gf.squash(), "copy": lambda: gf.copy(), "deepcopy": lambda: gf.deepcopy(),
        "graph-copy": lambda: gf.graph.copy(), "union": lambda: gf.graph.union(gf2.graph), "add": lambda: gf + gf2, "sub": lambda: gf - gf2, "mul": lambda: gf * gf2, "div": lambda: gf / gf2,
        "apply": lambda: sorted(n._hatchet_nid for n in gf.query_engine.apply(Q.ObjectQuery(q1, **mode), gf.graph, gf.dataframe)), "equality": lambda: (gf.graph == gf2.graph, gf.graph == gf.graph.copy()),
        "tree": lambda: gf.tree(), "dot": lambda: gf.to_dot(), "flamegraph": lambda: gf.to_flamegraph(), "literal": lambda: gf.to_literal(), "dict": lambda: gf.to_dict(), "json": lambda: gf.to_json(),
        "hdf": lambda: gf.to_hdf(os.path.join(d, "x%d.h5" % rng.randrange(10 ** 9))), "traverse": lambda: [n._hatchet_nid for n in gf.graph.traverse(order="post")],
    }
    if gf.dataframe.index.nlevels == 1:
        ops["groupby"] = lambda: gf.groupby_aggregate("name", "sum" if False else {"time": "sum"})
    return ops

def interrupted(ctx, rng):
    names = rng.sample(gen.NAMES, rng.choice([2, 4, 6]))
    kind = rng.choice(["tree", "tree", "forest", "dag"])
    m, gf, nodes = gen.gen_gf(rng, kind=kind, max_n=7, names=names, unique=kind == "dag" or rng.random() < 0.6, ordered=0.1)
    m2, gf2, nodes2 = gen.gen_gf(rng, kind=rng.choice(["tree", "forest"]), max_n=6, names=names, unique=True, levels=m.levels)
    ops = operations(ctx, rng, gf, gf2, names)
    label = rng.choice(sorted(ops))
    f = ops[label]
    b1, b2 = obs.snap(gf), obs.snap(gf2)
    count = Boom(0, KeyboardInterrupt)
    try:
        first = run(f, count)
        want = det.text("\n".join(det.show(first)))
    except Exception as e:              # an empty filter, an impossible operation
        want = "raised " + type(e).__name__
    obs.expect_unchanged(ctx, b1, gf, "interrupt-mutates", "%s without interruption" % label)
    n = count.seen
    if not n:
        raise Skip()
    for _ in range(8):
        exc = rng.choice([KeyboardInterrupt, MemoryError])
        b = Boom(rng.randint(1, n), exc)
        try:
            run(f, b)
            out = "returned"
        except exc:
            out = "raised"
        except Exception as e:
            out = type(e).__name__
        ctx.hit("interruptions"); ctx.hit("reached_caller", out == "raised")
        if b.at:
            LINES.add(b.at)
            if out == "raised":
                ctx.nontrivial(label, b.at)
        for who, g, before in (("left operand", gf, b1), ("right operand", gf2, b2)):
            obs.expect_unchanged(ctx, before, g, "interrupt-mutates", "%s interrupted by %s at %s: %s" % (label, exc.__name__, b.at, who))
    ctx.counters["lines_hit"] = len(LINES)
    try:
        again = det.text("\n".join(det.show(f())))
    except Exception as e:
        again = "raised " + type(e).__name__
    ctx.equal(again, want, "interrupt-repeat", "%s after interruptions" % label)
    ctx.hit("repeated"); ctx.hit("op_" + label)
    ctx.sample({"operation": label, "line_events": n, "nodes": len(nodes)})

LINES = set()

def refused(ctx, rng):
    """In-place operations with invalid arguments."""
    m, gf, nodes = gen.gen_gf(rng, kind=rng.choice(["tree", "forest", "dag"]), max_n=7, unique=True)
    other = gen.gen_gf(rng, max_n=5, levels=m.levels)[1]
    def bad(x):
        raise ValueError("injected")
    calls = {
        "subtree_sum unknown": lambda: gf.subtree_sum(["nope"]), "subtree_sum lengths": lambda: gf.subtree_sum(["time"], ["a", "b"]), "subtree_sum lengths 2": lambda: gf.subtree_sum(["time", "time (inc)"], ["a"]),
        "subgraph_sum unknown": lambda: gf.subgraph_sum(["time", "nope"], ["time", "x"]), "subgraph_sum lengths": lambda: gf.subgraph_sum(["time"], ["a", "b"]),
        "iadd number": lambda: gf.__iadd__(3), "isub none": lambda: gf.__isub__(None), "imul text": lambda: gf.__imul__("x"), "idiv frame": lambda: gf.__idiv__(other.dataframe), "unify none": lambda: gf.unify(None), "unify graph": lambda: gf.unify(other.graph),
        "drop unknown": lambda: gf.drop_index_levels(function="nope"), "drop raising": lambda: gf.drop_index_levels(function=bad),
        "update without column": lambda: (gf.exc_metrics.append("nope"), gf.update_inclusive_columns()), "generate without column": lambda: (gf.inc_metrics.append("nope (inc)"), gf.generate_exclusive_columns()),
    }
    label = rng.choice(sorted(calls))
    if "without column" in label:
        if "update" in label:
            gf.exc_metrics.append("nope")
            f = gf.update_inclusive_columns
        else:
            gf.inc_metrics.append("nope (inc)")
            f = gf.generate_exclusive_columns
    else:
        f = calls[label]
    b, b2 = obs.snap(gf), obs.snap(other)
    try:
        f()
    except Exception as e:
        ctx.hit("refusals"); ctx.hit("refused " + label)
        obs.expect_unchanged(ctx, b, gf, "refusal-mutates", "%s raised %s" % (label, type(e).__name__))
        obs.expect_unchanged(ctx, b2, other, "refusal-mutates", "%s raised %s" % (label, type(e).__name__))

SCENARIOS = [("interrupted", interrupted, 700, 8000), ("refused", refused, 900, 5000)]
