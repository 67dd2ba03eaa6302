import importlib, os, shutil, tempfile, warnings
from .. import core, gen, state
from ..core import Skip
RULE = ("cases of the other properties' workloads (all readers, exporters, queries, operations, histories, parallel filters) with a monitor around every outermost public call; the damaged scenario cuts off, garbles or removes "
        "a file of the profile before it is read; oracle = the state of process, sources and arguments before the call equals the state after it, whether it returned or raised; non-trivial = a case with at least one watched call")
READERS = ["from_hpctoolkit", "from_caliper", "from_caliperreader", "from_timeseries", "from_tau", "from_timemory", "from_gprof_dot", "from_cprofile", "from_pyinstrument", "from_spotdb", "from_literal", "from_lists", "from_json", "from_hdf"]
REQUIRED = dict({"watched GraphFrame." + r: 8 for r in READERS}, calls_watched=4000, readers_watched=600, raised=60, damaged_sources=150, damage_refused=60, sources_compared=1000, objects_compared=800, children_started=100, calls_in_refusals=500, calls_in_operations=400, calls_in_histories=400)
W = {
    "readers": [("c23", "literal"), ("c23", "lists"), ("c24", "json"), ("c25", "hdf"), ("c30", "database"), ("c31", "regions"), ("c31", "callpaths"), ("c31", "query"), ("c32", "records"), ("c33", "intervals"), ("c34", "directories"),
                ("c35", "trees"), ("c36", "callgraphs"), ("c37", "synthesised"), ("c37", "profiler"), ("c38", "synthesised"), ("c39", "database"), ("c39", "dataset")],
    "damaged": [("c25", "hdf"), ("c30", "database"), ("c31", "regions"), ("c31", "callpaths"), ("c32", "records"), ("c33", "intervals"), ("c34", "directories"), ("c35", "trees"), ("c36", "callgraphs"), ("c37", "synthesised"),
                ("c38", "synthesised")],
    "operations": [("c05", None), ("c06", None), ("c07", "schedule"), ("c07", "fault"), ("c08", None), ("c09", None), ("c10", None), ("c11", None), ("c12", None), ("c13", "quotient"), ("c14", None), ("c15", None), ("c18", "patterns"), ("c19", None), ("c20", None), ("c21", None),
                   ("c22", "expressions"), ("c26", None), ("c27", None), ("c28", None), ("c29", None)],
    "refusals": [("c42", "errors")],
    "histories": [("c16", None), ("c17", None)],
}
WARM = []

def errors(ctx, rng):
    """Calls that have to fail, on every part of the library."""
    from hatchet import GraphFrame
    from hatchet.node import Node
    from hatchet.frame import Frame
    from hatchet.query import ObjectQuery, StringQuery, Query
    m, gf, nodes = gen.gen_gf(rng, max_n=8)
    gf2 = gen.gen_gf(rng, max_n=6)[1]
    d = ctx.tmpdir()
    def bad(r):
        if rng.random() < 0.5:
            raise ValueError("bad row")
        return r["no such column"] > 0
    missing = os.path.join(d, "nothing")
    calls = [
        lambda: gf.filter(bad, num_procs=rng.choice([2, 3])), lambda: gf.filter(bad, num_procs=1), lambda: gf.filter(lambda r: False, num_procs=rng.choice([1, 2])), lambda: gf.filter(3.5), lambda: gf.filter([]),
        lambda: gf.filter([("*", {"name": 3})]), lambda: gf.filter([("*", {"time": "> x y"})]), lambda: gf.filter('MATCH (".", p) WHERE p."time" >'), lambda: gf.filter('MATCH (".", p) WHERE q."time" > 1'),
        lambda: gf.filter([(-1.5, {"name": "a"})]), lambda: ObjectQuery([3.5]), lambda: StringQuery("nonsense"), lambda: Query().match(".", lambda r: bad(r)),
        lambda: gf.tree(metric_column="nope"), lambda: gf.tree(colormap="nope"), lambda: gf.tree(context_column="nope", annotation_column="nope"), lambda: gf.tree(rank=99, thread=99),
        lambda: gf.to_dot(metric="nope"), lambda: gf.to_flamegraph(metric="nope"), lambda: gf.to_dot(rank=99), lambda: gf.to_flamegraph(name="nope"),
        lambda: gf.to_hdf(os.path.join(missing, "x.h5")), lambda: gf.to_hdf(os.path.join(d, "x.h5"), mode="nope"), lambda: GraphFrame.from_hdf(missing), lambda: GraphFrame.from_json("{"), lambda: GraphFrame.from_json('{"graph": 1}'),
        lambda: GraphFrame.from_hpctoolkit(d), lambda: GraphFrame.from_hpctoolkit(missing), lambda: GraphFrame.from_caliper(missing + ".json"), lambda: GraphFrame.from_caliperreader(missing + ".cali"), lambda: GraphFrame.from_caliperreader(missing),
        lambda: GraphFrame.from_timeseries(missing + ".cali"), lambda: GraphFrame.from_tau(d), lambda: GraphFrame.from_timemory(missing), lambda: GraphFrame.from_timemory(missing + ".json"), lambda: GraphFrame.from_timemory(3),
        lambda: GraphFrame.from_gprof_dot(missing), lambda: GraphFrame.from_cprofile(missing), lambda: GraphFrame.from_pyinstrument(missing), lambda: GraphFrame.from_literal([{"frame": {}}]), lambda: GraphFrame.from_literal([{"frame": {"name": "a"}}]),
        lambda: GraphFrame.from_literal([{"frame": {"name": "a", "type": "f"}, "metrics": {"time": 1.0}, "children": [{"frame": {"name": "b"}}]}]), lambda: GraphFrame.from_lists(["a", 3]),
        lambda: gf + 3, lambda: gf - gf2.dataframe, lambda: gf / None, lambda: gf * "x", lambda: gf.add(None), lambda: gf.unify(None), lambda: gf.groupby_aggregate({"x": 1}, {"nope": "sum"}), lambda: gf.groupby_aggregate(None, None),
        lambda: gf.drop_index_levels(function="nope"), lambda: gf.drop_index_levels(lambda x: bad(x)), lambda: gf.subtree_sum(["nope"]), lambda: gf.subgraph_sum(["time"], ["a", "b"]), lambda: gf.calculate_inclusive_metrics(["nope"]),
        lambda: gf.generate_exclusive_columns(["nope"]), lambda: list(gf.graph.traverse(order="nope")), lambda: gf.graph.union(None), lambda: Frame(), lambda: Frame({}), lambda: Node(Frame(name="a")).path(attrs="nope"), lambda: gf.show_metric_columns(3),
        lambda: gf.to_dict(3), lambda: gf.to_literal(3), lambda: gf.squash(1, 2, 3),
    ]
    for f in rng.sample(calls, 12):
        try:
            f()
        except Exception:
            ctx.hit("refused_calls")

HIDDEN = [("errors", errors)]

def warm_up(ctx):
    """Import and run once what the library imports lazily: imports may change filters and options."""
    WARM.append(1)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):       # set by ./check, so that workers do not multiply threads; read once
        os.environ.pop(v, None)
    import hatchet, numpy, pandas
    for m in ("IPython", "tables", "caliperreader", "pydot", "multiprocess", "pstats", "hatchet.readers.hpctoolkit_reader", "hatchet.readers.caliper_native_reader", "hatchet.readers.spotdb_reader", "hatchet.readers.tau_reader",
              "hatchet.readers.timemory_reader", "hatchet.readers.gprof_dot_reader", "hatchet.readers.pyinstrument_reader", "hatchet.readers.cprofile_reader", "hatchet.readers.hdf5_reader", "hatchet.writers.hdf5_writer", "pyinstrument"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    state.install()
    s0 = state.settings()
    for kind in sorted(W):
        if kind != "damaged":
            for mod, scen in W[kind]:
                m = importlib.import_module("hv.props." + mod)
                c = core.Ctx(mod.upper(), 99, "quick")
                core.run_case(c, scen or m.SCENARIOS[0][0], dict((s[0], s[1]) for s in m.SCENARIOS + getattr(m, "HIDDEN", []))[scen or m.SCENARIOS[0][0]], 0)
    s1 = state.settings()
    for key in s0:
        ctx.expect(s0[key] == s1[key], "state:" + key.replace(" ", "-"), "one of the first calls changed the %s" % key, before=s0[key], after=s1[key])

def watch(ctx, rng, kind):
    if not WARM:
        warm_up(ctx)
    mod, scen = rng.choice(W[kind])
    m = importlib.import_module("hv.props." + mod)
    if scen is None:
        scen = rng.choice([s[0] for s in m.SCENARIOS])
    q = (mod, scen, ctx.seed, rng.randrange(10 ** 6))
    d = ctx.tmpdir()
    old, cwd = tempfile.tempdir, os.getcwd()
    work = os.path.join(d, "cwd")
    os.mkdir(work)
    inner = core.Ctx(mod.upper(), ctx.seed, "quick")
    before = ctx.counters["calls_watched"]
    tempfile.tempdir = d
    os.chdir(work)
    state.SEEN, state.DEPTH[0], state.DAMAGE[0] = ctx, 0, rng if kind == "damaged" else None
    del state.FOUND[:]
    try:
        core.run_case(inner, scen, dict((s[0], s[1]) for s in m.SCENARIOS + getattr(m, "HIDDEN", []))[scen], q[3])
    finally:
        state.SEEN = state.DAMAGE[0] = None
        tempfile.tempdir = old
        os.chdir(cwd)
    for v in state.FOUND:
        raise core.Violation(v.key, "%s, in case %s" % (v.msg, q), v.detail)
    calls = ctx.counters["calls_watched"] - before
    ctx.hit("workload_" + mod); ctx.hit("calls_in_" + kind, calls)
    if calls:
        ctx.nontrivial(*q)
    ctx.sample({"case": q, "watched_calls": calls})

SCENARIOS = [(k, (lambda k: lambda ctx, rng: watch(ctx, rng, k))(k), *n) for k, n in {"readers": (1400, 9000), "damaged": (800, 6000), "operations": (1000, 8000), "refusals": (160, 2000), "histories": (120, 1200)}.items()]
