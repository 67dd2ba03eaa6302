"""The profiles shipped with the repository's tests, as workloads."""
import os
from .core import REPO

DATA = os.path.join(REPO, "hatchet", "tests", "data")

def path(*p):
    return os.path.join(DATA, *p)

def _json():
    from hatchet import GraphFrame as G
    return G.from_literal(__import__("json").load(open(path("json", "hatchet-graph-literal.json"))))

# name -> (file, how, cyclic or not a plain profile)
SAMPLES = {
    "hpctoolkit-cpi": ("hpctoolkit-cpi-database", "from_hpctoolkit"),
    "caliper-cpi-json": ("caliper-cpi-json/cpi-callpath-profile.json", "from_caliper"),
    "caliper-lulesh-json": ("caliper-lulesh-json/lulesh-annotation-profile.json", "from_caliper"),
    "caliper-ordered-json": ("caliper-ordered-json/caliper-region-node-order.json", "from_caliper"),
    "caliper-dup-json": ("caliper-ordered-duplicate-json/caliper-region-dup-node-order.json", "from_caliper"),
    "caliper-lulesh-cali": ("caliper-lulesh-cali/lulesh-annotation-profile.cali", "from_caliperreader"),
    "caliper-ordered-cali": ("caliper-ordered-cali/230525-151052_1930517_eWbGeyrlBOPT.cali", "from_caliperreader"),
    "caliper-ordered-mpi": ("caliper-ordered-cali-mpi/230525-151723_1930647_FSY8b8cKSEEi.cali", "from_caliperreader"),
    "caliper-cuda": ("caliper-sw4-cuda-activity-cali/caliper_cuda_activity_profile.cali", "from_caliperreader"),
    "caliper-cuda-summary": ("caliper-sw4-cuda-activity-profile-cali/caliper_cuda_activity_profile_summary_v2.cali", "from_caliperreader"),
    "caliper-example": ("caliper-example-cali/example-profile.cali", "from_caliperreader"),
    "caliper-dup": ("caliper-ordered-duplicate/duplicate-node-order.cali", "from_caliperreader"),
    "caliper-dup-old": ("caliper-ordered-duplicate/duplicate-node-order-old.cali", "from_caliperreader"),
    "timemory": ("timemory/wall.tree.json", "from_timemory"),
    "tau": ("tau-cpi-mpi", "from_tau"),
    "gprof": ("gprof2dot-cpi/callgrind.dot.64042.0.1", "from_gprof_dot"),
    "cprofile": ("cprofile-hatchet-pstats/cprofile-cycle.pstats", "from_cprofile"),
    "pyinstrument": ("pyinstrument-hatchet-json/pyinstrument-hatchet-profile.json", "from_pyinstrument"),
    "spot-0": ("spotdb/0.cali", "from_caliperreader"),
    "timeseries": ("caliper-timeseries-cali/timeseries.cali", "from_timeseries"),
}

def load(name):
    """A new graphframe of the sample (the first interval of a time series)."""
    from hatchet import GraphFrame
    f, how = SAMPLES[name]
    if how == "from_hpctoolkit":
        import hatchet.readers.hpctoolkit_reader       # noqa
    r = getattr(GraphFrame, how)(path(*f.split("/")))
    return r[0] if isinstance(r, (list, tuple)) else r
