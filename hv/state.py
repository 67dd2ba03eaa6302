"""What a call may not change: the state of the process and of what it was given (C42).

A monitor wraps the public entry points of the library and compares, around every outermost call,
open files, child processes, threads, temporary files, working directory, environment, module path,
warning filters, options and random states, signal handlers, the files a reader was pointed to and
the plain Python objects it was given."""
import functools, gc, hashlib, importlib, inspect, os, random, signal, sys, tempfile, threading, time, warnings

from . import core

SEEN = None             # ctx while a case is monitored
DEPTH = [0]
DAMAGE = [None]         # rng: damage what a reader is pointed to, before it reads

class Done(Exception):
    pass

def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        # multiprocessing keeps its (already unlinked) shared-memory arenas to use them again
        if not t.startswith(("/proc/self/fd", "/proc/%d/fd" % os.getpid(), "/dev/shm/pym-")):
            out[int(f)] = t
    return out

def children():
    out = set()
    for t in os.listdir("/proc/self/task"):
        try:
            out.update(open("/proc/self/task/%s/children" % t).read().split())
        except OSError:
            pass
    return out

def settings():
    import numpy as np, pandas as pd
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "module path": list(sys.path),
        "warning filters": list(warnings.filters),
        "NumPy error state": np.geterr(),
        "NumPy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "pandas options": {k: repr(pd.get_option(k)) for k in OPTIONS},
        "random state": hash(random.getstate()),
        "NumPy random state": hashlib.sha1(repr([x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state()]).encode()).hexdigest(),
        "signal handlers": {s: repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE)},
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "umask": umask(),
        "garbage collector": gc.isenabled(),
        "profile and trace functions": [repr(sys.getprofile()), repr(sys.gettrace())],
    }

def umask():
    m = os.umask(0)
    os.umask(m)
    return m

OPTIONS = ["mode.chained_assignment", "mode.use_inf_as_na", "mode.copy_on_write", "mode.string_storage", "compute.use_numexpr", "compute.use_bottleneck", "display.max_rows", "display.max_columns", "display.max_colwidth",
           "display.width", "display.precision", "display.expand_frame_repr", "display.float_format", "display.min_rows", "io.hdf.default_format", "io.hdf.dropna_table"]

def listing(path, depth=0):
    """Content of a file or directory: {relative path: hash}."""
    if os.path.isfile(path):
        return {"": (os.stat(path).st_mode, hashlib.sha1(open(path, "rb").read()).hexdigest())}
    out = {}
    for d, ds, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out[os.path.relpath(p, path)] = (os.stat(p).st_mode, hashlib.sha1(open(p, "rb").read()).hexdigest())
        for s in ds:
            out[os.path.relpath(os.path.join(d, s), path) + "/"] = ()
    return out

def plain(x, depth=0):
    """Comparable picture of lists, dictionaries and reader objects given to a call, else None."""
    if depth > 60:
        return "..."
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return ["dict"] + [(repr(k), plain(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return repr(x)
    if type(x).__name__ == "CaliperReader":
        return [plain(x.records, 1), plain(x.globals, 1)]
    if type(x).__module__.startswith("pandas") and hasattr(x, "columns"):
        return [list(map(str, x.columns)), list(map(str, x.dtypes)), [repr(i) for i in x.index[:50]], x.shape]
    return type(x).__name__

def near(path):
    """The directory in which a call might leave something behind: that of the given file."""
    d = path if os.path.isdir(path) else os.path.dirname(os.path.abspath(path))
    return d

def damage(rng, path):
    """Cut off or garble one file; returns what was done, or None."""
    files = [path] if os.path.isfile(path) else sorted(os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs)
    if not files:
        return None
    f = rng.choice(files)
    b = open(f, "rb").read()
    if not b:
        return None
    k = rng.randrange(len(b))
    how = rng.choice(["cut", "cut", "gone", "empty"] if f.endswith(("-db", ".h5", ".hdf")) else ["cut", "cut", "garbled", "swapped", "empty", "gone"])
    if how == "cut":
        b = b[:k]
    elif how == "garbled":
        b = b[:k] + bytes(rng.choice(b'{}[]",:<>= 0aZ\n') for _ in range(rng.randint(1, 4))) + b[k + rng.randint(0, 4):]
    elif how == "swapped":
        b = b[:k] + b[k:][::-1][:40] + b[k + 40:]
    elif how == "empty":
        b = b""
    if how == "gone":
        os.unlink(f)
    else:
        open(f, "wb").write(b)
    return "%s (%s at %d)" % (os.path.basename(f), how, k)

FOUND = []
FORKS = [0]

def guard(ctx, label, f, a, k):
    try:
        return guarded(ctx, label, f, a, k)
    except core.Violation as v:
        if v.key.startswith("state:"):
            FOUND.append(v)
        raise

OUT = ("old_to_new", "visited")     # parameters through which a call returns something

def bound(f, a, k):
    """Identities of the objects given for output parameters."""
    try:
        b = inspect.signature(f).bind(*a, **k).arguments
    except (TypeError, ValueError):
        return set()
    return {id(b[n]) for n in OUT if n in b}

def guarded(ctx, label, f, a, k):
    """Call f and compare everything before and after it."""
    args = list(a) + list(k.values())
    reader = ".from_" in label
    names = bound(f, a, k)
    ins = [x for x in args if id(x) not in names and (isinstance(x, (list, dict, tuple)) or type(x).__name__ == "CaliperReader")]
    paths = [x for x in args if isinstance(x, str) and len(x) < 400 and os.path.isabs(x) and os.path.exists(x) and x.startswith(tempfile.gettempdir() + "/")]
    hurt = None
    if reader and DAMAGE[0] is not None:
        if not paths:
            raise core.Skip()
        hurt = damage(DAMAGE[0], paths[0])
        if hurt is None:
            raise core.Skip()
    before_files = {p: listing(near(p)) for p in paths if reader}
    before_in = [plain(x) for x in ins]
    tmp = set(os.listdir(tempfile.gettempdir()))
    home = set(os.listdir("."))
    s0, f0, c0, k0, t0 = settings(), fds(), children(), FORKS[0], {id(t) for t in threading.enumerate()}
    outcome, result, err = "returned", None, None
    DEPTH[0] += 1
    try:
        result = f(*a, **k)
    except (Exception, SystemExit) as e:
        outcome = "raised %s" % type(e).__name__
        err = e
    finally:
        DEPTH[0] -= 1
    ctx.hit("children_started", FORKS[0] - k0)
    ctx.hit("calls_watched"); ctx.hit("readers_watched", reader); ctx.hit("raised", err is not None)
    ctx.hit("damaged_sources", hurt is not None); ctx.hit("damage_refused", hurt is not None and err is not None)
    if reader:
        ctx.hit("watched " + label)
    where = "%s (%s%s)" % (label, outcome, ", damaged source: %s" % hurt if hurt else "")
    s1 = settings()
    for key in s0:
        ctx.expect(s0[key] == s1[key], "state:" + key.replace(" ", "-"), "%s changed the %s" % (where, key), before=s0[key] if s0[key] != s1[key] else None, after=s1[key] if s0[key] != s1[key] else None)
    for x, b in zip(ins, before_in):
        ctx.expect(plain(x) == b, "state:arguments", "%s changed an object it was given" % where, before=b if plain(x) != b else None, after=plain(x) if plain(x) != b else None)
        ctx.hit("objects_compared")
    for p, b in before_files.items():
        now = listing(near(p))
        ctx.hit("sources_compared", len(b))
        ctx.expect(now == b, "state:source", "%s changed the files it read" % where, added=sorted(set(now) - set(b)), removed=sorted(set(b) - set(now)), changed=sorted(x for x in b if x in now and now[x] != b[x]))
    if err is not None:                     # as for a user who has handled the error
        err.__traceback__ = err.__context__ = None
    f1 = fds()
    if f1.keys() - f0.keys() or any(f1[x] != f0[x] for x in f1 if x in f0):
        gc.collect()
        deadline = time.time() + 5
        while True:
            f1 = fds()
            new = {x: t for x, t in f1.items() if f0.get(x) != t}
            if not new or time.time() > deadline:
                break
            time.sleep(0.02)
            gc.collect()
        ctx.expect(not new, "state:open-files", "%s left files open: %s" % (where, new))
    def threads():
        return [t.name for t in threading.enumerate() if id(t) not in t0]
    if threads():
        ctx.hit("threads_ending")
        gc.collect()
        deadline = time.time() + 10
        while threads() and time.time() < deadline:
            time.sleep(0.02)
        left = threads()
        ctx.expect(not left, "state:threads", "%s left threads running: %s" % (where, left))
    c1 = children() - c0
    if c1:
        gc.collect()
        deadline = time.time() + 10
        while children() - c0 and time.time() < deadline:
            time.sleep(0.02)
            import multiprocessing
            multiprocessing.active_children()
            try:
                import multiprocess
                multiprocess.active_children()
            except ImportError:
                pass
        left = children() - c0
        ctx.expect(not left, "state:children", "%s left %d child processes behind" % (where, len(left)))
    extra = {x for x in set(os.listdir(tempfile.gettempdir())) - tmp if not x.startswith(("hv-", "pymp-")) and os.path.join(tempfile.gettempdir(), x) not in args}
    ctx.expect(not extra, "state:temporary-files", "%s left temporary files: %s" % (where, sorted(extra)))
    new = set(os.listdir(".")) - home
    ctx.expect(not new, "state:working-directory-files", "%s left files in the working directory: %s" % (where, sorted(new)))
    if hurt:
        raise core.Skip() if err is None else Done()
    if err is not None:
        raise err
    return result

def wrap(cls, name):
    raw = cls.__dict__[name]
    f = raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw
    label = "%s.%s" % (cls.__name__, name)
    @functools.wraps(f)
    def g(*a, **k):
        if SEEN is None or DEPTH[0]:
            return f(*a, **k)
        return guard(SEEN, label, f, a, k)
    setattr(cls, name, type(raw)(g) if isinstance(raw, (classmethod, staticmethod)) else g)

INSTALLED = []

def install():
    if INSTALLED:
        return
    INSTALLED.append(1)
    os.register_at_fork(after_in_parent=lambda: FORKS.__setitem__(0, FORKS[0] + 1))
    from . import det
    for path, names in det.METHODS.items():
        mod, cls = path.rsplit(".", 1)
        try:
            cls = getattr(importlib.import_module("hatchet." + mod), cls)
        except (ImportError, AttributeError):
            continue
        for n in names if names is not None else det.public(cls):
            v = cls.__dict__.get(n)
            if callable(v) or isinstance(v, (classmethod, staticmethod)):
                wrap(cls, n)
