"""Query conditions: generator, per-row oracle, and renderers to the object and string dialects.

A condition is (prop, op, value).  Oracle: holds(cond, env, row) where env gives the node's
depth, node id and leaf status and row its dataframe row."""
import math, re
from . import gen

TEXTS = ["main", "foo", "foobar", "foo bar", "bar", "ba.r", "MPI_Send", "MPI_Recv", "say \"hi\"", "it's", "a\\b", "op()", "x{2}", "Foo", "std::vec<int>", "a|b", "[k]", "1e3", "oof", "f"]
NUMS = ["=", "<", ">", "<=", ">="]

def rows(rng, m):
    """Give the model rows the columns the conditions talk about."""
    inf = float("inf")
    nanp = rng.choice([0, 0.15, 0.4]); infp = rng.choice([0, 0.15])
    per_row = rng.random() < 0.8          # values differ between ranks/threads
    textpool = rng.sample(TEXTS, rng.choice([3, 6, len(TEXTS)]))
    last = {}
    for (i, c), row in m.rows.items():
        if not per_row and i in last:
            row.update({k: v for k, v in last[i].items() if k in ("x", "calls", "tag", "opt")})
            continue
        r = rng.random()
        row["x"] = float("nan") if r < nanp else rng.choice([inf, -inf]) if r < nanp + infp else rng.randint(-8, 12) * 0.25
        row["calls"] = rng.randint(-1, 3)
        row["tag"] = rng.choice(textpool)
        row["opt"] = rng.choice([None, "set"])
        last[i] = row
    m.columns = m.columns + ["x", "calls", "tag", "opt"]

def envs(m, nodes):
    return [{"depth": n._depth, "node_id": n._hatchet_nid, "leaf": not m.children[i]} for i, n in enumerate(nodes)]

def _text(rng, m):
    return rng.choice(sorted({row["tag"] for row in m.rows.values()} | {row["name"] for row in m.rows.values()})) if rng.random() < 0.85 else rng.choice(TEXTS)

def _num(rng, m, prop):
    if prop == "depth":
        return rng.choice([0, 1, 2, 3, 5, -1, -2, 1.5])
    if prop == "node_id":
        return rng.choice([0, 1, 2, 4, 7, 20, -1, -3, 2.5])
    vs = [row[prop] for row in m.rows.values() if row[prop] == row[prop] and abs(row[prop]) != float("inf")]
    return rng.choice(vs) if vs and rng.random() < 0.7 else rng.choice([-2.5, -1, 0, 1, 2, 0.25, 1e-7, -3e2, 12.75])

def regex(rng, m):
    t = _text(rng, m)
    k = rng.randrange(9)
    cut = rng.randint(0, len(t))
    if k == 0: return re.escape(t)
    if k == 1: return re.escape(t[:cut]) + ".*"
    if k == 2: return ".*" + re.escape(t[cut:])
    if k == 3: return re.escape(t) + "|" + re.escape(_text(rng, m))
    if k == 4: return re.escape(t[:cut]) + "|" + re.escape(_text(rng, m)[:3])
    if k == 5: return "[a-z]+"
    if k == 6: return "(?i)" + re.escape(t.upper())
    if k == 7: return "^" + re.escape(t[:cut]) + r"\w*"
    return r".*\b" + re.escape(t[-2:]) + r"|f(o{2})\S*"

def quotable(s):
    return not s.endswith("\\") and '\\"' not in s and "\\'" not in s and "\n" not in s

def gen_cond(rng, m, dialect, absent=True):
    """dialect: 'object', 'string' or 'both' (expressible alike in both)."""
    while True:
        k = rng.randrange(12)
        if k < 5:
            prop = rng.choice(["x", "x", "time", "time (inc)", "calls", "depth", "node_id"])
            op = rng.choice(NUMS + (["!="] if dialect == "object" else []))
            return (prop, op, _num(rng, m, prop))
        if k < 6 and dialect != "string" and not (dialect == "both"):
            prop = rng.choice(["x", "x", "calls", "depth", "node_id"])
            return (prop, "real", _num(rng, m, prop))
        if k < 7 and dialect != "string":
            if dialect == "object":
                return (rng.choice(["x", "time"]), rng.choice(["isnan", "cmpinf"]), rng.choice(["== ", "< ", "> ", ">= ", "!= "]) + rng.choice(["np.inf", "-np.inf"]))
            return ("x", rng.choice(["isnan", "isinf+"]), None)
        if k < 10:
            prop = rng.choice(["name", "tag"])
            if dialect == "object":
                v = regex(rng, m)
                return (prop, "re", v)
            if dialect == "both":
                v = rng.choice(["eq", "starts", "ends", "contains"])
                t = _text(rng, m)
                if v != "eq":
                    t = t[:rng.randint(1, 3)] if v == "starts" else t[-rng.randint(1, 3):]
                if quotable(t):
                    return (prop, v, t)
                continue
            op = rng.choice(["eq", "starts", "ends", "contains", "match", "match"])
            t = regex(rng, m) if op == "match" else _text(rng, m)
            if op in ("starts", "ends", "contains") and len(t) > 1:
                a = rng.randint(0, len(t) - 1); b = rng.randint(a + 1, len(t))
                t = {"starts": t[:b], "ends": t[a:], "contains": t[a:b]}[op]
            if quotable(t):
                return (prop, op, t)
            continue
        if k == 10:
            if dialect == "object":
                return ("depth", "leaf", None)
            if dialect == "both":
                return ("depth", "leaf", None)
            return rng.choice([("depth", "leaf", None), ("depth", "notleaf", None), ("x", "isnan", None), ("x", "notnan", None), ("x", "isinf", None), ("x", "notinf", None),
                               ("opt", "none", None), ("opt", "notnone", None), ("depth", rng.choice(["isnan", "notnan", "isinf", "notinf", "none", "notnone"]), None),
                               ("node_id", rng.choice(["isnan", "notnan", "isinf", "notinf", "none", "notnone"]), None), ("calls", rng.choice(["notnan", "isinf", "notinf", "isnan"]), None)])
        if absent and rng.random() < 0.5:
            return rng.choice([("ghost", "=", 1), ("ghost", "<", 3)] + ([("ghost", "re", ".*")] if dialect == "object" else [("ghost", "eq", "a")]))

def holds(c, env, row):
    prop, op, v = c
    if op == "leaf": return env["leaf"]
    if op == "notleaf": return not env["leaf"]
    if prop in ("depth", "node_id"):
        x = env[prop]
    elif prop not in row:
        return False
    else:
        x = row[prop]
    if op == "=": return x == v
    if op == "!=": return x != v
    if op == "<": return x < v
    if op == ">": return x > v
    if op == "<=": return x <= v
    if op == ">=": return x >= v
    if op == "real": return env["leaf"] if prop == "depth" and v == -1 else x == v
    if op == "isnan": return x != x
    if op == "notnan": return x == x
    if op == "isinf": return x in (float("inf"), -float("inf"))
    if op == "isinf+": return x == float("inf")
    if op == "notinf": return x not in (float("inf"), -float("inf"))
    if op == "cmpinf":
        o, w = v.split()
        w = float(w.replace("np.", ""))
        return {"==": x == w, "<": x < w, ">": x > w, ">=": x >= w, "!=": x != w}[o]
    if op == "none": return x is None
    if op == "notnone": return x is not None
    if op == "re": return re.fullmatch(v, x) is not None
    if op == "match": return re.compile(v).match(x) is not None
    if op == "eq": return x == v
    if op == "starts": return x[:len(v)] == v
    if op == "ends": return len(v) <= len(x) and x[len(x) - len(v):] == v
    if op == "contains": return x.find(v) >= 0
    raise ValueError(op)

# depth = -1 in the string dialect means "is a leaf"
def holds_string(c, env, row):
    if c[0] == "depth" and c[1] == "=" and c[2] == -1:
        return env["leaf"]
    return holds(c, env, row)

def over_rows(f, c, env, rws, mode):
    """Quantify over a node's rows."""
    r = [bool(f(c, env, row)) for row in rws]
    return any(r) if mode == "any" else all(r)

# ---------------------------------------------------------------- object dialect
def to_object(rng, conds):
    """Conjunction of conditions as a filter dictionary."""
    d = {}
    for c in conds:
        d.setdefault(c[0], []).append(_objval(rng, c))
    return {k: v[0] if len(v) == 1 and rng.random() < 0.8 else (tuple(v) if rng.random() < 0.3 else v) for k, v in d.items()}

def _objval(rng, c):
    prop, op, v = c
    sp = rng.choice([" ", " ", ""])
    if op == "=":
        return "==%s%r" % (sp, v) if rng.random() < 0.6 or (prop == "depth" and v == -1) else v
    if op in ("<", ">", "<=", ">=", "!="): return "%s%s%r" % (op, sp, v)
    if op == "real": return v
    if op == "leaf": return -1
    if op == "isnan": return "== np.nan"
    if op == "isinf+": return "== np.inf"
    if op == "cmpinf": return v
    if op == "re": return v
    if op == "eq": return re.escape(v)
    if op == "starts": return re.escape(v) + ".*"
    if op == "ends": return ".*" + re.escape(v)
    if op == "contains": return ".*%s.*" % re.escape(v)
    raise ValueError(op)

# ---------------------------------------------------------------- string dialect
def quote(rng, s):
    q = rng.choice("\"'")
    return q + s.replace(q, "\\" + q) + q

def to_string(rng, name, c):
    prop, op, v = c
    if op == "leaf":
        return rng.choice(["%s IS LEAF" % name, '%s."depth" = -1' % name])
    if op == "notleaf":
        return "%s IS NOT LEAF" % name
    p = "%s.%s" % (name, quote(rng, prop))
    if op in NUMS:
        return "%s %s %r" % (p, op, v)
    if op == "isinf+":
        return p + " > 1e300"
    w = {"isnan": "IS NAN", "notnan": "IS NOT NAN", "isinf": "IS INF", "notinf": "IS NOT INF", "none": "IS NONE", "notnone": "IS NOT NONE"}.get(op)
    if w:
        return "%s %s" % (p, w)
    return "%s %s %s" % (p, {"eq": "=", "starts": "STARTS WITH", "ends": "ENDS WITH", "contains": "CONTAINS", "match": "=~"}[op], quote(rng, v))
