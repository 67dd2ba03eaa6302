"""Writer of native Caliper files (text stream format) for synthesised records."""
VALUE, NESTED, GLOBAL = 1, 256, 512
TYPES = {"int": 1, "uint": 2, "string": 3, "double": 5, "bool": 6}

def esc(s):
    return "".join("\\" + c if c in ",=\\" else ("\\n" if c == "\n" else c) for c in str(s))

class Cali:
    def __init__(self, rng):
        self.rng, self.lines, self.n = rng, [], rng.choice([12, 20, 100])
        self.attrs, self.tree = {}, {}
        self.alias_attr = None
    def _node(self, attr, data, parent=None):
        self.n += self.rng.choice([1, 1, 1, 3])
        self.lines.append("__rec=node,id=%d,attr=%d,data=%s%s" % (self.n, attr, esc(data), "" if parent is None else ",parent=%d" % parent))
        return self.n
    def attr(self, name, type="string", prop=0, alias=None):
        if name in self.attrs:
            return self.attrs[name]
        p = TYPES[type]
        if alias is not None:
            p = self._node(self.attr("attribute.alias"), alias, p)
        p = self._node(10, prop, p)
        self.attrs[name] = self._node(8, name, p)
        return self.attrs[name]
    def node(self, attr, data, parent=None):
        """Entry of the context tree (shared between records)."""
        k = (attr, data, parent)
        if k not in self.tree:
            self.tree[k] = self._node(attr, data, parent)
        return self.tree[k]
    def record(self, refs, values, kind="ctx"):
        s = "__rec=%s" % kind
        if refs:
            s += ",ref=" + "=".join(map(str, refs))
        if values:
            s += ",attr=" + "=".join(str(a) for a, _ in values) + ",data=" + "=".join(esc(v) for _, v in values)
        self.lines.append(s)
    def write(self, path):
        with open(path, "w") as f:
            f.write("\n".join(self.lines) + "\n")
