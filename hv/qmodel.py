"""Reference matcher for call-path patterns: product of the graph with the pattern automaton."""
import collections

def expand(pat):
    el = []
    for q, s in pat:
        if q == ".":
            el.append((1, s))
        elif q == "*":
            el.append((0, s))
        elif q == "+":
            el += [(1, s), (0, s)]
        else:
            el += [(1, s)] * int(q)
    return el

def match_nodes(children, pat):
    """pat: [(quantifier, set of node numbers satisfying the predicate)] -> nodes on some matching downward path."""
    el = expand(pat)
    n = len(el)
    def eps(k):
        out = {k}
        while k < n and el[k][0] == 0:
            k += 1
            out.add(k)
        return out
    def step(k, v):
        if k < n and v in el[k][1]:
            return eps(k) if el[k][0] == 0 else eps(k + 1)
        return set()
    states, work, back = set(), [], collections.defaultdict(set)
    for v in range(len(children)):
        for k0 in eps(0):
            for k in step(k0, v):
                if (v, k) not in states:
                    states.add((v, k)); work.append((v, k))
    while work:
        v, k = work.pop()
        for c in children[v]:
            for t in step(k, c):
                back[(c, t)].add((v, k))
                if (c, t) not in states:
                    states.add((c, t)); work.append((c, t))
    res = {x for x in states if x[1] == n}
    st = list(res)
    while st:
        for y in back[st.pop()]:
            if y not in res:
                res.add(y); st.append(y)
    return {v for v, _ in res}
