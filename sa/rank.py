"""Termination of a loop: a lexicographic ranking found over the loop-head locations.

nodes: {K: {loc: value at the head}} ; edges: [(K, K2, store, {loc: value when the head is reached again})], the values of
an edge and of the head it starts from being expressions over the symbols of the edge's store."""
from lin import L

LIMIT = 1 << 62


def sccs(nodes, edges):
    adj = {}
    for a, b, _, _ in edges:
        adj.setdefault(a, set()).add(b)
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        work = [(v, iter(adj.get(v, ())))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = n[0]
                    n[0] += 1
                    st.append(y)
                    on.add(y)
                    work.append((y, iter(adj.get(y, ()))))
                    break
                if y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop()
                        on.discard(y)
                        c.add(y)
                        if y == x:
                            break
                    out.append(c)
    for v in nodes:
        if v not in idx:
            go(v)
    return out


def step(cs, a, b, up):
    """0 = may go the wrong way, 1 = never, 2 = strictly the right way inside a bound"""
    d = cs.norm(b - a) if up else cs.norm(a - b)
    if d == 0:
        return 1
    if cs.prove(d - 1):
        if cs.prove(L(LIMIT) - b if up else a + LIMIT) and cs.prove(L(LIMIT) - a if not up else a + LIMIT):
            return 2
        return 1
    return 1 if cs.prove(d) else 0


def terminates(nodes, edges):
    """None, or the (K, K2, store) edges no ranking was found for"""
    edges = [e for e in edges if not e[2].dead]
    while True:
        comp = {}
        for i, c in enumerate(sccs(nodes, edges)):
            for k in c:
                comp[k] = i
        edges = [e for e in edges if comp[e[0]] == comp[e[1]]]
        if not edges:
            return None
        progress = False
        for i in sorted({comp[e[0]] for e in edges}):
            es = [e for e in edges if comp[e[0]] == i]
            drop = one(nodes, es)
            if drop:
                ids = {id(e) for e in drop}
                edges = [e for e in edges if id(e) not in ids]
                progress = True
        if not progress:
            return edges


def one(nodes, es):
    locs = None
    for k, k2, cs, v in es:
        x = set(nodes[k]) & set(v)
        locs = x if locs is None else locs & x
    locs = sorted(locs, key=repr)
    moving = []
    for lc in locs:
        if all(cs.norm(v[lc] - nodes[k][lc]) == 0 for k, k2, cs, v in es):
            continue
        moving.append(lc)
        for up in (False, True):
            r = []
            for k, k2, cs, v in es:
                x = step(cs, nodes[k][lc], v[lc], up)
                if not x:
                    break
                r.append(x)
            else:
                s = [e for e, x in zip(es, r) if x == 2]
                if s:
                    return s
    for i, a in enumerate(moving):
        for b in moving[:i]:
            for sg in (1, -1):
                r = []
                for k, k2, cs, v in es:
                    n = nodes[k]
                    x = step(cs, n[a] + n[b].scale(sg), v[a] + v[b].scale(sg), False) or \
                        0
                    if not x:
                        break
                    r.append(x)
                else:
                    s = [e for e, x in zip(es, r) if x == 2]
                    if s:
                        return s
                r = []
                for k, k2, cs, v in es:
                    n = nodes[k]
                    x = step(cs, n[a] + n[b].scale(sg), v[a] + v[b].scale(sg), True)
                    if not x:
                        break
                    r.append(x)
                else:
                    s = [e for e, x in zip(es, r) if x == 2]
                    if s:
                        return s
    return None
