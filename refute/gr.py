"""Oracles about clusters, shared by the refuters."""
import itertools
from lib import components, Bad

INF = float('inf')


def bound(x):
    return INF if x is None else x


def check_members(out, cluster_of=None):
    for c in out:
        if not isinstance(c, list):
            return 'cluster %r is not a list' % (c,)
        if len(set(c)) != len(c):
            return 'cluster %r repeats a member' % (c,)


def check_cc(out, edges, lo, hi):
    m = check_members(out)
    if m:
        return m
    exp = sorted(sorted(map(repr, c)) for c in components([], edges) if lo <= len(c) <= hi)
    got = sorted(sorted(map(repr, c)) for c in out)
    if exp != got:
        return 'clusters %s, expected components %s' % (got, exp)


def neigh(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
        g.setdefault(b, set()).add(a)
    return g


def check_fuzzy_ordered(out, pairs, lo, hi):
    """exact result, processing items by order of first appearance"""
    g = neigh(pairs)
    exp, visited = [], set()
    for x in g:
        if x in visited or not (lo <= len(g[x]) + 1 <= hi):
            continue
        visited |= g[x]
        exp.append((x, g[x]))
    m = check_members(out)
    if m:
        return m
    got = [(c[0], set(c[1:])) for c in out]
    if got != exp:
        return 'fuzzy clusters %r, expected %r' % (got, exp)


def check_fuzzy_any(out, edges, lo, hi):
    """the result is right for some order of arrival of the pairs"""
    g = neigh(edges)
    m = check_members(out)
    if m:
        return m
    seen = set()
    heads = set()
    for c in out:
        h = c[0]
        if h not in g or set(c[1:]) != g[h]:
            return 'cluster %r is not an item with all its neighbours %r' % (c, sorted(map(repr, g.get(h, ()))))
        if not lo <= len(c) <= hi:
            return 'cluster %r outside size bounds' % (c,)
        if h in heads:
            return 'two clusters for %r' % (h,)
        if h in seen:
            return 'head %r already was a neighbour in an earlier cluster' % (h,)
        heads.add(h)
        seen |= g[h]
    for x in g:
        if x not in heads and x not in seen and lo <= len(g[x]) + 1 <= hi:
            return 'item %r with neighbours %r is in no cluster' % (x, sorted(map(repr, g[x])))


def all_graphs(n):
    """every graph over range(n), as lists of pairs (i < j)"""
    ps = list(itertools.combinations(range(n), 2))
    for bits in range(1 << len(ps)):
        yield [p for k, p in enumerate(ps) if bits >> k & 1]


def rand_graph(rng, n, p=None):
    p = rng.choice([0.05, 0.15, 0.3, 0.6, 1.0]) if p is None else p
    return [e for e in itertools.combinations(range(n), 2) if rng.random() < p]


SIZES = [(2, None), (1, None), (2, 2), (2, 3), (3, None), (3, 4), (0, None), (2, 5), (4, 3), (1, 1)]
