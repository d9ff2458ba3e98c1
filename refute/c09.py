import itertools
from lib import check, internal
from gr import *
from lib import components
from c08 import kw

FILES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py']
RULE = 'every similarity graph on 4 items, then random graphs with random bounds, keys, duplicates, chunk sizes and worker counts; non-trivial: at least one similar pair'
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't']


def sim_kwargs(kind, edges):
    S = {frozenset(e) for e in edges}
    if kind == 'bool':
        return dict(similarity=lambda a, b: frozenset((a, b)) in S)
    if kind == 'sim':
        return dict(similarity=lambda a, b: 2 if frozenset((a, b)) in S else 1, radius=2)
    if kind == 'dist':
        return dict(distance=lambda a, b: 1 if frozenset((a, b)) in S else 2, radius=1)
    return dict(distance=lambda a, b: frozenset((a, b)) not in S)


def run(mode, n, edges, kind, lo, hi, use_key, via, processes=1, chunk=None, lazy=False):
    from fog.clustering import pairwise
    from fog.clustering.pairwise import pairwise_leader, pairwise_fuzzy_clusters, pairwise_connected_components
    data = list(range(n))
    args = sim_kwargs(kind, edges)
    args.update(kw(lo, hi))
    items = data
    if use_key and mode != 'leader':
        items = [1000 + i for i in data]
        args['key'] = lambda x: x - 1000
    if processes > 1:
        args['processes'] = processes
        if chunk:
            args['chunk_size'] = chunk
    src = iter(items) if lazy else list(items)
    if via:
        if mode == 'connected_components' and via == 2:
            out = list(pairwise(src, **args))
        else:
            out = list(pairwise(src, mode=mode, **args))
    else:
        out = list({'leader': pairwise_leader, 'fuzzy_clusters': pairwise_fuzzy_clusters, 'connected_components': pairwise_connected_components}[mode](src, **args))
    if use_key and mode != 'leader':
        out = [[x - 1000 for x in c] for c in out]
    return out


def leader(n, edges, lo, hi):
    S = {frozenset(e) for e in edges}
    visited, out = set(), []
    for i in range(n):
        if i in visited:
            continue
        mem = [j for j in range(i + 1, n) if j not in visited and frozenset((i, j)) in S]
        if not mem or len(mem) + 1 > hi:
            continue
        visited |= set(mem)
        if len(mem) + 1 >= lo:
            out.append([i] + mem)
    return out


def verdict(mode, n, edges, lo, hi, out):
    lo, hi = (2 if lo is None else lo), bound(hi)
    if mode == 'leader':
        exp = leader(n, edges, lo, hi)
        return None if out == exp else 'leader clusters %r, expected %r' % (out, exp)
    if mode == 'connected_components':
        e2 = list(edges)
        m = check_members(out)
        if m:
            return m
        exp = sorted(sorted(c) for c in components(range(n), e2) if lo <= len(c) <= hi)
        got = sorted(sorted(c) for c in out)
        return None if exp == got else 'clusters %r, expected %r' % (got, exp)
    ps = sorted(tuple(sorted(e)) for e in edges)
    return check_fuzzy_ordered(out, ps, lo, hi)


@check
def serial(mode, n, edges, kind, lo, hi, use_key, via, lazy):
    return verdict(mode, n, edges, lo, hi, run(mode, n, edges, kind, lo, hi, use_key, via, lazy=lazy))


@check
def parallel(mode, n, edges, kind, lo, hi, use_key, processes, chunk):
    return verdict(mode, n, edges, lo, hi, run(mode, n, edges, kind, lo, hi, use_key, 0, processes, chunk))


@check
def duplicates(mode, items, mod):
    """several equal items are several positions"""
    from fog.clustering import pairwise
    out = list(pairwise(list(items), mode=mode, similarity=lambda a, b: a % mod == b % mod))
    groups = {}
    for x in items:
        groups.setdefault(x % mod, []).append(x)
    exp = [g for g in groups.values() if len(g) > 1]
    got = [sorted(c) for c in out]
    if mode == 'fuzzy_clusters' or mode == 'leader' or True:
        if sorted(got) != sorted(sorted(g) for g in exp):
            return 'clusters %r, expected %r' % (out, exp)


@internal
def chunks(n, size):
    """every pair of positions exactly once over the chunks"""
    import dill
    from fog.clustering.utils import upper_triangular_matrix_chunk_iter
    from fog.clustering.pairwise import pairwise_worker
    seen = []
    sim = dill.dumps(lambda a, b: True)
    data = list(range(100, 100 + n))
    for c in upper_triangular_matrix_chunk_iter(data, size):
        if len(c[0]) > size or len(c[1]) > size:
            return 'chunk larger than %d' % size
        seen += [tuple(sorted(p)) for p in pairwise_worker((sim,) + tuple(c))]
    exp = list(itertools.combinations(range(n), 2))
    if sorted(seen) != exp:
        from collections import Counter
        C = Counter(seen)
        d = [p for p in exp if C[p] != 1] or [p for p in seen if p[0] >= p[1] or p[1] >= n or p[0] < 0]
        return 'pairs covered other than once: %r' % (d[:5],)


@check
def bad_mode():
    from fog.clustering import pairwise
    try:
        pairwise([1, 2], mode='nope', similarity=lambda a, b: True)
    except TypeError:
        return None
    return 'unknown mode accepted'


MODES = ['leader', 'fuzzy_clusters', 'connected_components']


def main(ctx):
    rng = ctx.rng
    ctx.run('bad_mode')
    for n in range(0, 14):
        for s in range(1, 16):
            ctx.run('chunks', n, s, nontrivial=n > 1)
    for n, s in [(30, 7), (33, 10), (40, 40), (41, 40), (20, 100), (101, 100), (201, 200), (301, 150), (601, 300), (513, 256), (129, 64), (97, 32), (241, 240)]:
        ctx.run('chunks', n, s)
    ctx.run('chunks', 1001, 1000)
    for g in all_graphs(4):
        for mode in MODES:
            for lo, hi in ((None, None), (2, 3), (3, None), (2, 2), (1, None)):
                ctx.run('serial', mode, 4, g, rng.choice(['bool', 'sim', 'dist', 'nb']), lo, hi, rng.random() < .5, rng.randint(0, 2), rng.random() < .3, nontrivial=bool(g))
        if ctx.done():
            return
    for _ in ctx.share(.4):
        n = rng.choice([0, 1, 2, 3, 5, 6, 8, 12, 20])
        g = rand_graph(rng, n)
        lo, hi = rng.choice(SIZES)
        ctx.run('serial', rng.choice(MODES), n, g, rng.choice(['bool', 'sim', 'dist', 'nb']), lo, hi, rng.random() < .5, rng.randint(0, 2), rng.random() < .3)
        if rng.random() < .2:
            ctx.run('duplicates', rng.choice(MODES), [rng.randint(0, 6) for _ in range(rng.randint(0, 9))], rng.randint(1, 4))
    k = 0
    for _ in ctx.share(.3):
        n = rng.choice([2, 3, 5, 6, 8, 12])
        g = rand_graph(rng, n, rng.choice([.2, .4]))
        lo, hi = rng.choice(SIZES)
        ctx.run('parallel', MODES[1 + k % 2], n, g, rng.choice(['bool', 'dist']), lo, hi, rng.random() < .5, rng.choice([2, 3]), rng.choice([1, 2, 3, 5, 100, None]))
        k += 1
    ints, _ = ctx.literals(FILES)
    for x in ints:
        if 3 < x < 400:
            for d in (-1, 0, 1):
                ctx.run('chunks', 2 * x + d, x)
                ctx.run('chunks', x + d, x)
