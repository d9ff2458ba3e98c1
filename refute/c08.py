import itertools
from lib import check
from gr import *

FILES = ['fog/clustering/utils.py']
RULE = 'every graph on 4 nodes (5 when thorough) in several orders, orientations and size bounds, then random pair streams and buckets; non-trivial: at least one pair'
MODES = ['connected_components', 'fuzzy_clusters']


def kw(lo, hi):
    d = {}
    if lo is not None:
        d['min_size'] = lo
    if hi is not None:
        d['max_size'] = hi
    return d


@check
def pairs(ps, mode, fuzzy, lo, hi, lazy):
    from fog.clustering.utils import clusters_from_pairs
    src = iter(list(ps)) if lazy else list(ps)
    out = list(clusters_from_pairs(src, mode=mode, fuzzy=fuzzy, **kw(lo, hi)))
    lo, hi = (2 if lo is None else lo), bound(hi)
    if mode == 'connected_components':
        return check_cc(out, ps, lo, hi)
    return check_fuzzy_ordered(out, ps, lo, hi)


@check
def buckets(bs, mode, fuzzy, lo, hi, sim, lazy):
    from fog.clustering.utils import clusters_from_buckets, pairs_from_buckets
    exp = [(a, b) for c in bs for a, b in itertools.combinations(c, 2)]
    got = list(pairs_from_buckets(bs))
    if got != exp:
        return 'pairs_from_buckets gives %r, expected %r' % (got, exp)
    f = None
    if sim is not None:
        S = {frozenset(p) for p in sim}
        f = lambda a, b: frozenset((a, b)) in S
        exp = [p for p in exp if f(*p)]
    src = iter(bs) if lazy else bs
    out = list(clusters_from_buckets(src, mode=mode, fuzzy=fuzzy, similarity=f, **kw(lo, hi)))
    lo, hi = (2 if lo is None else lo), bound(hi)
    return check_cc(out, exp, lo, hi) if mode == 'connected_components' else check_fuzzy_ordered(out, exp, lo, hi)


@check
def bad_mode():
    from fog.clustering.utils import clusters_from_pairs
    try:
        list(clusters_from_pairs([(1, 2)], mode='nope'))
    except TypeError:
        return None
    return 'unknown mode accepted'


@check
def similarity_function(kind, radius, value):
    from fog.clustering.utils import make_similarity_function
    if kind == 'none':
        try:
            make_similarity_function()
        except TypeError:
            return None
        return 'accepted neither similarity nor distance'
    f = make_similarity_function(**{kind: lambda a, b: value, 'radius': radius})
    r = bool(f(1, 2))
    if radius is None:
        e = bool(value) if kind == 'similarity' else not value
    else:
        e = value >= radius if kind == 'similarity' else value <= radius
    if r != e:
        return '%s with radius %r on %r gives %r' % (kind, radius, value, r)


def main(ctx):
    rng = ctx.rng
    ctx.run('bad_mode')
    ctx.run('similarity_function', 'none', None, 0)
    for k in ('similarity', 'distance'):
        for r in (None, 0, 1, 0.5, -1, 2):
            for v in (0, 1, 0.5, 2, -1, 3):
                ctx.run('similarity_function', k, r, v)
    for n in ((2, 3, 4) if not ctx.thorough else (2, 3, 4, 5)):
        for g in all_graphs(n):
            for mode in MODES:
                for lo, hi in ((2, None), (3, None), (2, 3), (1, 2)):
                    ps = [p if rng.random() < .5 else (p[1], p[0]) for p in g]
                    rng.shuffle(ps)
                    ctx.run('pairs', ps, mode, False, lo, hi, False, nontrivial=bool(ps))
                    ctx.run('pairs', ps + ps[::2], mode, True, lo, hi, True, nontrivial=bool(ps))
            if ctx.done() or ctx.left() < .5 * ctx.budget:
                break
    ints, strs = ctx.literals(FILES)
    ns = [2, 3, 5, 8, 12, 20, 40] + [x for x in ints if 2 < x < 80]
    for _ in ctx.share(.25):
        n = rng.choice(ns)
        names = rng.choice([list(range(n)), ['w%d' % i for i in range(n)], [''] + ['x' * i for i in range(1, n)], [None, 0.5, 'a', (1, 2), -1] + list(range(10, 10 + n))])
        g = [(names[a], names[b]) if rng.random() < .5 else (names[b], names[a]) for a, b in rand_graph(rng, n)]
        rng.shuffle(g)
        mode = rng.choice(MODES)
        fuzzy = rng.random() < .5
        if (fuzzy or mode == 'connected_components') and g:
            g = g + [rng.choice(g) if rng.random() < .5 else rng.choice(g)[::-1] for _ in range(rng.randint(0, len(g)))]
            if mode == 'connected_components' and rng.random() < .3:
                x = rng.choice(names)
                g.append((x, x))
            rng.shuffle(g)
        lo, hi = rng.choice(SIZES)
        if rng.random() < .1: lo = None
        ctx.run('pairs', g, mode, fuzzy, lo, hi, rng.random() < .5)
    for _ in ctx.share(.2):
        n = rng.choice(ns[:6])
        bs = [rng.sample(range(n), rng.randint(0, min(n, 6))) for _ in range(rng.randint(0, 6))]
        mode = rng.choice(MODES)
        sim = None if rng.random() < .5 else rand_graph(rng, n, .5)
        lo, hi = rng.choice(SIZES)
        ctx.run('buckets', bs, mode, True if mode == 'fuzzy_clusters' else rng.random() < .5, lo, hi, sim, rng.random() < .5)
