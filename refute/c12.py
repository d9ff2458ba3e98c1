import itertools
from lib import check
from gr import *
from lib import components
from c08 import kw

FILES = ['fog/clustering/intersection_index.py']
RULE = 'random token collections over small alphabets with every metric, radius, mode and bound; non-trivial: at least two non-empty collections'


@check
def index(docs, kind, metric, radius, mode, lo, hi, use_key, lazy):
    from fog.clustering import intersection_index
    mkd = {'str': lambda d: ''.join(d), 'list': tuple, 'frozenset': frozenset}[kind]
    items = [mkd(d) for d in docs]
    args = dict(kw(lo, hi), mode=mode)
    if metric is not None:
        args['metric'] = metric
    if radius is not None:
        args['radius'] = radius
    if use_key:
        src = list(range(len(items)))
        args['key'] = lambda i: items[i]
    else:
        src = [d + (i,) if isinstance(d, tuple) and False else d for i, d in enumerate(items)]
    out = list(intersection_index(iter(src) if lazy else src, **args))
    n = len(items)
    sets = [set(d) for d in items]
    r = .8 if radius is None else radius
    ps = []
    for i in range(n):
        for j in range(i):
            I = len(sets[i] & sets[j])
            if not I:
                continue
            D = len(sets[i] | sets[j]) if metric in (None, 'jaccard') else min(len(sets[i]), len(sets[j]))
            if I / D >= r:
                ps.append((i, j))
    lo, hi = (2 if lo is None else lo), bound(hi)
    if use_key:
        return check_cc(out, ps, lo, hi) if mode == 'connected_components' else check_fuzzy_any(out, ps, lo, hi)
    # positions are not visible in the output: compare multisets of items
    exp = sorted(sorted(repr(src[i]) for i in c) for c in components([], ps) if lo <= len(c) <= hi)
    if mode == 'connected_components':
        got = sorted(sorted(map(repr, c)) for c in out)
        if exp != got:
            return 'clusters %r, expected %r' % (got, exp)
    else:
        g = neigh(ps)
        cand = [sorted([repr(src[i])] + [repr(src[j]) for j in g[i]]) for i in g]
        for c in out:
            if sorted(map(repr, c)) not in cand:
                return 'cluster %r is not an item with its neighbours' % (c,)


@check
def bad_metric():
    from fog.clustering import intersection_index
    try:
        list(intersection_index(['a'], metric='nope'))
    except TypeError:
        return None
    return 'unknown metric accepted'


def main(ctx):
    rng = ctx.rng
    ctx.run('bad_metric')
    subs = [list(c) for n in range(4) for c in itertools.combinations('abc', n)]
    for t in itertools.product(subs, repeat=2):
        for m in ('jaccard', 'overlap'):
            for r in (1 / 3, .5, 2 / 3, 1, .2):
                ctx.run('index', list(t), 'str', m, r, 'connected_components', None, None, True, False)
    for _ in ctx.share(.8):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
        al = rng.choice(['ab', 'abc', 'abcdef', 'abcdefghijkl'])
        docs = [[rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10]))] for _ in range(n)]
        if rng.random() < .08:
            # large token sets, close to each other
            al = [chr(200 + i) for i in range(rng.choice([30, 70, 150]))]
            base = rng.sample(al, len(al) * 2 // 3)
            docs = [[t for t in base if rng.random() > drop] + rng.sample(al, rng.choice([0, 0, 1, 5])) for drop in rng.choices([0, 0, .03, .3], k=4)]
        lo, hi = rng.choice(SIZES)
        if rng.random() < .2: lo = None
        radius = rng.choice([None, .1, .25, 1 / 3, .5, .6, 2 / 3, .75, .8, 1, 1.0, rng.random() + .001])
        ctx.run('index', docs, rng.choice(['str', 'list', 'frozenset']), rng.choice([None, 'jaccard', 'overlap']), radius, rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, rng.random() < .8, rng.random() < .4)
