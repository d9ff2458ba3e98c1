import itertools
from lib import check, internal, lev, mutate_string
from gr import *
from c08 import kw

FILES = ['fog/clustering/quickjoin.py']
RULE = 'random point sets of the line, the plane and of strings with every block size, seed, beta, solver; non-trivial: at least two items'


def dist_of(kind):
    if kind == 'lev':
        return lev
    if kind == 'l1':
        return lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])
    if kind == 'discrete':
        return lambda a, b: 0 if a == b else 1
    return lambda a, b: abs(a - b)


@check
def join(kind, items, radius, block_size, seed, beta, vp, mode, lo, hi, processes, neg):
    from fog.clustering import quickjoin
    d = dist_of(kind)
    args = dict(kw(lo, hi), mode=mode, seed=seed)
    if block_size is not None:
        args['block_size'] = block_size
    if beta is not None:
        args['beta'] = beta
    if vp:
        args['vp_tree'] = True
    if processes > 1:
        args['processes'] = processes
    if neg:
        # the similarity 1 - d/64 is exact on the numbers drawn here
        out = list(quickjoin(list(items), 1 - radius / 64, similarity=lambda x, y: 1 - d(x, y) / 64, **args))
    else:
        out = list(quickjoin(list(items), radius, distance=d, **args))
    ps = [p for p in itertools.combinations(items, 2) if d(*p) <= radius]
    lo, hi = (2 if lo is None else lo), bound(hi)
    return check_cc(out, ps, lo, hi) if mode == 'connected_components' else check_fuzzy_any(out, ps, lo, hi)


@internal
def parts(items, p, radius, rho):
    from fog.clustering.quickjoin import partition
    L, G, Lw, Gw = partition(items, lambda a, b: abs(a - b), p, radius, rho)
    d = lambda x: abs(p - x)
    e = ([x for x in items if d(x) < rho], [x for x in items if d(x) >= rho],
         [x for x in items if rho - radius <= d(x) < rho], [x for x in items if rho <= d(x) <= rho + radius])
    if (L, G, Lw, Gw) != e:
        return 'partition %r, expected %r' % ((L, G, Lw, Gw), e)


@internal
def pivots(S1, S2, radius):
    from fog.clustering.quickjoin import quickjoin_join_pivots
    out = list(quickjoin_join_pivots(S1, S2, lambda a, b: abs(a - b), radius))
    exp = [(a, b) for a in S1 for b in S2 if abs(a - b) <= radius]
    if sorted(out) != sorted(exp):
        return 'join_pivots %r, expected %r' % (sorted(out), sorted(exp))


def gen(rng):
    kind = rng.choice(['num', 'num', 'l1', 'lev', 'discrete'])
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 20])
    if kind == 'num':
        items = rng.sample(range(rng.choice([25, 40, 100])), n)
        radius = rng.choice([0, 1, 2, 3, 5, 10])
        if rng.random() < .3:
            items = [x / 4 for x in items]
            radius = radius / 4
    elif kind == 'l1':
        items = rng.sample([(x, y) for x in range(6) for y in range(6)], n)
        radius = rng.choice([0, 1, 2, 3])
    elif kind == 'discrete':
        items = rng.sample(range(30), n)
        radius = rng.choice([0, .5, 1])
    else:
        s = set()
        while len(s) < n:
            s.add(''.join(rng.choice('ab') for _ in range(rng.randint(0, 6))))
        items = sorted(s)
        rng.shuffle(items)
        radius = rng.choice([0, 1, 2])
    return kind, items, radius


def main(ctx):
    rng = ctx.rng
    for _ in ctx.share(.05):
        items = [rng.randint(0, 20) for _ in range(rng.randint(0, 10))]
        ctx.run('parts', items, rng.randint(0, 20), rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 3, 7, 2.5]))
    for _ in ctx.share(.03):
        S1 = rng.sample(range(40), rng.choice([1, 2, 9, 20]))
        S2 = rng.sample(range(40), rng.choice([0, 1, 2, 9, 20]))
        ctx.run('pivots', S1, S2, rng.choice([0, 1, 2, 5]))
    for _ in ctx.share(.67):
        kind, items, radius = gen(rng)
        lo, hi = rng.choice(SIZES)
        vp = rng.random() < .15
        ctx.run('join', kind, items, radius, rng.choice([None, 1, 2, 3, 4, 6]), rng.randint(0, 10 ** 6), rng.choice([None, None, .5, .3, 1.5, 2.0]), vp, rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, 1, rng.random() < .25)
    for _ in ctx.share(.15):
        kind, items, radius = gen(rng)
        ctx.run('join', kind, items, radius, rng.choice([1, 2, 4]), rng.randint(0, 10 ** 6), None, False, 'connected_components', None, None, 2, False)
