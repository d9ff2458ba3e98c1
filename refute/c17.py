import itertools
from lib import check, components
FILES = ['fog/clustering/minhash.py', 'fog/clustering/utils.py', 'fog/lsh/minhash.py', 'fog/metrics/jaccard.py']
RULE = 'random token collections with near duplicates for several h, radius, bands and seeds; non-trivial: a cluster is yielded'


def jac(a, b):
    a, b = set(a), set(b)
    if not a or not b:
        return 1.0 if a == b else 0.0
    return len(a & b) / len(a | b)


@check
def cluster(docs, kind, h, radius, bands, seed, keyless=False):
    from fog.clustering import minhash
    n = len(docs)
    mk = {'str': ''.join, 'tuple': tuple}[kind]
    items = [mk(d) for d in docs]
    args = dict(h=h, seed=seed)
    if radius is not None:
        args['radius'] = radius
    if bands is not None:
        args['bands'] = bands
    if keyless:
        # distinct items, which are their own tokens
        items = list(dict.fromkeys(items))
        n = len(items)
        where0 = {x: i for i, x in enumerate(items)}
        out = [[where0[x] for x in c] for c in minhash(list(items), **args)]
    else:
        out = list(minhash(list(range(n)), key=lambda i: items[i], **args))
    r = .8 if radius is None else radius
    used = set()
    for c in out:
        if len(c) < 2:
            return 'cluster %r of less than two items' % (c,)
        if len(set(c)) != len(c):
            return 'cluster %r repeats an item' % (c,)
        if used & set(c):
            return 'clusters share an item: %r' % (out,)
        used |= set(c)
        es = [p for p in itertools.combinations(c, 2) if jac(items[p[0]], items[p[1]]) >= r]
        if len(components(c, es)) != 1:
            return 'cluster %r is not connected by pairs of similarity >= %r' % (c, r)
    where = {i: k for k, c in enumerate(out) for i in c}
    for i, j in itertools.combinations(range(n), 2):
        if items[i] and set(items[i]) == set(items[j]) and (where.get(i, -1) != where.get(j, -2)):
            return 'items %d and %d have the same tokens but are not clustered together: %r' % (i, j, out)


@check
def bands(h, t):
    from fog.clustering.minhash import guess_bands, similarity_threshold
    b = guess_bands(h, t)
    if not (isinstance(b, int) and 1 <= b <= h):
        return 'guess_bands(%r, %r) = %r' % (h, t, b)
    thr = lambda k: (1.0 / k) ** (k / h)
    eps = 1e-9
    for k in range(1, b):
        if thr(k) <= t - eps:
            return 'guess_bands(%r, %r) = %r but %d bands are enough' % (h, t, b, k)
    if b < h and thr(b) > t + eps:
        return 'guess_bands(%r, %r) = %r has threshold %r' % (h, t, b, thr(b))


@check
def thresholds(h, b):
    from fog.clustering.minhash import similarity_threshold
    r = similarity_threshold(h, b)
    if abs(r - (1.0 / b) ** (b / h)) > 1e-9:
        return 'similarity_threshold(%r, %r) = %r' % (h, b, r)


def main(ctx):
    rng = ctx.rng
    ints, _ = ctx.literals(FILES)
    for h in [1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 100, 128, 256]:
        for t in (.01, .1, .2, .37, .5, .6, .7, .8, .9, .95, .99, 1.0, 0.0):
            ctx.run('bands', h, t)
        for b in range(1, h + 1, max(1, h // 8)):
            ctx.run('thresholds', h, b)
    for _ in ctx.share(.1):
        ctx.run('bands', rng.randint(1, 300), round(rng.random(), 3))
    for _ in ctx.share(.8):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12])
        al = 'abcdefghijklmnop'[:rng.choice([3, 6, 16])]
        base = [[rng.choice(al) for _ in range(rng.choice([0, 1, 2, 4, 6, 9]))] for _ in range(rng.randint(1, 3))]
        docs = []
        for _i in range(n):
            d = list(rng.choice(base))
            for _j in range(rng.choice([0, 0, 1, 2])):
                if d and rng.random() < .5:
                    d.pop()
                else:
                    d.append(rng.choice(al))
            rng.shuffle(d)
            docs.append(d)
        h = rng.choice([1, 2, 4, 8, 16, 30])
        ctx.run('cluster', docs, rng.choice(['str', 'tuple']), h, rng.choice([None, .1, .3, .5, .6, 2 / 3, .8, .9, 1.0]), rng.choice([None, None, 1, max(1, h // 2), h]), rng.randint(0, 1000), rng.random() < .3)
