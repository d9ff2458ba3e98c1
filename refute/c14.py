import itertools, math
from lib import check, internal

FILES = ['fog/clustering/ppjoin.py']
RULE = 'random record collections for every metric, ordering, threshold and algorithm, plus filters against their definition; non-trivial: at least two non-empty records'


def sim(metric, a, b):
    i = len(a & b)
    if metric == 'jaccard':
        return i / (len(a) + len(b) - i)
    if metric == 'dice':
        return 2 * i / (len(a) + len(b))
    return i / math.sqrt(len(a) * len(b))


@check
def join(algo, records, threshold, metric, ordering, tok, lazy):
    import fog.clustering as C
    f = {'ppjoin': C.ppjoin, 'ppjoin_plus': C.ppjoin_plus, 'all_pairs': C.all_pairs}[algo]
    n = len(records)
    args = {}
    if metric is not None:
        args['metric'] = metric
    if ordering != 'default':
        args['token_ordering'] = ordering
    if tok:
        src = list(range(n))
        args['tokenizer'] = (lambda i: iter(records[i])) if tok == 2 else (lambda i: list(records[i]))
        out = list(f(iter(src) if lazy else src, threshold, **args))
        got = [tuple(sorted(p)) for p in out]
    else:
        src = [list(r) for r in records]
        out = list(f(iter(src) if lazy else src, threshold, **args))
        pos = {id(r): i for i, r in enumerate(src)}
        got = [tuple(sorted((pos[id(a)], pos[id(b)]))) for a, b in out]
    if len(set(got)) != len(got):
        return 'pair yielded twice: %r' % (got,)
    sets = [set(r) for r in records]
    must, may = set(), set()
    for i, j in itertools.combinations(range(n), 2):
        if not sets[i] or not sets[j]:
            continue
        s = sim(metric or 'jaccard', sets[i], sets[j])
        if s >= threshold:
            must.add((i, j))
        if s + 2e-6 >= threshold:
            may.add((i, j))
    if must - set(got):
        return 'missing pairs %r' % (sorted(must - set(got))[:4],)
    if set(got) - may:
        return 'wrong pairs %r' % (sorted(set(got) - may)[:4],)


@internal
def overlap(x, y, req):
    from fog.clustering.ppjoin import compute_overlap
    r = compute_overlap(x, y, req)
    e = len(set(x) & set(y))
    if r == -1:
        if e >= req:
            return 'overlap %d >= %d reported as -1' % (e, req)
    elif r != e:
        return 'compute_overlap = %r, expected %r' % (r, e)


@internal
def suffix(x, y, xs, xe, ys, ye, hd):
    """the suffix filter is a lower bound on the Hamming distance whenever it exceeds hd"""
    from fog.clustering.ppjoin import suffix_filter
    if hd < abs((xe - xs) - (ye - ys)):
        return None     # outside the precondition of the filter
    r = suffix_filter(x, y, xs, xe, ys, ye, hd)
    real = len(set(x[xs:xe]) ^ set(y[ys:ye]))
    if r > hd and real <= hd:
        return 'suffix_filter = %r > %r but the real distance is %r' % (r, hd, real)


@check
def bad(which):
    from fog.clustering import ppjoin
    try:
        list(ppjoin([['a']], .5, **{'metric': {'metric': 'nope'}, 'order': {'token_ordering': 'nope'}, 'tok': {'tokenizer': 3}}[which]))
    except TypeError:
        return None
    return 'bad argument accepted'


ALGOS = ['ppjoin', 'ppjoin_plus', 'all_pairs']
METRICS = ['jaccard', 'dice', 'binary_cosine', None]


def main(ctx):
    rng = ctx.rng
    for w in ('metric', 'order', 'tok'):
        ctx.run('bad', w)
    subs = [list(c) for n in range(5) for c in itertools.combinations('abcd', n)]
    for a in subs:
        for b in subs:
            for t in (1e-7, .0005, .3, .5, .6, .8, 1.0):
                ctx.run('join', rng.choice(ALGOS), [a, b], t, rng.choice(METRICS), rng.choice(['freq', 'crc32', None, 'default']), rng.randint(0, 2), rng.random() < .5)
    isub = [list(c) for n in range(6) for c in itertools.combinations(range(5), n)]
    for a in isub:
        for b in isub:
            ctx.run('overlap', a, b, rng.randint(0, 6))
            for hd in (0, 1, 3):
                ctx.run('suffix', a, b, 0, len(a), 0, len(b), hd)
        if ctx.done():
            return
    for _ in ctx.share(.12):
        u = rng.choice([4, 8, 15, 30])
        a, b = [sorted(rng.sample(range(u), rng.randint(0, u))) for _ in range(2)]
        ctx.run('overlap', a, b, rng.randint(0, u))
        xs, ys = rng.randint(0, len(a)), rng.randint(0, len(b))
        ctx.run('suffix', a, b, xs, len(a), ys, len(b), rng.randint(0, u))
    for _ in ctx.share(.7):
        n = rng.choice([2, 3, 4, 6, 9, 14])
        u = rng.choice([3, 5, 8, 12, 20, 40])
        base = [rng.sample(range(u), rng.randint(0, u)) for _ in range(rng.randint(1, 3))]
        recs = []
        for _i in range(n):
            r = list(rng.choice(base))
            for _j in range(rng.choice([0, 0, 1, 2, 3])):
                if r and rng.random() < .5:
                    r.pop(rng.randrange(len(r)))
                else:
                    r.append(rng.randrange(u))
            if r and rng.random() < .3:
                r.append(rng.choice(r))
            rng.shuffle(r)
            recs.append(['t%d' % x for x in r])
        t = rng.choice([1e-7, .0005, .1, .2, .25, 1 / 3, .4, .5, .6, 2 / 3, .7, .75, .8, .9, .95, 1, 1.0, round(rng.random() * .98 + .02, 3)])
        ctx.run('join', rng.choice(ALGOS), recs, t, rng.choice(METRICS), rng.choice(['freq', 'crc32', None, 'default']), rng.randint(0, 2), rng.random() < .3)
