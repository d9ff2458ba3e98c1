import itertools
from lib import check
FILES = ['fog/evaluation/utils.py']
RULE = 'every labelling of up to 5 items over 3 labels, then random labellings and partitions; non-trivial: at least two items'


def expected(pairs):
    d = {}
    for i, l in pairs:
        d.setdefault(l, []).append(i)
    return list(d.values())


@check
def to_clusters(labels, kind):
    from fog.evaluation import labels_to_clusters
    names = ['n%d' % i for i in range(len(labels))]
    if kind == 'list' or kind == 'tuple':
        src = list(labels) if kind == 'list' else tuple(labels)
        exp = expected(enumerate(labels))
    elif kind == 'str':
        src = ''.join(str(l)[0] for l in labels)
        exp = expected(enumerate(src))
    elif kind == 'dict':
        src = dict(zip(names, labels))
        exp = expected(zip(names, labels))
    else:
        src = iter(list(zip(names, labels)))
        exp = expected(zip(names, labels))
    out = labels_to_clusters(src)
    if out != exp:
        return 'labels_to_clusters %r, expected %r' % (out, exp)


@check
def to_labels(clusters, key, flat):
    from fog.evaluation import clusters_to_labels
    args = {}
    if key:
        args['key'] = lambda x: x + 0 if flat else ('k', x)
    if flat:
        args['flat'] = True
    k = (lambda x: x) if flat or not key else (lambda x: ('k', x))
    out = clusters_to_labels(clusters, **args)
    exp = {k(x): i for i, c in enumerate(clusters) for x in c}
    if flat:
        e = [-1] * len(exp)
        for x, i in exp.items():
            e[x] = i
        if out != e:
            return 'flat labels %r, expected %r' % (out, e)
    elif dict(out) != exp:
        return 'labels %r, expected %r' % (out, exp)


@check
def roundtrip(clusters):
    from fog.evaluation import clusters_to_labels, labels_to_clusters
    back = labels_to_clusters(clusters_to_labels(clusters))
    if back != [list(c) for c in clusters if c]:
        return 'round trip gives %r from %r' % (back, clusters)
    n = sum(map(len, clusters))
    if sorted(x for c in clusters for x in c) == list(range(n)):
        back = labels_to_clusters(clusters_to_labels(clusters, flat=True))
        if sorted(map(sorted, back)) != sorted(sorted(c) for c in clusters if c):
            return 'flat round trip gives %r from %r' % (back, clusters)


def main(ctx):
    rng = ctx.rng
    for n in range(0, 6):
        for t in itertools.product([0, 1, 'a'], repeat=n):
            for kind in ('list', 'dict', 'gen', 'tuple', 'str'):
                ctx.run('to_clusters', list(t), kind, nontrivial=n > 1)
    for _ in ctx.share(.7):
        n = rng.choice([0, 1, 2, 3, 5, 8, 14])
        L = rng.sample([0, 1, 2, 3, -1, None, 'a', 'b', '', (1, 2), 2.5, False], rng.randint(1, 6))
        ctx.run('to_clusters', [rng.choice(L) for _ in range(n)], rng.choice(['list', 'dict', 'gen', 'tuple']))
        xs = list(range(n))
        rng.shuffle(xs)
        k = rng.randint(1, 5)
        cl = [[] for _ in range(k)]
        for x in xs:
            cl[rng.randrange(k)].append(x)
        if rng.random() < .7:
            cl = [c for c in cl if c]
        ctx.run('to_labels', cl, rng.random() < .5, rng.random() < .5)
        ctx.run('roundtrip', cl)
