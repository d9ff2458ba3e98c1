import itertools
from lib import check, components
import gr
FILES = ['fog/clustering/nn_descent.py', 'fog/clustering/vp_tree.py']
RULE = 'random point sets on a line, a grid or given by a distance matrix, over k, seeds, sizes and modes; non-trivial: at least three points'


def dist(points):
    def d(a, b):
        return sum(abs(x - y) for x, y in zip(a, b))
    return d


@check
def nn(full, points, radius, k, seed, lo, hi, mode, sim):
    from fog.clustering import nn_descent
    from fog.clustering.nn_descent import nn_descent_full
    f = nn_descent_full if full else nn_descent
    pts = [tuple(p) for p in points]
    d = dist(pts)
    kw = dict(k=k, seed=seed, mode=mode, min_size=lo)
    if hi is not None:
        kw['max_size'] = hi
    keep = list(pts)
    if sim == 'inverse':
        out = list(f(pts, radius=10 / (1 + radius), similarity=lambda a, b: 10 / (1 + d(a, b)), **kw))
    elif sim:
        out = list(f(pts, radius=-radius, similarity=lambda a, b: -d(a, b), **kw))
    else:
        out = list(f(pts, radius=radius, distance=d, **kw))
    if pts != keep:
        return 'data modified'
    hi = gr.bound(hi)
    for c in out:
        if not isinstance(c, list) or len(set(c)) != len(c):
            return 'cluster %r repeats an item' % (c,)
        if not lo <= len(c) <= hi:
            return 'cluster %r outside size bounds' % (c,)
        if any(p not in keep for p in c):
            return 'cluster %r has an unknown item' % (c,)
        if mode == 'fuzzy_clusters':
            bad = [p for p in c[1:] if d(c[0], p) > radius]
            if bad:
                return 'cluster %r contains %r farther than %r from its first item' % (c, bad, radius)
        elif len(c) > 1:
            e = [(a, b) for a, b in itertools.combinations(c, 2) if d(a, b) <= radius]
            if len(components(c, e)) != 1:
                return 'cluster %r is not connected by pairs within %r' % (c, radius)
    if mode != 'fuzzy_clusters':
        flat = [p for c in out for p in c]
        if len(set(flat)) != len(flat):
            return 'clusters overlap: %r' % (out,)


@check
def small(full, points):
    from fog.clustering import nn_descent
    from fog.clustering.nn_descent import nn_descent_full
    out = list((nn_descent_full if full else nn_descent)([tuple(p) for p in points], radius=1, distance=dist(points)))
    if out != []:
        return 'clusters %r out of %d items' % (out, len(points))


@check
def vp(points, radius, lo, hi):
    from fog.clustering import vp_tree
    pts = [tuple(p) for p in points]
    d = dist(pts)
    kw = {'min_size': lo}
    if hi is not None:
        kw['max_size'] = hi
    out = list(vp_tree(list(pts), d, radius, **kw))
    hi = gr.bound(hi)
    exp, seen = [], set()
    for p in pts:
        if p in seen:
            continue
        c = sorted(q for q in pts if d(p, q) <= radius)
        if lo <= len(c) <= hi:
            exp.append(c)
            seen.update(c)
    got = [sorted(c) for c in out]
    if got != exp:
        return 'vp_tree gives %r, expected %r' % (got, exp)


def main(ctx):
    rng = ctx.rng
    for full in (False, True):
        ctx.run('small', full, [], nontrivial=False)
        ctx.run('small', full, [(1,)], nontrivial=False)
    for n in range(2, 5):
        for t in itertools.combinations(range(6), n):
            for r in (1, 2):
                p = [(x,) for x in t]
                for k in (1, 2, None):
                    ctx.run('nn', False, p, r, k, 3, 2, None, 'connected_components', False, nontrivial=n > 2)
                    ctx.run('nn', True, p, r, k, 3, 2, None, 'connected_components', False, nontrivial=n > 2)
                ctx.run('vp', p, r, 2, None, nontrivial=n > 2)
    for _ in ctx.share(.85):
        n = rng.choice([2, 3, 5, 8, 13, 20, 40])
        dim = rng.randint(1, 2)
        m = rng.choice([n * 2, n * 5]) if dim == 1 else rng.choice([5, 9])
        pts = list({tuple(rng.randrange(m) for _ in range(dim)) for _ in range(n)})
        rng.shuffle(pts)
        if len(pts) < 2:
            continue
        lo, hi = rng.choice(gr.SIZES)
        r = rng.randint(0, 6)
        ctx.run('nn', rng.random() < .5, pts, r, rng.choice([None, 1, 2, 3, 5, 50]), rng.randrange(1000), lo, hi, rng.choice(['connected_components', 'connected_components', 'fuzzy_clusters']), rng.choice([False, True, 'inverse']), nontrivial=n > 2)
        ctx.run('vp', pts, r, max(lo, 1), hi, nontrivial=n > 2)
