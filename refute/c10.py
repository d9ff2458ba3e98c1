import itertools
from lib import check
from gr import *
from c08 import kw

FILES = ['fog/clustering/key_collision.py', 'fog/clustering/blocking.py', 'fog/clustering/utils.py']
RULE = 'random key tables over few distinct keys (falsey ones included), all options; non-trivial: two items share a key'
FALSEY = [None, '', 0, (), 0.0, False, b'', frozenset()]


@check
def single(table, lo, hi, merge, lazy):
    from fog.clustering import key_collision
    items = list(range(len(table)))
    out = list(key_collision(iter(items) if lazy else items, key=lambda i: table[i], merge=merge, **kw(lo, hi)))
    groups = {}
    for i, k in enumerate(table):
        if k:
            groups.setdefault(k, []).append(i)
    lo, hi = (2 if lo is None else lo), bound(hi)
    exp = [g for g in groups.values() if lo <= len(g) <= hi]
    if out != exp:
        return 'clusters %r, expected %r' % (out, exp)


@check
def multiple(table, lo, hi, merge, lazy):
    from fog.clustering import key_collision
    items = list(range(len(table)))
    out = list(key_collision(items, keys=lambda i: (x for x in table[i]) if lazy and table[i] else table[i], merge=merge, **kw(lo, hi)))
    groups = {}
    for i, ks in enumerate(table):
        for k in dict.fromkeys(ks or ()):
            if k:
                groups.setdefault(k, []).append(i)
    lo, hi = (2 if lo is None else lo), bound(hi)
    if merge:
        return check_cc(out, [(a, b) for g in groups.values() for a, b in itertools.combinations(g, 2)], lo, hi)
    exp = [g for g in groups.values() if lo <= len(g) <= hi]
    m = check_members(out)
    if m:
        return m
    if sorted(map(sorted, out)) != sorted(exp):
        return 'clusters %r, expected %r' % (out, exp)


@check
def block(table, many, edges, kind, mode, lo, hi, processes, lazy):
    from fog.clustering import blocking
    from c09 import sim_kwargs
    items = list(range(len(table)))
    args = sim_kwargs(kind, edges)
    args.update(kw(lo, hi))
    if many:
        args['blocks'] = lambda i: iter(table[i]) if lazy else table[i]
    else:
        args['block'] = lambda i: table[i]
    if processes != 1:
        args['processes'] = processes
    out = list(blocking(iter(items) if lazy else items, mode=mode, **args))
    S = {frozenset(e) for e in edges}
    share = lambda a, b: (set(table[a]) & set(table[b])) if many else table[a] == table[b]
    ps = [p for p in itertools.combinations(items, 2) if share(*p) and frozenset(p) in S]
    lo, hi = (2 if lo is None else lo), bound(hi)
    if mode == 'connected_components':
        return check_cc(out, ps, lo, hi)
    return check_fuzzy_any(out, ps, lo, hi)


def main(ctx):
    rng = ctx.rng
    for n in range(0, 5):
        for t in itertools.product(['a', 'b', ''], repeat=n):
            for lo, hi in ((None, None), (1, None), (2, 2), (3, None)):
                ctx.run('single', list(t), lo, hi, rng.random() < .5, rng.random() < .5, nontrivial=len(set(t)) < n)
    for f in FALSEY:
        for n in (1, 2, 3):
            ctx.run('single', [f] * n + ['a', 'a'], 1, None, False, False)
            for merge in (False, True):
                ctx.run('multiple', [[f]] * n + [[f, 'a'], ['a']], 1 if not merge else None, None, merge, False)
    keyset = ['a', 'b', 'c', 'd', 1, 2, 'e', 'f', ('x', 1)]
    for _ in ctx.share(.3):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
        ks = rng.sample(keyset, rng.randint(1, 6))
        lo, hi = rng.choice(SIZES)
        ctx.run('single', [rng.choice(ks + rng.sample(FALSEY, 3)) for _ in range(n)], lo, hi, rng.random() < .5, rng.random() < .5)
        t = [rng.choice([[], None, [rng.choice(ks)], [rng.choice(ks + rng.sample(FALSEY, 3)) for _ in range(rng.randint(0, 4))], [rng.choice(ks) for _ in range(rng.randint(0, 4))]]) for _ in range(n)]
        ctx.run('multiple', t, lo, hi, rng.random() < .5, rng.random() < .4)
    for _ in ctx.share(.4):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])
        many = rng.random() < .6
        ks = list('abcde')[:rng.randint(1, 5)]
        t = [[rng.choice(ks) for _ in range(rng.randint(0, 3))] if many else rng.choice(ks + [None, '']) for _ in range(n)]
        lo, hi = rng.choice(SIZES)
        ctx.run('block', t, many, rand_graph(rng, n), rng.choice(['bool', 'sim', 'dist', 'nb']), rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, 1, rng.random() < .4)
    for _ in ctx.share(.2):
        n = rng.choice([3, 4, 5, 6, 8, 10])
        many = rng.random() < .6
        ks = list('abcde')[:rng.randint(1, 5)]
        t = [[rng.choice(ks) for _ in range(rng.randint(0, 3))] if many else rng.choice(ks) for _ in range(n)]
        lo, hi = rng.choice(SIZES)
        ctx.run('block', t, many, rand_graph(rng, n), 'bool', rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, 2, False)
