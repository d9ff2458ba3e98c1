import itertools
from lib import check
FILES = ['fog/join/hashjoin.py']
RULE = 'every pair of key tables of up to 3 items over 2 keys, then random ones, lazy keys included; non-trivial: both sides non-empty'


@check
def single(lk, rk, kind):
    from fog.join import hashjoin
    L = [('l', i) for i in range(len(lk))]
    R = [('r', i) for i in range(len(rk))]
    key = lambda x: (lk if x[0] == 'l' else rk)[x[1]]
    a, b = (tuple(L), tuple(R)) if kind == 'tuple' else (L, R)
    if kind == 'gen':
        a = (x for x in L)
    out = list(hashjoin(a, b, key=key))
    exp = [(x, y) for x in L for y in R if key(x) == key(y)]
    if sorted(out) != sorted(exp):
        return 'hashjoin %r, expected %r' % (sorted(out), sorted(exp))


@check
def multiple(lk, rk, kind):
    from fog.join import hashjoin
    L = [('l', i) for i in range(len(lk))]
    R = [('r', i) for i in range(len(rk))]
    k0 = lambda x: (lk if x[0] == 'l' else rk)[x[1]]
    keys = {'list': k0, 'gen': lambda x: (k for k in k0(x)), 'set': lambda x: set(k0(x)), 'tuple': lambda x: tuple(k0(x))}[kind]
    out = list(hashjoin(L, R, keys=keys))
    exp = [(x, y) for x in L for y in R if set(k0(x)) & set(k0(y))]
    if sorted(out) != sorted(exp):
        return 'hashjoin %r, expected %r' % (sorted(out), sorted(exp))


def main(ctx):
    rng = ctx.rng
    tabs = [list(t) for n in range(4) for t in itertools.product('ab', repeat=n)]
    for a in tabs:
        for b in tabs:
            ctx.run('single', a, b, 'list', nontrivial=bool(a and b))
    ks = [[], ['a'], ['b'], ['a', 'b'], ['a', 'a']]
    tabs = [list(t) for n in range(3) for t in itertools.product(ks, repeat=n)]
    for a in tabs:
        for b in tabs:
            ctx.run('multiple', a, b, rng.choice(['list', 'gen', 'set', 'tuple']), nontrivial=bool(a and b))
        if ctx.done():
            return
    ints, _ = ctx.literals(FILES)
    sizes = [0, 1, 2, 3, 4, 7, 12] + [x + d for x in ints for d in (0, 1) if 0 < x < 300]
    for _ in ctx.share(.7):
        K = [None, '', 0, 'a', 'b', 1, 2.5, (1,), 'c', 'd'][:rng.randint(1, 10)]
        n, m = rng.choice(sizes), rng.choice(sizes)
        ctx.run('single', [rng.choice(K) for _ in range(n)], [rng.choice(K) for _ in range(m)], rng.choice(['list', 'tuple', 'gen']))
        mk = lambda: [rng.choice(K) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        ctx.run('multiple', [mk() for _ in range(n)], [mk() for _ in range(m)], rng.choice(['list', 'gen', 'set', 'tuple']))
