import itertools, math
from collections import Counter
from lib import check, close

FILES = ['fog/metrics/jaccard.py', 'fog/metrics/cosine.py']
RULE = 'exhaustive small weighted vectors, then random ones; non-trivial: the supports intersect'


def dot(a, b):
    return sum(a[k] * b[k] for k in a if k in b)


@check
def weighted(fn, A, B, kind):
    import fog.metrics as M
    import fog.metrics.cosine as C
    mk = Counter if kind == 'counter' else dict
    a, b = mk(A), mk(B)
    f = getattr(M, fn, None) or getattr(C, fn)
    r = f(a, b)
    if dict(a) != A or dict(b) != B or list(a) != list(A) or list(b) != list(B):
        return 'argument modified'
    if fn == 'sparse_dot_product':
        exp = dot(A, B)
    elif not A or not B:
        exp = 0.0
    elif fn == 'weighted_jaccard_similarity':
        ks = set(A) | set(B)
        exp = sum(min(A.get(k, 0), B.get(k, 0)) for k in ks) / sum(max(A.get(k, 0), B.get(k, 0)) for k in ks)
    else:
        exp = dot(A, B) / (math.sqrt(dot(A, A)) * math.sqrt(dot(B, B)))
    if not close(r, exp):
        return '%s = %r, expected %r' % (fn, r, exp)
    if fn != 'sparse_dot_product' and not -1e-9 <= r <= 1 + 1e-9:
        return 'out of [0, 1]: %r' % r


@check
def norm(A):
    import fog.metrics.cosine as C
    a = dict(A)
    n = C.sparse_norm(a)
    e = math.sqrt(dot(A, A))
    if not close(n, e):
        return 'sparse_norm = %r, expected %r' % (n, e)
    N = C.sparse_normalize(a)
    if a != A:
        return 'argument modified'
    if e == 0:
        return None if N == {} else 'null vector normalised to %r' % N
    if set(N) != set(A):
        return 'normalised support differs'
    for k in A:
        if not close(N[k], A[k] / e):
            return 'normalised %r = %r, expected %r' % (k, N[k], A[k] / e)


@check
def sequences(A, B):
    import fog.metrics as M
    r = M.cosine_similarity(A, B)
    a, b = Counter(A), Counter(B)
    exp = 0.0 if not a or not b else dot(a, b) / math.sqrt(dot(a, a) * dot(b, b))
    if not close(r, exp):
        return 'cosine_similarity = %r, expected %r' % (r, exp)


FNS = ['weighted_jaccard_similarity', 'sparse_cosine_similarity', 'sparse_dot_product', 'cosine_similarity']


def main(ctx):
    rng = ctx.rng
    vs = []
    for n in range(4):
        for ks in itertools.combinations('abcd', n):
            for ws in itertools.product((1, 2, 0.5), repeat=n):
                vs.append(dict(zip(ks, ws)))
    ctx.run('norm', {})
    for a in vs:
        ctx.run('norm', a)
    idx = [(a, b) for a in vs for b in vs]
    rng.shuffle(idx)
    for a, b in idx[:6000 if not ctx.thorough else len(idx)]:
        for fn in FNS:
            ctx.run('weighted', fn, a, b, 'dict', nontrivial=bool(set(a) & set(b)))
        if ctx.done() or ctx.left() < ctx.budget * 0.5:
            break
    ints, strs = ctx.literals(FILES)
    sizes = sorted({0, 1, 2, 3, 6, 30} | {x + d for x in ints for d in (0, 1) if 0 <= x <= 3000})
    wts = [1, 2, 3, 34, 0.1, 0.25, 1e-3, 1e3, 7.5] + [abs(i) for i in ints if i]
    for _ in ctx.share(0.45):
        n, m = rng.choice(sizes), rng.choice(sizes)
        u = rng.randint(1, max(2, n + m))
        pool = rng.choice([list(range(u)), ['t%d' % x for x in range(u)] + strs])
        A = {rng.choice(pool): rng.choice(wts) for _ in range(n)}
        B = {rng.choice(pool): rng.choice(wts) for _ in range(m)}
        for fn in FNS:
            ctx.run('weighted', fn, A, B, rng.choice(['dict', 'counter']))
        ctx.run('norm', A)
        al = rng.choice(['ab', 'abcdefgh', 'abcdefghijklmnopqrstuvwxyz'])
        ctx.run('sequences', ''.join(rng.choice(al) for _ in range(rng.randint(0, 12))), ''.join(rng.choice(al) for _ in range(rng.randint(0, 12))))
        ctx.run('sequences', [rng.choice(al) for _ in range(rng.randint(0, 12))], [rng.choice(al) for _ in range(rng.randint(0, 12))])
