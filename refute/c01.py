import itertools, math
from lib import check, Bad, close

FILES = ['fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py']
RULE = 'exhaustive pairs of subsets of a 5-element universe in several container types, then random pairs of collections; non-trivial: both sides non-empty'
MK = {'set': set, 'frozenset': frozenset, 'list': list, 'tuple': tuple,
      'dict': lambda l: {x: 1 for x in l}, 'gen': lambda l: (x for x in l), 'str': lambda l: ''.join(str(x) for x in l)}


def snapshot(x):
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, (set, frozenset)):
        return set(x)
    return x if isinstance(x, (list, tuple, str)) else None


@check
def coefficient(fn, ka, la, kb, lb):
    import fog.metrics as M
    from fog.metrics.utils import intersection_size
    f = intersection_size if fn == 'intersection_size' else getattr(M, fn)
    A, B = MK[ka](la), MK[kb](lb)
    sa = set(''.join(str(x) for x in la)) if ka == 'str' else set(la)
    sb = set(''.join(str(x) for x in lb)) if kb == 'str' else set(lb)
    before = (snapshot(A) if ka != 'gen' else None, snapshot(B) if kb != 'gen' else None)
    if isinstance(before[0], list): before = (list(before[0]), before[1])
    r = f(A, B)
    i, a, b = len(sa & sb), len(sa), len(sb)
    if fn == 'intersection_size':
        exp = i
    elif a == 0 and b == 0:
        # the formulas are 0/0 and the empty tuple or string is a single object: either
        # convention is acceptable, anything outside it is not
        exp = r if r in (0, 1) else 0.0
    elif A is B:
        exp = 1.0
    elif a == 0 or b == 0:
        exp = 0.0
    else:
        exp = {'jaccard_similarity': i / (a + b - i), 'dice_coefficient': 2 * i / (a + b),
               'overlap_coefficient': i / min(a, b),
               'binary_cosine_similarity': i / math.sqrt(a * b),
               'sparse_binary_cosine_similarity': i / math.sqrt(a * b)}[fn]
    if not close(r, exp):
        return '%s = %r, expected %r' % (fn, r, exp)
    if ka != 'gen' and snapshot(A) != before[0]:
        return 'first argument modified'
    if kb != 'gen' and snapshot(B) != before[1]:
        return 'second argument modified'


@check
def same_object(fn, ka, la):
    import fog.metrics as M
    from fog.metrics.utils import intersection_size
    A = MK[ka](la)
    r = intersection_size(A, A) if fn == 'intersection_size' else getattr(M, fn)(A, A)
    n = len(set(''.join(str(x) for x in la)) if ka == 'str' else set(la))
    exp = n if fn == 'intersection_size' else 1.0
    if n == 0 and fn != 'intersection_size':
        return None
    if not close(r, exp):
        return '%s(x, x) = %r, expected %r' % (fn, r, exp)


FNS = ['jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'intersection_size']


def main(ctx):
    subs = [list(c) for n in range(6) for c in itertools.combinations([0, 1, 2, 3, 4], n)]
    kinds = ['set', 'frozenset', 'list', 'dict', 'str', 'tuple', 'gen']
    rng = ctx.rng
    for la in subs:
        for lb in subs:
            for fn in FNS:
                ctx.run('coefficient', fn, 'set', la, 'set', lb, nontrivial=bool(la and lb))
            if ctx.done():
                return
    for _ in ctx.share(0.25):
        la, lb = rng.choice(subs), rng.choice(subs)
        la = la + [rng.choice(la) for _ in range(rng.randint(0, 4)) if la]
        lb = lb + [rng.choice(lb) for _ in range(rng.randint(0, 4)) if lb]
        rng.shuffle(la); rng.shuffle(lb)
        ctx.run('coefficient', rng.choice(FNS), rng.choice(kinds), la, rng.choice(kinds), lb)
        k = rng.choice(['set', 'list', 'dict', 'str', 'tuple'])
        ctx.run('same_object', rng.choice(FNS), k, la)
    ints, strs = ctx.literals(FILES)
    sizes = sorted({0, 1, 2, 3, 5, 10, 50} | {x for x in ints if 0 <= x <= 5000} | {x + 1 for x in ints if 0 <= x <= 5000})
    for _ in ctx.share(0.45):
        n, m = rng.choice(sizes), rng.choice(sizes)
        u = rng.randint(1, max(2, n + m))
        if rng.random() < 0.3:
            pool = list(range(u))
        elif rng.random() < 0.5:
            pool = ['t%d' % x for x in range(u)] + strs
        else:
            pool = [None, True, 2.5, '', (), 'a', -1] + list(range(2, u))
        la = [rng.choice(pool) for _ in range(n)]
        lb = [rng.choice(pool) for _ in range(m)]
        ka, kb = rng.choice(kinds[:4] + ['gen']), rng.choice(kinds[:4] + ['gen'])
        for fn in FNS:
            ctx.run('coefficient', fn, ka, la, kb, lb)
