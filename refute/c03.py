import itertools
from lib import check, lev, mutate_string, one_edit, one_damerau

FILES = ['cfog/metrics/levenshtein.pyx']
RULE = 'exhaustive pairs over a small alphabet, then random pairs related by few edits, long strings and non-BMP characters; non-trivial: different strings'


@check
def distance(a, b):
    from cfog.metrics.levenshtein import levenshtein_distance
    r, e = levenshtein_distance(a, b), lev(a, b)
    if r != e:
        return 'levenshtein_distance(%r, %r) = %r, expected %r' % (a, b, r, e)


@check
def limited(k, a, b):
    from cfog.metrics.levenshtein import limited_levenshtein_distance
    r, e = limited_levenshtein_distance(k, a, b), min(lev(a, b), k + 1)
    if r != e:
        return 'limited_levenshtein_distance(%r, %r, %r) = %r, expected %r' % (k, a, b, r, e)


@check
def lte1(a, b):
    from cfog.metrics.levenshtein import levenshtein_distance_lte1
    r, e = levenshtein_distance_lte1(a, b), one_edit(a, b)
    if bool(r) != e:
        return 'levenshtein_distance_lte1(%r, %r) = %r, expected %r' % (a, b, r, e)


@check
def damerau_lte1(a, b):
    from cfog.metrics.levenshtein import damerau_levenshtein_distance_lte1
    r, e = damerau_levenshtein_distance_lte1(a, b), one_damerau(a, b)
    if bool(r) != e:
        return 'damerau_levenshtein_distance_lte1(%r, %r) = %r, expected %r' % (a, b, r, e)


ALPHABETS = ['ab', 'abc', 'abcdefgh', 'a\xe9\u0141b', '\U0001F600\uF600a\U0001F601', '\x00a\uffff\U00010000\U0010ffff',
             'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ']


def words(alpha, n):
    return [''.join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def pair(rng, lens, alpha, transpose=False, maxedits=6):
    n = rng.choice(lens)
    a = ''.join(rng.choice(alpha) for _ in range(n))
    mode = rng.random()
    if mode < 0.65:
        b = mutate_string(rng, a, alpha, rng.randint(0, maxedits), transpose)
    elif mode < 0.8:
        p = ''.join(rng.choice(alpha) for _ in range(rng.choice(lens) // 2))
        s = ''.join(rng.choice(alpha) for _ in range(rng.choice(lens) // 2))
        m1 = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 4)))
        m2 = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 4)))
        a, b = p + m1 + s, p + m2 + s
    else:
        b = ''.join(rng.choice(alpha) for _ in range(rng.choice(lens)))
    return (a, b) if rng.random() < 0.5 else (b, a)


def lengths(ctx):
    ints, _ = ctx.literals(FILES)
    return [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 33, 65] + [x + d for x in ints for d in (0, 1) if 2 <= x <= 300] + ([130, 257, 300] if ctx.rng.random() < 2 else [])


def main(ctx):
    W = words('ab', 5) + words('abc', 3)
    if ctx.thorough:
        W = words('ab', 7) + words('abc', 4) + words('abcd', 3)
    for a in W:
        for b in W:
            ctx.run('distance', a, b, nontrivial=a != b)
        if ctx.done() or ctx.left() < 0.4 * ctx.budget:
            break
    L = lengths(ctx)
    for _ in ctx.share(0.4):
        ctx.run('distance', *pair(ctx.rng, L, ctx.rng.choice(ALPHABETS)))
