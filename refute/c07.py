import itertools
from lib import check, lev, one_edit, one_damerau, mutate_string
from c03 import words, ALPHABETS

FILES = ['fog/key/levenshtein.py']
RULE = 'exhaustive pairs of words over a small alphabet, then random pairs a few edits apart; non-trivial: different strings'


@check
def blocks1(a, b, tr):
    from fog.key.levenshtein import levenshtein_1d_blocks, damerau_levenshtein_1d_blocks
    f = damerau_levenshtein_1d_blocks if tr else levenshtein_1d_blocks
    A, B = list(f(a)), list(f(b))
    if not A or not B:
        return 'no block'
    if (one_damerau(a, b) if tr else one_edit(a, b)) and not set(A) & set(B):
        return '%r %r at distance <= 1 share no block: %r %r' % (a, b, A, B)


@check
def blocks2(a, b):
    from fog.key.levenshtein import levenshtein_2d_blocks, damerau_levenshtein_2d_blocks
    A, B = list(levenshtein_2d_blocks(a)), list(levenshtein_2d_blocks(b))
    if not A or not B:
        return 'no block'
    if not list(damerau_levenshtein_2d_blocks(a)):
        return 'no block with transpositions'
    if set(A) & set(B):
        return None
    if lev(a, b) <= 2:
        return '%r %r at distance <= 2 share no block: %r %r' % (a, b, A, B)


def _shift(a, b):
    return len(a) == len(b) and sum(x != y for x, y in zip(a, b)) > 2


KNOWN = {'C07-insertion-and-deletion': lambda name, args, msg: name == 'blocks2' and 'share no block' in msg and _shift(args[0], args[1])}


def main(ctx):
    W = words('ab', 6) + words('abc', 3)
    for a in W:
        for b in W:
            if abs(len(a) - len(b)) > 2:
                continue
            ctx.run('blocks1', a, b, False, nontrivial=a != b)
            ctx.run('blocks1', a, b, True, nontrivial=a != b)
            ctx.run('blocks2', a, b, nontrivial=a != b)
        if ctx.done() or ctx.left() < 0.5 * ctx.budget:
            break
    rng = ctx.rng
    ints, _ = ctx.literals(FILES)
    L = list(range(0, 24)) + [40, 41, 42] + [x + d for x in ints for d in (-1, 0, 1) if 0 < x < 200]
    for _ in ctx.share(0.5):
        al = rng.choice(ALPHABETS)
        for f in '\x00\x01\x02':
            al = al.replace(f, '')
        a = ''.join(rng.choice(al) for _ in range(rng.choice(L)))
        b = mutate_string(rng, a, al, 1, False)
        ctx.run('blocks1', a, b, False)
        b = mutate_string(rng, a, al, 1, True)
        ctx.run('blocks1', a, b, True)
        b = mutate_string(rng, a, al, 2, False)
        ctx.run('blocks2', a, b)
