from c03 import *
import c03
FILES = c03.FILES
RULE = 'exhaustive pairs over a small alphabet, then random pairs a few edits apart; non-trivial: different strings of lengths differing by at most one'


def main(ctx):
    W = words('ab', 5) + words('abc', 4)
    if ctx.thorough:
        W = words('ab', 7) + words('abc', 5)
    for a in W:
        for b in W:
            if abs(len(a) - len(b)) <= 2:
                ctx.run('lte1', a, b, nontrivial=a != b)
                ctx.run('damerau_lte1', a, b, nontrivial=a != b)
        if ctx.done() or ctx.left() < 0.4 * ctx.budget:
            break
    L = lengths(ctx)
    for _ in ctx.share(0.4):
        a, b = pair(ctx.rng, L, ctx.rng.choice(ALPHABETS), True, 2)
        ctx.run('lte1', a, b)
        ctx.run('damerau_lte1', a, b)
