from c03 import *
import c03
FILES = c03.FILES
RULE = 'exhaustive pairs over a small alphabet with every cap up to the longest length + 1, then random pairs; non-trivial: different strings'


def main(ctx):
    W = words('ab', 4) + words('abc', 3)
    if ctx.thorough:
        W = words('ab', 6) + words('abc', 4)
    stop = False
    for a in W:
        for b in W:
            for k in range(0, max(len(a), len(b)) + 2):
                ctx.run('limited', k, a, b, nontrivial=a != b)
        if ctx.done() or ctx.left() < 0.45 * ctx.budget:
            break
    L = lengths(ctx)
    for _ in ctx.share(0.45):
        a, b = pair(ctx.rng, L, ctx.rng.choice(ALPHABETS), maxedits=8)
        k = ctx.rng.choice([0, 1, 2, 3, 4, 5, 7, len(a), len(b), abs(len(a) - len(b)), max(len(a), len(b)) + 1, 1000, 70000])
        ctx.run('limited', k, a, b)
