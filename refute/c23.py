import itertools, math
from lib import check
FILES = ['fog/tokenizers/ngrams.py', 'fog/key/misc.py']
RULE = 'every length up to 12 and n up to 8 for strings, lists and tuples, then random sequences; non-trivial: sequence longer than n'


@check
def grams(n, s):
    from fog.tokenizers import ngrams, bigrams, trigrams, quadrigrams
    exp = [s[i:i + n] for i in range(len(s) - n + 1)] if len(s) >= n else [s]
    out = list(ngrams(n, s))
    if out != exp:
        return 'ngrams(%d, %r) = %r' % (n, s, out)
    p = {2: bigrams, 3: trigrams, 4: quadrigrams}.get(n)
    if p is not None and list(p(s)) != exp:
        return 'partial for %d gives %r' % (n, list(p(s)))


@check
def rebuild(n, s):
    from fog.tokenizers.ngrams import ngrams, join_ngrams
    r = join_ngrams(ngrams(n, s))
    if r != s:
        return 'join_ngrams(ngrams(%d, %r)) = %r' % (n, s, r)


@check
def nkeys(n, s, t):
    from fog.key import ngram_keys
    out = list(ngram_keys(n, s, threshold=t) if t is not None else ngram_keys(n, s))
    t = .8 if t is None else t
    g = [s[i:i + n] for i in range(len(s) - n + 1)] if len(s) >= n else [s]
    k = len(s) - n + 1
    l = max(1, math.floor(k * t))
    exp = [''.join(g)]
    for m in range(k - 1, l - 1, -1):
        exp += [''.join(c) for c in itertools.combinations(g, m)]
    if out != exp:
        return 'ngram_keys(%d, %r, %r) = %r, expected %r' % (n, s, t, out[:6], exp[:6])


def main(ctx):
    rng = ctx.rng
    for l in range(0, 13):
        for n in range(1, 9):
            s = ''.join(rng.choice('abc') for _ in range(l))
            ctx.run('grams', n, s, nontrivial=l > n)
            ctx.run('grams', n, list(s), nontrivial=l > n)
            ctx.run('grams', n, tuple(range(l)), nontrivial=l > n)
            ctx.run('rebuild', n, s, nontrivial=l > n)
            if l < 11:
                for t in (None, .5, .8, 1, .3):
                    ctx.run('nkeys', n, s, t, nontrivial=l > n)
    ints, _ = ctx.literals(FILES)
    for _ in ctx.share(.8):
        l = rng.choice([0, 1, 2, 3, 5, 10, 30, 100] + [x + d for x in ints for d in (-1, 0, 1) if 0 < x < 500])
        n = rng.randint(1, 12)
        s = ''.join(rng.choice('abcd \xe9\U0001F600') for _ in range(l))
        ctx.run('grams', n, rng.choice([s, list(s), tuple(s)]))
        ctx.run('rebuild', n, s)
        if l < 12:
            ctx.run('nkeys', n, s, rng.choice([None, .2, .5, .8, .9, 1]))
