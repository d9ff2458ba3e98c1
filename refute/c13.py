import itertools
from lib import check, internal, lev, mutate_string
from gr import *
from c08 import kw
from c03 import words

FILES = ['fog/clustering/passjoin.py']
RULE = 'exhaustive segment tilings and pairs of short words for k = 0..3, then random collections of near-duplicate strings; non-trivial: at least two strings'


@internal
def tiling(k, l):
    from fog.clustering.passjoin import partition, segments
    out = list(partition(k, l))
    if [o[0] for o in out] != list(range(k + 1)):
        return 'segment indices %r' % (out,)
    pos = 0
    for _, s, n in out:
        if s != pos or n < 0:
            return 'segments %r do not tile a string of length %d' % (out, l)
        pos = s + n
    if pos != l:
        return 'segments %r do not tile a string of length %d' % (out, l)
    ns = [o[2] for o in out]
    if max(ns) - min(ns) > 1:
        return 'uneven segments %r' % (ns,)
    st = ''.join(chr(97 + i % 26) for i in range(l))
    seg = list(segments(k, st))
    if seg != [(i, st[s:s + n]) for i, s, n in out]:
        return 'segments(%d, %r) = %r' % (k, st, seg)


@internal
def matching(k, a, b):
    """pairs within k share an indexed segment, and substrings have the segment's length"""
    from fog.clustering.passjoin import partition, segments, multi_match_aware_substrings
    if lev(a, b) > k:
        return None
    seg = dict(segments(k, b))
    for i, s, n in partition(k, len(b)):
        for sub in multi_match_aware_substrings(k, a, len(b), i, s, n):
            if len(sub) != n:
                return 'substring %r for a segment of length %d' % (sub, n)
            if sub == seg[i]:
                return None
    return 'no substring of %r matches a segment of %r for k = %d' % (a, b, k)


@check
def join(data, k, sort, mode, lo, hi, lazy):
    from fog.clustering import passjoin
    from cfog.metrics.levenshtein import levenshtein_distance
    args = kw(lo, hi)
    if sort is not None:
        args['sort'] = sort
    out = list(passjoin(iter(data) if lazy else list(data), k, lev, mode=mode, **args))
    ps = [p for p in itertools.combinations(data, 2) if lev(*p) <= k]
    lo, hi = (2 if lo is None else lo), bound(hi)
    return check_cc(out, ps, lo, hi) if mode == 'connected_components' else check_fuzzy_any(out, ps, lo, hi)


def main(ctx):
    rng = ctx.rng
    for k in range(0, 9):
        for l in range(0, 40):
            ctx.run('tiling', k, l)
    W = words('ab', 4)
    for k in (0, 1, 2, 3):
        for a in W:
            for b in W:
                ctx.run('matching', k, a, b, nontrivial=a != b)
            if ctx.done() or ctx.left() < .8 * ctx.budget:
                break
    ints, strs = ctx.literals(FILES)
    for _ in ctx.share(.3):
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
        al = rng.choice(['ab', 'abc', 'abcdefghij'])
        a = ''.join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20, 30])))
        ctx.run('matching', k, a, mutate_string(rng, a, al, rng.randint(0, k)))
        ctx.run('matching', k, mutate_string(rng, a, al, rng.randint(0, k)), a)
    for _ in ctx.share(.4):
        k = rng.choice([0, 1, 1, 2, 2, 3, 4])
        al = rng.choice(['ab', 'abc', 'abcdefghij'])
        data = set()
        for _i in range(rng.randint(0, 4)):
            a = ''.join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])))
            data.add(a)
            for _j in range(rng.randint(0, 3)):
                data.add(mutate_string(rng, a, al, rng.randint(0, k + 1)))
        data = sorted(data)
        rng.shuffle(data)
        lo, hi = rng.choice(SIZES)
        ctx.run('join', data, k, rng.choice([None, True, False]), rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, rng.random() < .3)
