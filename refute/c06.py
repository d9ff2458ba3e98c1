import itertools
from lib import check, lev, one_edit, one_damerau, mutate_string
from c03 import words, ALPHABETS

FILES = ['fog/key/levenshtein.py']
RULE = 'exhaustive pairs of words over a small alphabet, then random pairs a few edits apart; non-trivial: different strings'


def keys(s, tr, flag=None):
    from fog.key.levenshtein import levenshtein_1d_keys, damerau_levenshtein_1d_keys
    if flag is not None:
        return list(levenshtein_1d_keys(s, tr, flag))
    return list(damerau_levenshtein_1d_keys(s) if tr else levenshtein_1d_keys(s))


@check
def sound(a, b, flag):
    ka, kb = set(keys(a, False, flag)), set(keys(b, False, flag))
    if ka & kb and not one_edit(a, b):
        return '%r and %r share the key %r but are more than one edit apart' % (a, b, sorted(ka & kb)[0])


@check
def complete(a, b, tr, flag):
    if not (one_damerau(a, b) if tr else one_edit(a, b)):
        return None
    if not set(keys(a, tr, flag)) & set(keys(b, tr, flag)):
        return '%r and %r are at distance <= 1 but share no key' % (a, b)


def _doubled_gap(s, t):
    """t is s plus one letter, and every way to insert it puts it between two equal letters of s"""
    if len(s) > len(t):
        s, t = t, s
    if len(t) != len(s) + 1:
        return False
    pos = [i for i in range(len(t)) if t[:i] + t[i + 1:] == s]
    return bool(pos) and all(0 < i < len(s) and s[i - 1] == s[i] for i in pos)


KNOWN = {'C06-doubled-letter': lambda name, args, msg: name == 'complete' and 'share no key' in msg and _doubled_gap(args[0], args[1])}


def main(ctx):
    W = words('ab', 5) + words('abc', 3 if not ctx.thorough else 4)
    for a in W:
        for b in W:
            ctx.run('sound', a, b, None, nontrivial=a != b)
            ctx.run('complete', a, b, False, None, nontrivial=a != b)
            ctx.run('complete', a, b, True, None, nontrivial=a != b)
        if ctx.done() or ctx.left() < 0.5 * ctx.budget:
            break
    rng = ctx.rng
    ints, _ = ctx.literals(FILES)
    L = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 40] + [x for x in ints if 0 < x < 200]
    for _ in ctx.share(0.45):
        al = rng.choice(ALPHABETS).replace('\x00', '')
        a = ''.join(rng.choice(al) for _ in range(rng.choice(L)))
        tr = rng.random() < 0.5
        b = mutate_string(rng, a, al, 1 if rng.random() < .7 else 2, tr)
        fl = rng.choice([None, None, '\x01', '$'])
        ctx.run('complete', a, b, tr, fl)
        ctx.run('sound', a, b, fl)
