import itertools, re, unicodedata
from lib import check
FILES = ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py', 'fog/utils.py']
RULE = 'random strings over letters, accents, punctuation, digits, whitespace and astral characters, with every option; non-trivial: at least two tokens'


def norm(s, keep_digits, mts, split, stop, squeeze):
    """the documented pipeline"""
    from unidecode import unidecode
    if split is not None:
        s = ''.join(' ' if c in ''.join(split) else c for c in s)
    if stop is not None:
        s = re.sub('(?i)' + '|'.join(r'\b' + re.escape(w) + r'\b' for w in stop), '', s)
    if not keep_digits:
        s = ''.join(c for c in s if re.match(r'\d', c) is None)
    s = s.lower()
    if mts and mts > 1:
        s = re.sub(r'\b\S{1,%d}\b' % mts, '', s)
    s = unidecode(s).lower()
    s = ''.join(c for c in s if c in 'abcdefghijklmnopqrstuvwxyz0123456789' or c.isspace())
    s = s.strip()
    if squeeze:
        s = ''.join(c for i, c in enumerate(s) if i == 0 or s[i - 1] != c)
    return s


def kw(o):
    return dict(keep_digits=o[0], min_token_size=o[1], split=o[2], stopwords=o[3], squeeze=o[4])


@check
def tok(s, o):
    from fog.tokenizers import FingerprintTokenizer
    from fog.key import FingerprintingKeyer
    t = FingerprintTokenizer(**kw(o))
    r = t(s)
    n = norm(s, *o)
    e = sorted(set(n.split())) if n else ['']
    if r != e:
        return 'fingerprint(%r, %r) = %r, expected %r' % (s, o, r, e)
    if t.tokenize(s) != e:
        return 'tokenize differs from __call__ on %r' % s
    if t.key(s) != ' '.join(e):
        return 'key(%r) = %r' % (s, t.key(s))
    if FingerprintingKeyer(**kw(o))(s) != ' '.join(e):
        return 'keyer(%r) = %r' % (s, FingerprintingKeyer(**kw(o))(s))


@check
def plain(s):
    from fog.tokenizers import fingerprint_tokenizer, FingerprintTokenizer
    from fog.key import fingerprint
    n = norm(s, True, 1, None, None, False)
    e = sorted(set(n.split())) if n else ['']
    if fingerprint_tokenizer(s) != e:
        return 'fingerprint_tokenizer(%r) = %r, expected %r' % (s, fingerprint_tokenizer(s), e)
    k = fingerprint(s)
    if k != ' '.join(e):
        return 'fingerprint(%r) = %r, expected %r' % (s, k, ' '.join(e))
    if fingerprint(k) != k:
        return 'fingerprint is not idempotent on %r: %r then %r' % (s, k, fingerprint(k))


@check
def variant(s, t):
    """t is s reordered, repeated, with other case/accents/punctuation/whitespace"""
    from fog.key import fingerprint
    if fingerprint(s) != fingerprint(t):
        return 'fingerprint(%r) = %r but fingerprint(%r) = %r' % (s, fingerprint(s), t, fingerprint(t))


@check
def ngrm(n, s, o):
    from fog.tokenizers import NgramsFingerprintTokenizer, ngrams_fingerprint_tokenizer
    from fog.key import NgramsFingerprintKeyer, ngrams_fingerprint
    t = NgramsFingerprintTokenizer(**kw(o))
    z = ''.join(norm(s, *o).split())
    e = sorted(set(z[i:i + n] for i in range(len(z) - n + 1))) if len(z) >= n else [z]
    if t(n, s) != e or t.tokenize(n, s) != e:
        return 'ngrams fingerprint(%d, %r, %r) = %r, expected %r' % (n, s, o, t(n, s), e)
    if t.key(n, s) != ''.join(e) or NgramsFingerprintKeyer(**kw(o))(n, s) != ''.join(e):
        return 'ngrams key(%d, %r) = %r' % (n, s, t.key(n, s))
    if o == (True, 1, None, None, False):
        if ngrams_fingerprint_tokenizer(n, s) != e or ngrams_fingerprint(n, s) != ''.join(e):
            return 'default ngrams fingerprint(%d, %r)' % (n, s)


DEF = (True, 1, None, None, False)
ACC = {'e': '\xe9\xe8\xea', 'a': '\xe0\xe2', 'c': '\xe7', 'o': '\xf4', 'u': '\xfc', 'n': '\xf1'}


def main(ctx):
    rng = ctx.rng
    ints, strs = ctx.literals(FILES)
    for n in range(0, 4):
        for t in itertools.product('aB1 -\xe9', repeat=n):
            w = ''.join(t)
            ctx.run('plain', w, nontrivial=' ' in w)
            ctx.run('ngrm', 2, w, DEF, nontrivial=n > 2)
    pool = 'abcdefgxyzABCXYZ0123456789    \t\n\x0b\x1c\x85\xa0\u2003-_.,;:!?\'"()\xe9\xe8\xe0\xe7\xdf\xc6\u0153\u0130\u0131\u4e2d\u0416\U0001F600\ufb01\u00bd\u0661'
    words = ['north', 'Carolina', 'university', 'of', 'the', 'THE', 'aab', 'x', '12', 'a1b2', '\xe9cole', 'na\xefve', 'co-op', "l'eau", 'ii', '2', 'zoo']
    for _ in ctx.share(.85):
        if rng.random() < .5:
            s = ''.join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 20])))
        else:
            s = rng.choice([' ', '  ', ', ', '\t', ' - ']).join(rng.choice(words) for _ in range(rng.randint(0, 6)))
        if strs and rng.random() < .1:
            s += rng.choice(strs)
        ctx.run('plain', s)
        o = (rng.random() < .6, rng.choice([1, 1, 2, 3, 4, None, 0]),
             rng.choice([None, None, ['-'], ["'", '-'], [',', ' '], ['a'], ['^', ']'], ['.', '-', 'z']]),
             rng.choice([None, None, ['the'], ['the', 'of'], ['a.b'], ['x', '12']]), rng.random() < .4)
        ctx.run('tok', s, o)
        ctx.run('ngrm', rng.randint(1, 5), s, o if rng.random() < .5 else DEF)
        ws = [w for w in (''.join(rng.choice('abcdenou012') for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(0, 5)))]
        vs = list(ws) + [rng.choice(ws) for _ in range(rng.randint(0, 3)) if ws]
        rng.shuffle(vs)

        def deco(w):
            r = ''
            for c in w:
                if c in ACC and rng.random() < .3:
                    c = rng.choice(ACC[c])
                if rng.random() < .3:
                    c = c.upper()
                if rng.random() < .15:
                    c += rng.choice('-.,;!\'"_')
                r += c
            return r
        t = rng.choice(['', ' ', '\n']) + ''.join(deco(w) + rng.choice([' ', '  ', ' - ', ',\t', '\n', '\u2003']) for w in vs)
        ctx.run('variant', ' '.join(ws), t, nontrivial=len(ws) > 1)
