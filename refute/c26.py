import itertools
from lib import check
FILES = ['fog/tokenizers/words.py']
RULE = 'exhaustive short strings over the characters the scanner distinguishes, then random texts; non-trivial: at least two tokens'
TYPES = {'word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention'}


@check
def stream(s):
    from fog.tokenizers import WordTokenizer
    toks = list(WordTokenizer()(s))
    i = 0
    for t, v in toks:
        if t not in TYPES:
            return 'unknown type %r' % t
        if not v:
            return 'empty token in %r' % (toks,)
        j = s.find(v, i)
        if j < 0:
            return 'token %r of %r is not in the text after position %d: %r' % (v, s, i, toks)
        k = i
        while k < len(s) and not s.startswith(v, k) and (s[k].isspace() or s[k] <= '\x1f' or s[k] == '-'):
            k += 1
        if not s.startswith(v, k):
            return 'characters %r of %r are lost before token %r: %r' % (s[k:j], s, v, toks)
        i = k + len(v)
    for c in s[i:]:
        if not (c.isspace() or c <= '\x1f' or c == '-'):
            return 'characters %r at the end of %r are lost: %r' % (s[i:], s, toks)


@check
def strict(s):
    """only hyphens inside a split word may vanish: every other non-blank character is emitted"""
    from fog.tokenizers import WordTokenizer
    toks = list(WordTokenizer()(s))
    a = ''.join(v for _, v in toks)
    b = ''.join(c for c in s if not (c.isspace() or c <= '\x1f'))
    if ''.join(c for c in a if not (c.isspace() or c <= '\x1f' or c == '-')) != b.replace('-', ''):
        return 'text %r, tokens %r' % (s, toks)
    if '-' not in s and a != b and not any(c.isspace() or c <= '\x1f' for c in a):
        return 'text %r, tokens %r' % (s, toks)


@check
def hashtag(s):
    from fog.tokenizers.words import split_hashtag
    r = list(split_hashtag(s))
    if ''.join(v for _, v in r) != s[1:]:
        return 'split_hashtag(%r) = %r' % (s, r)
    for t, v in r:
        if not v or t not in ('word', 'number'):
            return 'split_hashtag(%r) = %r' % (s, r)
        if (t == 'number') != v.isdigit():
            return 'split_hashtag(%r) tags %r as %s' % (s, v, t)


@check
def options(s, o):
    """the options rewrite the default stream as documented"""
    from fog.tokenizers import WordTokenizer
    from fog.tokenizers.words import split_hashtag
    from unidecode import unidecode
    from html import unescape
    import re
    o = dict(o)
    got = list(WordTokenizer(**o)(s))
    if o.get('decode_html_entities'):
        s = unescape(s)
    if o.get('unidecode'):
        s = unidecode(s)
    if o.get('reduce_words'):
        s = re.sub(r'([^\W\d])\1{4,}', r'\1\1\1', s)
    stop = o.get('stoplist')
    if stop is not None and o.get('lower'):
        stop = [w.lower() for w in stop]
    base = []
    for t, v in WordTokenizer()(s):
        if t == 'hashtag' and o.get('split_hashtags'):
            base.extend(split_hashtag(v))
        else:
            base.append((t, v))
    if o.get('split_hashtags') and ("'" in s or '\u2019' in s):
        # a hashtag followed by an apostrophe goes through the contraction rules and may stay whole
        base = list(WordTokenizer(split_hashtags=True)(s))
    if got == base and set(o) <= {'split_hashtags', 'decode_html_entities', 'unidecode', 'reduce_words'}:
        return None
    exp = []
    for t, v in base:
        if o.get('keep') is not None and t not in o['keep']:
            continue
        if o.get('drop') is not None and t in o['drop']:
            continue
        if t == 'mention':
            if o.get('normalize_mentions'):
                v = v.lower()
            if o.get('mentions_as_words'):
                t, v = 'word', v[1:]
        elif t == 'hashtag':
            if o.get('normalize_hashtags'):
                v = unidecode(v.lower())
            if o.get('hashtags_as_words'):
                t, v = 'word', v[1:]
        if t == 'word':
            if o.get('lower'):
                v = v.lower()
            if o.get('min_word_length') is not None and len(v) < o['min_word_length']:
                continue
            if o.get('max_word_length') is not None and len(v) > o['max_word_length']:
                continue
        if stop is not None and v in stop:
            continue
        exp.append((t, v))
    if got != exp:
        return 'options %r on %r give %r, expected %r' % (o, s, got, exp)


@check
def guards():
    from fog.tokenizers import WordTokenizer
    for bad in ({'keep': ['word'], 'drop': ['punct']}, {'keep': ['nope']}, {'drop': ['nope']},
                {'min_word_length': 3, 'max_word_length': 3}, {'min_word_length': 4, 'max_word_length': 3}):
        try:
            WordTokenizer(**bad)
        except TypeError:
            continue
        return 'no TypeError for %r' % (bad,)


PIECES = ['a', 'b', 'I', "aujourd'hui", "l'", "d'", "n't", "'tis", 'O\u2019Brien', 'F.B.I.', 'U.S.A', 'Mr.', 'etc.', '-t-', '-je', 'vas-tu',
          'http://', 'https://a.b/c?d=e,f', 'me@x.org', '@you', '#tag', '#FooBar12', '$AAPL', ':)', ':-)', '<3', '->', '8-)', '\U0001F600', '\u2764\ufe0f',
          '\ufe0f', '1', '12.5', '1,000.5', '-3', '-', '--', '.', '...', ',', '!', '?', '\u2026', '\u201c', '_', '\xb7', 'e\u0301', '\xe9', '\xc9', ' ', '  ', '\n', '\x01', '&amp;', 'looooool',
          "'", '\u2019', "s'", "'s", 'x-y', 'x_y', '3e5', '5th', '@', '#', '$', '\u0661', '\xb2', '\u4e2d', 'A.', 'A.B', 'Ab.C', "#a'b", "@a's", '\u200d', 'h', 'hui', "t'"]


def main(ctx):
    rng = ctx.rng
    ints, strs = ctx.literals(FILES)
    strs = [x for x in strs if len(x) < 15]
    ctx.run('guards')
    al = "aA1-'.#@ "
    for n in range(0, 5):
        for t in itertools.product(al if n < 5 else al, repeat=n):
            ctx.run('stream', ''.join(t), nontrivial=n > 2)
            if ctx.left() < ctx.budget * .55:
                break
    al2 = 'aA1_B\xb2'
    for n in range(2, 6):
        for t in itertools.product('aA1\xb2', repeat=n - 1):
            ctx.run('hashtag', '#' + ''.join(t), nontrivial=n > 2)
    KS = [['word'], ['word', 'hashtag'], ['mention', 'number', 'punct'], ['hashtag'], []]
    for _ in ctx.share(.5):
        s = ''.join(rng.choice(PIECES) if rng.random() < .9 or not strs else rng.choice(strs) for _ in range(rng.choice([1, 2, 3, 4, 6, 10])))
        if rng.random() < .1:
            s = s + 'ab' * rng.randint(20, 60) + s
        if rng.random() < .2:
            # long runs of the same few pieces
            pool = rng.sample(PIECES, rng.choice([1, 1, 2, 3]))
            s = s + ''.join(rng.choice(pool) for _ in range(rng.choice([5, 12, 35, 70, 140]))) + rng.choice(PIECES) + (rng.choice(PIECES) if rng.random() < .5 else '')
        ctx.run('stream', s)
        ctx.run('strict', s)
        o = []
        for k in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words', 'hashtags_as_words', 'split_hashtags'):
            if rng.random() < .25:
                o.append((k, True))
        r = rng.random()
        if r < .25:
            o.append(('keep', rng.choice(KS)))
        elif r < .5:
            o.append(('drop', rng.choice(KS)))
        if rng.random() < .25:
            o.append(('min_word_length', rng.randint(0, 3)))
        if rng.random() < .25:
            o.append(('max_word_length', rng.randint(4, 8)))
        if rng.random() < .3:
            o.append(('stoplist', rng.sample(['A', 'a', 'you', '@you', 'tag', '.', '1', 'Foo', 'vas'], 4)))
        ctx.run('options', s, o)
        h = '#' + ''.join(rng.choice('abAB12\xe9\xc9\xb2\u0661') for _ in range(rng.randint(1, 10)))
        ctx.run('hashtag', h)
