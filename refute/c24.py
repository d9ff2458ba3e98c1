import itertools, re, string as _s
from lib import check
FILES = ['fog/key/omission.py', 'fog/key/skeleton.py', 'fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py', 'fog/utils.py']
RULE = 'exhaustive short words over informative letters, then random Unicode strings; non-trivial: at least two letters'
CONS = 'JKQXZVWYBFMGPDHCLNTSR'


def letters(s):
    from unidecode import unidecode
    return re.sub('[^A-Z]', '', unidecode(s).upper())


def uniq(s):
    return ''.join(dict.fromkeys(s))


@check
def omission(s):
    from fog.key import omission_key
    t = letters(s)
    e = ''.join(c for c in CONS if c in t) + uniq(c for c in t if c in 'AEIOU')
    r = omission_key(s)
    if r != e:
        return 'omission_key(%r) = %r, expected %r' % (s, r, e)


@check
def skeleton(s):
    from fog.key import skeleton_key
    t = letters(s)
    e = ''
    if t:
        rest = uniq(c for c in t if c != t[0])
        e = t[0] + ''.join(c for c in rest if c not in 'AEIOU') + ''.join(c for c in rest if c in 'AEIOU')
    r = skeleton_key(s)
    if r != e:
        return 'skeleton_key(%r) = %r, expected %r' % (s, r, e)


@check
def sq(s, roman):
    from fog.utils import squeeze
    r = squeeze(s, keep_roman_numerals=True) if roman else squeeze(s)
    e = ''.join(c for i, c in enumerate(s) if i == 0 or s[i - 1] != c or (roman and c in 'IXCMixcm'))
    if r != e:
        return 'squeeze(%r, %r) = %r, expected %r' % (s, roman, r, e)
    if squeeze(r, roman) != r:
        return 'squeeze is not idempotent on %r' % s


def cologne_spec(name):
    from unidecode import unidecode
    name = name.upper()
    for p, r in (('\xc4', 'A'), ('\xd6', 'O'), ('\xdc', 'U'), ('\xdf', 'SS'), ('PH', 'F')):
        name = name.replace(p, r)
    name = re.sub('[^A-Z]', '', unidecode(name))
    out = ''
    for i, c in enumerate(name):
        nx = name[i + 1] if i + 1 < len(name) else ''
        pv = name[i - 1] if i else ''
        if c in 'AEIOUJY': out += '0'
        elif c in 'BP': out += '1'
        elif c in 'FVW': out += '3'
        elif c in 'GKQ': out += '4'
        elif c == 'L': out += '5'
        elif c in 'MN': out += '6'
        elif c == 'R': out += '7'
        elif c in 'SZ': out += '8'
        elif c in 'DT': out += '8' if nx and nx in 'CSZ' else '2'
        elif c == 'X': out += '8' if pv and pv in 'CQK' else '48'
        elif c == 'C':
            if i == 0:
                out += '4' if nx and nx in 'AHKLOQRUX' else '8'
            else:
                out += '4' if nx and nx in 'AHKOQUX' and pv not in 'SZ' else '8'
    out = ''.join(c for i, c in enumerate(out) if i == 0 or out[i - 1] != c)
    return out[:1] + out[1:].replace('0', '')


@check
def col(s):
    from fog.phonetics import cologne
    r, e = cologne(s), cologne_spec(s)
    if r != e:
        return 'cologne(%r) = %r, expected %r' % (s, r, e)


@check
def rus(s):
    from fog.phonetics import rusalka
    r = rusalka(s)
    if not isinstance(r, str):
        return 'rusalka(%r) = %r' % (s, r)
    if re.search('[a-z]', r) is None and r not in ('',) and not all(c in '\u0283\u0292' for c in r):
        return 'rusalka(%r) = %r' % (s, r)
    if len(r) > 1 and re.search('[aeiouy]', r[1:]):
        return 'rusalka(%r) = %r keeps a vowel' % (s, r)
    if r != rusalka(s.upper()) and s.upper().lower() == s.lower():
        return 'rusalka depends on the case of %r' % s


def main(ctx):
    rng = ctx.rng
    ints, strs = ctx.literals(FILES)
    al = 'ACHSX'
    for n in range(0, 4):
        for t in itertools.product('ACDHKPSXLZ' if n < 4 else al, repeat=n):
            ctx.run('col', ''.join(t), nontrivial=n > 1)
    for n in range(0, 5):
        for t in itertools.product('ABEX' if n < 4 else 'ABE', repeat=n):
            w = ''.join(t)
            ctx.run('omission', w, nontrivial=n > 1)
            ctx.run('skeleton', w, nontrivial=n > 1)
        for t in itertools.product('aI\n', repeat=n):
            ctx.run('sq', ''.join(t), False, nontrivial=n > 1)
            ctx.run('sq', ''.join(t), True, nontrivial=n > 1)
    for a in itertools.product(_s.ascii_lowercase, repeat=2):
        ctx.run('rus', ''.join(a))
        ctx.run('col', ''.join(a))
    pool = _s.ascii_letters + '\xe9\xc4\xf6\xfc\xdf \'-.0123\u0161\u010d\u017e\xfb\u015d\u0416\u0451\u4e2d\U0001F600\u0130\u0131\ufb01'
    for _ in ctx.share(.8):
        p = rng.choice([pool, _s.ascii_uppercase, 'ABCDEHKSTXZ', 'ptszchjyeiouw', 'aab', 'IXCMixcmab\n'])
        s = ''.join(rng.choice(p) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 15])))
        if strs and rng.random() < .1:
            s = s + rng.choice(strs) + s[:2]
        ctx.run('omission', s)
        ctx.run('skeleton', s)
        ctx.run('col', s)
        ctx.run('rus', s)
        ctx.run('sq', s, rng.random() < .5)
