import csv, datetime, io, itertools, types
from lib import check
FILES = ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py', 'fog/cli/reporting/toml.py', 'fog/cli/cluster.py']
RULE = 'random tables, separators and options, random reports; non-trivial: at least two rows or clusters'


def table(rows):
    f = io.StringIO()
    csv.writer(f).writerows(rows)
    return io.StringIO(f.getvalue())


def parse(out):
    return list(csv.reader(io.StringIO(out.getvalue())))


@check
def split(rows, pos, sep, target, rename):
    from fog.cli.split import split_action
    out = io.StringIO()
    split_action(types.SimpleNamespace(file=table(rows), column=rows[0][pos], output=out, separator=sep, target_column=target, rename_column=rename))
    h = list(rows[0])
    if rename is not None:
        h[pos] = rename
    if target is not None:
        h.append(target)
    exp = [h]
    for r in rows[1:]:
        for v in r[pos].split(sep):
            n = list(r)
            if target is not None:
                n.append(v)
            else:
                n[pos] = v
            exp.append(n)
    got = parse(out)
    if got != exp:
        return 'split gives %r, expected %r' % (got, exp)


def ops():
    from unidecode import unidecode
    from fog.key import fingerprint
    return {'fingerprint': fingerprint, 'len': lambda x: str(len(x)), 'lower': str.lower, 'strip': str.strip, 'upper': str.upper, 'unidecode': unidecode,
            'squeeze': lambda x: ''.join(c for i, c in enumerate(x) if i == 0 or x[i - 1] != c)}


@check
def transform(rows, pos, chain, ev, target, after):
    from fog.cli.transform import transform_action
    out = io.StringIO()
    transform_action(types.SimpleNamespace(file=table(rows), column=rows[0][pos], output=out, operations=chain, eval=ev, target_column=target, after=after))
    O = ops()

    def f(v):
        if ev:
            return {'value[::-1]': v[::-1], 'value + "x"': v + 'x', 'len(value)': str(len(v))}[chain]
        for o in chain.split(','):
            v = O[o](v)
        return v
    exp = []
    for i, r in enumerate(rows):
        n = list(r)
        v = f(r[pos]) if i else target
        if target is not None:
            if after:
                n.insert(pos + 1, v)
            else:
                n.append(v)
        elif i:
            n[pos] = v
        exp.append(n)
    got = parse(out)
    if got != exp:
        return 'transform gives %r, expected %r' % (got, exp)


@check
def toml(values, clusters, lines, took, date):
    import tomllib
    from fog.cli.reporting.toml import print_toml_report
    out = io.StringIO()
    d = datetime.datetime(*date)
    vc = [list(c) for c in clusters]
    vals = dict(values)
    print_toml_report(out, {'date': d, 'algorithm': 'fingerprint_collision', 'lines': lines, 'took': took}, dict(vals), vc)
    try:
        t = tomllib.loads(out.getvalue())
    except tomllib.TOMLDecodeError as e:
        return 'report does not parse: %s' % e
    if t['info'] != {'date': d.replace(microsecond=0), 'algorithm': 'fingerprint_collision'}:
        return 'info %r' % (t['info'],)
    st = t['stats']
    if (st['lines'], st['nb_distinct_values'], st['nb_clusters']) != (lines, len(vals), len(clusters)) or abs(st['took'] - took) > 1e-5:
        return 'stats %r' % (st,)
    cl = t.get('cluster', [])
    if len(cl) != len(clusters):
        return '%d clusters' % len(cl)
    for i, (a, b) in enumerate(zip(cl, clusters)):
        if a['id'] != i or a['nb_values'] != len(b) or a['nb_rows'] != sum(vals[v] for v in b) or a['harmonize'] is not False:
            return 'cluster %r for %r' % (a, b)
        got = [(v[0][0], v[1][0]) for v in a['values']]
        exp = sorted(((v, vals[v]) for v in b), key=lambda x: -x[1])
        if got != exp:
            return 'values %r, expected %r' % (got, exp)
        if a['harmonized'] != exp[0][0]:
            return 'harmonized %r, expected %r' % (a['harmonized'], exp[0][0])


@check
def cluster(rows, pos):
    import tomllib
    from collections import Counter
    from fog.cli.cluster import cluster_action
    from fog.key import fingerprint
    out = io.StringIO()
    cluster_action(types.SimpleNamespace(file=table(rows), column=rows[0][pos], output=out, algorithm='fingerprint_collision', type='toml'))
    t = tomllib.loads(out.getvalue())
    c = Counter(r[pos] for r in rows[1:])
    if t['stats']['lines'] != len(rows) - 1 or t['stats']['nb_distinct_values'] != len(c):
        return 'stats %r' % (t['stats'],)
    g = {}
    for v in c:
        g.setdefault(fingerprint(v), set()).add((v, c[v]))
    exp = sorted(sorted(x) for k, x in g.items() if k and len(x) > 1)
    got = sorted(sorted((v[0][0], v[1][0]) for v in k['values']) for k in t.get('cluster', []))
    if exp != got:
        return 'clusters %r, expected %r' % (got, exp)


CELLS = ['', 'a', 'b|c', '|', 'a||b', 'x,y', '"q"', 'l1\nl2', '\xe9T\xc9', '  pad ', 'aabb', '\\', 'a\\n', 'one two', 'two one', 'Two, One', '&', '\u4e2d', '\U0001F600', '"', 'a&b&c', '|x', 'y|', '0']


def main(ctx):
    rng = ctx.rng
    ints, strs = ctx.literals(FILES)
    for sep, cell, target, rename in itertools.product(['|', '&', '::'], CELLS, [None, 'new'], [None, 'ren']):
        ctx.run('split', [['h', 'col'], ['k', cell], [cell, 'b|c']], 1, sep, target, rename)
    CTRL = ['\x00', '\x08', '\t', '\x0b', '\x1f', '\x7f', '\r', '\n', '\\u0041', '\x85', '\u2028', '\ufeff']
    for _ in ctx.share(.85):
        w = rng.randint(1, 5)
        rows = [['c%d' % i for i in range(w)]] + [[rng.choice(CELLS) for _ in range(w)] for _ in range(rng.randint(0, 5))]
        if w == 1:
            rows = [r for i, r in enumerate(rows)]
        pos = rng.randrange(w)
        ctx.run('split', rows, pos, rng.choice(['|', '&', '||', 'a', ',', 'one']), rng.choice([None, 'new']), rng.choice([None, 'ren']), nontrivial=len(rows) > 2)
        ev = rng.random() < .2
        chain = rng.choice(['value[::-1]', 'value + "x"', 'len(value)']) if ev else ','.join(rng.choice(['fingerprint', 'lower', 'squeeze', 'strip', 'unidecode', 'upper']) for _ in range(rng.randint(1, 3))) + rng.choice(['', '', ',len'])
        ctx.run('transform', rows, pos, chain, ev, rng.choice([None, 'new', '']), rng.random() < .5, nontrivial=len(rows) > 2)
        ctx.run('cluster', rows, pos, nontrivial=len(rows) > 2)
        vals = {}
        for _ in range(rng.randint(0, 8)):
            vals[''.join(rng.choice(CELLS + CTRL + strs) for _ in range(rng.randint(0, 3)))] = rng.randint(1, 20)
        vs = list(vals)
        rng.shuffle(vs)
        cl = []
        while vs and rng.random() < .8:
            k = rng.randint(1, 4)
            cl.append(vs[:k])
            vs = vs[k:]
        ctx.run('toml', list(vals.items()), cl, rng.randint(0, 10 ** 6), rng.choice([0.0, 0.5, 12.25, 1e-7, 3600.125]),
                (rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 5, 999999])), nontrivial=len(cl) > 1)
