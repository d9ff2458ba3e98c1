import itertools, math
from lib import check, close
FILES = ['fog/graph/projection.py', 'fog/metrics/utils.py', 'fog/metrics/cosine.py']
RULE = 'every bipartite graph on 3+2 nodes, then random weighted ones, for each metric, threshold and strategy; non-trivial: two projected nodes share a neighbour'


def build(n, m, edges, weights, wname):
    import networkx as nx
    g = nx.Graph()
    for i in range(n):
        g.add_node('a%d' % i, bipartite='A', rank=i)
    for i in range(m):
        g.add_node('b%d' % i, bipartite='B')
    for (i, j), w in zip(edges, weights):
        if w is None:
            g.add_edge('a%d' % i, 'b%d' % j)
        else:
            g.add_edge('a%d' % i, 'b%d' % j, **{wname: w})
    return g


@check
def project(n, m, edges, weights, metric, threshold, topo, part, wname, bcheck):
    from fog.graph import monopartite_projection
    g = build(n, m, edges, weights, wname)
    before = (sorted(g.nodes(data=True), key=lambda x: x[0]), sorted(g.edges(data=True), key=lambda e: e[:2]))
    before = repr(before)
    args = dict(metric=metric, use_topology=topo)
    if threshold is not None:
        args['threshold'] = threshold
    if wname != 'weight':
        args['weight'] = wname
    if not bcheck:
        args['bipartition_check'] = False
    r = monopartite_projection(g, part, **args)
    if repr((sorted(g.nodes(data=True), key=lambda x: x[0]), sorted(g.edges(data=True), key=lambda e: e[:2]))) != before:
        return 'input graph modified'
    nodes = [x for x, a in g.nodes(data=True) if a['bipartite'] == part]
    if {x: dict(a) for x, a in r.nodes(data=True)} != {x: dict(g.nodes[x]) for x in nodes}:
        return 'nodes %r' % (list(r.nodes(data=True)),)
    vec = {x: {y: g[x][y].get(wname, 1) for y in g[x]} for x in nodes}
    for x, y in itertools.combinations(nodes, 2):
        I = set(vec[x]) & set(vec[y])
        a, b, i = len(vec[x]), len(vec[y]), len(I)
        v = None
        if i:
            if metric == 'cosine':
                d = sum(vec[x][k] * vec[y][k] for k in I)
                v = d / math.sqrt(sum(w * w for w in vec[x].values()) * sum(w * w for w in vec[y].values())) if d else None
            else:
                v = {None: i, 'jaccard': i / (a + b - i), 'dice': 2 * i / (a + b), 'overlap': i / min(a, b), 'binary_cosine': i / math.sqrt(a * b)}[metric]
        if v is None:
            exp = False
        elif threshold is None:
            exp = True
        elif abs(v - threshold) < 1e-9 and v != threshold:
            continue
        else:
            exp = v >= threshold
        if metric == 'cosine' and v is not None and threshold is not None and abs(v - threshold) < 1e-9:
            continue
        if r.has_edge(x, y) != exp:
            return 'edge (%s, %s) %s, metric value %r' % (x, y, 'missing' if exp else 'unexpected', v)
        if exp and not close(r[x][y][wname], v):
            return 'edge (%s, %s) weighs %r, expected %r' % (x, y, r[x][y][wname], v)


@check
def refuse(kind):
    import networkx as nx
    from fog.graph import monopartite_projection
    g = build(2, 2, [(0, 0), (1, 1)], [1, 1], 'weight')
    args = {}
    if kind == 'metric':
        args['metric'] = 'nope'
    elif kind == 'same':
        g.add_edge('a0', 'a1')
    else:
        g.add_node('c', bipartite='C')
        g.add_edge('a0', 'c')
    try:
        monopartite_projection(g, 'A', **args)
    except TypeError:
        return None
    return 'accepted'


METRICS = [None, 'cosine', 'jaccard', 'overlap', 'dice', 'binary_cosine']


def main(ctx):
    rng = ctx.rng
    for k in ('metric', 'same', 'three'):
        ctx.run('refuse', k)
    ps = list(itertools.product(range(3), range(2)))
    for bits in range(1 << len(ps)):
        e = [p for k, p in enumerate(ps) if bits >> k & 1]
        for metric in METRICS:
            ctx.run('project', 3, 2, e, [None] * len(e), metric, rng.choice([None, .5, 1 / 3, 1, .7]), rng.random() < .5, rng.choice('AB'), 'weight', rng.random() < .7)
        if ctx.done():
            return
    for _ in ctx.share(.8):
        n, m = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 5, 8])
        p = rng.choice([.2, .4, .7])
        e = [x for x in itertools.product(range(n), range(m)) if rng.random() < p]
        rng.shuffle(e)
        w = [rng.choice([None, 1, 2, 3.5, .5, 10]) for _ in e]
        if rng.random() < .15:
            w = [rng.choice([0, 1, 2]) for _ in e]
        ctx.run('project', n, m, e, w, rng.choice(METRICS), rng.choice([None, .1, .25, 1 / 3, .5, 2 / 3, .8, 1, 2]), rng.random() < .6, rng.choice('AAAB'), rng.choice(['weight', 'w']), rng.random() < .8)
