import itertools, math
from lib import check, components, close
from gr import all_graphs, rand_graph
FILES = ['fog/graph/utils.py', 'fog/graph/sparsification.py']
RULE = 'every graph on 4 nodes with random weights, then random ones; non-trivial: at least one edge'


def build(n, edges, weights):
    import networkx as nx
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for (a, b), w in zip(edges, weights):
        g.add_edge(a, b, weight=w)
    return g


@check
def sizes(n, edges, weights, cut, loops):
    from fog.graph.utils import component_sizes, second_largest_component_size
    g = build(n, edges, weights)
    for x in loops:
        g.add_edge(x, x, weight=1)
    f = None if cut is None else (lambda u, v, a: a['weight'] >= cut)
    keep = [e for e, w in zip(edges, weights) if cut is None or w >= cut]
    exp = sorted(len(c) for c in components(range(n), keep))
    got = sorted(component_sizes(g, f) if f else component_sizes(g))
    if got != exp:
        return 'component sizes %r, expected %r' % (got, exp)
    s = second_largest_component_size(g, f)
    e = exp[-2] if len(exp) > 1 else None
    if s != e:
        return 'second largest %r, expected %r' % (s, e)


@check
def floatsam(n, edges, weights, start, rate, drifter, remove):
    from fog.graph import floatsam_sparsification
    g = build(n, edges, weights)
    args = dict(remove_edges=remove) if remove is not None else {}
    if start is not None: args['starting_treshold'] = start
    if rate is not None: args['learning_rate'] = rate
    if drifter is not None: args['max_drifter_size'] = drifter
    r = floatsam_sparsification(g, **args)
    s, lr = (0.0 if start is None else start), (.05 if rate is None else rate)
    if not edges:
        exp = s
    else:
        md = int(math.log(n)) if drifter is None else drifter
        mx = max(weights)
        t = s
        while True:
            exp = t
            t += lr
            c = sorted(len(c) for c in components(range(n), [e for e, w in zip(edges, weights) if w >= t]))
            if len(c) > 1 and c[-2] >= md:
                break
            if t > mx:
                break
    if not close(r, exp):
        return 'threshold %r, expected %r' % (r, exp)
    left = {frozenset(e) for e in g.edges}
    want = {frozenset(e) for e, w in zip(edges, weights) if not remove or not edges or w >= r}
    if left != want:
        return 'edges left %r, expected %r' % (left, want)


def main(ctx):
    rng = ctx.rng
    for n in (1, 2, 3, 4):
        for g in all_graphs(n):
            w = [rng.choice([0, .5, 1]) for _ in g]
            for cut in (None, .5, 1, 2):
                ctx.run('sizes', n, g, w, cut, [], nontrivial=bool(g))
    for _ in ctx.share(.4):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
        g = rand_graph(rng, n, rng.choice([.05, .1, .2, .5]))
        g = [e if rng.random() < .5 else e[::-1] for e in g]
        rng.shuffle(g)
        w = [rng.choice([0, .2, .5, .9, 1]) for _ in g]
        ctx.run('sizes', n, g, w, rng.choice([None, .3, .5, .95, 2]), rng.sample(range(n), min(n, rng.choice([0, 0, 1]))))
    for _ in ctx.share(.4):
        n = rng.choice([1, 2, 3, 5, 8, 13])
        g = rand_graph(rng, n, rng.choice([.1, .3, .6]))
        w = [round(rng.random(), 2) for _ in g]
        ctx.run('floatsam', n, g, w, rng.choice([None, 0.0, .1, .5, .33]), rng.choice([None, .1, .25, .05]), rng.choice([None, 0, 1, 2, 3, 100]), rng.choice([True, False, None]))
