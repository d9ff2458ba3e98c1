import itertools
from lib import check, internal
from gr import *
from c08 import kw
from c09 import sim_kwargs

FILES = ['fog/clustering/sorted_neighborhood.py']
RULE = 'random rankings, similarity graphs, windows and size bounds, lazy or not, one or several sort keys; non-trivial: at least two items'


def sort_orders(n, ranks):
    return [sorted(range(n), key=lambda i: r[i]) for r in ranks]


def mk(n, ranks, multi, kind, edges, lo, hi, window, lazy):
    args = sim_kwargs(kind, edges)
    args.update(kw(lo, hi))
    if multi:
        ks = [(lambda i, r=r: r[i]) for r in ranks]
        args['keys'] = ks
    elif ranks and ranks[0] is not None:
        args['key'] = lambda i: ranks[0][i]
    if window is not None:
        args['window'] = window
    data = list(range(n))
    return (iter(data) if lazy else data), args


@check
def snm(n, ranks, multi, kind, edges, mode, lo, hi, window, lazy):
    from fog.clustering import sorted_neighborhood
    src, args = mk(n, ranks, multi, kind, edges, lo, hi, window, lazy)
    out = list(sorted_neighborhood(src, mode=mode, **args))
    S = {frozenset(e) for e in edges}
    w = 10 if window is None else window
    ps = []
    rs = ranks if multi else [ranks[0] if ranks and ranks[0] is not None else list(range(n))]
    for r in rs:
        o = sorted(range(n), key=lambda i: r[i])
        for i in range(n):
            for j in range(i + 1, min(n, i + w)):
                if frozenset((o[i], o[j])) in S:
                    ps.append((o[i], o[j]))
    lo, hi = (2 if lo is None else lo), bound(hi)
    return check_cc(out, ps, lo, hi) if mode == 'connected_components' else check_fuzzy_ordered(out, ps, lo, hi)


@internal
def blocks(n, edges, window):
    from fog.clustering.sorted_neighborhood import full_AA_SNM
    S = {frozenset(e) for e in edges}
    out = list(full_AA_SNM(list(range(n)), lambda a, b: frozenset((a, b)) in S, window))
    pos = 0
    for f, l in out:
        if f != pos or l < f or l >= n:
            return 'blocks %r do not tile 0..%d' % (out, n - 1)
        pos = l + 1
    if pos != n:
        return 'blocks %r leave a tail of %d items' % (out, n)


@check
def adaptive(n, ranks, multi, kind, edges, mode, lo, hi, window, lazy):
    from fog.clustering import adaptive_sorted_neighborhood
    try:
        from fog.clustering.sorted_neighborhood import full_AA_SNM
    except ImportError:
        return None
    src, args = mk(n, ranks, multi, kind, edges, lo, hi, window, lazy)
    out = list(adaptive_sorted_neighborhood(src, mode=mode, **args))
    S = {frozenset(e) for e in edges}
    sim = lambda a, b: frozenset((a, b)) in S
    w = 10 if window is None else window
    ps = []
    rs = ranks if multi else [ranks[0] if ranks and ranks[0] is not None else list(range(n))]
    for r in rs:
        o = sorted(range(n), key=lambda i: r[i])
        for s, e in full_AA_SNM(o, sim, w):
            for i in range(s, e + 1):
                for j in range(i + 1, e + 1):
                    if sim(o[i], o[j]):
                        ps.append((o[i], o[j]))
    lo, hi = (2 if lo is None else lo), bound(hi)
    return check_cc(out, ps, lo, hi) if mode == 'connected_components' else check_fuzzy_ordered(out, ps, lo, hi)


def main(ctx):
    rng = ctx.rng
    for n in range(0, 6):
        gs = list(all_graphs(n)) if n < 5 else [rand_graph(rng, n) for _ in range(300)]
        for g in gs:
            for w in (2, 3, 4, 5, 6):
                ctx.run('blocks', n, g, w, nontrivial=n > 1)
            if ctx.done():
                return
    for _ in ctx.share(.25):
        n = rng.choice([5, 6, 7, 9, 12, 17, 25, 40])
        g = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < rng.choice([.2, .5, .8, .95])]
        ctx.run('blocks', n, g, rng.randint(2, 12))
    ints, _ = ctx.literals(FILES)
    for _ in ctx.share(.6):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 11, 15, 22])
        multi = rng.random() < .4
        ranks = []
        for _r in range(rng.randint(1, 3) if multi else 1):
            r = [rng.randint(0, n) for _ in range(n)] if rng.random() < .5 else rng.sample(range(n), n)
            ranks.append(r)
        if not multi and rng.random() < .2:
            ranks = [None]
        lo, hi = rng.choice(SIZES)
        w = rng.choice([None, 2, 3, 4, 5, 7, 10, 11, 30] + [x for x in ints if 2 <= x < 60])
        a = (n, ranks, multi, rng.choice(['bool', 'sim', 'dist', 'nb']), rand_graph(rng, n), rng.choice(['connected_components', 'fuzzy_clusters']), lo, hi, w, rng.random() < .4)
        ctx.run('snm', *a)
        ctx.run('adaptive', *a)
