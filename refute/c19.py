import itertools
from lib import check, close
FILES = ['fog/evaluation/best_matching.py', 'fog/utils.py']
RULE = 'every pair of partitions of 4 items, then random clusterings with additional, missing and repeated items, and random OnlineMean histories; non-trivial: at least two items'


def f1s(t, preds, items):
    best = None
    for p in preds:
        p = {x for x in p if x in items}
        tp = len(set(t) & set(p))
        if not tp:
            continue
        P, R = tp / len(p), tp / len(t)
        F = 2 * P * R / (P + R)
        if best is None or F > best[0][2] + 1e-12:
            best = [(P, R, F)]
        elif abs(F - best[0][2]) <= 1e-12:
            best.append((P, R, F))
    return best


@check
def score(truth, pred, allow, kind):
    from fog.evaluation import best_matching_macro_average
    mk = {'list': list, 'set': set, 'tuple': tuple}[kind]
    t, p = [mk(c) for c in truth], [mk(c) for c in pred]
    items = {x for c in truth for x in c}
    bad = not truth or not pred or any(not c for c in truth) or any(not c for c in pred)
    seen = set()
    for c in pred:
        for x in (set(c) if kind == 'set' else c):
            if x not in items:
                bad = bad or not allow
                continue
            if x in seen:
                bad = True
            seen.add(x)
    bad = bad or bool(items - seen)
    kwargs = {} if allow is None else {'allow_additional_items': allow}
    try:
        r = best_matching_macro_average(t, p, **kwargs)
    except TypeError:
        return None if bad else 'raised TypeError on valid input'
    if bad:
        return 'accepted invalid clusters: %r' % (r,)
    opts = [f1s(c, pred, items) for c in truth]
    n = len(truth)
    F = sum(o[0][2] for o in opts) / n
    if not close(r[2], F):
        return 'f1 %r, expected %r' % (r[2], F)
    for k in (0, 1):
        lo = sum(min(o[k] for o in os) for os in opts) / n
        hi = sum(max(o[k] for o in os) for os in opts) / n
        if not (lo - 1e-9 <= r[k] <= hi + 1e-9):
            return '%s %r, expected within [%r, %r]' % (('precision', 'recall')[k], r[k], lo, hi)
    for x in r:
        if not (-1e-12 <= x <= 1 + 1e-9):
            return 'score %r out of [0, 1]' % (x,)
    # a single truth cluster: precision and recall come from the same predicted cluster
    if n == 1 and not any(close(r[0], o[0]) and close(r[1], o[1]) for o in opts[0]):
        return 'precision and recall %r are not those of a best cluster %r' % (r, opts[0])


@check
def mean(ops):
    from fog.utils import OnlineMean
    from statistics import StatisticsError
    m, vals, n, s = OnlineMean(), [], 0, 0
    for op in ops:
        if op[0] == 'add':
            m.add(op[1]); n += 1; s += op[1]
        elif op[0] == 'sub':
            if n == 0:
                try:
                    m.subtract(op[1])
                except AssertionError:
                    continue
                return 'subtract accepted on an empty mean'
            m.subtract(op[1]); n -= 1; s -= op[1]
        else:
            o = OnlineMean()
            for v in op[1]:
                o.add(v)
            if op[0] == 'iadd':
                m += o
            else:
                before = (len(m), m._sum, len(o), o._sum)
                m2 = m + o
                if (len(m), m._sum, len(o), o._sum) != before:
                    return '+ modified an operand'
                if m2 is m or m2 is o:
                    return '+ returned an operand'
                m = m2
            n += len(op[1]); s += sum(op[1])
        if len(m) != n:
            return 'len %r, expected %r' % (len(m), n)
        if n:
            if not close(m.peek(), s / n) or not close(float(m), s / n):
                return 'mean %r, expected %r' % (m.peek(), s / n)
        else:
            try:
                m.peek()
            except StatisticsError:
                continue
            return 'peek on an empty mean did not raise StatisticsError'


def partitions(items):
    if not items:
        yield []
        return
    for p in partitions(items[1:]):
        yield [[items[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[items[0]] + p[i]] + p[i + 1:]


def main(ctx):
    rng = ctx.rng
    for n in (1, 2, 3, 4):
        ps = list(partitions(list(range(n))))
        for a in ps:
            for b in ps:
                ctx.run('score', a, b, None, rng.choice(['list', 'set', 'tuple']), nontrivial=n > 1)
    for a in ([], [[]], [[1]], [[1], []]):
        for b in ([], [[]], [[1]], [[1], []], [[1], [1]], [[2]], [[1, 2]]):
            for al in (None, True, False):
                ctx.run('score', a, b, al, 'list')
    for _ in ctx.share(.5):
        n = rng.choice([2, 3, 5, 8, 15])
        items = list(range(n))

        def part(items):
            items = items[:]
            rng.shuffle(items)
            k = rng.randint(1, len(items))
            out = [[] for _ in range(k)]
            for x in items:
                out[rng.randrange(k)].append(x)
            return [c for c in out if c]
        t, p = part(items), part(items)
        allow = rng.choice([None, True, False])
        if rng.random() < .3:
            for _ in range(rng.randint(1, 3)):
                rng.choice(p).append(100 + rng.randint(0, 5))
        if rng.random() < .1:
            rng.choice(p).append(rng.choice(items))
        if rng.random() < .1:
            c = rng.choice(p); c.pop()
        if rng.random() < .2:
            rng.choice(t).append(rng.choice(items)) if False else None
        if allow and rng.random() < .3:
            p.append([200, 201])
        ctx.run('score', t, p, allow, rng.choice(['list', 'set', 'tuple']))
    for _ in ctx.share(.3):
        ops = []
        for _ in range(rng.randint(0, 9)):
            v = rng.choice([0, 1, -2, 3.5, 10, 0.25])
            k = rng.choice(['add', 'add', 'sub', 'iadd', 'plus'])
            ops.append((k, v if k in ('add', 'sub') else [rng.choice([1, 2, -1, .5]) for _ in range(rng.randint(0, 3))]))
        ctx.run('mean', ops)
