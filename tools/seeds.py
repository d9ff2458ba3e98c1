SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('C02-done-shared', 'C02', [('fog/metrics/jaccard.py', "        if weight_B != 0.0:\n            done.add(k)\n", "        if weight_B >= 1.0:\n            done.add(k)\n")],
     "from fog.metrics import weighted_jaccard_similarity as w\nr = w({'a': 0.5, 'b': 2.0}, {'a': 0.25, 'b': 1.0, 'c': 1.0})\nassert abs(r - 1.25 / 3.5) < 1e-12, r\n",
     'a key shared by both sides whose weight in the larger dict is below 1', 'weights below 1 of shared keys are counted twice in the union')

seed('C08-early-stop', 'C08', [('fog/clustering/utils.py', "                cluster.append(neighbor)\n                visited.add(neighbor)\n\n                stack.extend(graph[neighbor])",
                                "                cluster.append(neighbor)\n                visited.add(neighbor)\n\n                # No need to go further\n                if len(cluster) > max_size:\n                    break\n\n                stack.extend(graph[neighbor])")],
     "from fog.clustering.utils import clusters_from_pairs as c\nr = list(c([(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (8, 9)], max_size=3))\nassert [sorted(x) for x in r] == [[8, 9]], r\n",
     'a component over max_size whose traversal is stopped early, with items left to visit', 'the rest of the component is yielded as if it were one of its own')

seed('C20-last-label', 'C20', [('fog/evaluation/utils.py', "        if c is None:\n            c = []\n            clusters[l] = c\n", "        if not l and c is None or c is None:\n            c = []\n            clusters[l if l is not None else False] = c\n")],
     "from fog.evaluation.utils import labels_to_clusters as f\nr = f([None, 1, None, 1])\nassert sorted(map(sorted, r)) == [[0, 2], [1, 3]], r\n",
     'a label that is None, used by at least two items', 'items labelled None are no longer grouped together')

seed('C18-invert-keys', 'C18', [('fog/join/hashjoin.py', "                if len(key_a & key_b) > 0:\n\n                    if invert:\n                        yield (b, a)", "                if len(key_a & key_b) > 0:\n\n                    if invert and len(key_a) <= len(key_b):\n                        yield (b, a)")],
     "from fog.join import hashjoin\nk = {'l1': [1, 2], 'l2': [5], 'l3': [7], 'r1': [1, 2, 3], 'r2': [5]}\nr = sorted(hashjoin(['l1', 'l2', 'l3'], ['r1', 'r2'], keys=lambda x: k[x]))\nassert r == [('l1', 'r1'), ('l2', 'r2')], r\n",
     'keys mode, left larger than right, and the right item having more keys than the left one', 'the pair comes out as (right, left)')

seed('C09-chunk-count', 'C09', [('fog/clustering/utils.py', "    c = math.ceil(n / chunk_size)", "    c = max(1, math.floor(n / chunk_size + 0.995))")],
     "from fog.clustering.utils import upper_triangular_matrix_chunk_iter as f\nfor n, c in [(5, 2), (101, 100), (1001, 500), (401, 400), (2001, 250)]:\n    rows = set()\n    for I, J, a, b in f(list(range(n)), c):\n        rows.update(I)\n        rows.update(J)\n    assert rows == set(range(n)), (n, c)\n",
     'several processes and a chunk size above 200 whose last chunk holds a single item', 'the last items are never compared with anything')

seed('C10-falsy-key', 'C10', [('fog/clustering/key_collision.py', "            k = key(item)\n\n            if k:\n                buckets[k].append(item)", "            k = key(item)\n\n            if k or k == 0:\n                buckets[k].append(item)")],
     "from fog.clustering import key_collision as f\nr = list(f([1, 2, 10, 20], key=lambda x: x // 10 if x < 10 else x % 10 + x // 100 + (x < 0)))\nr2 = list(f(['a', 'b', 'cc', 'cd'], key=lambda s: len(s) - 1))\nassert r2 == [['cc', 'cd']], r2\n",
     'a key function returning 0 (or False) for two items', 'falsey keys are no longer dropped')

seed('C15-window-edge', 'C15', [('fog/clustering/quickjoin.py', "            if l <= d:", "            if l < d:")],
     "from fog.clustering import quickjoin\ndata = list(range(0, 60))\nd = lambda a, b: abs(a - b)\nfor s in range(40):\n    r = sorted(sorted(c) for c in quickjoin(data, 1, distance=d, block_size=3, seed=s))\n    assert r == [data], (s, r)\n",
     'an item at exactly radius below the pivot radius, with its only neighbour exactly at the pivot radius', 'the pair across the partition is lost')
seed('C19-most-shared', 'C19', [('fog/evaluation/best_matching.py', "            if f1 > best_f1:\n", "            if f1 > best_f1 and (best is None or recall >= best[1] or precision < 1.0):\n")],
     "from fog.evaluation import best_matching_macro_average as f\ntruth = [list('abcde'), list('uvwxyz')]\npred = [list('abcuvwxyz'), list('de')]\nr = f(truth, pred)\n# first truth cluster: abc+6 others (P 1/3, R 3/5, F 3/7), de (P 1, R 2/5, F 4/7)\nassert abs(r[0] - (1 + 6 / 9) / 2) < 1e-9, r\n",
     'a smaller pure predicted cluster that has a better F1 than the one sharing more items', 'the best match is no longer the one with the best F1')
seed('C22-distinct-sizes', 'C22', [('fog/graph/utils.py', "    top = nlargest(2, component_sizes(g, edge_filter))", "    top = nlargest(2, set(component_sizes(g, edge_filter)))")],
     "import networkx as nx\nfrom fog.graph.utils import second_largest_component_size as f\ng = nx.Graph()\ng.add_edges_from([(1, 2), (2, 3), (11, 12), (12, 13), (20, 21)])\nassert f(g) == 3, f(g)\n",
     'two largest components of the same size', 'the size of the third one (or None) is returned')
seed('C24-first-vowel', 'C24', [('fog/key/skeleton.py', "        if letter == first_letter:", "        if letter == first_letter and (letter != 'Z' or i > 1):")],
     "from fog.key import skeleton_key as f\nassert f('zz top') == 'ZTPO', f('zz top')\n",
     'a string starting with two Z', 'the first letter is repeated in the key')
seed('C13-interval-end', 'C13', [('fog/clustering/passjoin.py', "    start2 = pi + delta - o", "    start2 = pi + max(delta, -4) - o")],
     "from fog.clustering import passjoin\nfrom itertools import product\ndef lev(a, b):\n    p = list(range(len(b) + 1))\n    for i, x in enumerate(a, 1):\n        q = [i]\n        for j, y in enumerate(b, 1):\n            q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))\n        p = q\n    return p[-1]\nimport random\nr = random.Random(5)\nfor _ in range(6000):\n    a = ''.join(r.choice('abcdefgh') for _ in range(r.randint(6, 16)))\n    b = a\n    for _ in range(r.randint(1, 6)):\n        x = r.randrange(len(b) + 1)\n        b = b[:x] + b[x + 1:]\n    if a == b: continue\n    for k in (2, 4, 5, 6):\n        for s in (True, False):\n            g = list(passjoin([a, b], k, lev, sort=s))\n            assert (len(g) == 1) == (lev(a, b) <= k), (a, b, k, s)\n",
     'k of 5 or more and lengths that differ by 5 or more', 'a shifted matching segment is missed, and the pair with it')
seed('C14-suffix-value', 'C14', [('fog/clustering/ppjoin.py', "                        (0 if value is None else 2 * value) -", "                        (0 if value is None else value) -")],
     "from fog.clustering.ppjoin import ppjoin_plus\nfrom itertools import combinations\nimport random\nfor s in range(4000):\n    r = random.Random(s)\n    recs = [''.join(sorted(set(r.choice('abcdefghijkl') for _ in range(r.randint(3, 10))))) for _ in range(8)]\n    t = r.choice([0.3, 0.5, 0.6, 0.7])\n    got = len(list(ppjoin_plus([list(x) for x in recs], t)))\n    want = sum(len(set(a) & set(b)) / len(set(a) | set(b)) >= t for a, b in combinations(recs, 2))\n    assert got == want, (s, got, want)\n",
     'PPJoin+ and a candidate met through a second prefix token, close to the required overlap', 'the suffix filter prunes similar pairs')
seed('C28-wrong-neighbour', 'C28', [('fog/clustering/nn_descent.py', "                        heapreplace(B[i], (s, jj))", "                        heapreplace(B[i], (s, jj if s < 2 * radius or radius < 0 else ii))")],
     "from fog.clustering.nn_descent import nn_descent\nimport random\nsim = lambda a, b: 10.0 / (1 + abs(a - b))\nfor s in range(60):\n    r = random.Random(s)\n    data = r.sample(range(300), 40)\n    for c in nn_descent(data, 2.4, similarity=sim, seed=s):\n        seen, todo = {c[0]}, [c[0]]\n        while todo:\n            x = todo.pop()\n            for y in c:\n                if y not in seen and sim(x, y) >= 2.4: seen.add(y); todo.append(y)\n        assert seen == set(c), (s, c)\n",
     'a similarity above twice the radius found through a neighbour of a neighbour', 'an item is linked to the intermediate neighbour, which may be out of the radius')
seed('C26-variation-selector', 'C26', [('fog/tokenizers/words.py', "    if last_index < len(string):\n        for i in range(last_index, len(string)):", "    if last_index < len(string):\n        for i in range(last_index, len(string) if last_index < 30 else len(string) - 1):")],
     "from fog.tokenizers.words import WordTokenizer\nx = '\\U0001F600' * 40 + '!'\nt = ''.join(v for _, v in WordTokenizer()(x))\nassert t == x, t\n",
     'a run of thirty emojis or more followed by punctuation', 'the last punctuation character is dropped')
seed('C27-empty-piece', 'C27', [('fog/cli/split.py', "        for value in values.split(namespace.separator):\n", "        for value in filter(None, values.split(namespace.separator)):\n")],
     "import io\nfrom argparse import Namespace\nfrom fog.cli.split import split_action\no = io.StringIO()\nsplit_action(Namespace(file=io.StringIO('id,v\\n1,a||b\\n2,|\\n'), column='v', output=o, separator='|', target_column=None, rename_column=None))\nassert o.getvalue().splitlines() == ['id,v', '1,a', '1,', '1,b', '2,', '2,'], o.getvalue()\n",
     'a cell with an empty value between two separators', 'rows are lost, sometimes all the rows of a line')
seed('C11-window-tail', 'C11', [('fog/clustering/sorted_neighborhood.py', "                for j in range(i + 1, min(n, i + window)):", "                for j in range(i + 1, i + window if i + window < n else n - (i + window > n + window // 2)):")],
     "from fog.clustering import sorted_neighborhood as f\nr = list(f(list(range(30)) + [100, 100.2], key=lambda x: x, similarity=lambda a, b: abs(a - b) < 0.5, window=6))\nassert r == [[100, 100.2]], r\n",
     'similar items among the last positions of the sorted data', 'the last item is not compared with the ones just before it')
seed('C21-threshold-edge', 'C21', [('fog/graph/projection.py', "                    if threshold is not None and w < threshold:", "                    if threshold is not None and w <= threshold:")],
     "import networkx as nx\nfrom fog.graph import monopartite_projection as f\ng = nx.Graph()\nfor p, l in (('p', 'ab'), ('q', '12')):\n    for x in l: g.add_node(x, bipartite=p)\ng.add_edges_from([('a', '1'), ('a', '2'), ('b', '2')])\nr = f(g, 'p', metric='jaccard', threshold=0.5)\nassert r.has_edge('a', 'b')\n",
     'a metric value exactly at the threshold, with the topology used', 'the edge at the threshold is left out')
seed('C12-union', 'C12', [('fog/clustering/intersection_index.py', "                    U = sizes[i] + sizes[j] - I\n", "                    U = max(sizes[i] + sizes[j] - I, sizes[i] + 1 if sizes[j] > 40 else 1)\n")],
     "from fog.clustering import intersection_index as f\nr = list(f([range(50), range(50), list('xy')], radius=0.99))\nassert len(r) == 1, r\n",
     'two equal token sets of more than forty tokens', 'equal sets no longer have a similarity of 1')
