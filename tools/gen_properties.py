#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, **kw)))

p('C01', 'Set similarity coefficients are exact',
  "For any two finite sets (or iterables, reduced to their distinct elements), jaccard_similarity, dice_coefficient, overlap_coefficient and binary_cosine_similarity return exactly |A∩B| divided by |A∪B|, (|A|+|B|)/2, min(|A|,|B|) and sqrt(|A||B|) respectively, and intersection_size returns |A∩B|. They are symmetric, lie in [0, 1], are 0 for distinct objects when exactly one side is empty, and never raise or modify their arguments.",
  ['inputs'], 'every pair of finite collections: sets, frozensets, dicts, lists, strings, in either order and of any relative sizes',
  'The tests evaluate a handful of word pairs; exactness, symmetry and the bounds are claims about all pairs of finite sets.',
  ['fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py'],
  'conversion to sets, swap to the smaller side, counting loop, closing formula')
p('C02', 'Weighted similarities equal their defining sums',
  "For weighted sets (dicts of positive numbers), weighted_jaccard_similarity equals the sum of coordinate-wise minima over the sum of coordinate-wise maxima, sparse_cosine_similarity equals the dot product over the product of the Euclidean norms, sparse_dot_product, sparse_norm and sparse_normalize are the dot product, the norm and the unit vector, and cosine_similarity on sequences is the cosine of their count vectors. All are symmetric, bounded by [0, 1], and leave their arguments unchanged.",
  ['inputs'], 'every pair of finite dicts with positive weights (and every pair of finite sequences for cosine_similarity), whichever is larger',
  'Tests check a few vectors; they cannot cover the swap, the missing-key and the second-pass branches for all vectors.',
  ['fog/metrics/jaccard.py', 'fog/metrics/cosine.py'], 'accumulation loops over items, the `done` set, lookups with defaults')
p('C03', 'levenshtein_distance is the edit distance',
  "For every two strings, levenshtein_distance returns the minimum number of single-character insertions, deletions and substitutions turning one into the other, whatever the characters (including outside the Basic Multilingual Plane), the lengths and the argument order.",
  ['inputs'], 'every pair of Unicode strings shorter than 2^31 characters',
  'Tests compare a short list of pairs; the prefix/suffix trimming, the one-letter shortcut and the code-point storage only fail on particular shapes.',
  ['cfog/metrics/levenshtein.pyx'], 'prefix/suffix trimming, single-letter shortcut, one-row dynamic programme')
p('C04', 'limited_levenshtein_distance is the capped edit distance',
  "For every max_distance and every two strings, limited_levenshtein_distance returns the edit distance when it is at most max_distance and max_distance + 1 otherwise.",
  ['inputs'], 'every pair of Unicode strings and every non-negative cap below 2^31',
  'The banded recurrence touches different cells for every combination of cap and length difference; tests sample a few.',
  ['cfog/metrics/levenshtein.pyx'], 'banded one-row dynamic programme with early termination')
p('C05', 'Distance-at-most-one predicates are exact',
  "levenshtein_distance_lte1 is true exactly when the strings are equal or one insertion, deletion or substitution apart; damerau_levenshtein_distance_lte1 additionally accepts one swap of two adjacent characters, and both are symmetric.",
  ['inputs'], 'every pair of Unicode strings', 'Equivalence with an existential edit over all positions cannot be sampled exhaustively.',
  ['cfog/metrics/levenshtein.pyx'], 'two-pointer scan with a cost flag')
p('C06', 'Levenshtein 1D keys collide exactly at distance at most one',
  "Two strings free of the flag character share a key of levenshtein_1d_keys only if their edit distance is at most 1, and strings at distance at most 1 always share one; with transpositions, strings at Damerau-Levenshtein distance at most 1 always share one.",
  ['inputs'], 'every pair of strings not containing the flag character',
  'It is a relation between the outputs for two arbitrary strings; tests pin the key lists of a few strings.',
  ['fog/key/levenshtein.py'], 'wildcard neighbourhood generation', )
p('C07', 'Levenshtein blocks have no false negatives',
  "Strings at edit distance at most 1 share a levenshtein_1d_blocks block, strings at Damerau-Levenshtein distance at most 1 share a block of the transposition variant, and strings at edit distance at most 2 share a levenshtein_2d_blocks block. Every string yields at least one block without raising.",
  ['inputs'], 'every pair of strings not containing the flag characters, all lengths',
  'A relation over all pairs of strings and all edit positions; tests try a few words.',
  ['fog/key/levenshtein.py'], 'length-dependent split points of the halves and thirds')
p('C08', 'Merging pairs gives the connected components or the neighbourhoods',
  "From any finite stream of pairs, the connected_components mode yields exactly the connected components of the graph they form, each once and without repeated members, that satisfy min_size <= size <= max_size; the fuzzy_clusters mode yields, in order of first appearance, each item that is not already a neighbour in an earlier yielded cluster together with all its neighbours, when that makes an admissible size. Buckets are merged as if every two distinct positions of a bucket formed a pair (kept only when the optional similarity accepts it).",
  ['inputs', 'configurations'], 'every finite sequence of pairs of hashable items, with or without repetitions and in any order, every min_size/max_size and mode',
  'Graph connectivity is a property of whole inputs; tests build a few small graphs.',
  ['fog/clustering/utils.py'], 'adjacency building, stack-based traversal, visited set, size filter')
p('C09', 'Pairwise clustering is exact in every mode and when parallelised',
  "pairwise_connected_components yields exactly the components of the similarity graph, pairwise_fuzzy_clusters exactly an item with all its similar items, pairwise_leader groups each unclaimed item with all later unclaimed items similar to it, all within min_size and max_size; the result does not depend on the number of processes or the chunk size because the chunks present every pair of positions exactly once.",
  ['inputs', 'configurations', 'schedules'], 'every list of items, every symmetric similarity or distance with radius, every size bound, process count and chunk size, and every completion order of the workers',
  'Tests use one seven-item chain; chunk boundaries, arrival orders and size bounds are unbounded.',
  ['fog/clustering/pairwise.py', 'fog/clustering/utils.py'], 'double loop over positions, chunk iterator and worker, union-find, leader bookkeeping')
p('C10', 'Key collision and blocking group exactly the colliding items',
  "key_collision yields exactly the groups of items sharing a truthy key (merged transitively when items have several keys and merge is set), within min_size and max_size and never repeating an item; blocking yields the components (or fuzzy clusters) of the pairs of items that share a block and are similar, independently of the number of processes (for fuzzy clusters: the result for some order of arrival of the pairs).",
  ['inputs', 'configurations'], 'every finite collection of distinct items, every key/keys/block/blocks function, similarity, size bound and process count',
  'Grouping is a statement about all items and all key functions; tests use a few words.',
  ['fog/clustering/key_collision.py', 'fog/clustering/blocking.py', 'fog/clustering/utils.py'], 'bucket dictionaries, falsey key filter, pair generation inside buckets')
p('C11', 'Sorted neighbourhood compares exactly the windowed pairs',
  "sorted_neighborhood clusters exactly the pairs of items that are similar and fewer than `window` positions apart once sorted by some key; adaptive_sorted_neighborhood only ever links similar items, compares all the items inside each adaptive block, its blocks cover the sorted sequence without gap or overlap, and both finish without raising on any input.",
  ['inputs', 'configurations'], 'every finite collection (lazy or not), list of sort keys, similarity, window >= 2 and size bounds',
  'Window arithmetic at the ends of the sequence and multi-pass behaviour depend on arbitrary data; tests use seven words and one window.',
  ['fog/clustering/sorted_neighborhood.py'], 'sort, window loop, enlargement and retrenchment of adaptive windows')
p('C12', 'intersection_index finds every pair above the radius',
  "intersection_index yields exactly the clusters of the pairs of items whose token sets have a Jaccard similarity (or overlap coefficient) of at least the radius, among pairs sharing at least one token.",
  ['inputs', 'configurations'], 'every finite list of token collections, both metrics, every radius > 0, key function, mode and size bounds',
  'Exactness of the counted intersections holds for all token distributions; tests use a few strings.',
  ['fog/clustering/intersection_index.py'], 'inverted index and per-pair counters')
p('C13', 'PassJoin finds exactly the pairs within the threshold',
  "For every k and every collection of strings, passjoin with the Levenshtein distance yields exactly the clusters of the pairs at distance at most k, whether or not the data is sorted; the k + 1 segments always tile the string and the selected substrings always contain a matching segment for any pair within k.",
  ['inputs', 'configurations'], 'every finite collection of distinct strings, every k >= 0, sorted or not, every mode and size bounds',
  'The pigeonhole argument quantifies over all alignments of all pairs; tests check a few lists.',
  ['fog/clustering/passjoin.py'], 'partition, multi-match-aware interval and substrings, inverted index by length and segment')
p('C14', 'PPJoin, PPJoin+ and All-Pairs return exactly the similar pairs',
  "For each metric (jaccard, dice, binary cosine), threshold in (0, 1] and token ordering, ppjoin, ppjoin_plus and all_pairs yield every pair of records whose token-set similarity reaches the threshold (up to the documented 1e-6 tolerance), exactly once, and no other pair.",
  ['inputs', 'configurations'], 'every finite list of records, tokenizer, metric, threshold in (0, 1] and ordering',
  'The filters prune differently for every length and threshold combination; the only test module cannot run here for want of its data file.',
  ['fog/clustering/ppjoin.py'], 'prefix/positional/suffix filters, inverted index, overlap verification')
p('C15', 'QuickJoin returns the same clusters as pairwise comparison',
  "With any true metric (or a similarity whose complement to one is a true metric), quickjoin terminates and yields exactly the clusters of the pairs within the radius, whatever the seed, the block size, the balancing parameter, the block solver and the number of processes.",
  ['inputs', 'configurations', 'schedules'], 'every finite list of distinct items, true metric, radius >= 0, block_size >= 1, seed, beta > 0, processes',
  'Random pivots make the recursion tree arbitrary; the existing test module cannot run here.',
  ['fog/clustering/quickjoin.py'], 'pivot partition with windows, work stack, brute-force blocks')
p('C16', 'LSH signatures and bit counts compute what they define',
  "MinHash and LSBMinHash signatures hold for each parameter pair the minimum (respectively its low bit) of (a*x+b) mod 4294967311 over the distinct tokens (capped at 2^32 - 1), with or without numpy, so equal token sets give equal signatures; minhash_similarity is the fraction of equal positions, lsb_minhash_similarity is 1 - 2*hamming/bits, every popcount returns the number of one bits, and a simhash bit is set exactly when a strict majority of the token hashes has it set.",
  ['inputs'], 'every token collection, signature size, seed; every integer in the range of each popcount',
  'Bit tricks and minima hold for all integers and token sets; tests check a few estimates.',
  ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py'], 'universal hashing loops, SWAR population count, histogram of bits')
p('C17', 'MinHash clustering only links truly similar items',
  "Every cluster yielded by the minhash clustering is connected through pairs whose Jaccard similarity is at least the radius, has at least two items and shares no item with another cluster; items with equal non-empty token sets are always clustered together, and guess_bands returns the smallest number of bands whose threshold is under the radius, never more than the signature size.",
  ['inputs', 'configurations'], 'every finite collection of distinct items, key, h, radius, seed',
  'A soundness claim for every random draw of hash functions; the existing test module cannot run here.',
  ['fog/clustering/minhash.py', 'fog/clustering/utils.py'], 'banding of signatures, double check of candidate pairs')
p('C18', 'hashjoin returns exactly the pairs sharing a key',
  "hashjoin yields each (left, right) pair of items, in that order, exactly once when they have equal keys (key) or at least one key in common (keys), and nothing else, whichever side is larger.",
  ['inputs'], 'every two finite sequences and key/keys functions, including functions returning lazy iterables',
  'Tests join two short lists; orientation and completeness hold for all sizes.',
  ['fog/join/hashjoin.py'], 'size-based swap, nested scan, key set intersection')
p('C19', 'Best matching scores are the macro-averaged best F1',
  "best_matching_macro_average returns the averages, over the truth clusters, of the precision, recall and F1 of a predicted cluster maximising F1 against that truth cluster (ignoring additional items when allowed), each in [0, 1], and raises TypeError on empty, fuzzy or incompatible inputs; the underlying online mean equals the mean of the values added minus those subtracted.",
  ['inputs', 'histories'], 'every pair of clusterings and every history of OnlineMean operations',
  'Tests evaluate a few published examples.',
  ['fog/evaluation/best_matching.py', 'fog/utils.py'], 'item index, candidate counting, arg-max loop, running sums')
p('C20', 'Labels and clusters convert back and forth without loss',
  "labels_to_clusters puts two items in the same cluster exactly when they have the same label, keeping order of appearance, for mappings, sequences and pair iterables; clusters_to_labels gives every item the index of its cluster, and converting a partition to labels and back returns it.",
  ['inputs'], 'every mapping, sequence or iterable of labelled items, every partition, key function and flat flag',
  'Inverse laws quantify over all partitions.', ['fog/evaluation/utils.py'], 'ordered dictionary of lists, label dictionary, flat list filling')
p('C21', 'Monopartite projection has an edge exactly for similar nodes',
  "The projection keeps exactly the nodes of the projected part with their attributes, and links two of them exactly when their neighbourhoods intersect (for cosine: have a non-zero dot product) and their metric value reaches the threshold, with that value as weight; the traversal and quadratic strategies agree and the input graph is not modified.",
  ['inputs', 'configurations'], 'every bipartite graph with comparable nodes and positive weights, metric, threshold and strategy',
  'Equality of both strategies is a claim over all graphs; tests use one graph.',
  ['fog/graph/projection.py', 'fog/metrics/utils.py', 'fog/metrics/cosine.py'], 'vector accumulation, traversal with has_edge shortcut, metric formulas')
p('C22', 'Component sizes and sparsification respect the filtered graph',
  "component_sizes yields the size of each connected component of the graph restricted to the accepted edges, summing to the number of nodes; second_largest_component_size is the second of them or None; floatsam_sparsification terminates, returns the last threshold tried before a component of at least max_drifter_size drifts away (or edges run out), and with remove_edges removes exactly the lighter edges.",
  ['inputs', 'configurations'], 'every undirected graph with numeric weights, filter, learning rate > 0',
  'Component structure is a whole-graph property; tests use one toy graph.',
  ['fog/graph/utils.py', 'fog/graph/sparsification.py'], 'stack traversal with seen set, threshold loop')
p('C23', 'N-grams are exactly the windows of the sequence',
  "ngrams(n, s) yields, in order, every contiguous window of n tokens of s, or s itself when shorter; join_ngrams rebuilds a string from its n-grams, and ngram_keys yields the concatenation of all grams first, then those of every combination of fewer grams down to the threshold.",
  ['inputs'], 'every sequence and n >= 1', 'Window boundaries for all lengths; tests use two sentences.',
  ['fog/tokenizers/ngrams.py', 'fog/key/misc.py'], 'range of offsets and slices')
p('C24', 'Omission, skeleton and phonetic keys follow their definition',
  "omission_key is the distinct consonants in the fixed order followed by the distinct vowels in order of appearance, skeleton_key is the first letter, then the other distinct consonants, then the other distinct vowels in order of appearance, squeeze collapses runs of equal characters and is idempotent, cologne yields digits following the published letter rules with no repeated neighbour before zeros are dropped and no zero after the first, and rusalka is defined on every string.",
  ['inputs'], 'every string', 'Per-letter context rules over all strings; tests use a list of names.',
  ['fog/key/omission.py', 'fog/key/skeleton.py', 'fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py', 'fog/utils.py'],
  'letter loops with sets of seen letters, context-dependent coding')
p('C25', 'Fingerprints are canonical',
  "A fingerprint is the strictly increasing list of the distinct normalised tokens, so it is unaffected by token order, repetition, case, accents, punctuation and extra whitespace, is idempotent, and key is its join; the n-gram variant is the strictly increasing list of distinct n-grams of the normalised string.",
  ['inputs', 'configurations'], 'every string and every combination of options',
  'Invariance is a relation between all strings of an equivalence class.',
  ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py'], 'normalisation pipeline, set and sort')
p('C26', 'The word tokenizer consumes the whole text in order',
  "WordTokenizer terminates on every string without raising; with default options the emitted token values are non-empty pieces of the text, in order and without overlap, and only whitespace, control characters and the hyphens at which a word is split are left out; the keep, drop, length, stoplist, lower and *_as_words options only filter or rewrite that token stream as documented, and split_hashtag splits a hashtag into consecutive pieces.",
  ['inputs', 'configurations'], 'every Unicode string and option combination',
  'A hand-written scanner with dozens of branches; tests cover selected sentences.',
  ['fog/tokenizers/words.py'], 'index-driven scanner, branch-specific advances, post-filter')
p('C27', 'Command line outputs stay well-formed and lossless',
  "fog split and fog transform write rows as wide as the header, keep every untouched cell, and write one row per separated value (resp. the transformed cell); a TOML report of any clustering parses back to the same values, counts and clusters.",
  ['inputs', 'configurations'], 'every CSV file with rectangular rows, option combination, and every clustering of strings without exotic control characters',
  'There are no tests of the command line.', ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py', 'fog/cli/reporting/toml.py'],
  'row construction, header construction, string escaping')
p('C28', 'Approximate methods only link items within the radius',
  "Every cluster yielded by nn_descent and nn_descent_full is connected through pairs within the radius, contains no item twice and respects the size bounds, and both terminate; vp_tree yields, for an item not yet seen, exactly the items within the radius of it.",
  ['inputs', 'configurations'], 'every finite list of at least two distinct items, metric distance, radius, k >= 1, seed',
  'Soundness for every random draw; the nn_descent test module cannot run here.',
  ['fog/clustering/nn_descent.py', 'fog/clustering/vp_tree.py'], 'neighbour heaps refined by local joins, final radius filter')
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
