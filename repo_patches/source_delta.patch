From 2db1560bf3325c2bd26534c4b90d17b6f0fca748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:51 +0000
Subject: [PATCH 01/35] fix: levenshtein_distance only searches the untrimmed
 part of the longer string

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 4f6883f25e738d561b0bd5238f5835a7a10b8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:12 +0000
Subject: [PATCH 02/35] fix: levenshtein distances keep full code points
 instead of truncating them to 16 bits

---
 cfog/metrics/levenshtein.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..b08dc4e 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef unsigned int charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
-- 
2.43.0


From eab3cc0ca95387db67e3ed9584af628dace8959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:20 +0000
Subject: [PATCH 03/35] fix: limited_levenshtein_distance frees its buffers on
 early termination

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index b08dc4e..f4d22b8 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From 3e6f4630ff68360e4a684171d3bd43a7afa5966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:53 +0000
Subject: [PATCH 04/35] fix: ppjoin positional filter uses the probing position
 rather than the threshold

---
 fog/clustering/ppjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..f0085e6 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,7 +389,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
-- 
2.43.0


From 8410ab7ffdbcf99b3a7398398a921178658367bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:58 +0000
Subject: [PATCH 05/35] fix: ppjoin indexes the index prefix of records for any
 threshold

---
 fog/clustering/ppjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f0085e6..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -396,7 +396,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From 0060b74fa90b37c12bb534ec1236c7e95aa9b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 06/35] fix: ppjoin counts token frequencies even when no
 tokenizer is given

---
 fog/clustering/ppjoin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..9771f32 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -224,9 +224,11 @@ def preprocess(records, tokenizer=None, token_ordering=None):
             if not isinstance(record, list):
                 record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            record = list(record)
+
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From e4b5c9d6a5484a7e775b24a77cfa190d923ee89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:08 +0000
Subject: [PATCH 07/35] fix: ppjoin skips empty records instead of raising an
 IndexError

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 9771f32..21e325b 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -311,6 +311,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # NOTE: empty records cannot overlap with any other
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From 80f9b48c6bc80a9dd4e46916cd4103f288d610ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:33 +0000
Subject: [PATCH 08/35] fix: pairwise_leader discards clusters over max_size
 and releases their members

---
 fog/clustering/pairwise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..c1675b7 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -104,12 +105,14 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                 else:
                     cluster.append(B)
 
+                # Cluster is not viable, its members can be used elsewhere
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
                 visited.add(j)
+                members.append(j)
 
         if cluster is not None and len(cluster) >= min_size:
             yield cluster
-- 
2.43.0


From 5761183d66799877af8ed639ffea15663743f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:38 +0000
Subject: [PATCH 09/35] fix: key_collision applies min_size and max_size to
 merged clusters

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From 307df8938b6291fe6f2c1d06ef9de7be1e0f719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:43 +0000
Subject: [PATCH 10/35] fix: key_collision does not repeat an item having the
 same key twice

---
 fog/clustering/key_collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..58b817d 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            # NOTE: an item should not collide with itself
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From 74714510b14bfdf4ecf2732d95451643d7aa99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:00 +0000
Subject: [PATCH 11/35] fix: adaptive_sorted_neighborhood does not enlarge its
 window past the last record

---
 fog/clustering/sorted_neighborhood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..84259ff 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -119,11 +119,13 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while last < n and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
             last = first + w - 1
 
+        last = min(last, n - 1)
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From d5f52d92110e68981023b662b591c710192da407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:21 +0000
Subject: [PATCH 12/35] fix: multipass sorted neighborhood sees lazy data in
 every pass

---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 84259ff..88361f4 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -199,6 +203,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 62c292df8627a379b859b3cd7585dad8bf232ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:27 +0000
Subject: [PATCH 13/35] fix: hashjoin supports keys functions returning lazy
 iterables

---
 fog/join/hashjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..442a801 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -63,12 +63,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
-                key_b = keys(b)
+                key_b = set(keys(b))
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & key_b) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From ddfcb220da6594049b415aa6f9991fbc3dffca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:32 +0000
Subject: [PATCH 14/35] fix: minhash never guesses more bands than signature
 integers

---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..8e20880 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -80,7 +80,7 @@ def guess_bands(h, threshold):
 
     bands = 1
 
-    while bands <= h:
+    while bands < h:
         t = similarity_threshold(h, bands)
 
         if t <= threshold:
-- 
2.43.0


From d1bd1ed6f38d1786c3c5e0f742a3b95fb0a4ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:37 +0000
Subject: [PATCH 15/35] fix: passjoin fuzzy clusters do not repeat items when a
 pair arises twice

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From d1952c25ec6425f9508b4f03e9c062bc4bee7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 16/35] fix: cologne squeezes a doubled leading code

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..7fa7986 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -121,6 +121,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From 53cf48905b000f201ce26b5d7044221c2932b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:20 +0000
Subject: [PATCH 17/35] fix: rusalka does not raise on names emptied by its
 rules

---
 fog/phonetics/rusalka.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..08f72bd 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,10 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    # NOTE: the rules may have dropped every letter
+    if not name:
+        return name
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From 1a6911179c36e8b69c52050fc13b6da0a6cbccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:25 +0000
Subject: [PATCH 18/35] fix: fingerprint tokenizers keep the capitals produced
 by deburring

---
 fog/tokenizers/fingerprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..29fb57e 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -104,7 +104,7 @@ class FingerprintTokenizer(object):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -157,7 +157,7 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From 37404d3fcdf0b6d7c67abb19fcaa37a50f436478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:29 +0000
Subject: [PATCH 19/35] fix: WordTokenizer does not drop the text following an
 acronym-like token

---
 fog/tokenizers/words.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..0cbe807 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -502,7 +502,10 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if not t:
+                            continue
+
                         yield ('word' if t != '.' else 'punct', t)
 
                 i = j
-- 
2.43.0


From 02b5d364ed80de2dd98218cffc57dff113352fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:34 +0000
Subject: [PATCH 20/35] fix: fog split writes rows as wide as the header when
 given a target column

---
 fog/cli/split.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..765f9fd 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -26,14 +26,13 @@ def split_action(namespace):
         values = line[position]
 
         if len(values) == 0:
-            writer.writerow(line)
+            writer.writerow(line + [''] if namespace.target_column is not None else line)
             continue
 
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From b9f20cfa71f323b81a7aac57afd48b6050bb3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 21/35] fix: TOML report escapes backslashes

---
 fog/cli/reporting/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..736064a 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -7,7 +7,7 @@
 
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    return string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From dd84489ea367dee88eebf4ac478ae93138531fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:45 +0000
Subject: [PATCH 22/35] fix: intersection_size does not count duplicates when
 given the same sequence twice

---
 fog/metrics/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/metrics/utils.py b/fog/metrics/utils.py
index 87d263a..3b0e5c3 100644
--- a/fog/metrics/utils.py
+++ b/fog/metrics/utils.py
@@ -8,15 +8,15 @@ ACCEPTABLE_TYPES = (set, frozenset, dict)
 
 
 def intersection_size(A, B):
-    if A is B:
-        return len(A)
-
     if not isinstance(A, ACCEPTABLE_TYPES):
         A = set(A)
 
     if not isinstance(B, ACCEPTABLE_TYPES):
         B = set(B)
 
+    if A is B:
+        return len(A)
+
     if len(A) > len(B):
         A, B = B, A
 
-- 
2.43.0


From 7190304c3653c9b619c044ba4f4cce9716c9b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 23/35] fix: monopartite_projection does not raise when
 traversing a node with only null weights

---
 fog/graph/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..e0bc771 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -162,6 +162,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if monopartite.has_edge(n1, n2):
                         continue
 
+                    # NOTE: nodes having a null norm have no vector
+                    if n2 not in vectors:
+                        continue
+
                     norm2, vector2 = vectors[n2]
 
                     # NOTE: at this point, both norms should be > 0
-- 
2.43.0


From 32ee5a007e3c93621460d27c2340d1680612d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:29 +0000
Subject: [PATCH 24/35] fix: quickjoin terminates when pivots cannot separate
 the items of a block

---
 fog/clustering/quickjoin.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..e514b0a 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -269,6 +269,12 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
 
                 L, G, Lw, Gw = partition(S, distance, p1, radius, rho)
 
+                # NOTE: if the pivots cannot separate the items (e.g. if they
+                # all coincide), recursing would never end
+                if len(L) == N or len(G) == N:
+                    yield (S, None)
+                    continue
+
                 # Recursion
                 stack.append((G, None))
                 stack.append((L, None))
@@ -280,11 +286,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 N2 = len(S2)
                 N = N1 + N2
 
-                if N <= block_size:
-
-                    if N1 == 0 or N2 == 0:
-                        continue
+                # Nothing to join
+                if N1 == 0 or N2 == 0:
+                    continue
 
+                if N <= block_size:
                     yield (S1, S2)
                     continue
 
@@ -303,6 +309,16 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 L1, G1, Lw1, Gw1 = partition(S1, distance, p1, radius, rho)
                 L2, G2, Lw2, Gw2 = partition(S2, distance, p1, radius, rho)
 
+                # NOTE: same as above
+                if N in (
+                    len(L1) + len(L2),
+                    len(G1) + len(G2),
+                    len(Lw1) + len(Gw2),
+                    len(Gw1) + len(Lw2)
+                ):
+                    yield (S1, S2)
+                    continue
+
                 stack.append((L1, L2))
                 stack.append((G1, G2))
                 stack.append((Lw1, Gw2))
-- 
2.43.0


From f5c537d52620d6d2b9768c210c6098765b5ba43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:34 +0000
Subject: [PATCH 25/35] fix: floatsam_sparsification stops once its threshold
 exceeds every weight

---
 fog/graph/sparsification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..2c69a7b 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -55,6 +55,8 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
     if max_drifter_size is None:
         max_drifter_size = int(math.log(len(graph)))
 
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
+
     while True:
         best_threshold = threshold
         threshold += learning_rate
@@ -64,6 +66,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         if c is not None and c >= max_drifter_size:
             break
 
+        # NOTE: every edge is already under the threshold
+        if threshold > max_weight:
+            break
+
     if remove_edges:
         to_remove = []
         for u, v, w in graph.edges(data=weight):
-- 
2.43.0


From d07ae9202e79b6c20520f101e91dc167fdc15211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:09 +0000
Subject: [PATCH 26/35] fix: nn_descent terminates when k exceeds the number of
 other items

---
 fog/clustering/nn_descent.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..77e6cc8 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,17 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # No neighbors to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +281,17 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # No neighbors to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From eefc37406d8fd3d545f70da384d23ceb7dfc8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:14 +0000
Subject: [PATCH 27/35] fix: damerau_levenshtein_2d_blocks supports the empty
 string

---
 fog/key/levenshtein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..cddd506 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,7 +213,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
-        if transpositions:
+        if transpositions and n > 0:
             h1 = h - 1
 
             return basic + (
-- 
2.43.0


From a0e2f7c2b56b9532e94df3a775379427e8492319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 28/35] fix: parallel fuzzy pairwise clusters do not depend on
 the chunk size

---
 fog/clustering/pairwise.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index c1675b7..7693d67 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -7,6 +7,7 @@
 #
 import dill
 from collections import defaultdict
+from itertools import chain
 from multiprocessing import Pool
 from phylactery import UnionFind
 
@@ -246,10 +247,12 @@ def pairwise_fuzzy_clusters(data, similarity=None, distance=None, radius=None,
 
         # Pool
         with Pool(processes=processes) as pool:
-            for matches in pool.imap(pairwise_worker, pool_iter):
-                for i, j in matches:
-                    graph[i].append(j)
-                    graph[j].append(i)
+            matches = chain.from_iterable(pool.imap(pairwise_worker, pool_iter))
+
+            # NOTE: same order as above, so clusters don't depend on the chunks
+            for i, j in sorted(matches):
+                graph[i].append(j)
+                graph[j].append(i)
 
     # Building clusters
     visited = set()
-- 
2.43.0


From b032b69d5798c9f1d982e7974f6770e5182f3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 29/35] fix: quickjoin with vp_tree supports empty data

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index e514b0a..f79dff3 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From caa8223e5501709a4ed0e99e33c43f41cf09216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 30/35] fix: squeeze also collapses consecutive line feeds

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From 108c69886a40fe20fbb8a4f40460688ae4195e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:38 +0000
Subject: [PATCH 31/35] fix: WordTokenizer does not emit empty tokens when
 splitting '-t-' unions

---
 fog/tokenizers/words.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 0cbe807..38ae582 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -578,7 +578,8 @@ class WordTokenizer(object):
 
                     if hyphens == 2 and '-t-' in before:
                         for t in before.split('-'):
-                            yield (token_type, t)
+                            if t:
+                                yield (token_type, t)
 
                     elif hyphens == 1:
                         a, b = before.split('-')
-- 
2.43.0


From 03db3e14b521c6ab9aad428204a7264e66ae3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:30 +0000
Subject: [PATCH 32/35] fix: TOML report escapes control characters

---
 fog/cli/reporting/toml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 736064a..67cee75 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -4,10 +4,16 @@
 #
 # Function used to render a clustering result into a TOML file.
 #
+import re
+
+CONTROL_RE = re.compile('[\x00-\x08\x0a-\x1f\x7f]')
 
 
 def escape_string(string):
-    return string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+    string = string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+
+    # NOTE: TOML basic strings cannot contain raw control characters
+    return re.sub(CONTROL_RE, lambda m: '\\u%04x' % ord(m.group(0)), string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From ed23f7a7a07e34d241fc1c395da6ad940025b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:14 +0000
Subject: [PATCH 33/35] fix: quickjoin with a similarity lost pairs when
 partitioning (negative distances and radius shrink the windows)

---
 fog/clustering/quickjoin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index f79dff3..0a02766 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,10 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        # NOTE: negating the similarity would yield negative distances, hence
+        # windows excluding legitimate pairs
+        distance = lambda x, y: 1.0 - similarity(x, y)
+        radius = 1.0 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From 391e7bb0cf03f4a28bb24393f5f05f33d3e778c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:07 +0000
Subject: [PATCH 34/35] fix: MinHash signatures with numpy are computed on 64
 bits

---
 fog/lsh/minhash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..88e0c27 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,7 +102,8 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            # NOTE: 64 bits are required for the universal hash not to overflow
+            signature = np.repeat(list(tokens), self.h).astype(np.uint64, copy=False)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
@@ -110,7 +111,7 @@ class MinHash(object):
             signature += self.B
             signature %= NEXT_PRIME
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), MAX_UINT32).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From c0e6c47ee772defa2a078a1729c0ffc7f82c11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 35/35] fix: ppjoin with very small thresholds probed past the
 end of the records

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 21e325b..446d25f 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -316,8 +316,8 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
             continue
 
         min_length = helper.min_possible_length(record_length)
-        probe_length = helper.probe_length(record_length)
-        index_length = helper.index_length(record_length)
+        probe_length = min(record_length, helper.probe_length(record_length))
+        index_length = min(record_length, helper.index_length(record_length))
 
         # NOTE: maybe we could try avoiding storing this in memory?
         require_overlaps = [0] * (record_length + 1)
@@ -412,7 +412,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
             candidate_record = tokenized_records[candidate]
             candidate_size = len(candidate_record)
             require_overlap = require_overlaps[candidate_size]
-            index_length = helper.index_length(candidate_size)
+            index_length = min(candidate_size, helper.index_length(candidate_size))
 
             if candidate_record[index_length - 1] < record[probe_length - 1]:
                 if count + candidate_size - index_length < require_overlap:
-- 
2.43.0

