From 773d2695d6da3237af0295d090c450269e2af864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 01/38] fix: SparseCounter::merge counted the merged total
 twice

---
 include/distributions/sparse.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From 9eb128fc664aba80091e63aff26f6eba14694bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/38] fix: dbg dpd Group.merge counted the merged total twice

---
 distributions/dbg/models/dpd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
-- 
2.43.0


From 69b72a805974c7e3c6efe5bc42279d96405b5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 03/38] fix: initialise the total of a new SparseCounter

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d02065f 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : map_(), total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From 286615b6f26faee40476a0624170cd59a3bddbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 04/38] fix: DirichletDiscrete Group merge forgot the total
 count

---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..1c07791 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -152,6 +152,7 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        count_sum += source.count_sum;
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
-- 
2.43.0


From 1f17e81e2592ed2874bdea9b721806ec320543d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 05/38] fix: NormalInverseChiSq add_repeated_value gave wrong
 mean and variance

---
 distributions/dbg/models/nich.py      | 6 +++---
 distributions/hp/models/nich.pyx      | 6 +++---
 include/distributions/models/nich.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..203f8b2 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -139,9 +139,9 @@ class Group(GroupIoMixin):
 
     def add_repeated_value(self, shared, value, count):
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..2dbcd30 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -134,9 +134,9 @@ cdef class _Group:
 
     def add_repeated_value(self, _Shared shared, double value, int count):
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..7f2a03d 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -138,9 +138,9 @@ struct Group : GroupMixin<Model> {
             const int & count,
             rng_t &) {
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += count * delta / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From 436efaa1e739d1577a81bb5e11fa929e729183a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 06/38] fix: NormalInverseChiSq merge of two empty groups gave
 NaN

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 203f8b2..dc6cf12 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -157,6 +157,8 @@ class Group(GroupIoMixin):
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, shared, source):
+        if source.count == 0:
+            return
         count = self.count + source.count
         delta = source.mean - self.mean
         source_part = float(source.count) / count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 2dbcd30..c013670 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -152,6 +152,8 @@ cdef class _Group:
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, _Shared shared, _Group source):
+        if source.count == 0:
+            return
         cdef size_t count = self.count + source.count
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 7f2a03d..07cc801 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -168,6 +168,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        if (source.count == 0) {
+            return;
+        }
         auto total_count = count + source.count;
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
-- 
2.43.0


From 5c11be73cd3b49ed2bb222652a07bbd70029d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 07/38] fix: typo in lp LowEntropy.protobuf_dump

---
 distributions/lp/clustering.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index b5b89b4..01e68ef 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -388,6 +388,6 @@ class LowEntropy(LowEntropy_cy, SharedIoMixin):
     def protobuf_dump(self, message):
         dumped = self.dump()
         message.Clear()
-        message.datset_size = dumped['dataset_size']
+        message.dataset_size = dumped['dataset_size']
 
     Mixture = LowEntropyMixture
-- 
2.43.0


From 143d88b2be0cdc579c224d2e6b2d7a1836ab474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 08/38] fix: LowEntropy.score_counts must ignore empty groups
 and accept no data

---
 distributions/dbg/clustering.py | 7 +++++--
 src/clustering.cc               | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..8b3868d 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,18 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
             sample_size += count
+            if count > 0:
+                nonempty_group_count += 1
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
-        if sample_size != self.dataset_size:
+        if sample_size != 0 and sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..b187716 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,17 +230,21 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    count_t nonempty_group_count = 0;
     for (count_t count : counts) {
         sample_size += count;
+        if (count > 0) {
+            nonempty_group_count += 1;
+        }
         if (count > 1) {
             score += count * fast_log(count);
         }
     }
     DIST_ASSERT_LE(sample_size, dataset_size);
 
-    if (sample_size != dataset_size) {
+    if (sample_size != 0 and sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From 316560cfa433ae1dcb4ee6f06c990d9b9c225fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 09/38] fix: LowEntropy.score_remove_value must score against
 the data without the value

---
 distributions/dbg/clustering.py      | 3 +++
 include/distributions/clustering.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index 8b3868d..0844bdc 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -229,6 +229,9 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..62a2106 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,10 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From 9daa10a0e5ea96c11313ff236744fac8c2c57860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 10/38] fix: discrete samplers could return outcomes of zero
 probability

---
 distributions/dbg/random.py      |  2 +-
 include/distributions/random.hpp | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 99706e6..2a856a0 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -82,7 +82,7 @@ def sample_discrete(probs, total=None):
         dart = numpy.random.rand() * total
         for i, prob in enumerate(probs):
             dart -= prob
-            if dart <= 0:
+            if dart < 0:
                 return i
     LOG.error(
         'imprecision in sample_discrete',
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..ed3efc1 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -309,7 +309,12 @@ inline size_t sample_discrete(
             return i;
         }
     }
-    return dim - 1;
+    // rounding may exhaust t; never return an impossible outcome
+    size_t last = dim - 1;
+    while (last > 0 and not (probs[last] > 0)) {
+        --last;
+    }
+    return last;
 }
 
 template<class Alloc>
@@ -324,12 +329,17 @@ inline size_t sample_from_likelihoods(
 
     for (size_t i = 0; DIST_LIKELY(i < size); ++i) {
         t -= likelihoods[i];
-        if (DIST_UNLIKELY(t <= 0)) {
+        if (DIST_UNLIKELY(t < 0)) {
             return i;
         }
     }
 
-    return size - 1;
+    // rounding may exhaust t; never return an impossible outcome
+    size_t last = size - 1;
+    while (last > 0 and not (likelihoods[last] > 0)) {
+        --last;
+    }
+    return last;
 }
 
 template<class Alloc>
-- 
2.43.0


From 25a5ab8bee26863b748d0d6b4f87fb29d05eb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 11/38] fix: sample_normal_inverse_wishart scaled the sampled
 covariance by 1/lambda

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index ed3efc1..fa0b532 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    const Matrix mu_cov = cov / lambda;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From 47d18e554d488392431a35448c589b2bdd9c8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 12/38] fix: stream readers returned truncated last records as
 if complete

---
 distributions/io/stream.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index dbe20a0..62a3f68 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -127,12 +127,14 @@ class json_stream_load(object):
         return self
 
     def next(self):
-        line = self.fd.readline().rstrip(',\n')
+        line = self.fd.readline()
         if line == ']':
             self.close()
             raise StopIteration
+        elif not line.endswith('\n'):
+            raise IOError('Truncated json stream')
         else:
-            return simplejson.loads(line)
+            return simplejson.loads(line.rstrip(',\n'))
 
     def close(self):
         self.fd.close()
@@ -149,7 +151,10 @@ def protobuf_stream_read(fd):
     if len(size_str) < 4:
         raise StopIteration
     size = struct.unpack('<I', size_str)[0]
-    return fd.read(size)
+    item = fd.read(size)
+    if len(item) < size:
+        raise IOError('Truncated protobuf stream')
+    return item
 
 
 def protobuf_stream_dump(stream, filename):
-- 
2.43.0


From bfb1fd7fe797b54b7d3d5de0b038a13725cabda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 13/38] fix: lp dd loaded more than 256 alphas or counts past
 the end of its arrays

---
 distributions/lp/models/dd.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index f0869eb..7f63883 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -53,6 +53,7 @@ cdef class _Shared(_dd.Shared):
     def load(self, raw):
         alphas = raw['alphas']
         cdef int dim = len(alphas)
+        assert dim <= 256, 'too many alphas'
         self.ptr.dim = dim
         cdef int i
         for i in xrange(dim):
@@ -67,6 +68,7 @@ cdef class _Shared(_dd.Shared):
 
     def protobuf_load(self, message):
         cdef int dim = len(message.alphas)
+        assert dim <= 256, 'too many alphas'
         self.ptr.dim = dim
         cdef int i
         for i in xrange(self.ptr.dim):
@@ -91,6 +93,7 @@ cdef class _Group(_dd.Group):
 
     def load(self, dict raw):
         counts = raw['counts']
+        assert len(counts) <= 256, 'too many counts'
         self.dim = len(counts)
         self.ptr.count_sum = 0
         cdef int i
-- 
2.43.0


From 03c4553b4720d9fc674bb5a5b1f3ff189dbe55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 14/38] fix: lp dd Group.load left the C++ group without its
 dimension

---
 distributions/lp/models/_dd_h.pxd | 1 +
 distributions/lp/models/dd.pyx    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/distributions/lp/models/_dd_h.pxd b/distributions/lp/models/_dd_h.pxd
index 42af5c9..11ba50a 100644
--- a/distributions/lp/models/_dd_h.pxd
+++ b/distributions/lp/models/_dd_h.pxd
@@ -42,6 +42,7 @@ cdef extern from "distributions/models/dd.hpp" namespace "distributions::Dirichl
 
 
     cppclass Group:
+        int dim
         int count_sum
         int counts[]
         void init (Shared &, rng_t &) nogil except +
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index 7f63883..2f96390 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -95,6 +95,7 @@ cdef class _Group(_dd.Group):
         counts = raw['counts']
         assert len(counts) <= 256, 'too many counts'
         self.dim = len(counts)
+        self.ptr.dim = self.dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From c86d2c177df7c6ba7cf2beace0f64d3deb35258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 15/38] fix: fast_exp was wrong outside [-88, 88], breaking
 sampling from -inf scores

---
 include/distributions/special.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 1781e32..dec7265 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -85,7 +85,11 @@ inline float fast_log(float x) {
 }
 
 inline float fast_exp(float x) {
-    return fmath::exp(x);
+    // fmath::exp is wrong outside its table's range, e.g. at -inf
+    if (DIST_UNLIKELY(x < -88.f)) {
+        return 0.f;
+    }
+    return fmath::exp(x < 88.f ? x : 88.f);
 }
 
 inline float fast_log_sum_exp(float x, float y) {
-- 
2.43.0


From 748fbeb72b23e7cba50e1f5f78e02966fe6c5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 16/38] fix: sample_dirichlet gave NaN when every gamma
 underflows, as small alphas do

---
 src/random.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 7360d45..2cf407e 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -25,6 +25,8 @@
 // TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
 // USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
+#include <limits>
 #include <distributions/random.hpp>
 #include <distributions/aligned_allocator.hpp>
 
@@ -37,14 +39,30 @@ void sample_dirichlet(
         size_t dim,
         const float * alphas,
         float * probs) {
+    const float min_total = std::numeric_limits<float>::min();
     float total = 0.f;
+    float alpha_total = 0.f;
+    size_t corner = 0;
     for (size_t i = 0; i < dim; ++i) {
-        if (alphas[i] > 0) {
-            total += probs[i] = sample_gamma(rng, alphas[i]);
+        const float alpha = alphas[i];  // alphas may alias probs
+        if (alpha > 0) {
+            total += probs[i] = sample_gamma(rng, alpha);
+            if (DIST_UNLIKELY(total < min_total)) {
+                // all gammas have underflowed, so far
+                alpha_total += alpha;
+                if (sample_bernoulli(rng, alpha / alpha_total)) {
+                    corner = i;
+                }
+            }
         } else {
             probs[i] = 0;
         }
     }
+    if (DIST_UNLIKELY(total < min_total)) {
+        std::fill(probs, probs + dim, 0.f);
+        probs[corner] = 1.f;
+        return;
+    }
     float scale = 1.f / total;
     for (size_t i = 0; i < dim; ++i) {
         probs[i] *= scale;
-- 
2.43.0


From dfc9a306fc81b11ed1cc6f1f82b5ead7b5f65c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 17/38] fix: fast_log_factorial(2^32 - 1) wrapped around to
 lgamma(0)

---
 include/distributions/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index dec7265..617f8fb 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -213,7 +213,7 @@ inline float fast_log_factorial(const uint32_t & n) {
     if (n < 64) {
         return detail::log_factorial_table[n];
     } else {
-        return fast_lgamma(n + 1);
+        return fast_lgamma(n + 1.f);
     }
 }
 
-- 
2.43.0


From 44917f8d6971113b458b815fd2c690624e9a606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 18/38] fix: dd accepted negative values and counted them
 outside its array

---
 include/distributions/models/dd.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index 1c07791..5d1834c 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -124,7 +124,8 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum += 1;
         counts[value] += 1;
     }
@@ -134,7 +135,8 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum += count;
         counts[value] += count;
     }
@@ -143,7 +145,8 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum -= 1;
         counts[value] -= 1;
     }
@@ -240,7 +243,8 @@ struct Scorer {
             const Shared & shared,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return fast_log(alphas[value] / alpha_sum);
     }
 };
@@ -427,7 +431,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return scores_[value][groupid] - scores_shift_[groupid];
     }
 
@@ -437,7 +442,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             const Value & value,
             AlignedFloats scores_accum,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         vector_add_subtract(
             scores_accum.size(),
             scores_accum.data(),
@@ -461,7 +467,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Group & group,
             const Value & value) {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         scores_[value][groupid] =
             fast_log(shared.alphas[value] + group.counts[value]);
         scores_shift_[groupid] = fast_log(alpha_sum_ + group.count_sum);
-- 
2.43.0


From debb7f8b74b2d9c7d0fbe48aa7976e255f074690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 19/38] fix: SparseCounter::rename lost the entry when it
 rejected a duplicate key

---
 include/distributions/sparse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index d02065f..a700f52 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -170,11 +170,11 @@ class SparseCounter {
 
     void rename(key_t old_key, key_t new_key) {
         auto i = map_.find(old_key);
-        if (i != map_.end()) {
+        if (i != map_.end() and new_key != old_key) {
             value_t value = i->second;
-            map_.erase(i);
             bool success = map_.insert(std::make_pair(new_key, value)).second;
             DIST_ASSERT1(success, "duplicate key: " << new_key);
+            map_.erase(old_key);
         }
     }
 
-- 
2.43.0


From 891f76c22ed473807155fdd38c7f42f7ea0a0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 20/38] fix: dpd Shared.add_value counted the value it refused
 to add

---
 include/distributions/models/dpd.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index d52b9a0..9105c8a 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -65,8 +65,9 @@ struct Shared : SharedMixin<Model> {
 
     void add_value(const Value & value, rng_t & rng) {
         DIST_ASSERT1(value != OTHER(), "cannot add OTHER");
+        DIST_ASSERT(beta0 > 0 or betas.contains(value),
+            "cannot add any more values");
         if (DIST_UNLIKELY(counts.add(value) == 1)) {
-            DIST_ASSERT(beta0 > 0, "cannot add any more values");
             float beta = beta0 * sample_beta_safe(rng, 1.f, gamma, MIN_BETA());
             beta0 = std::max(MIN_BETA(), beta0 - beta);
             betas.add(value, beta);
-- 
2.43.0


From 60530c77f6ea4393d8723322df7307adc5cbcd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 21/38] fix: dpd Shared.remove_value counted unknown values
 below zero

---
 include/distributions/models/dpd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index 9105c8a..7e95994 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -76,6 +76,7 @@ struct Shared : SharedMixin<Model> {
 
     void remove_value(const Value & value, rng_t &) {
         DIST_ASSERT1(value != OTHER(), "cannot remove OTHER");
+        DIST_ASSERT1(betas.contains(value), "unknown value: " << value);
         if (DIST_UNLIKELY(counts.remove(value) == 0)) {
             beta0 = std::min(1.f, beta0 + betas.pop(value));
         }
-- 
2.43.0


From 6f1dfa006499f18fa0156e7a469c632caa34ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 22/38] fix: lp dpd read and dumped values as int, refusing or
 negating those of 2^31 and more

---
 distributions/lp/models/dpd.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ef144cb..feefbac 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -28,6 +28,7 @@
 cimport _dpd
 import _dpd
 
+from libc.stdint cimport uint32_t
 from cython.operator cimport dereference as deref, preincrement as inc
 from distributions.sparse_counter cimport SparseCounter, SparseFloat
 from distributions.mixins import SharedMixin, GroupIoMixin, SharedIoMixin
@@ -73,7 +74,7 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.counts.clear()
         cdef dict raw_betas = raw['betas']
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef uint32_t value
         cdef float beta
         cdef double beta0 = 1.0
         for value, beta in raw_betas.iteritems():
@@ -89,7 +90,7 @@ cdef class _Shared(_dpd.Shared):
         cdef dict counts = {}
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef uint32_t value
         while it != end:
             value = deref(it).first
             betas[value] = float(deref(it).second)
@@ -108,7 +109,7 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.betas.clear()
         self.ptr.counts.clear()
         cdef int i
-        cdef int value
+        cdef uint32_t value
         cdef float beta
         cdef double beta0 = 1.0
         for i in xrange(len(message.betas)):
@@ -125,7 +126,7 @@ cdef class _Shared(_dpd.Shared):
         message.alpha = self.ptr.alpha
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef uint32_t value
         while it != end:
             value = deref(it).first
             message.values.append(value)
@@ -144,7 +145,7 @@ cdef class _Group(_dpd.Group):
         cdef SparseCounter * counts = & self.ptr.counts
         counts.clear()
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef uint32_t value
         cdef int count
         for value, count in raw_counts.iteritems():
             counts.init_count(value, count)
-- 
2.43.0


From b13a152a1eef5e1cf8b65abb545a91eff4b91c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 23/38] fix: lp dpd Shared left beta0 below zero when the betas
 add up to one

---
 distributions/lp/models/dpd.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index feefbac..b874d4e 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -80,7 +80,7 @@ cdef class _Shared(_dpd.Shared):
         for value, beta in raw_betas.iteritems():
             self.ptr.betas.add(int(value), beta)
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
         cdef int count
         for value, count in raw_counts.iteritems():
             self.ptr.counts.add(int(value), count)
@@ -118,7 +118,7 @@ cdef class _Shared(_dpd.Shared):
             self.ptr.betas.add(value, beta)
             self.ptr.counts.add(value, message.counts[i])
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
 
     def protobuf_dump(self, message):
         message.Clear()
-- 
2.43.0


From 77ccb2298ebea42de63e1a2e21a97a2d19102dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 24/38] fix: nich groups became NaN or failed when no copies of
 a value were added to an empty group

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index dc6cf12..499b877 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -138,6 +138,8 @@ class Group(GroupIoMixin):
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, shared, value, count):
+        if count == 0:
+            return
         self.count += count
         delta = value - self.mean
         self.mean += count * delta / self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index c013670..2c0b830 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -133,6 +133,8 @@ cdef class _Group:
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, _Shared shared, double value, int count):
+        if count == 0:
+            return
         self.count += count
         cdef double delta = value - self.mean
         self.mean += count * delta / self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 07cc801..5eb2f23 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -137,6 +137,9 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
+        if (count == 0) {
+            return;
+        }
         this->count += count;
         float delta = value - mean;
         mean += count * delta / this->count;
-- 
2.43.0


From 1f0b744e397facf860c825f38777898a63d06a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 25/38] fix: lp score_value silently left the scores alone when
 it could not write the array

---
 distributions/lp/vector.pxd | 4 ++--
 distributions/lp/vector.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributions/lp/vector.pxd b/distributions/lp/vector.pxd
index d557083..6d697b1 100644
--- a/distributions/lp/vector.pxd
+++ b/distributions/lp/vector.pxd
@@ -99,9 +99,9 @@ cdef extern from "distributions/vector.hpp" namespace "distributions":
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *
 
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *
diff --git a/distributions/lp/vector.pyx b/distributions/lp/vector.pyx
index ac79c63..2b5da16 100644
--- a/distributions/lp/vector.pyx
+++ b/distributions/lp/vector.pyx
@@ -32,7 +32,7 @@ numpy.import_array()
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *:
     cdef int size = ndarray.shape[0]
     vector_float.resize(size)
     memcpy(vector_float.data(), ndarray.data, size * sizeof(float))
@@ -40,7 +40,7 @@ cdef void vector_float_from_ndarray(
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *:
     cdef int size = vector_float.size()
     cdef tuple shape = (size,)
     ndarray.resize(shape)
-- 
2.43.0


From 3c3f8fa956d5aa3a77c2fc0f2f54eb29c6cba742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 26/38] fix: sample_dirichlet_safe gave NaN when every gamma
 underflows, as small alphas do

---
 src/random.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 2cf407e..62744eb 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -76,13 +76,13 @@ void sample_dirichlet_safe(
         float * probs,
         float min_value) {
     DIST_ASSERT(min_value >= 0, "bad bound: " << min_value);
-    float total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
         float alpha = alphas[i] + min_value;
         DIST_ASSERT(alpha > 0, "bad alphas[" << i << "] = " << alpha);
-        total += probs[i] = sample_gamma(rng, alpha);
+        probs[i] = alpha;
     }
-    float scale = 1.f / total / (1.f + min_value * dim);
+    sample_dirichlet(rng, dim, probs, probs);
+    float scale = 1.f / (1.f + min_value * dim);
     float shift = min_value / (1.f + min_value * dim);
     for (size_t i = 0; i < dim; ++i) {
         probs[i] = probs[i] * scale + shift;
-- 
2.43.0


From a5ea86a5c599731a588d752ecb899615400264c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 27/38] fix: debug sample_normal took the variance for a
 standard deviation

---
 distributions/dbg/models/nich.py | 6 +++---
 distributions/dbg/random.py      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 499b877..6c4211c 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -230,11 +230,11 @@ class Sampler(object):
         post = shared if group is None else shared.plus_group(group)
         # Sample from the inverse-chi^2 using the transform from the chi^2
         sigmasq_star = post.nu * post.sigmasq / sample_chi2(post.nu)
-        self.sigma = sqrt(sigmasq_star)
-        self.mu = sample_normal(post.mu, sqrt(sigmasq_star / post.kappa))
+        self.sigmasq = sigmasq_star
+        self.mu = sample_normal(post.mu, sigmasq_star / post.kappa)
 
     def eval(self, shared):
-        return sample_normal(self.mu, self.sigma)
+        return sample_normal(self.mu, self.sigmasq)
 
 
 def sample_group(shared, size):
diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 2a856a0..537db32 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -96,7 +96,7 @@ def sample_discrete(probs, total=None):
 
 
 def sample_normal(mu, sigmasq):
-    return norm.rvs(mu, sigmasq)
+    return norm.rvs(mu, sqrt(sigmasq))
 
 
 def sample_chi2(nu):
-- 
2.43.0


From 17758c9e1353bda5dcef0ffd7aad6aea897d5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 28/38] fix: debug sample_student_t left out the degrees of
 freedom

---
 distributions/dbg/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 537db32..609b7b9 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -107,7 +107,7 @@ def sample_student_t(dof, mu, Sigma):
     p = len(mu)
     x = numpy.random.chisquare(dof, 1)
     z = numpy.random.multivariate_normal(numpy.zeros(p), Sigma, (1,))
-    return (mu + z / numpy.sqrt(x))[0]
+    return (mu + z / numpy.sqrt(x / dof))[0]
 
 
 def score_student_t(x, nu, mu, sigma):
-- 
2.43.0


From b3df4f0591099fc712de298c2b36f0cdbd1d041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 29/38] fix: debug sample_wishart had the wrong degrees of
 freedom

---
 distributions/dbg/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 609b7b9..04eada6 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -149,7 +149,7 @@ def sample_wishart(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             z[i, :i] = numpy.random.normal(size=(i,))
-        z[i, i] = sqrt(numpy.random.gamma(0.5 * nu - d + 1, 2.0))
+        z[i, i] = sqrt(numpy.random.gamma(0.5 * (nu - i), 2.0))
     return dot(dot(dot(ch, z), z.T), ch.T)
 
 
@@ -165,7 +165,7 @@ def sample_wishart_v2(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             T[i, :i] = numpy.random.normal(size=(i,))
-        T[i, i] = sqrt(chi2.rvs(nu - i + 1))
+        T[i, i] = sqrt(chi2.rvs(nu - i))
     return dot(dot(dot(ch, T), T.T), ch.T)
 
 
-- 
2.43.0


From bcfd664c6ef9bb16e34160c0b83f0f77d88dadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 30/38] fix: debug inverse Wishart sampling failed on degrees
 of freedom held as floats

---
 distributions/vendor/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/vendor/stats.py b/distributions/vendor/stats.py
index 7fbbac6..12d6758 100644
--- a/distributions/vendor/stats.py
+++ b/distributions/vendor/stats.py
@@ -165,10 +165,10 @@ def sample_invwishart(S,nu):
     chol = np.linalg.cholesky(S)
 
     if (nu <= 81+n) and (nu == np.round(nu)):
-        x = np.random.randn(nu,n)
+        x = np.random.randn(int(nu),n)
     else:
         x = np.diag(np.sqrt(np.atleast_1d(stats.chi2.rvs(nu-np.arange(n)))))
-        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)/2)
+        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)//2)
     R = np.linalg.qr(x,'r')
     T = scipy.linalg.solve_triangular(R.T,chol.T,lower=True).T
     return np.dot(T,T.T)
-- 
2.43.0


From 999c473283cef030dfc36121a997f0635eed8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 31/38] fix: debug sample_dirichlet gave NaN when every gamma
 underflows

---
 distributions/dbg/random.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 04eada6..886d805 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -28,7 +28,6 @@
 from math import log, pi, sqrt, factorial
 import numpy as np
 import numpy.random
-from numpy.random.mtrand import dirichlet as sample_dirichlet
 from numpy import dot, inner
 from numpy.linalg import cholesky, det, inv
 from numpy.random import multivariate_normal
@@ -48,7 +47,7 @@ LOG = logging.getLogger(__name__)
 
 
 # pacify pyflakes
-assert sample_dirichlet and factorial and sample_poisson and sample_gamma
+assert factorial and sample_poisson and sample_gamma
 
 
 def seed(x):
@@ -95,6 +94,16 @@ def sample_discrete(probs, total=None):
     ]))
 
 
+def sample_dirichlet(alphas):
+    probs = numpy.random.dirichlet(alphas)
+    if not numpy.isfinite(probs).all():
+        # all gammas have underflowed
+        corner = sample_discrete(alphas)
+        probs = numpy.zeros(len(alphas))
+        probs[corner] = 1.0
+    return probs
+
+
 def sample_normal(mu, sigmasq):
     return norm.rvs(mu, sqrt(sigmasq))
 
-- 
2.43.0


From 12ad2b34aef98d5633b6e04818f5a8d08eb2d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 32/38] fix: high-precision sample_dirichlet gave NaN when
 every gamma underflows

---
 distributions/rng_cc.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 73bc413..f78f5b1 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -27,7 +27,9 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
 #include <distributions/random_fwd.hpp>
 
@@ -104,8 +106,23 @@ inline void std_random_dirichlet(
         real_t * thetas)
 {
     double total = 0.0;
+    double alpha_total = 0.0;
+    size_t corner = 0;
     for (size_t d = 0; d < D; ++d) {
-        total += thetas[d] = std_random_gamma(rng, alphas[d], 1.0);
+        const double alpha = alphas[d];  // alphas may alias thetas
+        total += thetas[d] = std_random_gamma(rng, alpha, 1.0);
+        if (total < std::numeric_limits<double>::min()) {
+            // all gammas have underflowed, so far
+            alpha_total += alpha;
+            if (std::bernoulli_distribution(alpha / alpha_total)(rng)) {
+                corner = d;
+            }
+        }
+    }
+    if (total < std::numeric_limits<double>::min()) {
+        std::fill(thetas, thetas + D, 0.0);
+        thetas[corner] = 1.0;
+        return;
     }
 
     double scale = 1.0 / total;
-- 
2.43.0


From 384f2943254942ec5ca49c7375345ac4fcc37b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 33/38] fix: lp sample_discrete read views of arrays as if they
 were contiguous

---
 distributions/lp/random.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index c0f1ae2..9d80421 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -106,6 +106,7 @@ def sample_pair_from_urn(list urn):
 
 
 def sample_discrete(numpy.ndarray[numpy.float32_t, ndim=1] probs):
+    probs = numpy.PyArray_GETCONTIGUOUS(probs)
     cdef size_t size = probs.shape[0]
     cdef float * data = <float *> probs.data
     return sample_discrete_cc(get_rng()[0], size, data)
-- 
2.43.0


From d0f419a4b5881fe43e7b9e6672bfffb35f84808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 34/38] fix: multinomial goodness of fit p-values were not
 Pearson's and far too small

---
 distributions/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/distributions/util.py b/distributions/util.py
index 40af6a9..e843069 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -84,16 +84,21 @@ def multinomial_goodness_of_fit(
             variance = total_count * p * (1 - p)
             assert variance > 1,\
                 'WARNING goodness of fit is inaccurate; use more samples'
-            chi_squared += (c - mean) ** 2 / variance
+            chi_squared += (c - mean) ** 2 / mean
             dof += 1
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
                 return float('inf')
 
-    if not truncated:
-        dof -= 1
+    if truncated:
+        # the outcomes left out form one more cell, unless it is negligible
+        mean = total_count * (1.0 - sum(probs))
+        if mean > 1:
+            chi_squared += (total_count - sum(counts) - mean) ** 2 / mean
+            dof += 1
 
+    dof -= 1
     survival = scipy.stats.chi2.sf(chi_squared, dof)
     return survival
 
-- 
2.43.0


From e62bc08283ef4572654aff1a22a590bff19fed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 35/38] fix: goodness of fit gave impossible outcomes an
 infinite p-value

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index e843069..ee055e6 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -89,7 +89,7 @@ def multinomial_goodness_of_fit(
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
-                return float('inf')
+                return 0
 
     if truncated:
         # the outcomes left out form one more cell, unless it is negligible
-- 
2.43.0


From 8022eecdcc829625be017d4f7e89aaaf46db4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 36/38] fix: unif01 goodness of fit failed on samples equal to
 one

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index ee055e6..177b160 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -115,7 +115,7 @@ def unif01_goodness_of_fit(samples, plot=False):
     probs = numpy.ones(bin_count, dtype=numpy.float) / bin_count
     counts = numpy.zeros(bin_count, dtype=numpy.int)
     for sample in samples:
-        counts[int(bin_count * sample)] += 1
+        counts[min(int(bin_count * sample), bin_count - 1)] += 1
     return multinomial_goodness_of_fit(probs, counts, len(samples), plot=plot)
 
 
-- 
2.43.0


From c03e548eb21575d025d9606b8c36ba6ebf4d83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 37/38] fix: scores_to_probs failed on integer scores

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 177b160..96cf601 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -31,7 +31,7 @@ from collections import defaultdict
 
 
 def scores_to_probs(scores):
-    scores = numpy.array(scores)
+    scores = numpy.array(scores, dtype=float)
     scores -= scores.max()
     probs = numpy.exp(scores, out=scores)
     probs /= probs.sum()
-- 
2.43.0


From af65472ea1fe5673b6a64285fc205b4b564ad393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 38/38] fix: discrete goodness of fit chose equally likely
 outcomes by their counts

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 96cf601..90909b3 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -155,7 +155,7 @@ def discrete_goodness_of_fit(
         assert sample in probs_dict
         counts[sample] += 1
     items = [(prob, counts.get(i, 0)) for i, prob in probs_dict.iteritems()]
-    items.sort(reverse=True)
+    items.sort(key=lambda item: item[0], reverse=True)
     truncated = (truncate_beyond and truncate_beyond < len(items))
     if truncated:
         items = items[:truncate_beyond]
-- 
2.43.0

